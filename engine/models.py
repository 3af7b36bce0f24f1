"""Transfer functions for the library calls the crate makes (std, nalgebra,
minidom).  `lookup` returns None for a callee that has no model: the
interpreter then treats the result as opaque and records the callee."""
import re
from terms import *
import terms as TM
from interp import *
import interp as IN

EXACT, RX, OVR = {}, [], []


def model(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p + r"$"), f))
        return f
    return d


def override(*pats):
    def d(f):
        for p in pats:
            OVR.append((re.compile(p + r"$"), f))
            RX.append((re.compile(p + r"$"), f))
        return f
    return d


_cache = {}


def strip(s):
    return re.sub(r"::\{impl#\d+\}", "", s or "")


def lookup(c):
    k = (c.get("full"), c.get("rfull"))
    if k in _cache:
        return _cache[k]
    r = None
    for n in (strip(c.get("rfull")), strip(c.get("full"))):
        for rx, f in RX:
            if rx.match(n):
                r = f
                break
        if r:
            break
    _cache[k] = r
    return r


_oc = {}


def lookup_override(c):
    k = (c.get("full"), c.get("rfull"))
    if k not in _oc:
        r = None
        for n in (strip(c.get("rfull")), strip(c.get("full"))):
            for rx, f in OVR:
                if rx.match(n):
                    r = f
        _oc[k] = r
    return _oc[k]


def is_mat_ty(t):
    return "nalgebra::Matrix" in t or "nalgebra::base" in t or "Matrix<" in t


# ------------------------------------------------------------------ f64
@model(r"(core|std)::f64::abs")
def f_abs(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    if x.op == "flt":
        return [(st, fltc(abs(x.args[0])) if isinstance(x.args[0], Fr) else (INF if x is NINF else x))]
    if x.op == "fabs":
        return [(st, x)]
    return [(st, mk("fabs", x))]


@model(r"(core|std)::f64::(min|max|minimum|maximum|copysign|powf|hypot|rem_euclid|atan2)", r"core::(cmp::)?Ord::(min|max)")
def f_bin(I, st, c, a, fr, sp):
    n = c["name"]
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    if "f64" not in (c.get("full") or ""):
        if n == "min":
            return [(st, imin(x, y))]
        return [(st, iscale(imin(iscale(x, -1), iscale(y, -1)), -1))]
    return [(st, mk("f" + n, x, y))]


INTTY = r"(core|std)::(num|usize|isize|u\d+|i\d+)(::[a-z0-9_]+)*::"


@model(r"core::intrinsics::integer_(min|max)", r"core::intrinsics::(min|max)_int")
def i_minmax(I, st, c, a, fr, sp):
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    return [(st, imin(x, y) if "min" in c["name"] else imax(x, y))]


def imax(x, y):
    return iscale(imin(iscale(x, -1), iscale(y, -1)), -1)


@model(r"core::(cmp::)?Ord::clamp")
def i_clamp(I, st, c, a, fr, sp):
    x, lo, hi = (I.load_all(st, q) for q in a)
    return [(st, imin(imax(x, lo), hi))]


@model(INTTY + r"saturating_sub$")
def i_satsub(I, st, c, a, fr, sp):
    d = isub(a[0], a[1])
    if not re.search(r"usize|u\d+", c.get("full") or ""):
        return [(st, d)]
    return [(st, imax(d, intc(0)))]


@model(INTTY + r"saturating_(add|mul)$")
def i_satadd(I, st, c, a, fr, sp):
    return [(st, imul(a[0], a[1]) if c["name"].endswith("mul") else iadd(a[0], a[1]))]


@model(INTTY + r"abs_diff$")
def i_absdiff(I, st, c, a, fr, sp):
    d = isub(a[0], a[1])
    return [(st, imax(d, iscale(d, -1)))]


@model(r"(core|std)::f64::clamp")
def f_clamp(I, st, c, a, fr, sp):
    return [(st, mk("fmin", mk("fmax", a[0], a[1]), a[2]))]


@model(r"(core|std)::f64::(signum|sqrt|exp|ln|sin|cos|tan|floor|ceil|round|trunc|fract|recip|cbrt|to_bits|log10|tanh)")
def f_un(I, st, c, a, fr, sp):
    n = c["name"]
    if n == "recip":
        return [(st, fop("fdiv", ONE, a[0]))]
    return [(st, mk({"signum": "fsgn"}.get(n, "f" + n), a[0]))]


@model(r"(core|std)::f64::powi")
def f_powi(I, st, c, a, fr, sp):
    if a[1].op == "int" and 0 <= a[1].args[0] <= 8:
        r = ONE
        for _ in range(a[1].args[0]):
            r = a[0] if r is ONE else mk("fmul", r, a[0])
        return [(st, r)]
    return [(st, mk("fpowi", a[0], a[1]))]


@model(r"(core|std)::f64::mul_add")
def f_ma(I, st, c, a, fr, sp):
    return [(st, fop("fadd", fop("fmul", a[0], a[1]), a[2]))]


@model(r"(core|std)::f64::is_nan")
def f_isnan(I, st, c, a, fr, sp):
    return [(st, isnan(I.load_all(st, a[0])))]


@model(r"(core|std)::f64::is_finite")
def f_isfin(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    return [(st, flt(mk("fabs", x), INF))]


@model(r"(core|std)::f64::is_(normal|subnormal)")
def f_isnormal(I, st, c, a, fr, sp):
    x = mk("fabs", I.load_all(st, a[0]))
    tiny = fltc(Fr(1, 2 ** 1022))
    out = []
    for s, k in branch(st, flt(x, tiny)):
        out += [(s, flt(ZERO, x) if k else FALSE)] if c["name"] == "is_subnormal" else [(s, FALSE if k else flt(x, INF))]
    return out


@model(r"(core|std)::f64::is_infinite")
def f_isinf(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    return [(st, feq(mk("fabs", x), INF))]


@model(r"(core|std)::f64::is_sign_(negative|positive)")
def f_issign(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    b = flt(mk("fcopysign", ONE, x), ZERO)
    return [(st, b if c["name"].endswith("negative") else bnot(b))]


@model(r"(core|std)::f64::(total_cmp|partial_cmp)", r"core::cmp::impls::partial_cmp", r"core::cmp::PartialOrd::partial_cmp")
def f_pcmp(I, st, c, a, fr, sp):
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    if c["name"] == "total_cmp" or not ("f64" in c.get("path", "") or "f64" in " ".join(c.get("args") or [])):
        return [(st, mk("pcmp", x, y))]
    out = []
    for k, cond in ((0, flt(x, y)), (1, feq(x, y)), (2, flt(y, x))):
        out += [(s, some(mk("agg", "std::cmp::Ordering", k, ()))) for s in assume(st, cond)]
    for s in assume(st, bnot(flt(x, y))):
        for s in assume(s, bnot(feq(x, y))):
            out += [(s, NONE) for s in assume(s, bnot(flt(y, x)))]
    return out


# comparison operators on references / generic (PartialOrd::lt etc.)
@model(r"core::cmp::impls::(lt|le|gt|ge|eq|ne)", r"core::cmp::PartialOrd::(lt|le|gt|ge)")
def cmp_ref(I, st, c, a, fr, sp):
    n = c["name"]
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    ty = " ".join(c.get("args") or [])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}[n]
    return [(st, I.binop(st, op, x, y, "f64" if "f64" in ty else ("bool" if "bool" in ty else "usize")))]


@model(r"core::slice::cmp::(eq|ne)", r"core::array::equality::(eq|ne)", r"nalgebra::.*::(eq|ne)", r"alloc::vec::partial_eq::(eq|ne)")
def cmp_opaque(I, st, c, a, fr, sp):
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    if y.id < x.id:
        x, y = y, x
    r = mk("batom", "eq", x, y) if x is not y else TRUE
    return [(st, r if c["name"] == "eq" else bnot(r))]


@model(r"core::str::traits::(eq|ne)", r"alloc::string::(eq|ne)", r"core::str::(eq|ne)")
def str_eq(I, st, c, a, fr, sp):
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    cx, cy = str_const(x), str_const(y)
    if cx is not None and cy is not None:
        r = boolc(cx == cy)
    else:
        if y.id < x.id:
            x, y = y, x
        r = mk("streq", x, y)
    return [(st, r if c["name"] == "eq" else bnot(r))]


# ------------------------------------------------------------------ arithmetic traits
OPN = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg"}


@model(r"core::ops::arith::(Add|Sub|Mul|Div|Rem)::(add|sub|mul|div|rem)", r"nalgebra::base::ops::(add|sub|mul|div)",
       r"core::ops::arith::(add|sub|mul|div|rem)")
def arith(I, st, c, a, fr, sp):
    n = c["name"]
    tys = c.get("args") or ["", ""]
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    t0, t1 = tys[0], tys[1] if len(tys) > 1 else tys[0]
    if "String" in t0 and n == "add":
        return [(st, scat(x, y))]
    m0, m1 = is_mat_ty(t0), is_mat_ty(t1)
    if m0 or m1:
        return [(st, matop(n, x, y, m0, m1))]
    ty = "f64" if "f64" in t0 or "f64" in t1 else "usize"
    if "usize" in t0 or "f64" in t0 or re.match(r"^&*[iu]\d+$", t0):
        return [(st, I.binop(st, OPN[n], x, y, ty))]
    return None


def matop(n, x, y, m0, m1):
    if n == "add":
        return mk("madd", x, y)
    if n == "sub":
        return mk("msub", x, y)
    if n == "mul":
        if m0 and m1:
            return mk("mmul", x, y)
        return mk("mscale", x, y) if m0 else mk("mscale", y, x)
    if n == "div":
        return mk("mdivs", x, y)
    raise Unsupported("matrix op " + n)


@model(r"core::ops::arith::Neg::neg", r"nalgebra::base::ops::neg", r"core::ops::arith::neg")
def neg(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    tys = c.get("args") or [""]
    if is_mat_ty(tys[0]):
        return [(st, mk("mneg", x))]
    return [(st, fneg(x) if "f64" in tys[0] else iscale(x, -1))]


@model(r"core::ops::arith::(Add|Sub|Mul|Div|Rem)Assign::(add|sub|mul|div|rem)_assign", r"nalgebra::base::ops::(add|sub|mul|div)_assign",
       r"core::ops::arith::(add|sub|mul|div|rem)_assign")
def arith_assign(I, st, c, a, fr, sp):
    n = c["name"].replace("_assign", "")
    tys = c.get("args") or ["", ""]
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    t0, t1 = tys[0], tys[1] if len(tys) > 1 else tys[0]
    if "String" in t0:
        r = scat(x, y)
    elif is_mat_ty(t0):
        r = matop(n, x, y, True, is_mat_ty(t1))
    else:
        r = I.binop(st, OPN[n], x, y, "f64" if "f64" in t0 else "usize")
    st = st.copy()
    I.store_ref(st, target(I, st, a[0]) if is_mat_ty(t0) else a[0], r)
    return [(st, UNIT)]


# ------------------------------------------------------------------ identity-like
@model(r"core::clone::Clone::clone", r"core::clone::impls::clone", r".*::clone", r".*::to_owned", r"nalgebra::.*::clone_owned", r".*::into_owned",
       r"core::clone::Clone::clone_from_")
def clone(I, st, c, a, fr, sp):
    v = a[0]
    if v.op in ("ref", "cref"):
        v = I.load(st, v)
        return [(st, v)]
    return [(st, deref(v))]


@model(r"core::clone::Clone::clone_from", r".*::clone_from", r"nalgebra::base::.*::copy_from", r"nalgebra::base::.*::tr_copy_from_")
def clone_from(I, st, c, a, fr, sp):
    st = st.copy()
    I.store_ref(st, target(I, st, a[0]) if "copy_from" in c["name"] else a[0], I.load_all(st, a[1]))
    return [(st, UNIT)]


@model(r"core::ops::deref::Deref::deref", r"core::ops::deref::DerefMut::deref_mut", r".*::deref", r".*::deref_mut", r".*::as_str", r".*::as_slice", r".*::as_mut_slice",
       r"core::convert::AsRef::as_ref", r"alloc::.*::as_ref", r"core::borrow::Borrow::borrow", r".*::as_mut", r"alloc::vec::as_slice", r"alloc::string::as_str",
       r"alloc::slice::into_vec", r"core::str::as_bytes", r"core::slice::as_ref")
def ident_ref(I, st, c, a, fr, sp):
    return [(st, a[0])]


@model(r"core::convert::(From::from|Into::into)", r"alloc::string::from", r"alloc::(vec|boxed|string|str)::(from|into)", r"core::convert::into", r"core::hint::(must_use|black_box)",
       r"alloc::boxed::new", r"alloc::string::ToString::to_string__", r".*::into_boxed_str", r".*::into_string", r"alloc::str::(into_string|to_owned)",
       r"alloc::slice::(to_vec|into_vec)")
def ident_val(I, st, c, a, fr, sp):
    v = a[0]
    if v.op in ("ref", "cref"):
        v = I.load_all(st, v)
    return [(st, v)]


@model(r"core::mem::(replace)")
def mem_replace(I, st, c, a, fr, sp):
    old = I.load(st, a[0])
    st = st.copy()
    I.store_ref(st, a[0], a[1])
    return [(st, old)]


@model(r"core::mem::(swap)")
def mem_swap(I, st, c, a, fr, sp):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    st = st.copy()
    I.store_ref(st, a[0], y)
    I.store_ref(st, a[1], x)
    return [(st, UNIT)]


@model(r"core::mem::(take)")
def mem_take(I, st, c, a, fr, sp):
    ty = (c.get("args") or [""])[0]
    old = I.load(st, a[0])
    if "Option<" in ty[:30]:
        new = mk("agg", "std::option::Option", 0, ())
    elif "String" in ty:
        new = lit("")
    elif ty.startswith("f64"):
        new = ZERO
    elif ty == "usize":
        new = intc(0)
    elif ty == "bool":
        new = FALSE
    else:
        return None
    st = st.copy()
    I.store_ref(st, a[0], new)
    return [(st, old)]


@model(r"core::mem::drop", r"core::mem::forget")
def mem_drop(I, st, c, a, fr, sp):
    return [(st, UNIT)]


@model(r"core::intrinsics::discriminant_value", r"core::mem::discriminant")
def discr_val(I, st, c, a, fr, sp):
    t = (c.get("args") or [""])[0]
    v = I.load_all(st, a[0])
    adt = t.split("<")[0]
    return [(st, I.discr(st, v, adt))]


# ------------------------------------------------------------------ vectors, slices
@model(r"core::slice::len", r"alloc::vec::len", r"core::str::len", r"alloc::string::len", r"nalgebra::base::properties::len",
       r"nalgebra::base::matrix::len", r"alloc::collections::.*::len")
def m_len(I, st, c, a, fr, sp):
    return [(st, vlen(I.load_all(st, a[0])))]


@model(r"core::slice::is_empty", r"alloc::vec::is_empty", r"core::str::is_empty", r"nalgebra::base::.*::is_empty")
def m_isempty(I, st, c, a, fr, sp):
    return [(st, ieq(vlen(I.load_all(st, a[0])), intc(0)))]


@model(r"nalgebra::base::matrix::nrows")
def m_nrows(I, st, c, a, fr, sp):
    return [(st, nrows(I.load_all(st, a[0])))]


@model(r"nalgebra::base::matrix::ncols")
def m_ncols(I, st, c, a, fr, sp):
    return [(st, ncols(I.load_all(st, a[0])))]


def nrows(v):
    if v.op == "zeros":
        return v.args[0]
    if v.op == "upd":
        return nrows(v.args[0])
    if v.op in ("fill",):
        return nrows(v.args[0])
    if v.op == "vec" or v.op == "mat":
        return v.args[0]
    if UNIFORM[0]:
        return NSYM
    return mk("nrows", v)


def ncols(v):
    if v.op == "zeros":
        return v.args[1]
    if v.op == "upd":
        return ncols(v.args[0])
    if v.op in ("fill",):
        return ncols(v.args[0])
    if v.op == "mat":
        return v.args[1]
    if v.op == "vec":
        return intc(1)
    return mk("ncols", v)


@model(r"nalgebra::base::matrix::(shape|shape_generic)")
def m_shape(I, st, c, a, fr, sp):
    v = I.load_all(st, a[0])
    return [(st, tup(nrows(v), ncols(v)))]


@model(r"nalgebra::base::dimension::(value|from_usize)", r"nalgebra::base::dimension::Dim(Name)?::(value|from_usize|name)", r"nalgebra::base::dimension::Dyn")
def m_dimval(I, st, c, a, fr, sp):
    if not a:
        return [(st, mk("sym", "dim", c.get("args", ["?"])[0]))]
    return [(st, I.load_all(st, a[0]))]


@model(r"nalgebra::base::construction::zeros_generic")
def m_zerosg(I, st, c, a, fr, sp):
    return [(st, mk("zeros", a[0], dim_one(c, 2, a[1])))]


def dim_one(c, k, x):
    """the value of a dimension argument; the type Const<1> fixes it"""
    t = c.get("args") or []
    return intc(1) if len(t) > k and t[k].endswith("Const<1>") else x


def is_matrix(c):
    """is the receiver of this nalgebra method a matrix with more than one column type?"""
    t = c.get("args") or []
    return len(t) > 2 and not t[2].endswith("Const<1>")


def mat_of(r, c, f):
    i = fresh_tmp("r")
    j = fresh_tmp("q")
    b = f(tup(i, j), i, j)
    return None if b is None else TM.mkmat(r, c, mk_lam(i, mk_lam(j, b)))


@model(r"nalgebra::base::properties::is_square")
def m_issq(I, st, c, a, fr, sp):
    v = I.load_all(st, a[0])
    return [(st, ieq(nrows(v), ncols(v)))]


@model(r"nalgebra::base::construction::zeros")
def m_zeros(I, st, c, a, fr, sp):
    if len(a) == 2:
        return [(st, mk("zeros", a[0], a[1]))]
    if len(a) == 1:
        return [(st, mk("zeros", a[0], intc(1)))]
    return [(st, mk("zeros", mk("sym", "dim", "N"), mk("sym", "dim", "M")))]


@model(r"nalgebra::base::construction::(from_element_generic|repeat_generic|from_element|repeat)")
def m_fromelem(I, st, c, a, fr, sp):
    x = a[-1]
    if len(a) == 3:
        n, m = a[0], a[1]
    elif len(a) == 2:
        n, m = a[0], intc(1)
    else:
        n, m = mk("sym", "dim", "N"), intc(1)
    if m is intc(1):
        return [(st, mk("vec", n, lam_const(x)))]
    return [(st, mk("fillm", n, m, x))]


@model(r"nalgebra::base::construction::(from_fn|from_fn_generic)")
def m_fromfn(I, st, c, a, fr, sp):
    f = a[-1]
    if len(a) == 3:
        n, m = a[0], a[1]
    else:
        n, m = a[0], intc(1)
    if m is intc(1):
        r = pure_lam(I, st, f, fr, lambda i: [i, intc(0)])
        if r is None:
            return None
        return [(st, mk("vec", n, r))]
    i = fresh_tmp("r")
    inner = pure_lam(I, st, f, fr, lambda j: [i, j])
    if inner is None:
        return None
    return [(st, mk("matfn", n, m, mk_lam(i, inner)))]


@model(r"nalgebra::base::construction::(from_vec|from_row_slice|from_column_slice|from_iterator|from_slice)(_generic)?")
def m_fromvec(I, st, c, a, fr, sp):
    v = I.load_all(st, a[-1])
    if v.op == "it" or (v.op == "agg" and "Range" in str(v.args[0])):
        r = it_to_vec(st, I, v)
        return [(st, r)]
    return [(st, v)]


@model(r"nalgebra::base::construction::identity(_generic)?")
def m_ident(I, st, c, a, fr, sp):
    return [(st, mk("eye"))]


def norm_index(I, st, i):
    i = I.load_all(st, i)
    if i.op == "agg" and len(i.args[2]) == 2:
        return i
    return i


@model(r"core::ops::index::Index::index", r"nalgebra::base::ops::index", r"alloc::vec::index", r"core::slice::index::index", r"core::array::index")
def m_index(I, st, c, a, fr, sp):
    i = norm_index(I, st, a[1])
    if i.op == "agg" and "Range" in str(i.args[0]):
        return [(st, cref(mk("slice", I.load_all(st, a[0]), i)))]
    base = a[0]
    while base.op == "ref" and I.load(st, base).op == "ref":
        base = I.load(st, base)
    I.dom.on_index(I, st, I.load_all(st, a[0]), i, fr, sp)
    if base.op == "ref":
        return [(st, ref_at(base, i))]
    return [(st, cref(idx(I.load_all(st, base), i)))]


@model(r"core::ops::index::IndexMut::index_mut", r"nalgebra::base::ops::index_mut", r"alloc::vec::index_mut", r"core::slice::index::index_mut", r"core::array::index_mut")
def m_index_mut(I, st, c, a, fr, sp):
    i = norm_index(I, st, a[1])
    base = a[0]
    while base.op == "ref" and I.load(st, base).op == "ref":
        base = I.load(st, base)
    if base.op != "ref":
        raise Unsupported("index_mut through opaque reference")
    I.dom.on_index(I, st, I.load_all(st, base), i, fr, sp)
    return [(st, ref_at(base, i))]


@model(r"core::slice::(get|get_mut|first|last)", r"nalgebra::base::.*::get", r"alloc::vec::get")
def m_get(I, st, c, a, fr, sp):
    n = c["name"]
    v = I.load_all(st, a[0])
    i = a[1] if n in ("get", "get_mut") else (intc(0) if n == "first" else isub(vlen(v), intc(1)))
    if i.op == "agg" or n == "get_mut":
        return None
    cond = ilt(i, vlen(v)) if n in ("get", "get_mut") else bnot(ieq(vlen(v), intc(0)))
    out = []
    for s, k in branch(st, cond):
        out.append((s, some(cref(idx(v, i))) if k else NONE))
    return out


def some(x):
    return mk("agg", "std::option::Option", 1, (x,))


NONE = mk("agg", "std::option::Option", 0, ())


def ok(x):
    return mk("agg", "std::result::Result", 0, (x,))


def err(x):
    return mk("agg", "std::result::Result", 1, (x,))


@model(r"nalgebra::base::edition::(set_column|set_row)")
def m_setcol(I, st, c, a, fr, sp):
    st = st.copy()
    m = I.load_all(st, a[0])
    col = I.load_all(st, a[2])
    I.store_ref(st, a[0], mk("upd", m, mk("col" if c["name"] == "set_column" else "row", a[1]), col))
    return [(st, UNIT)]


@model(r"nalgebra::base::.*::(column|row)")
def m_col(I, st, c, a, fr, sp):
    return [(st, mk("getcol" if c["name"] == "column" else "getrow", I.load_all(st, a[0]), a[1]))]


@model(r"nalgebra::base::.*::rows", r"nalgebra::base::.*::rows_range")
def m_rows(I, st, c, a, fr, sp):
    """consecutive elements of a column vector"""
    if "Const<1>" not in " ".join((c.get("args") or [])[1:3]):
        return None
    v = I.load_all(st, a[0])
    if c["name"] == "rows":
        lo, n = a[1], a[2]
    else:
        r = a[1]
        if r.op != "agg" or len(r.args[2]) not in (1, 2) or len(r.args[2]) == 1 and "RangeFrom" not in r.args[0]:
            return None
        lo = r.args[2][0]
        n = isub(r.args[2][1] if len(r.args[2]) == 2 else vlen(v), lo)
    out = []
    for s, k in branch(st, ige0(isub(isub(vlen(v), lo), n))):
        if k:
            out.append((s, mk("vec", n, lam_of(lambda i: idx(v, iadd(lo, i))))))
        else:
            I.panic(s, "nalgebra: rows out of range", fr, sp, ())
    return out


@model(r"nalgebra::base::.*::(column_mut|row_mut)")
def m_colmut(I, st, c, a, fr, sp):
    r = target(I, st, a[0])
    if r.op != "ref":
        return None
    return [(st, ref_at(r, mk(c["name"][:3], a[1])))]


@model(r"nalgebra::base::.*::(column_iter_mut|row_iter_mut)")
def m_colsmut(I, st, c, a, fr, sp):
    r = target(I, st, a[0])
    if r.op != "ref":
        return None
    k = c["name"][:3]
    n = msize(I.load(st, r), k)
    if n is None:
        return None
    return [(st, seq(n, mk("mutcols", r, k)))]


@model(r"nalgebra::base::.*::(column_iter|row_iter)")
def m_cols(I, st, c, a, fr, sp):
    v = I.load_all(st, a[0])
    k = c["name"][:3]
    n = msize(v, k)
    if n is None:
        return None
    return [(st, seq(n, lam_of(lambda i: mk("get" + k, v, i))))]


def msize(v, k):
    """the number of columns / rows of a square matrix of the problem"""
    while v.op == "upd":
        v = v.args[0]
    if v.op == "zeros" and len(v.args) == 2:
        return v.args[1 if k == "col" else 0]
    if v.op == "mat":
        return v.args[1 if k == "col" else 0]
    return TM.NSYM if TM.UNIFORM[0] and v.op in ("sym", "minv", "jtok", "jnorm", "fill", "mmul", "msub", "madd", "phi") else None


@model(r"nalgebra::base::(edition|matrix)::(fill)")
def m_fill(I, st, c, a, fr, sp):
    st = st.copy()
    v = I.load_all(st, a[0])
    I.store_ref(st, target(I, st, a[0]), mk("vec", vlen(v), lam_const(a[1])))
    return [(st, UNIT)]


@model(r"nalgebra::base::matrix::(transpose|adjoint)")
def m_transpose(I, st, c, a, fr, sp):
    return [(st, mk("mT", I.load_all(st, a[0])))]


@model(r"nalgebra::base::blas::(dot|dotc|tr_dot)")
def m_dot(I, st, c, a, fr, sp):
    return [(st, mk("dot", I.load_all(st, a[0]), I.load_all(st, a[1])))]


@model(r"nalgebra::base::(norm|matrix)::(norm_squared|magnitude_squared)")
def m_nsq(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    return [(st, mk("dot", x, x))]


@model(r"nalgebra::base::(norm|matrix)::(norm|magnitude|lp_norm)", r"nalgebra::base::.*::(sum|product|mean|iamax|argmax|imax|imin|iamin|trace)",
       r"nalgebra::linalg::determinant::determinant")
def m_norm(I, st, c, a, fr, sp):
    return [(st, mk("m_" + c["name"], *[I.load_all(st, x) for x in a]))]


@model(r"nalgebra::base::min_max::(amax|amin|max|min|camax)")
def m_amax(I, st, c, a, fr, sp):
    return [(st, TM.m_ext("m_" + c["name"], I.load_all(st, a[0])))]


@model(r"nalgebra::.*::component_mul", r"nalgebra::.*::component_div")
def m_cmul(I, st, c, a, fr, sp):
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    op = "fmul" if c["name"] == "component_mul" else "fdiv"
    if is_matrix(c):
        return [(st, mat_of(nrows(x), ncols(x), lambda ij, i, j: mk(op, idx(x, ij), idx(y, ij))))]
    return [(st, mk("vec", vlen(x), lam_of(lambda i: mk(op, idx(x, i), idx(y, i)))))]


@model(r"nalgebra::base::.*::(abs)")
def m_vabs(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    if is_matrix(c):
        return [(st, mat_of(nrows(x), ncols(x), lambda ij, i, j: mk("fabs", idx(x, ij))))]
    return [(st, mk("vec", vlen(x), lam_of(lambda i: mk("fabs", idx(x, i)))))]


def mat_map(I, st, xs, f, fr, loc):
    def body(ij, i, j):
        r = pure_lam(I, st, f, fr, lambda _: ([i, j] if loc else []) + [idx(x, ij) for x in xs])
        return None if r is None else ap(r, intc(0))
    m = mat_of(nrows(xs[0]), ncols(xs[0]), body)
    return None if m is None else [(st, m)]


@model(r"nalgebra::base::matrix::(map)", r"nalgebra::base::matrix::(map_with_location)")
def m_map(I, st, c, a, fr, sp):
    x = I.load_all(st, a[0])
    if is_matrix(c):
        return mat_map(I, st, [x], a[1], fr, c["name"] != "map")
    r = pure_lam(I, st, a[1], fr, lambda i: [idx(x, i)] if c["name"] == "map" else [i, intc(0), idx(x, i)])
    if r is None:
        return None
    return [(st, mk("vec", vlen(x), r))]


@model(r"nalgebra::base::matrix::(zip_map)")
def m_zipmap(I, st, c, a, fr, sp):
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    if is_matrix(c):
        return mat_map(I, st, [x, y], a[2], fr, False)
    r = pure_lam(I, st, a[2], fr, lambda i: [idx(x, i), idx(y, i)])
    if r is None:
        return None
    return [(st, mk("vec", vlen(x), r))]


@model(r"nalgebra::base::matrix::(zip_zip_map)")
def m_zipzipmap(I, st, c, a, fr, sp):
    x, y, z = (I.load_all(st, q) for q in a[:3])
    if is_matrix(c):
        return mat_map(I, st, [x, y, z], a[3], fr, False)
    r = pure_lam(I, st, a[3], fr, lambda i: [idx(x, i), idx(y, i), idx(z, i)])
    if r is None:
        return None
    return [(st, mk("vec", vlen(x), r))]


@model(r"nalgebra::base::interpolation::lerp")
def m_lerp(I, st, c, a, fr, sp):
    x, y, t = (I.load_all(st, q) for q in a)
    return [(st, mk("madd", mk("mscale", x, fop("fsub", ONE, t)), mk("mscale", y, t)))]


def plus_scaled(x, k, y, b):
    """k x + b y"""
    r = x if k is ONE else mk("mscale", x, k)
    return r if b is ZERO else mk("madd", r, y if b is ONE else mk("mscale", y, b))


@model(r"nalgebra::base::blas::(axpy|gemv|gemm|ger|gerc|gemm_tr|gemv_tr)")
def m_blas(I, st, c, a, fr, sp):
    n = c["name"]
    k = a[1]
    ops = [I.load_all(st, q) for q in a[2:-1]]
    b = a[-1]
    if n == "axpy":
        x = ops[0]
    elif n in ("ger", "gerc"):
        x = mk("mmul", ops[0], mk("mT", ops[1]))
    else:
        x = mk("mmul", mk("mT", ops[0]) if n.endswith("_tr") else ops[0], ops[1])
    st = st.copy()
    I.store_ref(st, a[0], plus_scaled(x, k, I.load_all(st, a[0]), b))
    return [(st, UNIT)]


@model(r"nalgebra::base::.*::(scale_mut|neg_mut|unscale_mut|component_mul_assign|component_div_assign|transpose_mut)")
def m_inplace(I, st, c, a, fr, sp):
    n = c["name"]
    x = I.load_all(st, a[0])
    if n == "neg_mut":
        r = mk("mneg", x)
    elif n == "transpose_mut":
        r = mk("mT", x)
    elif n in ("scale_mut", "unscale_mut"):
        r = mk("mscale" if n == "scale_mut" else "mdivs", x, a[1])
    else:
        q = m_cmul(I, st, dict(c, name=n.replace("_assign", "")), [x, a[1]], fr, sp)
        r = q[0][1]
    st = st.copy()
    I.store_ref(st, a[0], r)
    return [(st, UNIT)]


@model(r"nalgebra::base::(norm|matrix)::(scale|unscale)")
def m_scale(I, st, c, a, fr, sp):
    return [(st, mk("mscale" if c["name"] == "scale" else "mdivs", I.load_all(st, a[0]), a[1]))]


@model(r"nalgebra::base::ops::(tr_mul|ad_mul)")
def m_trmul(I, st, c, a, fr, sp):
    return [(st, mk("mmul", mk("mT", I.load_all(st, a[0])), I.load_all(st, a[1])))]


@model(r"nalgebra::base::ops::(mul_to|tr_mul_to|ad_mul_to|add_to|sub_to)")
def m_opto(I, st, c, a, fr, sp):
    n = c["name"][:-3]
    x, y = I.load_all(st, a[0]), I.load_all(st, a[1])
    if a[2].op != "ref":
        return None
    r = mk({"add": "madd", "sub": "msub"}[n], x, y) if n in ("add", "sub") else mk("mmul", x if n == "mul" else mk("mT", x), y)
    st = st.copy()
    I.store_ref(st, a[2], r)
    return [(st, UNIT)]


@model(r"nalgebra::base::.*::(add_scalar|add_scalar_mut)")
def m_addscalar(I, st, c, a, fr, sp):
    if is_matrix(c):
        return None
    x = I.load_all(st, a[0])
    r = mk("vec", vlen(x), lam_of(lambda i: fop("fadd", idx(x, i), a[1])))
    if c["name"] == "add_scalar":
        return [(st, r)]
    if a[0].op != "ref":
        return None
    st = st.copy()
    I.store_ref(st, a[0], r)
    return [(st, UNIT)]


@model(r"nalgebra::base::matrix::(apply|zip_apply)")
def m_apply(I, st, c, a, fr, sp):
    """the closure gets the elements one after the other by mutable reference"""
    if is_matrix(c):
        return None
    it = it_itermut(I, st, c, a, fr, sp)
    if it is None:
        return None
    (st, it), = it
    n, lam = as_seq(I, st, it)
    root = ("X", fr.depth, "ap@%s" % sp)
    s0 = st.copy()
    other = I.load_all(st, a[1]) if c["name"] == "zip_apply" else None
    s0.store[root] = a[-1]
    fref = mk("ref", root, ())

    def step(s2, i, acc):
        return [(s3, UNIT) for s3, _ in I.call_closure(s2, fref, [elem(I, lam, i)] + ([] if other is None else [idx(other, i)]), fr.depth + 1)]
    out = fold_loop(I, s0, n, UNIT, fr, step, "apply@%s" % sp)
    for s3, _ in out:
        s3.store.pop(root, None)
    return out


@model(r"nalgebra::linalg::decomposition::(lu|qr|svd|full_piv_lu|cholesky)")
def m_lu(I, st, c, a, fr, sp):
    return [(st, mk("decomp", c["name"], I.load_all(st, a[0])))]


@model(r"nalgebra::linalg::lu::try_inverse", r"nalgebra::linalg::(full_piv_lu|qr|svd)::try_inverse", r"nalgebra::linalg::inverse::try_inverse", r"nalgebra::base::.*::try_inverse")
def m_tryinv(I, st, c, a, fr, sp):
    d = I.load_all(st, a[0])
    m = d.args[1] if d.op == "decomp" else d
    out = []
    for s, k in branch(st, mk("batom", "invertible", m)):
        out.append((s, some(mk("minv", m)) if k else NONE))
    return out


@model(r"nalgebra::linalg::(lu|full_piv_lu|qr)::solve")
def m_solve(I, st, c, a, fr, sp):
    d = I.load_all(st, a[0])
    b = I.load_all(st, a[1])
    m = d.args[1] if d.op == "decomp" else d
    out = []
    for s, k in branch(st, mk("batom", "invertible", m)):
        out.append((s, some(mk("mmul", mk("minv", m), b)) if k else NONE))
    return out


@model(r"nalgebra::linalg::(lu|full_piv_lu|qr)::is_invertible")
def m_isinv(I, st, c, a, fr, sp):
    d = I.load_all(st, a[0])
    return [(st, mk("batom", "invertible", d.args[1] if d.op == "decomp" else d))]


# Vec
@model(r"alloc::vec::(new|with_capacity)")
def v_new(I, st, c, a, fr, sp):
    return [(st, mk("vec", intc(0), lam_const(UNIT)))]


@model(r"alloc::vec::push")
def v_push(I, st, c, a, fr, sp):
    st = st.copy()
    I.store_ref(st, a[0], mk("vpush", I.load(st, a[0]), a[1]))
    return [(st, UNIT)]


@model(r"alloc::vec::from_elem")
def v_fromelem(I, st, c, a, fr, sp):
    return [(st, mk("vec", a[1], lam_const(a[0])))]


@model(r"alloc::vec::(reserve|shrink_to_fit)", r"alloc::string::(reserve|shrink_to_fit)")
def v_reserve(I, st, c, a, fr, sp):
    return [(st, UNIT)]


# ------------------------------------------------------------------ iterators
# it(seq(n, λ), pos)
def seq(n, lam):
    return mk("it", mk("seq", n, lam), intc(0))


def as_seq(I, st, v):
    """iterator value -> (n, λ) of the remaining elements, or None"""
    if v.op == "it":
        n, lam = v.args[0].args
        p = v.args[1]
        if p is intc(0):
            return n, lam
        return isub(n, p), lam_of(lambda i: ap(lam, iadd(i, p)))
    if v.op == "agg" and str(v.args[0]).endswith("ops::Range"):
        a, b = v.args[2][:2]
        return isub(b, a), lam_of(lambda i: iadd(i, a))
    if v.op == "agg" and str(v.args[0]).endswith("ops::RangeInclusive"):
        a, b = v.args[2][:2]
        return iadd(isub(b, a), intc(1)), lam_of(lambda i: iadd(i, a))
    return None


@model(r"core::ops::range::RangeInclusive::new", r"core::ops::range::new")
def r_incl(I, st, c, a, fr, sp):
    return [(st, seq(iadd(isub(a[1], a[0]), intc(1)), lam_of(lambda i: iadd(i, a[0]))))]


def is_iter(v):
    return v.op == "it" or (v.op == "agg" and str(v.args[0]).endswith(("ops::Range", "ops::RangeInclusive")))


def elems_by_ref(v):
    return lam_of(lambda i: cref(idx(v, i)))


@model(r"core::slice::iter", r"nalgebra::base::.*::iter", r"alloc::vec::iter", r"alloc::collections::.*::iter")
def it_iter(I, st, c, a, fr, sp):
    v = I.load_all(st, a[0])
    return [(st, seq(vlen(v), elems_by_ref(v)))]


@model(r"core::slice::iter_mut", r"nalgebra::base::.*::iter_mut", r"alloc::vec::iter_mut")
def it_itermut(I, st, c, a, fr, sp):
    r = a[0]
    while r.op == "ref" and I.load(st, r).op == "ref":
        r = I.load(st, r)
    if r.op != "ref":
        return None
    v = I.load(st, r)
    return [(st, seq(vlen(v), mk("mutelems", r, vlen(v))))]


@model(r"core::iter::traits::collect::IntoIterator::into_iter", r"core::iter::traits::collect::into_iter", r"alloc::vec::into_iter",
       r"core::slice::iter::into_iter", r".*::into_iter", r"core::iter::traits::iterator::Iterator::by_ref")
def it_into(I, st, c, a, fr, sp):
    v = a[0]
    if is_iter(v):
        return [(st, v)]
    if c["name"] == "by_ref":
        return [(st, v)]
    ty = (c.get("args") or [""])[0]
    if v.op in ("ref", "cref"):
        x = I.load_all(st, v)
        if is_iter(x):
            return [(st, v)]
        if ty.startswith("&mut"):
            return it_itermut(I, st, c, a, fr, sp)
        return [(st, seq(vlen(x), elems_by_ref(x)))]
    if v.op in ("ext", "children"):
        return [(st, v)]
    if ty.startswith("&"):
        x = deref(v)
        return [(st, seq(vlen(x), elems_by_ref(x)))]
    if "Vec" in ty or "[" in ty:
        return [(st, seq(vlen(v), lam_of(lambda i: idx(v, i))))]
    return [(st, v)]


def target(I, st, r):
    """the place a mutable view or reference stands for"""
    while r.op == "ref" and I.load(st, r).op == "ref":
        r = I.load(st, r)
    return r


def ref_at(r, i):
    """reference to an element; one of a column or row of a matrix is an element of the matrix"""
    path = tuple(r.args[1])
    if path and path[-1][0] == "at" and path[-1][1].op in ("col", "row") and i.op not in ("col", "row"):
        k, j = path[-1][1].op, path[-1][1].args[0]
        if i.op == "agg" and len(i.args[2]) == 2:
            i = i.args[2][0 if k == "col" else 1]
        return mk("ref", r.args[0], path[:-1] + (("at", tup(i, j) if k == "col" else tup(j, i)),))
    return mk("ref", r.args[0], path + (("at", i),))


def elem(I, lam, i):
    if lam.op == "mutelems":
        return ref_at(lam.args[0], i)
    if lam.op == "mutcols":
        return ref_at(lam.args[0], mk(lam.args[1], i))
    if lam.op == "lampair":
        return tup(elem(I, lam.args[0], i), elem(I, lam.args[1], i))
    if lam.op == "lamrev":
        return elem(I, lam.args[0], isub(isub(lam.args[1], intc(1)), i))
    return ap(lam, i)


def has_mut(lam):
    return lam.op in ("mutelems", "mutcols", "lampair", "lamrev")


@model(r"core::iter::traits::iterator::Iterator::enumerate", r".*::enumerate")
def it_enum(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None:
        return None
    n, lam = s
    if has_mut(lam):
        return [(st, seq(n, mk("lampair", lam_of(lambda i: i), lam)))]
    return [(st, seq(n, lam_of(lambda i: tup(i, ap(lam, i)))))]


@model(r"core::iter::traits::iterator::Iterator::zip", r"core::iter::adapters::zip::zip")
def it_zip(I, st, c, a, fr, sp):
    s, t = as_seq(I, st, a[0]), None
    if s is None:
        return None
    b = a[1]
    if not is_iter(b):
        r = it_into(I, st, {"name": "into_iter", "args": [(c.get("args") or ["", ""])[-1]]}, [b], fr, sp)
        b = r[0][1]
    t = as_seq(I, st, b)
    if t is None:
        return None
    n = imin_len(I, st, s[0], t[0])
    if has_mut(s[1]) or has_mut(t[1]):
        return [(st, seq(n, mk("lampair", s[1], t[1])))]
    return [(st, seq(n, lam_of(lambda i: tup(ap(s[1], i), ap(t[1], i)))))]


def imin_len(I, st, a, b):
    if I.dom.same_len(a, b):
        return a
    return imin(a, b)


@model(r"core::iter::traits::iterator::Iterator::rev", r"core::iter::traits::double_ended::.*rev")
def it_rev(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None:
        return None
    n, lam = s
    if has_mut(lam):
        return [(st, seq(n, mk("lamrev", lam, n)))]
    return [(st, seq(n, lam_of(lambda i: ap(lam, isub(isub(n, intc(1)), i)))))]


@model(r"core::iter::traits::iterator::Iterator::(skip|take)")
def it_skip(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None or has_mut(s[1]):
        return None
    n, lam = s
    k = a[1]
    if c["name"] == "skip":
        return [(st, seq(isub(n, k), lam_of(lambda i: ap(lam, iadd(i, k)))))]
    return [(st, seq(imin_len(I, st, n, k), lam))]


@model(r"core::iter::traits::iterator::Iterator::(copied|cloned)")
def it_copied(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None:
        return None
    n, lam = s
    return [(st, seq(n, lam_of(lambda i: I.load_all(st, ap(lam, i)))))]


@model(r"core::iter::traits::iterator::Iterator::map")
def it_map(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None or has_mut(s[1]):
        return None
    n, lam = s
    r = pure_lam(I, st, a[1], fr, lambda i: [ap(lam, i)], facts=lambda i: [ilt(i, n)])
    if r is None:
        return None
    return [(st, seq(n, r))]


def pure_lam(I, st, f, fr, mkargs, facts=None):
    """closure f as a lambda of the element number; None if it has effects"""
    t = fresh_tmp("e")
    s0 = st.copy()
    if facts:
        for q in facts(t):
            if q.op != "bool":
                s0 = assume(s0, q)[0]
    rs = I.call_closure(s0, f, mkargs(t), fr.depth + 1)
    base = {k: v for k, v in st.store.items() if k[0] != "C"}
    for s, v in rs:
        if {k: x for k, x in s.store.items() if k[0] != "C"} != base:
            return None
    b = decision_tree(s0, rs)
    return None if b is None else mk_lam(t, b)


def decision_tree(base, rs):
    """results of a pure computation -> one term with selections"""
    if not rs:
        return mk("never")
    if len({v for _, v in rs}) == 1:
        return rs[0][1]
    cands = {}
    for s, _ in rs:
        for a, v in s.facts.items():
            if a not in base.facts:
                cands.setdefault(a, {}).setdefault(v, 0)
                cands[a][v] += 1
    for a in sorted(cands, key=lambda x: x.id):
        if not all(a in s.facts for s, _ in rs):
            continue
        vals = sorted({s.facts[a] for s, _ in rs}, key=str)
        if len(vals) < 2:
            continue
        parts = {v: decision_tree(base, [(s, r) for s, r in rs if s.facts[a] == v]) for v in vals}
        if any(p is None for p in parts.values()):
            continue
        if a.op == "discr":
            r = parts[vals[-1]]
            for v in vals[:-1]:
                r = sel(mk("deq", a, intc(v)), parts[v], r)
            return r
        return sel(a, parts[True], parts[False])
    return None


@model(r"core::iter::traits::iterator::Iterator::(any|all)", r"core::slice::iter::(any|all)", r"core::iter::.*::(any|all)")
def it_anyall(I, st, c, a, fr, sp):
    v = a[0]
    iv = I.load_all(st, v)
    s = as_seq(I, st, iv)
    if s is None or has_mut(s[1]):
        return None
    n, lam = s
    r = pure_lam(I, st, a[1], fr, lambda i: [ap(lam, i)])
    if r is None:
        return None
    if c["name"] == "all":
        d, body = r.args
        r = lam_of(lambda i: bnot(ap(r0, i))) if (r0 := r) else None
    b = TM.any_(n, r)
    return [(st, b if c["name"] == "any" else bnot(b))]


@model(r"core::iter::traits::iterator::Iterator::(find|position)", r"core::slice::iter::.*::(find|position)")
def it_find(I, st, c, a, fr, sp):
    s = as_seq(I, st, I.load_all(st, a[0]))
    if s is None or has_mut(s[1]):
        return None
    n, lam = s
    pos = c["name"] == "position"
    r = pure_lam(I, st, a[1], fr, lambda i: [ap(lam, i) if pos else cref(ap(lam, i))])
    if r is None:
        return None
    b = TM.any_(n, r)
    k = mk("first", n, r)
    out = []
    for s2, v in branch(st, b):
        if v:
            s2 = s2.copy()
            s2.facts[ige0(k)] = True
            s2.facts[ige0(isub(isub(n, k), intc(1)))] = True
        out.append((s2, some(k if pos else ap(lam, k)) if v else NONE))
    return out


@model(r"core::iter::traits::iterator::Iterator::filter")
def it_filter(I, st, c, a, fr, sp):
    s = as_seq(I, st, I.load_all(st, a[0]))
    if s is None or has_mut(s[1]):
        return None
    n, lam = s
    r = pure_lam(I, st, a[1], fr, lambda i: [cref(ap(lam, i))])
    return None if r is None else [(st, mk("itfilter", n, r, lam))]


@model(r"core::iter::traits::iterator::Iterator::(max_by|min_by)", r"core::iter::.*::(max_by|min_by)")
def it_extremum(I, st, c, a, fr, sp):
    """the largest / smallest element under a comparison; None without elements.  The comparison of
    the first two elements is observed as it stands (a panic is reported on definite elements)"""
    s = as_seq(I, st, a[0])
    if s is None or has_mut(s[1]):
        return None
    n, lam = s
    hi = c["name"] == "max_by"
    at = lambda i: I.load_all(st, ap(lam, i))
    out = []
    for s0, empty in branch(st, ieq(n, intc(0))):
        if empty:
            out.append((s0, NONE))
            continue
        for s1, one in branch(s0, ieq(n, intc(1))):
            if one:
                out.append((s1, some(ap(lam, intc(0)))))
                continue
            x, y = at(intc(0)), at(intc(1))
            plain, seen = x.op not in ("ref", "agg"), set()
            for s2, v in I.call_closure(s1, a[1], [cref(x), cref(y)], fr.depth + 1):
                v = I.load_all(s2, v)
                num = decide(s2, isnan(x)) is False and decide(s2, isnan(y)) is False
                want = {0: flt(x, y), 1: feq(x, y), 2: flt(y, x)}.get(v.args[1]) if v.op == "agg" else None
                plain = plain and num and want is not None and decide(s2, want) is True
                seen.add(v.args[1] if v.op == "agg" else None)
            if plain and seen == {0, 1, 2}:
                for s2 in assume(s1, bnot(TM.any_(n, lam_of(lambda i: isnan(at(i)))))):
                    out.append((s2, some(cref(TM.m_ext("m_max" if hi else "m_min", mk("vec", n, lam_of(at)))))
                                if ap(lam, intc(0)).op in ("cref", "ref") else some(TM.m_ext("m_max" if hi else "m_min", mk("vec", n, lam_of(at))))))
                continue

            def step(s2, i, acc):
                el = ap(lam, iadd(i, intc(1)))
                res = []
                for s3, v in I.call_closure(s2, a[1], [cref(I.load_all(s2, acc)), cref(I.load_all(s2, el))], fr.depth + 1):
                    v = I.load_all(s3, v)
                    if v.op != "agg":
                        raise Unsupported("extremum under an unknown comparison")
                    res.append((s3, acc if (v.args[1] == 2) == hi else el))
                return res
            out += [(s2, some(v)) for s2, v in fold_loop(I, s1, isub(n, intc(1)), ap(lam, intc(0)), fr, step, "ext@%s" % sp)]
    return out


@model(r"core::iter::traits::iterator::Iterator::fold", r".*::fold")
def it_fold(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None:
        return None
    n, lam = s
    if has_mut(lam):
        return None
    return fold_loop(I, st, n, a[1], fr, lambda s2, i, acc: I.call_closure(s2, a[2], [acc, ap(lam, i)], fr.depth + 1), "fold@%s" % sp)


_lc = [0]


def fold_loop(I, st, n, init, fr, step, tag, goes=None):
    """generic internal iteration: acc := step(acc, i) for i in 0..n; goes(state, answer) tells
    whether the iteration continues after an answer (then every exit says if it was early)"""
    racc, ri = ("X", fr.depth, tag, "acc"), ("X", fr.depth, tag, "i")
    s0 = st.copy()
    s0.store[racc] = init
    s0.store[ri] = intc(0)

    def run(h):
        ex, bk = [], []
        for s, k in branch(h, ilt(h.store[ri], n)):
            if not k:
                ex.append((0, s))
                continue
            i, acc = s.store[ri], s.store[racc]
            for s2, v in step(s, i, acc):
                s2 = s2.copy()
                if goes is not None:
                    on, v = goes(s2, v)
                    if not on:
                        s2.store[racc] = v
                        ex.append((1, s2))
                        continue
                    v = v.args[2][0]
                I.gc_tmp(s2, v)
                s2.store[racc] = v
                s2.store[ri] = iadd(i, intc(1))
                bk.append(s2)
        return ex, dd(bk), []
    ex, _ = I.fix_const([s0], run, tag, fr, False)
    out = []
    for k, s in ex:
        s = s.copy()
        v = s.store.pop(racc)
        s.store.pop(ri)
        out.append((s, v) if goes is None else (s, v, k == 1))
    return out


def dd(sts):
    seen, out = {}, []
    few = len(sts) <= 32
    for s in sts:
        k = (s.skey(), frozenset(s.facts.items()) if few else None)
        if k in seen:
            seen[k].facts = inter_facts(seen[k].facts, s.facts)
        else:
            seen[k] = s
            out.append(s)
    return out


@model(r"core::iter::traits::iterator::Iterator::for_each", r".*::for_each")
def it_foreach(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None:
        return None
    n, lam = s
    root = ("X", fr.depth, "fe@%s" % sp)
    s0 = st.copy()
    s0.store[root] = a[1]
    fref = mk("ref", root, ())

    def step(s2, i, acc):
        return [(s3, UNIT) for s3, _ in I.call_closure(s2, fref, [elem(I, lam, i)], fr.depth + 1)]
    out = fold_loop(I, s0, n, UNIT, fr, step, "foreach@%s" % sp)
    for s3, _ in out:
        s3.store.pop(root, None)
    return out


@model(r"core::iter::traits::iterator::Iterator::(try_for_each|try_fold)", r".*::(try_for_each|try_fold)")
def it_try(I, st, c, a, fr, sp):
    """internal iteration that may stop early; only for closures whose answers are known variants"""
    fold = c["name"] == "try_fold"
    tgt = " ".join(c.get("args") or [])
    src = I.load(st, a[0]) if a[0].op in ("ref", "cref") else a[0]
    s = as_seq(I, st, src)
    if s is None:
        return None
    n, lam = s
    if has_mut(lam) and fold:
        return None
    root = ("X", fr.depth, "te@%s" % sp)
    s0 = st.copy()
    s0.store[root] = a[2] if fold else a[1]
    fref = mk("ref", root, ())
    adts = set()

    def step(s2, i, acc):
        return I.call_closure(s2, fref, ([acc] if fold else []) + [elem(I, lam, i)], fr.depth + 1)

    def goes(s2, v):
        v = I.load_all(s2, v)
        if v.op != "agg":
            raise Unsupported("early exit on an unknown answer")
        adts.add(v.args[0])
        return v.args[1] == (1 if v.args[0].endswith("Option") else 0), v
    out = []
    for s3, v, early in fold_loop(I, s0, n, a[1] if fold else UNIT, fr, step, "try@%s" % sp, goes):
        s3.store.pop(root, None)
        if not early:
            if len(adts) > 1 or not adts:
                ad = "std::result::Result" if "Result<" in tgt else "std::option::Option" if "Option<" in tgt else None
                if ad is None:
                    return None
            else:
                ad, = adts
            v = mk("agg", ad, 1 if ad.endswith("Option") else 0, (v,))
        if a[0].op == "ref":
            I.store_ref(s3, a[0], seq(intc(0), lam) if not early else mk("ext", "rest of an iterator", ()))
        out.append((s3, v))
    return out


@model(r"core::iter::traits::iterator::Iterator::sum", r"core::iter::traits::accum::Sum::sum")
def it_sum(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None:
        return None
    n, lam = s
    return [(st, mk("fsum", n, lam_of(lambda i: I.load_all(st, ap(lam, i)))))]


@model(r"core::iter::traits::iterator::Iterator::count", r"core::iter::traits::exact_size::ExactSizeIterator::len", r"core::iter::.*::len", r"core::iter::adapters::filter::.*count")
def it_count(I, st, c, a, fr, sp):
    v = I.load_all(st, a[0])
    if v.op == "itfilter":
        return [(st, mk("countif", v.args[0], v.args[1]))]
    s = as_seq(I, st, v)
    return None if s is None else [(st, s[0])]


def it_to_vec(st, I, v):
    n, lam = as_seq(I, st, v)
    return mk("vec", n, lam)


@model(r"core::iter::traits::iterator::Iterator::collect", r"core::iter::traits::collect::FromIterator::from_iter", r".*::from_iter")
def it_collect(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    tgt = " ".join(c.get("args") or [])
    if s is None or has_mut(s[1]):
        return None
    if "Vec<" in tgt or "Matrix" in tgt or "[" in tgt:
        return [(st, mk("vec", s[0], s[1]))]
    if "String" in tgt:
        return [(st, scat(mk("rep", s[0], s[1])))]
    return None


@model(r"core::iter::traits::iterator::Iterator::unzip")
def it_unzip(I, st, c, a, fr, sp):
    s = as_seq(I, st, a[0])
    if s is None or has_mut(s[1]):
        return None
    return [(st, tup(*[mk("vec", s[0], lam_of(lambda i, k=k: TM.field(ap(s[1], i), k))) for k in (0, 1)]))]


@model(r"core::iter::traits::iterator::Iterator::next", r"core::iter::.*::next", r"alloc::vec::into_iter::next", r"core::slice::iter::next", r"core::iter::range::next",
       r"nalgebra::base::iter::next")
def it_next(I, st, c, a, fr, sp):
    r = a[0]
    while r.op == "ref" and I.load(st, r).op == "ref":
        r = I.load(st, r)
    v = I.load_all(st, r)
    if v.op == "agg" and str(v.args[0]).endswith("ops::RangeInclusive"):
        x = as_seq(I, st, v)
        v = seq(*x)
    if v.op == "it":
        n, lam = v.args[0].args
        p = v.args[1]
        out = []
        for s, k in branch(st, ilt(p, n)):
            s = s.copy()
            if k:
                I.store_ref(s, r, mk("it", v.args[0], iadd(p, intc(1))))
                out.append((s, some(elem(I, lam, p))))
            else:
                out.append((s, NONE))
        return out
    if v.op == "agg" and str(v.args[0]).endswith("ops::Range"):
        x, y = v.args[2][:2]
        out = []
        for s, k in branch(st, ilt(x, y)):
            s = s.copy()
            if k:
                I.store_ref(s, r, mk("agg", v.args[0], 0, (iadd(x, intc(1)), y)))
                out.append((s, some(x)))
            else:
                out.append((s, NONE))
        return out
    # opaque iterators (e.g. XML children): a position into an opaque sequence
    if v.op == "children":
        p = v.args[1]
        base = v.args[0]
        out = []
        for s, k in branch(st, ilt(p, mk("len", base))):
            s = s.copy()
            if k:
                I.store_ref(s, r, mk("children", base, iadd(p, intc(1))))
                out.append((s, some(cref(idx(base, p)))))
            else:
                out.append((s, NONE))
        return out
    return None


# ------------------------------------------------------------------ strings & formatting
@model(r"alloc::string::(new|with_capacity)")
def s_new(I, st, c, a, fr, sp):
    return [(st, lit(""))]


@model(r"alloc::string::push_str", r"core::fmt::Write::write_str")
def s_push(I, st, c, a, fr, sp):
    st = st.copy()
    I.store_ref(st, a[0], scat(I.load_all(st, a[0]), I.load_all(st, a[1])))
    return [(st, UNIT if c["name"] == "push_str" else ok(UNIT))]


@model(r"alloc::string::push")
def s_pushc(I, st, c, a, fr, sp):
    st = st.copy()
    ch = lit(chr(a[1].args[0])) if a[1].op == "int" else mk("s", (mk("disp", a[1]),))
    I.store_ref(st, a[0], scat(I.load_all(st, a[0]), ch))
    return [(st, UNIT)]


@model(r"alloc::string::ToString::to_string", r"alloc::string::to_string", r"alloc::string::SpecToString::spec_to_string", r"core::char::.*to_string", r".*::to_string")
def s_tostring(I, st, c, a, fr, sp):
    return [(st, display(I, st, I.load_all(st, a[0]), (c.get("args") or [""])[0]))]


def display(I, st, v, ty=""):
    if v.op == "s":
        return v
    r = I.dom.display(I, st, v, ty)
    if r is not None:
        return r
    if v.op == "fmtargs":
        return v.args[0]
    return mk("s", (mk("disp", v),))


@model(r"core::fmt::rt::(new_display|new_debug|new_lower_exp|new_upper_exp|new_lower_hex)")
def s_argdisp(I, st, c, a, fr, sp):
    kind = c["name"][4:]
    ty = (c.get("args") or [""])[-1]
    return [(st, mk("fmtarg", kind, I.load_all(st, a[0]), ty))]


@model(r"core::fmt::rt::(from_usize)")
def s_argusize(I, st, c, a, fr, sp):
    return [(st, mk("fmtarg", "usize", I.load_all(st, a[0]), "usize"))]


@model(r"core::fmt::from_str(_nonconst)?", r"core::fmt::new_const", r"core::fmt::Arguments::from_str")
def s_fromstr(I, st, c, a, fr, sp):
    return [(st, mk("fmtargs", I.load_all(st, a[0])))]


@model(r"core::fmt::new")
def s_fmtnew(I, st, c, a, fr, sp):
    t = I.load_all(st, a[0])
    args = I.load_all(st, a[1])
    if t.op != "bytes":
        return None
    b = t.args[0]
    al = args.args[2] if args.op == "agg" else ()
    parts, i, ai = [], 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(lit(b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            l = b[i] | b[i + 1] << 8
            i += 2
            parts.append(lit(b[i:i + l].decode()))
            i += l
        else:
            fl = w = pr = None
            if n != 0xC0:
                if n & 1:
                    fl = int.from_bytes(b[i:i + 4], "little")
                    i += 4
                if n & 2:
                    w = b[i] | b[i + 1] << 8
                    i += 2
                if n & 4:
                    pr = b[i] | b[i + 1] << 8
                    i += 2
                if n & 8:
                    ai = b[i] | b[i + 1] << 8
                    i += 2
                if n & 16:
                    w = al[w].args[1]
                if n & 32:
                    pr = al[pr].args[1]
            x = al[ai]
            ai += 1
            if x.op != "fmtarg":
                parts.append(mk("s", (mk("disp", x),)))
                continue
            kind, v, ty = x.args
            d = display(I, st, v, ty) if kind == "display" else mk("s", (mk("dbg", kind, v),))
            if fl is None and w is None and pr is None:
                parts.append(d)
            else:
                parts.append(mk("s", (mk("pad", d, tt(fl), tt(w), tt(pr)),)))
    return [(st, mk("fmtargs", scat(*parts)))]


def tt(x):
    if x is None:
        return mk("none")
    return x if isinstance(x, T) else intc(x)


@model(r"alloc::fmt::format", r"alloc::fmt::format::format_inner")
def s_format(I, st, c, a, fr, sp):
    x = a[0]
    return [(st, x.args[0] if x.op == "fmtargs" else mk("s", (mk("disp", x),)))]


@model(r"core::fmt::write_fmt", r"core::fmt::Write::write_fmt")
def s_writefmt(I, st, c, a, fr, sp):
    x = a[1]
    s = x.args[0] if x.op == "fmtargs" else mk("s", (mk("disp", x),))
    return fmt_out(I, st, a[0], s)


@model(r"core::fmt::(write_str|pad|write_char)")
def s_writestr(I, st, c, a, fr, sp):
    return fmt_out(I, st, a[0], I.load_all(st, a[1]))


def fmt_out(I, st, f, s):
    st = st.copy()
    cur = I.load_all(st, f)
    r = f
    while r.op == "ref" and I.load(st, r).op == "ref":
        r = I.load(st, r)
    if r.op == "ref":
        I.store_ref(st, r, scat(cur, s) if cur.op == "s" else mk("s", (cur,) + sparts(s)))
    return [(st, ok(UNIT))]


@model(r"core::fmt::(debug_struct|debug_list|debug_tuple|debug_map).*", r"core::fmt::builders::.*")
def s_debug(I, st, c, a, fr, sp):
    vals = tuple(I.load_all(st, x) if x.op in ("ref", "cref") else x for x in a)
    if c["name"].endswith("finish") or c["name"] == "finish":
        return [(st, mk("fmtres", c["name"]))]
    if c["name"] in ("field", "entries", "entry"):
        return [(st, a[0])]
    return [(st, mk("builder", c["name"]))]


# ------------------------------------------------------------------ panics
@model(r"core::panicking::.*", r"std::rt::.*panic.*", r"core::option::(unwrap_failed|expect_failed)", r"core::result::unwrap_failed.*", r"std::process::(exit|abort)",
       r"core::slice::index::.*fail.*", r"core::str::slice_error_fail")
def m_panic(I, st, c, a, fr, sp):
    I.panic(st, c.get("rfull") or c["full"], fr, sp, tuple(a))
    return []


# ------------------------------------------------------------------ XML
@model(r"minidom::element::attr")
def x_attr(I, st, c, a, fr, sp):
    e, n = I.load_all(st, a[0]), I.load_all(st, a[1])
    out = []
    for s, k in branch(st, mk("batom", "has_attr", e, n)):
        out.append((s, some(cref(mk("attr", e, n))) if k else NONE))
    return out


@model(r"minidom::element::name")
def x_name(I, st, c, a, fr, sp):
    return [(st, cref(mk("xname", I.load_all(st, a[0]))))]


@model(r"minidom::element::children")
def x_children(I, st, c, a, fr, sp):
    e = I.load_all(st, a[0])
    base = mk("kids", e)
    n = I.dom.children(e)
    return [(st, seq(mk("len", base) if n is None else TM.intc(n), elems_by_ref(base)))]


@model(r"core::str::parse", r"core::str::traits::FromStr::from_str", r".*::from_str")
def x_parse(I, st, c, a, fr, sp):
    v = I.load_all(st, a[0])
    ty = (c.get("args") or [""])[0]
    if c["name"] == "from_str":
        ty = c.get("rself") or c.get("impl_self") or ty
    out = []
    for s, k in branch(st, mk("batom", "parses", v, ty)):
        out.append((s, ok(mk("parsed", v, ty)) if k else err(mk("parse_err", v, ty))))
    return out


@model(r"core::str::(trim|to_lowercase|to_uppercase|trim_start|trim_end|to_ascii_lowercase|to_ascii_uppercase)", r"alloc::str::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)")
def x_strfn(I, st, c, a, fr, sp):
    v = mk("strfn", c["name"], I.load_all(st, a[0]))
    return [(st, cref(v) if c["name"].startswith("trim") else v)]


# ------------------------------------------------------------------ I/O and environment
IO = (r"std::fs::.*", r"std::io::.*", r"core::io::.*", r"std::path::.*", r"std::env::.*", r"std::time::.*", r"chrono::.*", r"whoami::.*", r"rustc_version_runtime::.*",
      r"std::thread::.*", r"std::sync::.*", r"std::process::.*", r"std::net::.*", r"rand::.*")


@model(*IO)
def m_io(I, st, c, a, fr, sp):
    name = strip(c.get("rfull") or c.get("full"))
    r = I.dom.io(I, st, name, c, a, fr, sp)
    if r is not None:
        return r
    return [(st, mk("io", name, tuple(I.load_all(st, x) for x in a)))]
