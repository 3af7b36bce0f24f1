"""Hash-consed symbolic values (the Herbrand / value-numbering domain).

A value is a term `T(op, args)`.  Arguments are terms or plain Python data
(int, str, bool, Fraction, tuples of terms).  Equal terms are the same object.
"""
from fractions import Fraction as Fr

_tab = {}
_ctr = [0]


class T:
    __slots__ = ("op", "args", "id", "_kids", "_phis")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _ctr[0] += 1
        t.id = _ctr[0]
        t._kids = None
        t._phis = None
        _tab[k] = t
    return t


LEAF = {"sym", "phi", "int", "flt", "bool", "bv", "tmp", "fnv", "lit", "ref", "old"}


def kids(t):
    k = t._kids
    if k is None:
        k = []
        if t.op not in LEAF:
            for a in t.args:
                if isinstance(a, T):
                    k.append(a)
                elif isinstance(a, tuple):
                    _flat(a, k)
        t._kids = k = tuple(k)
    return k


def _flat(a, k):
    for x in a:
        if isinstance(x, T):
            k.append(x)
        elif isinstance(x, tuple):
            _flat(x, k)


# ---------------------------------------------------------------- constants
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("agg", "tuple", 0, ())
NAN = mk("flt", "nan")
INF = mk("flt", "inf")
NINF = mk("flt", "-inf")


def boolc(b):
    return TRUE if b else FALSE


def intc(n):
    return mk("int", int(n))


def fltc(x):
    if isinstance(x, str):
        s = x.lower()
        if s == "nan":
            return NAN
        if s in ("inf", "+inf"):
            return INF
        if s == "-inf":
            return NINF
        return mk("flt", Fr(s))
    return mk("flt", Fr(x))


def sym(*name):
    return mk("sym", *name)


def agg(adt, variant, *fields):
    return mk("agg", adt, variant, tuple(fields))


def tup(*f):
    return mk("agg", "tuple", 0, tuple(f))


def is_const(t):
    return t.op in ("int", "flt", "bool", "fnv")


# ---------------------------------------------------------------- traversal
def subst(t, m, memo=None):
    """replace terms by the mapping m (dict T->T), rebuilding with the smart constructors"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if "$leaf" not in memo:
        memo["$leaf"] = frozenset(m) if all(k.op in ("phi", "tmp") for k in m) else None
    lf = memo["$leaf"]
    if lf is not None and lf.isdisjoint(phis(t)):
        r = t
    else:
        ks = kids(t)
        if not ks:
            r = t
        else:
            ch = False
            for k in ks:
                if subst(k, m, memo) is not k:
                    ch = True
                    break
            if not ch:
                r = t
            elif t.op == "lam":
                # open the binder so that substituted lambdas cannot capture
                j = mk("tmp", "o", next_tmp())
                r = mk_lam(j, subst(subst(t.args[1], {mk("bv", t.args[0]): j}), m))
            else:
                r = rebuild(t.op, tuple(_sa(a, m, memo) for a in t.args))
    memo[t] = r
    return r


def _sa(a, m, memo):
    if isinstance(a, T):
        return subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_sa(x, m, memo) for x in a)
    return a


def rebuild(op, args):
    f = SMART.get(op)
    return f(*args) if f else mk(op, *args)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


_memo_refs = {}
_NOREF = frozenset()


def refroots(t):
    """roots of the references below t (memoised)"""
    r = _memo_refs.get(t)
    if r is None:
        r = _NOREF
        for k in kids(t):
            q = refroots(k)
            if q:
                r = r | q if r else q
        if t.op == "ref":
            r = r | {t.args[0]}
        _memo_refs[t] = r
    return r


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


_memo_phi = {}


def leaves(t):
    """the symbols and loop variables of an integer term; other operands stand for themselves"""
    if t.op == "int":
        return set()
    if t.op in ("lin", "imul", "imin", "ige0", "ieq0", "idiv", "irem", "ibitand", "ibitor", "ibitxor", "ishl", "ishr"):
        return set().union(*[leaves(k) for k in kids(t)])
    return {t}


def int_consts(t, acc, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == "int":
        acc.add(abs(t.args[0]))
    elif t.op == "lin":
        acc.add(abs(t.args[0]))
    for k in kids(t):
        int_consts(k, acc, seen)


def phis(t):
    """set of phi/tmp leaves below t (memoised)"""
    r = t._phis
    if r is None:
        if t.op in ("phi", "tmp"):
            r = frozenset((t,))
        else:
            r = frozenset()
            for k in kids(t):
                p = phis(k)
                if p:
                    r = r | p
        t._phis = r
    return r


# ---------------------------------------------------------------- lambdas
_h = {}


def _height(t):
    r = _h.get(t)
    if r is None:
        r = max([_height(k) for k in kids(t)] or [0])
        if t.op == "lam":
            r += 1
        _h[t] = r
    return r


_tmpc = [0]


def next_tmp():
    _tmpc[0] += 1
    return _tmpc[0]


def fresh_tmp(hint="i"):
    _tmpc[0] += 1
    return mk("tmp", hint, _tmpc[0])


def mk_lam(tmp, body):
    d = _height(body) + 1
    return mk("lam", d, subst(body, {tmp: mk("bv", d)}))


def ap(lam, arg):
    """apply a lambda; bound variables have globally unique depth inside one lam nest"""
    d, body = lam.args
    return _inst(body, d, arg)


def _inst(body, d, arg):
    return subst(body, {mk("bv", d): arg})


def lam_of(f, hint="i"):
    t = fresh_tmp(hint)
    return mk_lam(t, f(t))


def lam_const(v):
    return lam_of(lambda i: v)


# ---------------------------------------------------------------- integers
def _lin(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def _mklin(c, m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m:
        return intc(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(m.items(), key=lambda kv: kv[0].id)))


def iadd(a, b):
    c1, m1 = _lin(a)
    c2, m2 = _lin(b)
    for k, v in m2.items():
        m1[k] = m1.get(k, 0) + v
    return _mklin(c1 + c2, m1)


def iscale(a, n):
    c, m = _lin(a)
    return _mklin(c * n, {k: v * n for k, v in m.items()})


def isub(a, b):
    return iadd(a, iscale(b, -1))


def imul(a, b):
    if a.op == "int":
        return iscale(b, a.args[0])
    if b.op == "int":
        return iscale(a, b.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk("imul", a, b)


def _relin(c, m):
    r = intc(c)
    for t, k in m:
        r = iadd(r, iscale(t, k))
    return r


def imin(a, b):
    if a is b:
        return a
    d = isub(a, b)
    if d.op == "int":
        return a if d.args[0] <= 0 else b
    if b.id < a.id:
        a, b = b, a
    return mk("imin", a, b)


# integer comparison -> (atom or bool const, polarity)
def ilt(a, b):
    """a < b"""
    return ige0(isub(isub(b, a), intc(1)))


def ile(a, b):
    return ige0(isub(b, a))


def ige0(l):
    if l.op == "int":
        return boolc(l.args[0] >= 0)
    c, m = _lin(l)
    if c == -1 and len(m) == 1:
        (x, k), = m.items()
        if k == 1 and x.op == "countif":     # at least one
            return any_(*x.args)
    for x, k in m.items():
        if x.op == "imin" and abs(k) == 1:   # min(a, b) >= t  <=>  a >= t and b >= t
            r = isub(l, iscale(x, k))
            p, q = ige0(iadd(r, iscale(x.args[0], k))), ige0(iadd(r, iscale(x.args[1], k)))
            return band(p, q) if k == 1 else bnot(band(bnot(p), bnot(q)))
    lead = min(m, key=lambda k: k.id)
    if m[lead] < 0:
        # L>=0  <=> not(-L-1 >= 0)
        return bnot(ige0(isub(iscale(l, -1), intc(1))))
    return mk("ige0", l)


def ieq(a, b):
    d = isub(a, b)
    if d.op == "int":
        return boolc(d.args[0] == 0)
    c, m = _lin(d)
    if c == 0 and len(m) == 1:
        (x, k), = m.items()
        if x.op == "countif":
            return bnot(any_(*x.args))
    lead = min(m, key=lambda k: k.id)
    if m[lead] < 0:
        d = iscale(d, -1)
    return mk("ieq0", d)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def sel(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return sel(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    return mk("sel", c, a, b)


# ---------------------------------------------------------------- floats
def _fc(t):
    return t.args[0] if t.op == "flt" and isinstance(t.args[0], Fr) else None


def fneg(a):
    c = _fc(a)
    if c is not None and c != 0:
        return fltc(-c)
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    return mk("fneg", a)


def fcmp(op, a, b):
    ca, cb = _fc(a), _fc(b)
    if a is NAN or b is NAN:
        return FALSE

    def num(c, t):
        if c is not None:
            return c
        if t is INF:
            return float("inf")
        if t is NINF:
            return float("-inf")
        return None
    na, nb = num(ca, a), num(cb, b)
    if na is not None and nb is not None:
        return boolc({"flt": na < nb, "fle": na <= nb, "feq": na == nb}[op])
    for x, f in ((a, lambda y: fcmp(op, y, b)), (b, lambda y: fcmp(op, a, y))):
        if x.op == "sel" and (x.args[1] is NAN or x.args[2] is NAN):
            return sel(x.args[0], f(x.args[1]), f(x.args[2]))
    if op == "feq" and b.id < a.id:
        a, b = b, a
    return mk({"flt": "flt2"}.get(op, op), a, b)


def flt(a, b):
    return fcmp("flt", a, b)


def fle(a, b):
    return fcmp("fle", a, b)


def feq(a, b):
    return fcmp("feq", a, b)


def isnan(a):
    if a is NAN:
        return TRUE
    if a.op == "flt":
        return FALSE
    if a.op == "sel" and (a.args[1] is NAN or a.args[2] is NAN):
        return sel(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    return mk("isnan", a)


# ---------------------------------------------------------------- aggregates
def field(v, i):
    if v.op == "agg":
        return v.args[2][i]
    if v.op == "updf":
        return v.args[2] if v.args[1] == i else field(v.args[0], i)
    if v.op == "clo":
        return v.args[1][i]
    if v.op == "sel":
        return sel(v.args[0], field(v.args[1], i), field(v.args[2], i))
    return mk("f", v, i)


def vfield(v, variant, i):
    if v.op == "agg":
        return v.args[2][i]
    if v.op == "updv":
        return v.args[3] if v.args[2] == i else vfield(v.args[0], variant, i)
    if v.op == "sel":
        return sel(v.args[0], vfield(v.args[1], variant, i), vfield(v.args[2], variant, i))
    return mk("vf", v, variant, i)


def set_field(v, i, x):
    if v.op == "agg":
        fs = list(v.args[2])
        fs[i] = x
        return mk("agg", v.args[0], v.args[1], tuple(fs))
    if v.op == "clo":
        fs = list(v.args[1])
        fs[i] = x
        return mk("clo", v.args[0], tuple(fs))
    # canonical chain sorted by index
    if v.op == "updf":
        if v.args[1] == i:
            return set_field(v.args[0], i, x)
        if v.args[1] > i:
            return mk("updf", set_field(v.args[0], i, x), v.args[1], v.args[2])
    if x.op == "f" and x.args[0] is v and x.args[1] == i:
        return v
    return mk("updf", v, i, x)


def deref(v):
    if v.op == "cref":
        return v.args[0]
    return mk("deref", v)


def cref(v):
    if v.op == "deref":
        return v.args[0]
    return mk("cref", v)


# ---------------------------------------------------------------- strings
def lit(s):
    return mk("s", (mk("lit", s),)) if s else mk("s", ())


def sparts(t):
    if t.op == "s":
        return t.args[0]
    return (t,)


def scat(*ts):
    out = []
    for t in ts:
        for p in sparts(t):
            if p.op == "lit" and out and out[-1].op == "lit":
                out[-1] = mk("lit", out[-1].args[0] + p.args[0])
            else:
                out.append(p)
    return mk("s", tuple(out))


def str_const(t):
    if t.op == "s":
        if t.args[0] == ():
            return ""
        if len(t.args[0]) == 1 and t.args[0][0].op == "lit":
            return t.args[0][0].args[0]
    return None


# ---------------------------------------------------------------- containers
def vlen(v):
    if v.op in ("upd", "fill", "vpush", "last"):
        if v.op == "upd":
            return vlen(v.args[0])
        if v.op == "fill":
            return vlen(v.args[0])
        if v.op == "vpush":
            return iadd(vlen(v.args[0]), intc(1))
    if v.op == "vec":          # vec n lam
        return v.args[0]
    if v.op == "zeros":
        return imul(v.args[0], v.args[1])
    if v.op == "agg" and v.args[0] == "array":
        return intc(len(v.args[2]))
    if v.op == "mat":
        return imul(v.args[0], v.args[1])
    if v.op == "s" and str_const(v) is not None:
        return intc(len(str_const(v).encode()))
    if UNIFORM[0] and v.op not in ("s", "phi", "tmp", "vext"):
        return NSYM
    if v.op == "sel":
        return sel(v.args[0], vlen(v.args[1]), vlen(v.args[2]))
    return mk("len", v)


# Under the uniform-dimension assumption every container handed in from outside has
# the problem size (the constructors are checked separately to enforce it).
UNIFORM = [False]
NSYM = mk("sym", "N")


def mkfill(base, ns, lam):
    """element-wise stores base[k(i)] = v(i) for i < n; a total one is a `vec` / `mat`"""
    n = ns[0]
    if lam.op != "lam":
        return mk("fill", base, ns, lam)
    j = mk("tmp", "f", next_tmp())
    b = ap(lam, j)
    if b.op == "kv":
        k, v = b.args
        if k is j and j not in phis(n) and vlen(base) is n or (k is j and base.op == "zeros" and base.args[0] is n):
            return mk("vec", n, mk_lam(j, v))
        if k.op == "col" and k.args[0] is j and n is NSYM:
            r = mk("tmp", "r", next_tmp())
            return mkmat(n, n, mk_lam(r, mk_lam(j, idx(v, r))))
    if b.op == "nest":
        n2, l2 = b.args
        if n is NSYM and n2 is NSYM and l2.op == "lam":
            q = mk("tmp", "q", next_tmp())
            kv = ap(l2, q)
            if kv.op == "kv" and kv.args[0].op == "agg" and len(kv.args[0].args[2]) == 2:
                r, c = kv.args[0].args[2]
                if r is j and c is q:
                    return mkmat(n, n, mk_lam(j, mk_lam(q, kv.args[1])))
                if r is q and c is j:
                    return mkmat(n, n, mk_lam(q, mk_lam(j, kv.args[1])))
    return mk("fill", base, ns, lam)


def mkmat(r, c, lam):
    return mk("mat", r, c, lam)


ZERO = fltc(0)
ONE = fltc(1)


def idx(v, i):
    """element i (int term, or tuple of two int terms for matrices)"""
    if i.op in ("col", "row"):
        if v.op == "upd" and v.args[1] is i:
            return v.args[2]
        return mk("get" + i.op, v, i.args[0])
    if v.op in ("getcol", "getrow") and (i.op != "agg" or len(i.args[2]) == 2):
        if i.op == "agg":
            i = i.args[2][0 if v.op == "getcol" else 1]
        p = (i, v.args[1]) if v.op == "getcol" else (v.args[1], i)
        return idx(v.args[0], mk("agg", "tuple", 0, p))
    if v.op == "upd":
        j = v.args[1]
        if j is i:
            return v.args[2]
        if j.op == "col":
            if i.op == "agg" and len(i.args[2]) == 2:
                d = isub(i.args[2][1], j.args[0])
                if d.op == "int":
                    if d.args[0] == 0:
                        return idx(v.args[2], i.args[2][0])
                    return idx(v.args[0], i)
        elif distinct(i, j):
            return idx(v.args[0], i)
        return mk("idx", v, i)
    if v.op == "zeros":
        return ZERO
    if v.op == "vec":
        if i.op != "agg":
            return ap(v.args[1], i)
        if i.args[2][1] is intc(0):
            return ap(v.args[1], i.args[2][0])
    if v.op == "agg" and v.args[0] == "array" and i.op == "int" and i.args[0] < len(v.args[2]):
        return v.args[2][i.args[0]]
    if v.op == "sel":
        return sel(v.args[0], idx(v.args[1], i), idx(v.args[2], i))
    if v.op == "mat" and i.op == "agg" and len(i.args[2]) == 2:
        return ap(ap(v.args[2], i.args[2][0]), i.args[2][1])
    return mk("idx", v, i)


def distinct(i, j):
    if i.op == "agg" and j.op == "agg":
        return any(distinct(a, b) for a, b in zip(i.args[2], j.args[2]))
    if i.op in ("agg", "col") or j.op in ("agg", "col"):
        return False
    d = isub(i, j)
    return d.op == "int" and d.args[0] != 0


def upd(v, i, x):
    if v.op == "upd" and v.args[1] is i:
        return upd(v.args[0], i, x)
    if x.op == "idx" and x.args[0] is v and x.args[1] is i:
        return v
    if v.op == "agg" and v.args[0] == "array" and i.op == "int" and i.args[0] < len(v.args[2]):
        return set_field(v, i.args[0], x)
    return mk("upd", v, i, x)


# ---------------------------------------------------------------- reductions
_fold_memo = {}


def eta(v):
    """vec(n, λi. V[i]) is V"""
    if v.op == "vec" and v.args[1].op == "lam":
        j = fresh_tmp("e")
        b = ap(v.args[1], j)
        if b.op == "idx" and b.args[1] is j and j not in phis(b.args[0]) and vlen(b.args[0]) is v.args[0]:
            return b.args[0]
    return v


def m_ext(op, v):
    """amax/amin/max/min of a vector, absolute values absorbed"""
    if v.op == "vec" and v.args[1].op == "lam":
        j = fresh_tmp("e")
        b = ap(v.args[1], j)
        if b.op == "fabs" and op in ("m_max", "m_amax", "m_min", "m_amin"):
            return m_ext({"m_max": "m_amax", "m_min": "m_amin"}.get(op, op), mk("vec", v.args[0], mk_lam(j, b.args[0])))
    return mk(op, eta(v))


def any_(n, lam):
    if lam.op != "lam":
        return mk("any", n, lam)
    j = fresh_tmp("q")
    b = ap(lam, j)
    if b is FALSE:
        return FALSE
    if b is TRUE:
        return ige0(isub(n, intc(1)))
    return mk("any", n, lam)


def fold_(n, init, lam):
    """fold(n, init, λi λacc. step): the folds that are a quantifier or the largest absolute value"""
    if lam.op != "lam" or n.op == "tmp":
        return mk("fold", n, init, lam)
    k = (n, init, lam)
    r = _fold_memo.get(k)
    if r is None:
        r = _fold_memo[k] = _fold(n, init, lam) or mk("fold", n, init, lam)
    return r


def _fold(n, init, lam):
    j, a = fresh_tmp("j"), fresh_tmp("acc")
    l2 = ap(lam, j)
    if l2.op != "lam":
        return None
    t = ap(l2, a)
    if init.op == "bool" or t.op in ("not", "and", "bool") or t.op == "sel" and (t.args[1].op == "bool" or t.args[2].op == "bool"):
        hi, lo = subst(t, {a: TRUE}), subst(t, {a: FALSE})
        if hi is TRUE:
            q = any_(n, mk_lam(j, lo))
            return bnot(band(bnot(init), bnot(q)))
        if lo is FALSE:
            q = any_(n, mk_lam(j, bnot(hi)))
            return band(init, bnot(q))
        return None
    if init is not ZERO:
        return None
    leaf, stack, seen = set(), [t], set()
    ks = {Fr(0)}
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "idx" and x.args[1] is j and j not in phis(x.args[0]) and a not in phis(x.args[0]):
            leaf.add(x)
            continue
        if x is j or x.op not in ("fmax", "fmin", "fabs", "sel", "flt2", "fle", "feq", "isnan", "not", "and", "flt", "fneg", "bool") and x is not a:
            return None
        if x.op == "flt" and isinstance(x.args[0], Fr):
            ks.add(x.args[0])
        stack += kids(x)
    if len(leaf) != 1:
        return None
    v = leaf.pop()
    import ev as EV
    nan, inf = float("nan"), float("inf")
    xs = [nan, inf, -inf, -0.0] + [s * (float(q) + d) for q in sorted(ks) for d in (0.0, 0.5, -0.5, 1e-9, 2.0) for s in (1, -1)] + [1e-300, 1e300, -1e300]
    z = sym("$x")
    f = subst(t, {v: z})
    ref = {"amax": lambda p, x: p if x != x or abs(x) <= p else abs(x), "nan": lambda p, x: nan if p != p or x != x else max(p, abs(x))}
    for name, g in ref.items():
        accs = [q for q in xs if q >= 0] + ([nan] if name == "nan" else [])
        try:
            ok = True
            for p in accs:
                for x in xs:
                    e = EV.Ev(EV.Ieee(), {z: x, a: p}, 1, None)
                    got, want = e(f), g(p, x)
                    if not (got == want or got != got and want != want):
                        ok = False
                        break
                if not ok:
                    break
        except (EV.Unk, TypeError, AttributeError):
            return None
        if ok:
            m = m_ext("m_amax", mk("vec", n, mk_lam(j, v)))
            if name == "amax":
                return m
            return sel(any_(n, mk_lam(j, isnan(v))), NAN, m)
    return None


SMART = {
    "any": any_, "fold": fold_, "m_amax": lambda v: m_ext("m_amax", v), "m_amin": lambda v: m_ext("m_amin", v), "m_max": lambda v: m_ext("m_max", v), "m_min": lambda v: m_ext("m_min", v),
    "lin": _relin, "imul": imul, "imin": imin, "ige0": ige0, "ieq0": lambda d: ieq(d, intc(0)),
    "not": bnot, "and": band, "sel": sel, "fneg": fneg,
    "flt": lambda *a: flt(*a) if len(a) == 2 else mk("flt", *a),
    "fle": fle, "feq": feq, "isnan": isnan,
    "f": field, "vf": vfield, "deref": deref, "cref": cref, "len": vlen, "idx": idx, "upd": upd,
    "s": lambda ps: scat(*ps),
    "updf": set_field, "fill": mkfill,
}
# NOTE: the atom `a < b` on floats is written with op "flt2" to keep "flt" for literals
SMART.pop("flt")


SMART["flt2"] = flt


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.args
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    if o == "sym":
        return ".".join(map(str, a))
    if o in ("int", "bool"):
        return str(a[0])
    if o == "flt":
        return str(float(a[0])) if isinstance(a[0], Fr) else a[0]
    if o == "phi":
        return "φ%d" % t.id
    if o == "tmp":
        return "%s%d" % a
    if o == "bv":
        return "β%d" % a[0]
    if o == "lit":
        return repr(a[0])
    if o == "s":
        return "str(" + "+".join(map(s, a[0])) + ")"
    if o == "lin":
        r = " + ".join((s(x) if k == 1 else "%d*%s" % (k, s(x))) for x, k in a[1])
        return "(%s%s)" % (r, "" if a[0] == 0 else " %+d" % a[0])
    if o == "agg":
        n = str(a[0]).split("::")[-1]
        return "%s#%d(%s)" % (n, a[1], ", ".join(map(s, a[2]))) if n not in ("tuple", "array") else "(%s)" % ", ".join(map(s, a[2]))
    if o == "f":
        return "%s.%d" % (s(a[0]), a[1])
    if o == "vf":
        return "%s.v%d.%d" % (s(a[0]), a[1], a[2])
    if o == "ref":
        return "&%s%s" % (a[0], a[1] if a[1] else "")
    if o == "cref":
        return "&" + s(a[0])
    if o == "lam":
        return "λβ%d.%s" % (a[0], s(a[1]))
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else ("(" + ", ".join(map(s, x)) + ")" if isinstance(x, tuple) else str(x)) for x in a))
