"""Configuration files (C17): the summaries of from_xml_jacobian and
from_xml_finite_diff, over an abstract document, against the documented format."""
import math, itertools, random
from chk import *
import config as C
import kernel as K

NORM = ("Abs", "Rel", "Adapt")
METHODS = {"NR": ("NewtonRaphson",), "SN": ("QuasiNewton", "StationaryNewton")}
for _s, _m in (("BROY1", "BroydenFirstMethod"), ("BROY2", "BroydenSecondMethod"), ("GRST1", "GreenstadtFirstMethod"), ("GRST2", "GreenstadtSecondMethod")):
    METHODS[_s] = ("QuasiNewton", "JacobianUpdate", _m)
    METHODS[_s + "_INV"] = ("QuasiNewton", "InverseJacobianUpdate", _m)
JAC = ("min_value", "max_value", "max_step_abs", "max_step_rel")
FD = JAC + ("dx_abs", "dx_rel", "perturbation_method")


class El:
    __slots__ = ("name", "at", "kids")

    def __init__(self, name, at=None, kids=()):
        self.name, self.at, self.kids = name, dict(at or {}), list(kids)

    def copy(self):
        return El(self.name, self.at, [k.copy() for k in self.kids])


class XDom(Domain):
    join_calls = True

    def __init__(self, n=None):
        self.n = n

    def children(self, e):
        return self.n if e.op != "parsed" else None

    def io(self, I, st, name, c, a, fr, sp):
        if name.endswith("fs::read_to_string"):
            p = I.load_all(st, a[0])
            return [(st, models().ok(mk("content", p)))]
        return None


def models():
    import models as M
    return M


def rparse(s, ty):
    """Rust's FromStr for the types used; None when it fails"""
    t = ty.split("::")[-1]
    if t in ("f64", "f32"):
        if s.strip() != s or s == "" or "_" in s:
            return None
        try:
            return float(s)
        except ValueError:
            return None
    if t in ("usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize"):
        b = s[1:] if s[:1] == "+" or (s[:1] == "-" and t[0] == "i") else s
        return int(s) if b.isdigit() else None
    if t == "bool":
        return {"true": True, "false": False}.get(s)
    if t in ("String", "str"):
        return s
    raise Unk("parsing to " + ty)


class XEv(Ev):
    root = None

    def __call__(self, t):
        o, a = t.op, t.args
        if o == "content":
            if a[0] is not PATH:
                raise Unk("content of another file: %s" % (a[0],))
            return self.root
        if o == "parsed":
            v = self(a[0])
            if isinstance(v, El):
                return v
            r = rparse(v, a[1])
            if r is None:
                raise Unk("parsed of an invalid string")
            return r
        if o == "attr":
            e = self(a[0])
            n = self(a[1])
            if not isinstance(e, El) or n not in e.at:
                raise Unk("attribute")
            return e.at[n]
        if o == "xname":
            e = self(a[0])
            if not isinstance(e, El):
                raise Unk("name")
            return e.name
        if o == "kids":
            e = self(a[0])
            if not isinstance(e, El):
                raise Unk("children")
            return e.kids
        if o == "batom" and a[0] == "has_attr":
            e = self(a[1])
            if not isinstance(e, El):
                raise Unk("attribute")
            return self(a[2]) in e.at
        if o == "batom" and a[0] == "parses":
            v = self(a[1])
            if isinstance(v, El):
                return True
            return rparse(v, a[2]) is not None
        if o == "strfn":
            v = self(a[1])
            if isinstance(v, str):
                f = {"trim": v.strip(), "trim_start": v.lstrip(), "trim_end": v.rstrip(), "to_lowercase": v.lower(), "to_uppercase": v.upper(), "to_ascii_lowercase": v.lower(), "to_ascii_uppercase": v.upper()}
                if a[0] in f:
                    return f[a[0]]
            raise Unk("string function " + str(a[0]))
        return Ev.__call__(self, t)


PATH = sym("path")


def spec(ctx, root, fd):
    """what the documented format means; None: rejected"""
    try:
        return spec_(ctx, root, fd)
    except (KeyError, ValueError):
        return None


def need(b):
    if not b:
        raise ValueError


def val_(s, ty):
    r = rparse(s, ty)
    need(r is not None)
    return r


def params(at, dflt, fd, ctx):
    out = {}
    for k in FD if fd else JAC:
        if k not in at:
            need(dflt is not None)
            out[k] = dflt[k]
        elif k == "perturbation_method":
            need(at[k] in ("Max", "Sum"))
            out[k] = at[k]
        else:
            out[k] = val_(at[k], "f64")
    need(C.accept_ip(out["max_step_abs"], out["max_step_rel"], out["min_value"], out["max_value"]))
    if fd:
        need(out["dx_abs"] > 0 and out["dx_rel"] > 0)
    return out


def spec_(ctx, root, fd):
    need(root.name == "nrf" and len(root.kids) >= 3)
    s, it, re = root.kids[:3]
    need(s.name == "solver" and it.name == "iteratives" and re.name == "residuals")
    n = val_(s.at["problem_size"], "usize")
    mi = val_(s.at["max_iter"], "usize")
    tol = val_(s.at["tolerance"], "f64")
    m = METHODS[s.at["resolution_method"]]
    damp = val_(s.at["damping"], "bool") if "damping" in s.at else False
    d = params(it.at, None, fd, ctx)
    ps = []
    for k, e in enumerate(it.kids):
        need(e.name == "iterative" and val_(e.at["id"], "usize") == k)
        ps.append(params(e.at, d, fd, ctx))
    for k in ("stopping_criteria", "update_method"):
        need(re.at[k] in NORM)
    S, U = [], []
    for k, e in enumerate(re.kids):
        need(e.name == "residual" and val_(e.at["id"], "usize") == k)
        for out, key in ((S, "stopping_criteria"), (U, "update_method")):
            v = e.at.get(key, re.at[key])
            need(v in NORM)
            out.append(v)
    need(n == len(ps) == len(S))
    mv = ctx.vvar("ResolutionMethod", "NewtonRaphson") if len(m) == 1 else ctx.vvar("ResolutionMethod", "QuasiNewton", ctx.vvar("QuasiNewtonMethod", m[1], *[ctx.vvar("UpdateQuasiNewtonMethod", x) for x in m[2:]]))
    return [[n, tol, mi, mv, damp], [params_list(ctx, p, fd) for p in ps], [ctx.vvar("NormalizationMethod", x) for x in S], [ctx.vvar("NormalizationMethod", x) for x in U]]


def params_list(ctx, p, fd):
    r = [p["max_step_abs"], p["max_step_rel"], p["min_value"], p["max_value"]]
    if fd:
        r += [p["dx_abs"], p["dx_rel"], ctx.vvar("PerturbationMethod", p["perturbation_method"])]
    return r


def base(n=3, **solver):
    s = dict(problem_size=str(n), max_iter="37", tolerance="2.5e-7", resolution_method="BROY2_INV", damping="true")
    s.update(solver)
    s = {k: v for k, v in s.items() if v is not None}
    it = dict(min_value="-101", max_value="102", max_step_abs="103.5", max_step_rel="0.104", dx_abs="105e-8", dx_rel="106e-8", perturbation_method="Sum")
    return El("nrf", {}, [El("solver", s), El("iteratives", it, [El("iterative", {"id": str(k)}) for k in range(n)]),
                          El("residuals", dict(stopping_criteria="Rel", update_method="Adapt"), [El("residual", {"id": str(k)}) for k in range(n)])])


def full(n):
    r = base(n)
    for k, e in enumerate(r.kids[1].kids):
        e.at.update(min_value="-1%d" % k, max_value="2%d" % k, max_step_abs="3%d.5" % k, max_step_rel="0.4%d" % k, dx_abs="5%de-9" % k, dx_rel="6%de-9" % k, perturbation_method=("Max", "Sum")[k % 2])
    for k, e in enumerate(r.kids[2].kids):
        e.at.update(stopping_criteria=NORM[k % 3], update_method=NORM[(k + 1) % 3])
    return r


def documents(tier):
    out = []

    def add(r, label):
        out.append((r, label))

    def mod(r, label, f):
        r = r.copy()
        f(r)
        add(r, label)
    for n in (1, 2, 3, 4):
        add(base(n), "defaults only, %d variables" % n)
        add(full(n), "every attribute, %d variables" % n)
    for m in list(METHODS) + ["nr", "BROY3", "", "BROY1_inv", "GRST", "Newton"]:
        add(base(2, resolution_method=m), "resolution_method=%r" % m)
    for d in ("true", "false", None, "True", "1", ""):
        add(base(2, damping=d), "damping=%r" % d)
    for k, vs in (("max_iter", ("0", "1", "500", "-1", "1.5", "", None)), ("tolerance", ("1e-6", "0", "inf", "abc", "", None)), ("problem_size", ("1", "3", "0", "x", "2.0", None)), ("resolution_method", (None,))):
        for v in vs:
            add(base(2, **{k: v}), "solver %s=%r" % (k, v))
    for j in (0, 1, 2):
        for k in FD:
            vals = ("Max", "Sum", "max", "") if k == "perturbation_method" else ("7.5", "inf", "-inf", "NaN", "-3", "0", "ten")
            for v in vals:
                mod(full(3), "iterative %d %s=%r among others" % (j, k, v), lambda r: r.kids[1].kids[j].at.__setitem__(k, v))
                mod(base(3), "iterative %d only %s=%r" % (j, k, v), lambda r: r.kids[1].kids[j].at.__setitem__(k, v))
            mod(full(3), "iterative %d without %s" % (j, k), lambda r: r.kids[1].kids[j].at.pop(k))
        for k in ("stopping_criteria", "update_method"):
            for v in NORM + ("abs", "", "None"):
                mod(base(3), "residual %d only %s=%r" % (j, k, v), lambda r: r.kids[2].kids[j].at.__setitem__(k, v))
                mod(full(3), "residual %d %s=%r" % (j, k, v), lambda r: r.kids[2].kids[j].at.__setitem__(k, v))
            mod(full(3), "residual %d without %s" % (j, k), lambda r: r.kids[2].kids[j].at.pop(k))
    for k in FD:
        mod(full(2), "iteratives without %s" % k, lambda r: r.kids[1].at.pop(k))
        for v in (("Max", "Sum", "Any") if k == "perturbation_method" else ("8.25", "inf", "-inf", "NaN", "-4", "0", "x")):
            mod(base(2), "iteratives %s=%r" % (k, v), lambda r: r.kids[1].at.__setitem__(k, v))
            mod(full(2), "iteratives %s=%r, overridden" % (k, v), lambda r: r.kids[1].at.__setitem__(k, v))
    for k in ("stopping_criteria", "update_method"):
        mod(full(2), "residuals without %s" % k, lambda r: r.kids[2].at.pop(k))
        for v in NORM + ("rel", ""):
            mod(base(2), "residuals %s=%r" % (k, v), lambda r: r.kids[2].at.__setitem__(k, v))
            mod(full(2), "residuals %s=%r, overridden" % (k, v), lambda r: r.kids[2].at.__setitem__(k, v))
    # node names, order, ids, sizes
    mod(base(2), "root name", lambda r: setattr(r, "name", "root"))
    for k in range(3):
        mod(base(2), "section %d renamed" % k, lambda r: setattr(r.kids[k], "name", "section"))
        mod(base(2), "section %d missing" % k, lambda r: r.kids.pop(k))
    mod(base(2), "sections swapped", lambda r: r.kids.reverse())
    for sec, nm in ((1, "iterative"), (2, "residual")):
        for j in (0, 1, 2):
            mod(base(3), "%s %d renamed" % (nm, j), lambda r: setattr(r.kids[sec].kids[j], "name", "item"))
            mod(base(3), "%s %d without id" % (nm, j), lambda r: r.kids[sec].kids[j].at.pop("id"))
            for v in ("7", "-1", "a", "0", "1", "2", "3"):
                mod(base(3), "%s %d id=%r" % (nm, j, v), lambda r: r.kids[sec].kids[j].at.__setitem__("id", v))
        mod(base(3), "%s ids swapped" % nm, lambda r: r.kids[sec].kids.reverse())
        for n in (0, 1, 2, 4):
            mod(base(3), "%d %ss for size 3" % (n, nm), lambda r: setattr(r.kids[sec], "kids", [El(nm, {"id": str(q)}) for q in range(n)]))
    # presence patterns
    rnd = random.Random(1)
    for q in range(60 if tier == "quick" else 1500):
        n = 1 + q % 4
        r = base(n, resolution_method=rnd.choice(list(METHODS)), damping=rnd.choice(("true", "false", None)), max_iter=str(rnd.randint(0, 99)), tolerance="%g" % rnd.random())
        f = full(n)
        for sec in (1, 2):
            for e, g in zip(r.kids[sec].kids, f.kids[sec].kids):
                for k, v in g.at.items():
                    if rnd.random() < 0.5:
                        e.at[k] = v
        add(r, "presence pattern %d" % q)
    return out


def bound(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op in ("phi", "bv", "tmp"):
        acc.add(t)
        return
    sub = set() if t.op == "lam" else acc
    for k in TM.kids(t):
        bound(k, sub, seen)
    if t.op == "lam":
        acc |= {x for x in sub if x.op == "phi" or x.op == "tmp" and x not in TM.kids(t)}


def panic_holds(e, facts, free):
    """does the guard of a panic hold for some value of the loop index it mentions"""
    if len(free) > 2:
        raise Unk("panic below nested loops")
    worst = False
    free = sorted(free, key=repr)
    for ks in itertools.product(range(6), repeat=len(free)):
        x = e
        if free:
            x = XEv(e.D, {**e.env, **dict(zip(free, ks))}, e.n, e.prog)
            x.root = e.root
        res = True
        for a, v in facts.items():
            try:
                if not x.holds({a: v}):
                    res = False
                    break
            except (Unk, IndexError, AttributeError, TypeError):
                res = None
        if res:
            return True
        if res is None:
            worst = None
    if worst is None:
        raise Unk("guard of a panic")
    return False


def decide(ctx, s, par, it, root, want):
    """the verdict of a summary on a document class: None, or what is wrong"""
    i = sym("i")
    e = XEv(IEEE, {}, 2, ctx.p)
    e.root = root
    pan = unk = None
    for p, free in zip(s.panics, s.pfree):
        try:
            if panic_holds(e, p[3].facts, free):
                pan = p
                break
        except Unk as ex:
            unk = ex
    if want is None:
        if pan is None:
            if unk is not None:
                raise unk
            return "is accepted although it is not well formed"
        return None
    if pan is not None:
        return "is rejected at %s although it is well formed" % (pan[2],)
    if unk is not None:
        raise unk
    hits = select(e, s.results)
    if not hits:
        raise Unk("no outcome derived")
    for st, v in hits:
        v = s.I.load_all(st, v)
        v = v.args[2]
        got = [par(e, st, v[0])]
        cnt = len(e(v[1]))
        got.append([])
        for k in range(cnt):
            e2 = XEv(IEEE, {i: k}, 2, ctx.p)
            e2.root = root
            got[1].append(it(e2, st, idx(v[1], i)))
        got += [e(v[2]), e(v[3])]
        for nm, a, b in zip(("solver parameters", "iteratives", "stopping criterias", "update methods"), got, want):
            if not e.same(a, b):
                return "%s read as %s, written %s" % (nm, pv(a), pv(b))
    return None


def summary(ctx, f, n=None):
    s = ctx.summ(f, [cref(PATH)], st=St(), dom=XDom(n))
    s.pfree = []
    for p in s.panics:
        acc = set()
        seen = set()
        for a in p[3].facts:
            bound(a, acc, seen)
        s.pfree.append(acc)
    return s


BAD = (Unk, IndexError, AttributeError, TypeError, KeyError)


def documents_check(ctx, name, fd):
    f = ctx.fn(name, free=True)
    sums = {}

    def of(n):
        if n not in sums:
            try:
                sums[n] = summary(ctx, f, n)
            except Exception as ex:
                if n is None:
                    raise
                sums[n] = Unk("with %d children: %s" % (n, ex))
        if isinstance(sums[n], Exception):
            raise sums[n]
        return sums[n]
    of(None)
    loc = ctx.loc(f)
    rule = "configuration file"
    par = C.reader(ctx, "SolverParameters", ["get_problem_size", "get_tolerance", "get_max_iter", "get_resolution_method", "get_damping"])
    it = C.reader(ctx, "IterativeParamsFD" if fd else "IterativeParams", C.FDG if fd else C.IPG)
    groups = {}
    for root, label in documents(ctx.tier):
        want = spec(ctx, root, fd)
        grp = "%s: %s" % (name, "accepted documents" if want else "rejected documents")
        g = groups.setdefault(grp, [0, 0])
        g[0] += 1
        try:
            try:
                bad = decide(ctx, of(None), par, it, root, want)
            except BAD as ex:
                # a loop over the nodes without a closed form: the same document
                # classes with the number of nodes fixed, the loop unrolled
                c = {len(k.kids) for k in root.kids[1:3]}
                if len(root.kids) != 3 or len(c) != 1 or max(c) > 4:
                    raise
                bad = decide(ctx, of(c.pop()), par, it, root, want)
        except BAD as ex:
            g[1] += 1
            ctx.unk(rule, "%s [%s]" % (grp, label), loc, "%s: %s" % (type(ex).__name__, ex))
            continue
        if bad:
            g[1] += 1
            ctx.bad(rule, grp, loc, "document [%s] %s" % (label, bad), "%s|%s|%s" % (rule, name, label))
    for g, (n, b) in groups.items():
        if not b:
            ctx.ok(rule, g, loc, "%d document classes" % n)


def jac(ctx):
    documents_check(ctx, "from_xml_jacobian", False)


def fd(ctx):
    documents_check(ctx, "from_xml_finite_diff", True)
