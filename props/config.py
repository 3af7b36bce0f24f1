"""Constructors, accessors and defaults (C16, C21, C22)."""
import itertools, math
from chk import *
import kernel as K

INF, NAN = math.inf, math.nan
VALS = (NAN, -INF, -1.0, -0.0, 0.0, 5e-324, 0.5, 1.0, 2.0, INF)


def reader(ctx, adt, names):
    """(ev, value term) -> list of what the accessors return"""
    fs = [ctx.fn(n, adt) for n in names]
    memo = {}

    def read(e, st, v):
        out = []
        for n, f in zip(names, fs):
            if (n, v) not in memo:
                byval = not f.locals[1].startswith("&")
                memo[(n, v)] = ctx.summ(f, [v if byval else cref(v)])
            s = memo[(n, v)]
            hits = select(e, s.results)
            if not hits:
                raise Unk("%s returns nothing" % n)
            r = [val(e, s.I.load_all(a, b)) for a, b in hits]
            out.append(r[0])
        return out
    return read


def val(e, t):
    return e(t)


IPG = ["get_max_step_abs", "get_max_step_rel", "get_min_value", "get_max_value"]
FDG = IPG + ["get_dx_abs", "get_dx_rel", "get_perturbation_method"]


def accept_ip(a, r, lo, hi):
    return a > 0 and r > 0 and lo < hi


def iterative_params(ctx):
    S = [sym(n) for n in ("max_step_abs", "max_step_rel", "min_value", "max_value")]
    f = ctx.fn("new", "IterativeParams")
    s = ctx.summ(f, S)
    rd = reader(ctx, "IterativeParams", IPG)
    vs = VALS if ctx.tier == "thorough" else VALS[:5] + VALS[6:]
    cl = []
    for k, v in enumerate(itertools.product(vs, repeat=4)):
        if ctx.tier != "thorough" and not (accept_ip(v[0], v[1], 0, 1) or accept_ip(1, 1, v[2], v[3])) and k % 7:
            continue
        cl.append((IEEE, dict(zip(S, v)), 2, "%g,%g,[%g,%g]" % v))
    ctx.compare("constructor.accepts", "IterativeParams::new", s, cl, lambda e, l: [e(x) for x in S] if accept_ip(*(e(x) for x in S)) else "panic", project=rd)


def iterative_params_fd(ctx):
    S = [sym(n) for n in ("max_step_abs", "max_step_rel", "min_value", "max_value")]
    da, dr, pm = sym("dx_abs"), sym("dx_rel"), sym("method")
    PM = ctx.variants("PerturbationMethod")
    rd = reader(ctx, "IterativeParamsFD", FDG)
    f = ctx.fn("new", "IterativeParamsFD")
    s = ctx.summ(f, S + [da, dr, pm])
    A = S + [da, dr, pm]
    cl = []
    base = [(1.0, 2.0, -3.0, 4.0), (INF, INF, -INF, INF), (0.0, 1.0, 0.0, 1.0), (1.0, 1.0, 1.0, 1.0), (1.0, NAN, 0.0, 1.0), (-1.0, 1.0, -1.0, 1.0), (1.0, 1.0, NAN, 1.0), (1.0, 1.0, 1.0, NAN), (1.0, 0.0, 0.0, 2.0), (NAN, 1.0, 0.0, 1.0)]
    for m in PM:
        mv = ctx.vvar("PerturbationMethod", m)
        for b in base:
            for x in itertools.product(VALS, repeat=2):
                cl.append((IEEE, dict(zip(A, b + x + (mv,))), 2, "%s,dx=%s,%s" % (b, x, m)))
    for v in itertools.product((-1.0, 0.0, 0.5, NAN, INF), repeat=2):
        for w in ((0.25, 0.5), (0.5, -1.0)):
            cl.append((IEEE, dict(zip(A, (1.0, 1.0) + v + w + (ctx.vvar("PerturbationMethod", PM[0]),))), 2, "bounds=%s,dx=%s" % (v, w)))
            cl.append((IEEE, dict(zip(A, v + (0.0, 1.0) + w + (ctx.vvar("PerturbationMethod", PM[0]),))), 2, "steps=%s,dx=%s" % (v, w)))

    def want(e, l):
        v = [e(x) for x in A]
        return v if accept_ip(*v[:4]) and v[4] > 0 and v[5] > 0 else "panic"
    ctx.compare("constructor.accepts", "IterativeParamsFD::new", s, cl, want, project=rd)
    # extend: from an accepted IterativeParams
    ip = ctx.build("new", "IterativeParams", S)
    g = ctx.fn("extend", "IterativeParamsFD")
    s = ctx.summ(g, [ip, da, dr, pm])
    cl = [c for c in cl if accept_ip(*(c[1][x] for x in S))]
    ctx.compare("constructor.accepts", "IterativeParamsFD::extend", s, cl, want, project=rd)
    h = ctx.fn("get_iterative_params", "IterativeParamsFD")
    rd2 = reader(ctx, "IterativeParams", IPG)
    for o, nm in ((ctx.build("new", "IterativeParamsFD", A), "new"), (ctx.build("extend", "IterativeParamsFD", [ip, da, dr, pm]), "extend")):
        s = ctx.summ(h, [cref(o)])
        cl1 = [c for c in cl if c[1][da] > 0 and c[1][dr] > 0][:4]
        ctx.compare("accessor", "IterativeParamsFD::get_iterative_params after %s" % nm, s, cl1, lambda e, l: [e(x) for x in S], project=lambda e, st, v: rd2(e, st, s.I.load_all(st, v)))


def vec(n, tag):
    return [10.0 * tag + i for i in range(n)]


def shapes(ctx):
    """constructors that compare dimensions (lengths independent of one another)"""
    L, R = sym("L"), sym("R")
    f = ctx.fn("new", "ResidualsValues")
    s = ctx.summ(f, [L, R], st=St())
    fl, fg, fsh = ctx.fn("len", "ResidualsValues"), ctx.fn("get_values", "ResidualsValues"), ctx.fn("shape", "ResidualsValues")
    i = sym("i")

    def rd(e, st, v):
        n = len(e(L))
        r = [rdn(ctx, e, fl, [cref(v)]), rdn(ctx, e, fsh, [cref(v)])]
        for k in range(n):
            e2 = Ev(e.D, {**e.env, i: k}, e.n, ctx.p)
            r.append(rdn(ctx, e2, fg, [cref(v), i]))
        return r
    NS = ctx.sizes(range(5), s, most=600)
    cl = [(IEEE, {L: vec(n, 1), R: vec(m, 2)}, n, "left %d, right %d" % (n, m)) for n in NS for m in NS]
    ctx.compare("constructor.accepts", "ResidualsValues::new", s, cl, lambda e, l: [len(e(L)), len(e(L))] + [[a, b] for a, b in zip(e(L), e(R))] if len(e(L)) == len(e(R)) else "panic", project=rd)
    # ResidualsConfig
    S, U = sym("stop"), sym("upd")
    f = ctx.fn("new", "ResidualsConfig")
    s = ctx.summ(f, [cref(S), cref(U)], st=St())
    gl, gs, gu = ctx.fn("len", "ResidualsConfig"), ctx.fn("get_stopping_criterias", "ResidualsConfig"), ctx.fn("get_update_methods", "ResidualsConfig")
    M = [ctx.vvar("NormalizationMethod", m) for m in K.NORMS]
    cl = []
    NS = ctx.sizes(range(5), s, most=600)
    for n in NS:
        for m in NS:
            cl.append((IEEE, {S: [M[k % 3] for k in range(n)], U: [M[(2 * k + 1) % 3] for k in range(m)]}, n, "stopping %d, update %d" % (n, m)))
    ctx.compare("constructor.accepts", "ResidualsConfig::new", s, cl, lambda e, l: [len(e(S)), e(S), e(U)] if len(e(S)) == len(e(U)) else "panic",
                project=lambda e, st, v: [rdn(ctx, e, g, [cref(v)]) for g in (gl, gs, gu)])
    # JacobianValues
    A, B = sym("A"), sym("B")
    f = ctx.fn("new", "JacobianValues")
    s = ctx.summ(f, [A, B], st=St())
    gj = ctx.fn("get_jacobians", "JacobianValues")
    cl = []
    for r1, c1, r2, c2 in itertools.product(ctx.sizes((1, 2, 3, 4, 9), s, most=30), repeat=4):
        cl.append((IEEE, {A: Mat(r1, c1, [[1.0 + 10 * a + b for b in range(c1)] for a in range(r1)]), B: Mat(r2, c2, [[500.0 + 10 * a + b for b in range(c2)] for a in range(r2)])}, r1, "left %dx%d, right %dx%d" % (r1, c1, r2, c2)))
    ctx.compare("constructor.accepts", "JacobianValues::new", s, cl, lambda e, l: [e(A), e(B)] if len({e(A).r, e(A).c, e(B).r, e(B).c}) == 1 else "panic",
                project=lambda e, st, v: rdn(ctx, e, gj, [cref(v)]))


def rdn(ctx, e, f, args):
    k = ("rdn", f.key) + tuple(args)
    if k not in ctx.cache:
        s = ctx.summ(f, args, st=St())
        ctx.cache[k] = s
    s = ctx.cache[k]
    hits = select(e, s.results)
    if not hits:
        raise Unk("%s returns nothing" % f.key)
    vs = [norm(e, s.I, a, b) for a, b in hits]
    return vs[0]


def norm(e, I, st, v):
    v = I.load_all(st, v)
    if v.op == "tuple" or (v.op == "agg" and v.args[0] in ("tuple", "()")):
        return [norm(e, I, st, x) for x in (v.args[-1] if isinstance(v.args[-1], tuple) else v.args)]
    return e(v)


def rootfinder(ctx):
    ps, tol, mi, rm, dp = (sym(n) for n in ("ps", "tol", "max_iter", "method", "damping"))
    g, pr, S, U = sym("guess"), sym("params"), sym("stop"), sym("upd")
    par = ctx.build("new", "SolverParameters", [ps, tol, mi, rm, dp])
    its = ctx.build("new", "Iteratives", [cref(pr)])
    f = ctx.fn("new", "ResidualsConfig")
    vs = {v for _, v in ctx.summ(f, [cref(S), cref(U)], st=St()).results}
    if len(vs) != 1:
        raise Unk("ResidualsConfig::new has %d results" % len(vs))
    rc = vs.pop()
    fn = ctx.fn("new", "RootFinder")
    s = ctx.summ(fn, [par, g, cref(its), cref(rc)], st=St())
    M = [ctx.vvar("NormalizationMethod", m) for m in K.NORMS]
    cl = []
    NS = ctx.sizes((0, 1, 2, 3, 4), s, most=200)
    for n in NS:
        for a, b, c in itertools.product(NS, repeat=3) if len(NS) <= 9 else near(n, NS):
            cl.append((IEEE, {ps: n, g: vec(a, 1), pr: vec(b, 2), S: [M[0]] * c, U: [M[1]] * c}, n, "size %d, guess %d, iteratives %d, residuals %d" % (n, a, b, c)))
    ctx.compare("constructor.accepts", "RootFinder::new", s, cl, lambda e, l: "accepted" if e(ps) == len(e(g)) == len(e(pr)) == len(e(S)) else "panic", project=lambda e, st, v: "accepted")


def near(n, ns):
    """every triple of lengths at most one or two of which differ from n"""
    out = {(n, n, n)}
    for m in ns:
        for q in ns:
            out |= {(m, q, n), (m, n, q), (n, m, q), (m, m, m)}
    return sorted(out)


def accessors(ctx):
    """the accessors not covered by the constructor obligations"""
    A = [sym(n) for n in ("ps", "tol", "max_iter", "method", "damping")]
    par = ctx.build("new", "SolverParameters", A)
    for n, a in zip(("get_problem_size", "get_tolerance", "get_max_iter", "get_resolution_method", "get_damping"), A):
        f = ctx.fn(n, "SolverParameters")
        for v, lab in {"ps": [(0, "0"), (7, "7")], "tol": [(1e-9, "1e-9"), (0.0, "0"), (-1.0, "-1"), (INF, "inf")], "max_iter": [(0, "0"), (1, "1"), (50, "50")], "damping": [(True, "true"), (False, "false")],
                       "method": [(m, l) for m, l in methods(ctx)]}[a.args[0]]:
            ctx.compare("accessor", "SolverParameters::" + n, ctx.summ(f, [cref(par)]), [(IEEE, {a: v}, 2, lab)], lambda e, l: e(a))
    x, y = sym("stopping"), sym("update")
    rc = ctx.build("new", "ResidualConfig", [x, y])
    M = [(ctx.vvar("NormalizationMethod", m), m) for m in K.NORMS]
    cl = [(IEEE, {x: a, y: b}, 2, p + "/" + q) for a, p in M for b, q in M]
    ctx.compare("accessor", "ResidualConfig::get_stopping_criteria", ctx.summ(ctx.fn("get_stopping_criteria", "ResidualConfig"), [rc]), cl, lambda e, l: e(x))
    ctx.compare("accessor", "ResidualConfig::get_update_method", ctx.summ(ctx.fn("get_update_method", "ResidualConfig"), [rc]), cl, lambda e, l: e(y))
    # convert_into_vecs keeps order and length
    v = sym("list")
    f = ctx.fn("convert_into_vecs", "ResidualsConfig")
    s = ctx.summ(f, [v])
    adt = ctx.adt("ResidualConfig")
    gs, gu = ctx.fn("get_stopping_criteria", "ResidualConfig"), ctx.fn("get_update_method", "ResidualConfig")
    cl = []
    mk_ = lambda k: ctx.vvar("NormalizationMethod", K.NORMS[k % 3])
    for n in ctx.sizes((1, 2, 3, 4), s, most=600):
        for off in range(9):
            want = ([mk_(off + k) for k in range(n)], [mk_(off // 3 + 2 * k) for k in range(n)])
            items = [built(ctx, rc, {x: a, y: b}) for a, b in zip(*want)]
            cl.append((IEEE, {v: items}, n, "%d items, pattern %d" % (n, off)))
            WANT[(n, off)] = want
    ctx.compare("accessor", "ResidualsConfig::convert_into_vecs", s, cl, lambda e, l: list(WANT[tuple(int(q) for q in l.replace(" items, pattern", "").split())]), project=lambda e, st, t: norm(e, s.I, st, t))
    # Iteratives::len
    p = sym("params")
    its = ctx.build("new", "Iteratives", [cref(p)])
    s = ctx.summ(ctx.fn("len", "Iteratives"), [cref(its)], st=St())
    ctx.compare("accessor", "Iteratives::len", s, [(IEEE, {p: vec(n, 0)}, n, "%d" % n) for n in ctx.sizes(range(5), s)], lambda e, l: len(e(p)))


WANT = {}


def built(ctx, t, env):
    return Ev(IEEE, env, 2, ctx.p)(t)


def methods(ctx):
    out = [(ctx.vvar("ResolutionMethod", "NewtonRaphson"), "NewtonRaphson"), (ctx.vvar("ResolutionMethod", "QuasiNewton", ctx.vvar("QuasiNewtonMethod", "StationaryNewton")), "StationaryNewton")]
    for k in ("JacobianUpdate", "InverseJacobianUpdate"):
        for q in ctx.variants("UpdateQuasiNewtonMethod"):
            out.append((ctx.vvar("ResolutionMethod", "QuasiNewton", ctx.vvar("QuasiNewtonMethod", k, ctx.vvar("UpdateQuasiNewtonMethod", q))), k + " " + q))
    return out


def defaults(ctx):
    any_ = [(IEEE, {}, 2, "any")]

    def default(adt):
        f = ctx.fn("default", adt, "Default")
        s = ctx.summ(f, [])
        if len(s.results) != 1:
            raise Unk("default of %s" % adt)
        return s
    s = default("IterativeParams")
    rd = reader(ctx, "IterativeParams", IPG)
    ctx.compare("default", "IterativeParams", s, any_, lambda e, l: [INF, INF, -INF, INF], project=rd)
    s = default("IterativeParamsFD")
    rd2 = reader(ctx, "IterativeParamsFD", FDG)
    wfd = [INF, INF, -INF, INF, 5e-8, 5e-8, ctx.vvar("PerturbationMethod", "Max")]
    ctx.compare("default", "IterativeParamsFD", s, any_, lambda e, l: wfd, project=rd2)
    s = default("ResidualConfig")
    ab = ctx.vvar("NormalizationMethod", "Abs")
    rd3 = reader(ctx, "ResidualConfig", ["get_stopping_criteria", "get_update_method"])
    ctx.compare("default", "ResidualConfig", s, any_, lambda e, l: [ab, ab], project=rd3)
    # vectors: length and every element
    n, i = sym("size"), sym("i")
    for fn, rdr, want in (("default_vec_iteratives", rd, [INF, INF, -INF, INF]), ("default_vec_iteratives_fd", rd2, wfd), ("default_vec_residuals", rd3, [ab, ab])):
        f = ctx.fn(fn, free=True)
        s = ctx.summ(f, [n], st=St())
        ctx.compare("default", fn + " length", s, [(IEEE, {n: k}, max(k, 1), "size %d" % k) for k in ctx.sizes(range(5), s)], lambda e, l: e(n), project=lambda e, st, v: length(e, s, st, v))
        ctx.compare("default", fn + " elements", s, [(IEEE, {n: k, i: j}, k, "size %d, element %d" % (k, j)) for k in ctx.sizes(range(1, 5), s, most=200) for j in range(k)], lambda e, l: want,
                    project=lambda e, st, v: rdr(e, st, idx(s.I.load_all(st, v), i)))


def length(e, s, st, v):
    v = s.I.load_all(st, v)
    return len(e(v))


def default_solver(ctx):
    """default_with_guess against SolverParameters / RootFinder::new called with the documented values"""
    g, pr, S, U, m, d = sym("guess"), sym("params"), sym("stop"), sym("upd"), sym("method"), sym("damping")
    its = ctx.build("new", "Iteratives", [cref(pr)])
    rc = ctx.build("new", "ResidualsConfig", [cref(S), cref(U)])
    f = ctx.fn("default_with_guess", free=True)
    s = ctx.summ(f, [g, cref(its), cref(rc), m, d])
    par = ctx.build("new", "SolverParameters", [NSYM, fltc("1e-6"), intc(50), m, d])
    t = ctx.summ(ctx.fn("new", "RootFinder"), [par, g, cref(its), cref(rc)])
    want = {v for _, v in t.results}
    got = {v for _, v in s.results}
    loc = ctx.loc(f)
    if len(want) == 1 and got == want:
        return ctx.ok("default", "default_with_guess", loc, "same solver as RootFinder::new with tolerance 1e-6, 50 iterations and the arguments given")
    if len(want) != 1 or not got:
        return ctx.unk("default", "default_with_guess", loc, "%d/%d results" % (len(got), len(want)))
    # not the same term: case by case, over problem sizes (around every constant of the
    # derived terms), methods and damping
    (tst, b), = t.results
    n = und = 0
    for size in ctx.sizes((1, 2, 3, 4, 9, 49, 50, 51, 101), s):
        M = [ctx.vvar("NormalizationMethod", q) for q in K.NORMS]
        base = {g: [0.25 + k for k in range(size)], pr: [Opq(("param", k)) for k in range(size)], S: [M[k % 3] for k in range(size)], U: [M[(k // 3) % 3] for k in range(size)]}
        for (mv, ml), dv in itertools.product(methods(ctx), (False, True)):
            e = Ev(IEEE, {**base, m: mv, d: dv}, size, ctx.p)
            lab = "problem size %d, method %s, damping %s" % (size, ml, dv)
            try:
                hits = select(e, s.results)
                if not hits:
                    if any(e.holds(p[3].facts) for p in s.panics):
                        return ctx.bad("default", "default_with_guess", loc, lab + ": refused")
                    raise Unk("no outcome")
                for st, a in hits:
                    df, sure = diff(ctx, s.I.load_all(st, a), b, e=e) or (None, False)
                    if df and sure:
                        return ctx.bad("default", "default_with_guess", loc, lab + ": " + df)
                    if df:
                        raise Unk(df)
                n += 1
            except (Unk, IndexError, AttributeError, TypeError, ZeroDivisionError) as ex:
                und += 1
                why = "%s: %s" % (lab, ex)
    if und:
        ctx.unk("default", "default_with_guess", loc, "%d of %d classes, e.g. %s" % (und, n + und, why))
    else:
        ctx.ok("default", "default_with_guess", loc, "%d classes" % n)


def diff(ctx, a, b, path="", e=None):
    if a is b or (a.op == b.op == "flt" and float(a.args[0]) == float(b.args[0])):
        return None
    if a.op == b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args[2]) == len(b.args[2]):
        fs = ctx.p.adts.get(a.args[0], {}).get("variants", [{}])[a.args[1]].get("fields", []) if a.args[0] in ctx.p.adts else []
        for k, (x, y) in enumerate(zip(a.args[2], b.args[2])):
            nm = fs[k]["name"] if k < len(fs) and isinstance(fs[k], dict) else str(k)
            r = diff(ctx, x, y, path + "." + nm, e)
            if r:
                return r
        return None
    if e is not None:
        try:
            x, y = e(a), e(b)
            if e.same(x, y):
                return None
            return "field %s is %s, required %s" % (path, pv(x), pv(y)), True
        except (Unk, IndexError, AttributeError, TypeError):
            pass
    plain = ("flt", "int", "bool", "sym", "n")
    return "field %s is %s, required %s" % (path, show(a), show(b)), a.op in plain and b.op in plain or a.op == b.op == "agg" and a.args[0] == b.args[0] and a.args[1] != b.args[1]
