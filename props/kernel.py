"""Obligations on the numerical kernel (one function each)."""
import itertools, math
from chk import *

NORMS = ("Abs", "Rel", "Adapt")


# ---------------------------------------------------------------- residual normalisation
def spec_norm(D, m, x, y):
    d, s = D.sub(x, y), D.add(x, y)
    half = D.div(D.abs(s), D.const(2))
    if m == "Abs":
        return d
    if m == "Rel":
        return D.div(d, half)
    return D.div(d, D.add(D.const(1), half))


def spec_deriv(D, m, x, y, dx, dy):
    """derivative of spec_norm along (dx, dy) where it is differentiable"""
    d, s = D.sub(x, y), D.add(x, y)
    dd, ds = D.sub(dx, dy), D.add(dx, dy)
    sg = D.sgn(s)
    two = D.const(2)
    if m == "Abs":
        return dd
    if m == "Rel":
        # 2 d / |s|
        num = D.sub(D.mul(dd, D.abs(s)), D.mul(d, D.mul(sg, ds)))
        return D.div(D.mul(two, num), D.mul(s, s))
    den = D.add(D.const(1), D.div(D.abs(s), two))
    num = D.sub(D.mul(dd, den), D.mul(d, D.div(D.mul(sg, ds), two)))
    return D.div(num, D.mul(den, den))


def xy_classes(ctx, x, y, meth=None):
    """sign classes of x, y, x+y, x-y with indeterminates, then the special values"""
    out = []
    for a, b in ((Fr(7, 3), Fr(5, 7)), (Fr(5, 7), Fr(7, 3)), (Fr(-7, 3), Fr(5, 7)), (Fr(-5, 7), Fr(7, 3)), (Fr(7, 3), Fr(-5, 7)), (Fr(5, 7), Fr(-7, 3)), (Fr(-7, 3), Fr(-5, 7)), (Fr(-5, 7), Fr(-7, 3)),
                 (Fr(3001, 1000), Fr(-3000, 1000)), (Fr(-3001, 1000), Fr(3000, 1000)), (Fr(400007, 3), Fr(77, 10**6)), (Fr(77, 10**6), Fr(53, 10**6)), (Fr(-77, 10**6), Fr(53, 10**6)), (Fr(1, 10**9), Fr(10**7))):
        out.append((GEN, {x: gvar("x", a), y: gvar("y", b)}, 2, "x~%g,y~%g" % (a, b)))
    return out


SPECIALS = (0.0, -0.0, 1.0, -2.0, math.inf, -math.inf, math.nan)


def normalization(ctx):
    f = ctx.fn("normalization", free=True)
    x, y, m = sym("x"), sym("y"), sym("m")
    s = ctx.summ(f, [x, y, m])
    for name in NORMS:
        mv = ctx.vvar("NormalizationMethod", name)
        cl = [(d, {**env, m: mv}, n, lab) for d, env, n, lab in xy_classes(ctx, x, y)]
        ctx.compare("norm.formula", "normalization(%s)" % name, s, cl, lambda e, l: spec_norm(e.D, name, e(x), e(y)))
        # special values: finite classes by the formula, non finite values must not look converged
        cl = []
        for a, b in itertools.product(SPECIALS, SPECIALS):
            cl.append((IEEE, {x: a, y: b, m: mv}, 2, "x=%r,y=%r" % (a, b)))
        ctx.compare("norm.special", "normalization(%s)" % name, s, cl, lambda e, l: spec_norm(e.D, name, e(x), e(y)),
                    project=lambda e, st, v: squash(e, e(v), spec_norm(e.D, name, e(x), e(y))))


def squash(e, got, want):
    """only the finiteness matters for a non finite value"""
    if not math.isfinite(want):
        return want if not math.isfinite(got) else got
    return got


def deriv_normalization(ctx):
    f = ctx.fn("deriv_normalization", free=True)
    x, y, dx, dy, m = (sym(n) for n in ("x", "y", "dx", "dy", "m"))
    s = ctx.summ(f, [x, y, dx, dy, m])
    for name in NORMS:
        mv = ctx.vvar("NormalizationMethod", name)
        cl = []
        for d, env, n, lab in xy_classes(ctx, x, y):
            for p, q in ((Fr(11, 13), Fr(17, 19)), (Fr(-11, 13), Fr(17, 19)), (Fr(11, 13), Fr(-17, 19)), (Fr(-11, 13), Fr(-17, 19))):
                cl.append((d, {**env, dx: gvar("dx", p), dy: gvar("dy", q), m: mv}, n, lab + ",dx~%+g,dy~%+g" % (p, q)))
        ctx.compare("norm.derivative", "deriv_normalization(%s)" % name, s, cl, lambda e, l: spec_deriv(e.D, name, e(x), e(y), e(dx), e(dy)))


def res_objects(ctx):
    if "res" not in ctx.cache:
        L, R = sym("L"), sym("R")
        S, U = sym("stop"), sym("upd")
        rv = ctx.build("new", "ResidualsValues", [L, R])
        rc = ctx.build("new", "ResidualsConfig", [cref(S), cref(U)])
        ctx.cache["res"] = (L, R, S, U, rv, rc)
    return ctx.cache["res"]


def method_lists(ctx, n):
    if n > 3:
        return [[ctx.vvar("NormalizationMethod", NORMS[(k + i + i // 3) % 3]) for i in range(n)] for k in range(3)]
    return [[ctx.vvar("NormalizationMethod", m) for m in ms] for ms in itertools.product(NORMS, repeat=n)]


def names(ctx, vs):
    return "/".join(ctx.variants("NormalizationMethod")[v.v] for v in vs)


def eval_residuals(ctx, which):
    """which: update / stopping"""
    f = ctx.fn("evaluate_%s_residuals" % which, "ResidualsConfig")
    L, R, S, U, rv, rc = res_objects(ctx)
    s = ctx.summ(f, [cref(rc), cref(rv)])
    for n in ctx.sizes((1, 2, 3), s, most=600):
        cl = []
        ml = method_lists(ctx, n)
        for ms in ml:
            # the other list is different in every place: using it is visible
            other = [ctx.vvar("NormalizationMethod", NORMS[(NORMS.index(ctx.variants("NormalizationMethod")[v.v]) + 1) % 3]) for v in ms]
            env = {L: gvec("L", n), R: gvec("R", n), S: ms if which == "stopping" else other, U: ms if which == "update" else other}
            cl.append((GEN, env, n, "n=%d methods=%s" % (n, names(ctx, ms))))
            env = dict(env)
            env[L] = [G(P0.add(g.n, -1), g.d, -g.s) for g in gvec("L", n)]
            env[R] = gvec("L2", n)
            cl.append((GEN, env, n, "n=%d methods=%s (other signs)" % (n, names(ctx, ms))))

        def want(e, lab):
            ms = e.env[S if which == "stopping" else U]
            r = []
            for a, b, m in zip(e.env[L], e.env[R], ms):
                v = spec_norm(e.D, ctx.variants("NormalizationMethod")[m.v], a, b)
                r.append(e.D.abs(v) if which == "stopping" else v)
            return r
        ctx.compare("residuals." + which, "evaluate_%s_residuals n=%d" % (which, n), s, cl, want)
        sp = []
        for ms in ml:
            for v in (math.nan, math.inf, -math.inf):
                for k in range(n) if n <= 40 else (0, n // 2, n - 2, n - 1):
                    l = [2.0] * n
                    l[k] = v
                    sp.append((IEEE, {L: l, R: [1.0] * n, S: ms, U: ms}, n, "L[%d]=%r methods=%s" % (k, v, names(ctx, ms))))

        def wants(e, lab):
            ms = e.env[S]
            r = []
            for a, b, m in zip(e.env[L], e.env[R], ms):
                v = spec_norm(e.D, ctx.variants("NormalizationMethod")[m.v], a, b)
                v = abs(v) if which == "stopping" else v
                r.append(v if math.isfinite(v) else math.nan)
            return r
        ctx.compare("residuals.%s.nonfinite" % which, "evaluate_%s_residuals n=%d" % (which, n), s, sp, wants,
                    project=lambda e, st, v: [x if math.isfinite(x) else math.nan for x in e.elems(e(v))])
    a = ctx.fn("get_update_methods" if which == "update" else "get_stopping_criterias", "ResidualsConfig")
    s = ctx.summ(a, [cref(rc)])
    me = method_lists(ctx, 2)
    ctx.compare("residuals.accessor", a.name, s, [(GEN, {S: x, U: y}, 2, "%s|%s" % (names(ctx, x), names(ctx, y))) for x in me for y in me], lambda e, l: e.env[U if which == "update" else S])


def jac_normalize(ctx):
    f = ctx.fn("normalize", "JacobianValues")
    L, R, S, U, rv, rc = res_objects(ctx)
    A, B = sym("A"), sym("B")
    jv = ctx.build("new", "JacobianValues", [A, B])
    s = ctx.summ(f, [cref(jv), cref(rv), cref(U)])
    for n in ctx.sizes((1, 2, 3), s, most=40):
        cl = []
        for ms in method_lists(ctx, n):
            cl.append((GEN, {L: gvec("L", n), R: gvec("R", n), A: gmat("A", n), B: gmat("B", n), U: ms}, n, "n=%d methods=%s" % (n, names(ctx, ms))))

        def want(e, lab):
            n = e.n
            ms = [ctx.variants("NormalizationMethod")[m.v] for m in e.env[U]]
            l, r, a, b = e.env[L], e.env[R], e.env[A], e.env[B]
            return Mat(n, n, [[spec_deriv(e.D, ms[i], l[i], r[i], a.e[i][j], b.e[i][j]) for j in range(n)] for i in range(n)])
        ctx.compare("jacobian.normalize", "JacobianValues::normalize n=%d" % n, s, cl, want)
        # coefficients and residuals that are zero, huge, tiny or not finite
        if n > 3:
            continue
        sp = []
        fm = lambda o: Mat(n, n, [[o + 0.75 * i - 0.3 * j for j in range(n)] for i in range(n)])
        for ms in method_lists(ctx, n)[:: 1 if n < 3 else 5]:
            for k in range(n):
                for x in SPECIAL:
                    for j in range(n):
                        for w in (0, 1):
                            a, b = fm(2.0), fm(-1.25)
                            (b if w else a).e[k][j] = x
                            sp.append((IEEE, {L: [1.5 + i for i in range(n)], R: [0.25] * n, A: a, B: b, U: ms}, n, "n=%d methods=%s %s[%d][%d]=%r" % (n, names(ctx, ms), "AB"[w], k, j, x)))
                    l = [1.5 + i for i in range(n)]
                    l[k] = x
                    sp.append((IEEE, {L: l, R: [0.25] * n, A: fm(2.0), B: fm(-1.25), U: ms}, n, "n=%d methods=%s L[%d]=%r" % (n, names(ctx, ms), k, x)))

        def seen(e, m, ref):
            """what is compared: finite values, and whether a coefficient that is not finite shows"""
            r = []
            for i in range(n):
                for j in range(n):
                    x, q = m.e[i][j], ref.e[i][j]
                    free = not math.isfinite(e.env[L][i]) or abs(e.env[L][i]) > 1e20 or abs(e.env[A].e[i][j]) > 1e20 or abs(e.env[B].e[i][j]) > 1e20
                    if free and not (math.isfinite(e.env[L][i]) and abs(e.env[L][i]) < 1e20 and not math.isfinite(q)):
                        x = 0.0
                    r.append(x if math.isfinite(x) else math.nan)
            return r
        ctx.compare("jacobian.normalize.special", "JacobianValues::normalize n=%d" % n, s, sp, lambda e, l: seen(e, want(e, l), want(e, l)),
                    project=lambda e, st, v: seen(e, e.matv(e(v)), want(e, "")))
    g = ctx.fn("get_jacobians", "JacobianValues")
    s = ctx.summ(g, [cref(jv)])
    ctx.compare("jacobian.accessor", "get_jacobians", s, [(GEN, {A: gmat("A", 2), B: gmat("B", 2)}, 2, "n=2")], lambda e, l: Agg("tuple", 0, [e.env[A], e.env[B]]))


# ---------------------------------------------------------------- iteratives
STEP_GRID = [Fr(x) for x in ("1/3", "5/4", "40")]


def spec_step(D, a, r, lo, hi, x, s):
    lim = D.min(a, D.mul(r, D.abs(x)))
    st = D.mul(D.min(lim, D.abs(s)), D.sgn(s))
    return D.min(D.max(D.add(x, st), lo), hi)


def params_objects(ctx, fd):
    a, r, lo, hi = (sym(n) for n in ("max_step_abs", "max_step_rel", "min_value", "max_value"))
    key = "ip%d" % fd
    if key not in ctx.cache:
        ip = ctx.build("new", "IterativeParams", [a, r, lo, hi])
        if fd:
            pm, da, dr = sym("method"), sym("dx_abs"), sym("dx_rel")
            o1 = ctx.build("new", "IterativeParamsFD", [a, r, lo, hi, da, dr, pm])
            o2 = ctx.build("extend", "IterativeParamsFD", [ip, da, dr, pm])
            ctx.cache[key] = (o1, o2)
        else:
            ctx.cache[key] = (ip,)
    return (a, r, lo, hi), ctx.cache[key]


def step_classes(ctx, P, x, s):
    a, r, lo, hi = P
    g = []
    vals = (Fr(1, 7), Fr(13, 5), Fr(60, 7))
    for va in vals:
        for vr in (Fr(1, 9), Fr(23, 11), Fr(31, 3)):
            for vx in (Fr(5, 3), Fr(-5, 3), Fr(17, 2), Fr(-17, 2)):
                for vs in (Fr(2, 19), Fr(-2, 19), Fr(29, 6), Fr(-29, 6), Fr(111, 7), Fr(-111, 7)):
                    for vl, vh in ((Fr(-1000), Fr(1001)), (Fr(-9), Fr(-2)), (Fr(2), Fr(19, 2)), (Fr(-1, 2), Fr(3, 5))):
                        g.append((GEN, {a: gvar("a", va), r: gvar("r", vr), lo: gvar("lo", vl), hi: gvar("hi", vh), x: gvar("x", vx), s: gvar("s", vs)}, 2,
                                  "abs~%g,rel~%g,bounds~[%g,%g],x~%g,step~%g" % (va, vr, vl, vh, vx, vs)))
    return g


def step_specials(ctx, P, x, s):
    a, r, lo, hi = P
    inf = math.inf
    g = []
    for va, vr in ((inf, inf), (1.0, inf), (inf, 0.5), (1.0, 0.5)):
        for vl, vh in ((-inf, inf), (-3.0, inf), (-inf, 3.0), (-3.0, 3.0)):
            for vx in (0.0, -0.0, 1.0, -1.0, 2.75):
                for vs in (0.0, -0.0, 0.25, -0.25, 4.0, -4.0, inf, -inf):
                    g.append((IEEE, {a: va, r: vr, lo: vl, hi: vh, x: vx, s: vs}, 2, "abs=%g,rel=%g,bounds=[%g,%g],x=%g,step=%g" % (va, vr, vl, vh, vx, vs)))
    return g


def step_limitation(ctx):
    for fd in (0, 1):
        P, objs = params_objects(ctx, fd)
        f = ctx.fn("step_limitation", "IterativeParamsFD" if fd else "IterativeParams", "Iterative")
        x, st = sym("x"), sym("step")
        for o in dict.fromkeys(objs):
            s = ctx.summ(f, [cref(o), x, st])
            inst = ("IterativeParamsFD" if fd else "IterativeParams") + "::step_limitation"
            ctx.compare("step.limit", inst, s, step_classes(ctx, P, x, st), lambda e, l: spec_step(e.D, *(e(q) for q in P), e(x), e(st)), valid=lambda q: q(P[0]) > 0 and q(P[1]) > 0 and q(P[2]) < q(P[3]))
            ctx.compare("step.limit.special", inst, s, step_specials(ctx, P, x, st), lambda e, l: spec_step(e.D, *(e(q) for q in P), e(x), e(st)))


def step_bounds(ctx):
    """the three bounds promised to the user, read off the derived term"""
    for fd in (0, 1):
        P, objs = params_objects(ctx, fd)
        f = ctx.fn("step_limitation", "IterativeParamsFD" if fd else "IterativeParams", "Iterative")
        x, st = sym("x"), sym("step")
        a, r, lo, hi = P
        for o in dict.fromkeys(objs):
            s = ctx.summ(f, [cref(o), x, st])
            inst = ("IterativeParamsFD" if fd else "IterativeParams") + "::step_limitation"
            cl = step_classes(ctx, P, x, st) + step_specials(ctx, P, x, st)

            def proj(e, s_, v):
                D = e.D
                got = e.sc(e(v))
                sv = lambda t: (e(t).s if isinstance(e(t), G) else e(t))
                gv = got.s if isinstance(got, G) else got
                X, S, A, R, LO, HI = (float(sv(q)) for q in (x, st, a, r, lo, hi))
                gv = float(gv)
                if not (LO <= gv <= HI):
                    return "outside [min_value, max_value]: %g" % gv
                if LO <= X <= HI:
                    d = gv - X
                    lim = min(A, R * abs(X) if not math.isnan(R * abs(X)) else A)
                    if abs(d) > lim * (1 + 1e-12) + 1e-12:
                        return "moves by %g, more than the limit %g" % (d, lim)
                    if d * S < 0:
                        return "moves against the step"
                return "within bounds"
            ctx.compare("step.bounds", inst, s, cl, lambda e, l: "within bounds", project=proj, valid=lambda q: q(a) > 0 and q(r) > 0 and q(lo) < q(hi))


def perturbation(ctx):
    P, objs = params_objects(ctx, 1)
    f = ctx.fn("compute_perturbation", "IterativeParamsFD", "Iterative")
    x = sym("x")
    pm, da, dr = sym("method"), sym("dx_abs"), sym("dx_rel")
    for o in dict.fromkeys(objs):
        s = ctx.summ(f, [cref(o), x])
        for name in ("Max", "Sum"):
            mv = ctx.vvar("PerturbationMethod", name)
            cl = []
            for va in (Fr(1, 7), Fr(50)):
                for vr in (Fr(1, 9), Fr(23, 11)):
                    for vx in (Fr(5, 3), Fr(-5, 3), Fr(99), Fr(-99)):
                        cl.append((GEN, {da: gvar("da", va), dr: gvar("dr", vr), x: gvar("x", vx), pm: mv}, 2, "abs~%g,rel~%g,x~%g" % (va, vr, vx)))
            for vx in (0.0, -0.0, math.inf, -math.inf):
                cl.append((IEEE, {da: 0.5, dr: 0.25, x: vx, pm: mv}, 2, "abs=0.5,rel=0.25,x=%g" % vx))

            def want(e, l):
                D = e.D
                q = D.mul(D.abs(e(x)), e(dr))
                return D.max(e(da), q) if name == "Max" else D.add(e(da), q)
            ctx.compare("perturbation", "compute_perturbation(%s)" % name, s, cl, want, valid=lambda q: q(da) > 0 and q(dr) > 0)
            # never zero, never negative
            ctx.compare("perturbation.positive", "compute_perturbation(%s)" % name, s, cl, lambda e, l: True, project=lambda e, st, v: sval(e.sc(e(v))) > 0, valid=lambda q: q(da) > 0 and q(dr) > 0)
    for fd, ad in ((0, "IterativeParams"), (1, "IterativeParamsFD")):
        P, objs = params_objects(ctx, fd)
        fs = ctx.fns("with_finite_diff", ad, "Iterative")
        if not fs:
            fs = [g for g in ctx.p.fns.values() if g.name == "with_finite_diff" and g.d.get("trait_item") and g.local]
        s = ctx.summ(fs[0], [cref(objs[0])])
        ctx.compare("perturbation.available", "%s::with_finite_diff" % ad, s, [(GEN, {}, 2, "any")], lambda e, l: bool(fd))


def sval(g):
    return g.s if isinstance(g, G) else g


def elementwise(ctx, which):
    """step_limitations / compute_perturbations: component i uses parameter i, value i, step i"""
    ps, v, r = sym("params"), sym("values"), sym("raw")
    its = ctx.build("new", "Iteratives", [cref(ps)])
    f = ctx.fn(which, "Iteratives")
    args = [cref(its), cref(v)] + ([cref(r)] if which == "step_limitations" else [])
    s = ctx.summ(f, args)
    single = which[:-1]

    def ext(name, a):
        if name.endswith("::" + single):
            return GEN.var((single, tuple(q for q in (e0.canon(x) for x in a))))
        return None
    for n in ctx.sizes((1, 2, 3), s):
        params = [Opq(("param", i)) for i in range(n)]
        env = {ps: params, v: gvec("v", n), r: gvec("r", n)}
        e0 = Ev(GEN, env, n, ctx.p)

        def want(e, l):
            if which == "step_limitations":
                return [GEN.var((single, (e.canon(params[i]), e.canon(env[v][i]), e.canon(env[r][i])))) for i in range(n)]
            return [GEN.var((single, (e.canon(params[i]), e.canon(env[v][i])))) for i in range(n)]
        ctx.compare("elementwise." + which, "Iteratives::%s n=%d" % (which, n), s, [(GEN, env, n, "n=%d" % n)], want, extfn=ext)
        elementwise_special(ctx, which, single, s, n, params, ps, v, r)


SPECIAL = (0.0, -0.0, math.inf, -math.inf, math.nan, 1e30, -1e30, 1e-30, -1e-30)


def elementwise_special(ctx, which, single, s, n, params, ps, v, r):
    """the same with components that are zero, huge, tiny or not finite: the answer of the
    limitation is a distinct number for each combination of arguments"""
    num, answers = {}, {}

    def answer(key):
        return answers.setdefault(key, 1000.0 + 7 * len(answers))

    def ext(name, a):
        if name.endswith("::" + single):
            e = e0[0]
            q, *fs = [e.canon(x) if i == 0 else x + 0.0 for i, x in enumerate(a)]
            return answer((q, tuple(repr(f) for f in fs)))
        return None
    e0 = [None]
    cl = []
    pos = range(n) if n <= 3 else (0, n - 1)
    for k in pos:
        for x in SPECIAL:
            for y in SPECIAL if which == "step_limitations" and n <= 2 else (x, 3.5):
                vs, rs = [2.0 + 0.5 * i for i in range(n)], [-0.25 - i for i in range(n)]
                for on_v in (True, False):
                    a, b = list(vs), list(rs)
                    if on_v:
                        a[k], b[k] = x, y
                    else:
                        a[k], b[k] = y, x
                    cl.append((IEEE, {ps: params, v: a, r: b}, n, "n=%d, variable %d at %r with %r" % (n, k, a[k], b[k])))
    e0[0] = Ev(IEEE, {}, n, ctx.p)

    def want(e, l):
        a = [e.env[v]] + ([e.env[r]] if which == "step_limitations" else [])
        return [answer((e.canon(params[i]), tuple(repr(c[i] + 0.0) for c in a))) for i in range(n)]
    ctx.compare("elementwise." + which, "Iteratives::%s n=%d" % (which, n), s, cl, want, extfn=ext)


# ---------------------------------------------------------------- quasi-Newton
def V(v):
    return col(v)


def qn_spec(e, kind, which, J, H, s, y, g):
    """updated matrix required by the method (J or its inverse H), rank one secant forms"""
    D = e.D
    s, y, g = col(s), col(y), col(g)
    T_ = lambda m: Mat(m.c, m.r, [[m.e[i][j] for i in range(m.r)] for j in range(m.c)])
    mul = e.mul

    def sub(a, b):
        return Mat(a.r, a.c, [[D.sub(p, q) for p, q in zip(r1, r2)] for r1, r2 in zip(a.e, b.e)])

    def div(a, k):
        return Mat(a.r, a.c, [[D.div(p, k) for p in r1] for r1 in a.e])
    if kind == "jac":
        u = sub(mul(J, s), y)
        if which == "BroydenFirstMethod":
            w = T_(s)
        elif which == "BroydenSecondMethod":
            w = mul(T_(y), J)
        elif which == "GreenstadtFirstMethod":
            w = mul(T_(g), J)
        else:
            # c = H^T H y applied to J = H^-1 : c^T J = y^T H^T
            w = T_(mul(H, y))
        return sub(J, div(mul(u, w), mul(w, s).e[0][0]))
    u = sub(mul(H, y), s)
    if which == "BroydenFirstMethod":
        w = mul(T_(s), H)
    elif which == "BroydenSecondMethod":
        w = T_(y)
    elif which == "GreenstadtFirstMethod":
        w = T_(g)
    else:
        w = T_(mul(mul(T_(H), H), y))
    return sub(H, div(mul(u, w), mul(w, y).e[0][0]))


QN = [("broyden_first_method_udpate_jac", "jac", "BroydenFirstMethod", 0),
      ("broyden_first_method_udpate_inv_jac", "inv", "BroydenFirstMethod", 0),
      ("broyden_second_method_udpate_jac", "jac", "BroydenSecondMethod", 0),
      ("broyden_second_method_udpate_inv_jac", "inv", "BroydenSecondMethod", 0),
      ("quasi_method_update_jac", "jac", "GreenstadtFirstMethod", 1),
      ("quasi_method_update_inv_jac", "inv", "GreenstadtFirstMethod", 1),
      ("greenstadt_second_method_udpate_jac", "jac", "GreenstadtSecondMethod", 2)]


def qn_env(n, J, H, s, y, g):
    e = {s: gvec("s", n), y: gvec("y", n), g: gvec("g", n)}
    e[J] = gmat("J", n)
    ev0 = Ev(GEN, {}, n)
    e[H] = ev0.inv(e[J]) if n <= 2 else gmat("H", n)
    return e


def qn_formulas(ctx):
    J, H, s, y, g = (sym(q) for q in ("J", "H", "s", "y", "g"))
    for name, kind, which, extra in QN:
        f = ctx.fn(name, free=True)
        a = [cref(J if kind == "jac" else H), cref(s), cref(y)]
        if extra == 1:
            a.append(cref(g))
        elif extra == 2:
            a.append(cref(mk("mmul", H, y)))
        sm = ctx.summ(f, a)
        for n in (1, 2) + ((3,) if kind == "inv" or extra == 0 else ()):
            env = qn_env(n, J, H, s, y, g)
            ctx.compare("quasi_newton.formula", "%s n=%d" % (name, n), sm, [(GEN, env, n, "n=%d" % n)],
                        lambda e, l: qn_spec(e, kind, which, env[J], env[H], env[s], env[y], env[g]))
            # secant: the new matrix maps s to y (or back)

            def sec(e, st, v):
                m = e.matv(e(v))
                r = e.mul(m, col(env[s] if kind == "jac" else env[y]))
                return [x[0] for x in r.e]
            ctx.compare("quasi_newton.secant", "%s n=%d" % (name, n), sm, [(GEN, env, n, "n=%d" % n)],
                        lambda e, l: env[y] if kind == "jac" else env[s], project=sec)
    # the two forms of one method are inverse of one another
    for a, b in ((0, 1), (2, 3), (4, 5)):
        fa, fb = ctx.fn(QN[a][0], free=True), ctx.fn(QN[b][0], free=True)
        ex = [cref(g)] if QN[a][3] else []
        sa = ctx.summ(fa, [cref(J), cref(s), cref(y)] + ex)
        sb = ctx.summ(fb, [cref(H), cref(s), cref(y)] + ex)
        if len(sa.results) == 1 and len(sb.results) == 1:
            env = qn_env(2, J, H, s, y, g)
            ctx.compare("quasi_newton.duality", QN[a][2], sa, [(GEN, env, 2, "n=2")], lambda e, l: e.matv(e(sb.results[0][1])),
                        project=lambda e, st, v: e.inv(e.matv(e(v))))


def qn_dispatch(ctx):
    """approximate_jacobian / approximate_inv_jacobian: every method uses its own formula on
    (matrix, inverse, s, y, current residuals) and the object is left consistent"""
    s, y, g = sym("s"), sym("y"), sym("g")
    J, H, M0 = sym("J"), sym("H"), sym("m")
    for kind, fname in (("jac", "approximate_jacobian"), ("inv", "approximate_inv_jacobian")):
        f = ctx.fn(fname, free=True)
        for which in ctx.variants("UpdateQuasiNewtonMethod"):
            st, root = jm_ready(ctx, J, H, kind)
            sm = ctx.summ(f, [("ref", root), ctx.tvar("UpdateQuasiNewtonMethod", which), cref(s), cref(y), cref(g)], st=st)
            env = qn_env(2, J, H, s, y, g)
            want = lambda e, l: qn_spec(e, kind, which, env[J], env[H], env[s], env[y], env[g])

            def proj(e, st2, v):
                r = observe(ctx, "get_jacobian" if kind == "jac" else "get_inverse", st2, root)
                o = e(r)
                if not (isinstance(o, Agg) and o.v == 1):
                    return "no matrix stored"
                return e.matv(o.f[0])
            # keep the invertible outcome only
            sm.results = [(a, b) for a, b in sm.results if not any(t.op == "batom" and t.args[0] == "invertible" and v is False for t, v in a.facts.items())]
            sm.panics = []
            ctx.compare("quasi_newton.dispatch", "%s(%s)" % (fname, which), sm, [(GEN, env, 2, "n=2")], want, project=proj)


def jm_ready(ctx, J, H, kind):
    """a JacobianMatrix holding J and its inverse H (through its own API)"""
    st = ctx.base_state()
    root = ("P", "jm")
    new = ctx.build("new", "JacobianMatrix", [])
    st.store[root] = new
    upd = ctx.fn("update_jacobian_with_exact_value", "JacobianMatrix")
    sm = ctx.summ(upd, [("ref", root), J], st=st)
    out = [s for s, v in sm.results if v.op == "agg" and v.args[1] == 0]
    if len(out) != 1:
        raise Unk("exact update has %d successful outcomes" % len(out))
    st = out[0].copy()
    m = {mk("minv", J): H}
    st.store = {r: subst(t, m) for r, t in st.store.items()}
    return st, root


def observe(ctx, name, st, root):
    f = ctx.fn(name, "JacobianMatrix")
    sm = ctx.summ(f, [("ref", root)], st=st)
    vs = {deref_all(sm.I, s, v) for s, v in sm.results}
    if len(vs) != 1:
        # free: which one depends on nothing but what the matrix held before
        free = all(any(x.op == "sym" and x.args[0] == "prior" for x in subterms(a)) for s, _ in sm.results for a in s.facts if a not in st.facts)
        return mk("several", free, tuple(sorted(vs, key=lambda t: t.id)))
    return vs.pop()


def deref_all(I, s, v):
    v = I.load_all(s, v)
    return v


def jacobian_matrix(ctx):
    """state machine of JacobianMatrix, from an arbitrary previous state"""
    M = sym("M")
    rule = "jacobian_matrix"
    some_ = lambda t: mk("agg", "std::option::Option", 1, (t,))
    NONE = mk("agg", "std::option::Option", 0, ())

    def start(kind):
        st = ctx.base_state()
        root = ("P", "jm")
        st.store[root] = ctx.build("new", "JacobianMatrix", []) if kind == "new" else sym("prior")
        return st, root

    def obs(st, root):
        return {o: observe(ctx, o, st, root) for o in ("get_jacobian", "get_inverse", "compute_jacobian", "is_jacobian_approximated")}

    def expect(inst, f, got, want):
        for k, w in want.items():
            if w is None:
                continue
            g = got[k]
            if g is w:
                ctx.ok(rule, inst + "." + k, ctx.loc(f))
            elif g.op == "several":
                if g.args[0]:
                    ctx.bad(rule, inst + "." + k, ctx.loc(f), "derived %s depending on the earlier state, required %s" % (", ".join(map(str, g.args[1])), w))
                else:
                    ctx.unk(rule, inst + "." + k, ctx.loc(f), "has %d values" % len(g.args[1]))
            elif g.op in ("bool",) and w.op == "bool" or (g.op == "agg" and w.op == "agg" and not g.args[2] and not w.args[2]) or (g.op == "agg" and w.op == "agg" and g.args[1] != w.args[1]):
                ctx.bad(rule, inst + "." + k, ctx.loc(f), "derived %s, required %s" % (g, w))
            else:
                env = {M: gmat("M", 2)}
                e = Ev(GEN, env, 2, ctx.p)
                try:
                    same = e.same(e(g), e(w))
                except (Unk, AttributeError, TypeError) as ex:
                    same = None
                    if sym("prior") in subterms(g):
                        same = False
                    else:
                        ctx.unk(rule, inst + "." + k, ctx.loc(f), str(ex))
                        continue
                if same:
                    ctx.ok(rule, inst + "." + k, ctx.loc(f))
                else:
                    ctx.bad(rule, inst + "." + k, ctx.loc(f), "derived %s, required %s" % (g, w))
    f = ctx.fn("new", "JacobianMatrix")
    st, root = start("new")
    expect("new", f, obs(st, root), dict(get_jacobian=NONE, get_inverse=NONE, compute_jacobian=TRUE, is_jacobian_approximated=FALSE))
    d = ctx.fns("default", "JacobianMatrix", "Default")
    if d:
        v = {v for _, v in ctx.summ(d[0], []).results}
        st.store[root] = v.pop()
        expect("default", d[0], obs(st, root), dict(get_jacobian=NONE, get_inverse=NONE, compute_jacobian=TRUE, is_jacobian_approximated=FALSE))
    for prior in ("new", "any"):
        for name, approx in (("update_jacobian_with_exact_value", FALSE), ("update_jacobian_with_approximated_value", TRUE)):
            f = ctx.fn(name, "JacobianMatrix")
            st, root = start(prior)
            sm = ctx.summ(f, [("ref", root), M], st=st)
            oks = errs = 0
            for s, v in sm.results:
                inv = [b for a, b in s.facts.items() if a.op == "batom" and a.args[0] == "invertible"]
                okv = v.op == "agg" and v.args[1] == 0
                inst = "%s from %s" % (name, prior)
                if inv == [True]:
                    if not okv:
                        ctx.bad(rule, inst + " invertible", ctx.loc(f), "an invertible matrix is refused")
                        continue
                    oks += 1
                    expect(inst, f, obs(s, root), dict(get_jacobian=some_(M), get_inverse=some_(mk("minv", M)), compute_jacobian=FALSE, is_jacobian_approximated=approx))
                elif inv == [False]:
                    if okv:
                        ctx.bad(rule, inst + " singular", ctx.loc(f), "a singular matrix is accepted")
                        continue
                    errs += 1
                    expect(inst + " singular", f, obs(s, root), dict(get_jacobian=NONE, get_inverse=NONE))
                else:
                    ctx.unk(rule, inst, ctx.loc(f), "outcome not tied to the invertibility of the matrix")
            if not oks and not errs:
                ctx.unk(rule, name, ctx.loc(f), "no outcome")
        f = ctx.fn("update_inverse", "JacobianMatrix")
        st, root = start(prior)
        sm = ctx.summ(f, [("ref", root), M], st=st)
        for s, v in sm.results:
            o = obs(s, root)
            expect("update_inverse from " + prior, f, o, dict(get_inverse=some_(M), is_jacobian_approximated=TRUE))
            # a stored matrix must be the inverse of the stored inverse: dropping it is required
            # unless it is recomputed from the new inverse
            if o["get_jacobian"] is not NONE:
                expect("update_inverse from " + prior, f, o, dict(get_jacobian=some_(mk("minv", M))))
            else:
                ctx.ok(rule, "update_inverse from %s.get_jacobian" % prior, ctx.loc(f))
        f = ctx.fn("force_jacobian_computation", "JacobianMatrix")
        st, root = start(prior)
        b4 = obs(st, root)
        for s, v in ctx.summ(f, [("ref", root)], st=st).results:
            expect("force_jacobian_computation from " + prior, f, obs(s, root), dict(compute_jacobian=TRUE, get_inverse=b4["get_inverse"] if prior == "new" else None))
        f = ctx.fn("invalidate_jacobian", "JacobianMatrix")
        st, root = start(prior)
        for s, v in ctx.summ(f, [("ref", root)], st=st).results:
            expect("invalidate_jacobian from " + prior, f, obs(s, root), dict(get_jacobian=NONE, get_inverse=NONE))
