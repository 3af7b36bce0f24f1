"""Model adapters and the defaults of the Model trait (C18)."""
from chk import *
import models as MD

CALLS = ("P", "$calls")


class AdDom(Domain):
    """calls of the user's functions are events"""
    def __init__(self, fs):
        self.fs = fs

    def app(self, I, st, f, args):
        st = st.copy()
        vs = tuple(I.load_all(st, a) for a in args)
        c = st.store[CALLS]
        st.store[CALLS] = mk("agg", "$calls", 0, c.args[2] + (mk("ev", f, vs),))
        return [(st, mk("app", f, vs))]

    def opaque_call(self, I, st, f, args, fr, span):
        g = I.load_all(st, f)
        if g in self.fs:
            return self.app(I, st, g, args)
        return None

    def call(self, I, st, c, args, fr, span):
        if c["name"] in ("call", "call_mut", "call_once") and args:
            g = I.load_all(st, args[0])
            if g in self.fs:
                a = I.load(st, args[1]) if args[1].op == "ref" else args[1]
                fl = a.args[2] if a.op == "agg" else (a,)
                return self.app(I, st, g, fl)
        return None


ADAPTERS = [("UserModelFromClosure", False), ("UserModelFromFunction", False), ("UserModelFromClosureAndJacobian", True), ("UserModelFromFunctionAndJacobian", True)]


def method(ctx, name, adt):
    fs = ctx.fns(name, adt, "Model")
    if fs:
        return fs[0]
    for g in ctx.p.fns.values():
        if g.name == name and (g.d.get("trait_item") or "").split("::")[-1] in ("Model", name) and not g.d.get("impl_self"):
            return g
    raise Anchor("Model::%s for %s" % (name, adt))


class Sim:
    def __init__(self, ctx, adt, jac):
        self.ctx, self.adt, self.jac = ctx, adt, jac
        self.F, self.J = sym("user_function"), sym("user_jacobian")
        f = ctx.fn("new", adt)
        a = [NSYM] + [cref(x) if f.locals[k + 2].startswith("&") else x for k, x in enumerate([self.F] + ([self.J] if jac else []))]
        s = ctx.summ(f, a)
        vs = {v for _, v in s.results}
        if len(vs) != 1:
            raise Unk("%s::new has %d results" % (adt, len(vs)))
        self.new = vs.pop()
        self.loc = ctx.loc(f)
        self.st = s.results[0][0]

    def run(self, obj, name, args=()):
        """-> [(object after, value, calls)]"""
        f = method(self.ctx, name, self.adt)
        st = self.st.copy()
        st.store[CALLS] = mk("agg", "$calls", 0, ())
        s = self.ctx.summ(f, [("mut", obj, "m")] + list(args), st=st, dom=AdDom((self.F, self.J)))
        root = s.refs[0]
        return [(t.store[root], s.I.load_all(t, v), t.store[CALLS].args[2]) for t, v in s.results], s


def adapters(ctx):
    for adt, jac in ADAPTERS:
        guard(ctx, "adapter", adt, adapter, ctx, adt, jac)
    guard(ctx, "adapter", "Model defaults", model_defaults, ctx)


def adapter(ctx, adt, jac):
    S = Sim(ctx, adt, jac)
    V, X, Lf = sym("iteratives"), sym("held"), sym("last_result")
    # fields the two mutators write: any value may sit there
    fields = set()
    obj = S.new
    for _ in range(3):
        fs = list(S.new.args[2])
        for i in fields:
            fs[i] = X if i in wset else Lf
        obj = mk("agg", S.new.args[0], S.new.args[1], tuple(fs))
        wset, wev = set(), set()
        for name, args, w in (("set_iteratives", [cref(V)], wset), ("evaluate", [], wev)):
            outs, s = S.run(obj, name, args)
            for o, v, c in outs:
                w |= {i for i in range(len(o.args[2])) if o.args[2][i] is not obj.args[2][i]}
        if (wset | wev) <= fields:
            break
        fields |= wset | wev
    fs = list(S.new.args[2])
    for i in fields:
        fs[i] = X if i in wset else Lf
    obj = mk("agg", S.new.args[0], S.new.args[1], tuple(fs))
    res = {}

    def check(rule, cond, f, detail):
        r = res.setdefault(rule, [True, ctx.loc(f), "", 0])
        r[3] += 1
        if not cond and r[0]:
            r[0], r[2] = False, detail

    def outs_(o, name, args=()):
        outs, s = S.run(o, name, args)
        if not outs:
            raise Unk("%s has no outcome" % name)
        return outs
    f1, f2, f3 = (method(ctx, n, adt) for n in ("set_iteratives", "evaluate", "get_residuals"))
    for o1, _, c1 in outs_(obj, "set_iteratives", [cref(V)]):
        for _, v, c2 in outs_(o1, "get_iteratives"):
            check("adapter.iteratives", same(ctx, v, V) and not c1 and not c2, f1, "after set_iteratives(v), get_iteratives() is %s; functions called: %d" % (show(v), len(c1) + len(c2)))
        for o2, r, c in outs_(o1, "evaluate"):
            good = len(c) == 1 and c[0].args[0] is S.F and len(c[0].args[1]) == 1 and same(ctx, c[0].args[1][0], V)
            check("adapter.evaluate", good, f2, "evaluate() calls %s instead of the user's function once at the current iteratives" % ("; ".join(show(x) for x in c) or "nothing"))
            check("adapter.evaluate result", r.op == "agg" and r.args[1] == 0 and r.args[0].endswith("Result"), f2, "evaluate() returns %s" % show(r))
            for _, v, _c in outs_(o2, "get_iteratives"):
                check("adapter.iteratives kept", same(ctx, v, V), f2, "evaluate() changes the iteratives to %s" % show(v))
            for o3, rv, c in outs_(o2, "get_residuals"):
                check("adapter.residuals", not c, f3, "get_residuals() calls the user's function again")
                residuals(ctx, S, rv, V, X, Lf, lambda d: check("adapter.residuals", d is None, f3, d))
            for _, v, _c in outs_(o2, "len_problem"):
                check("adapter.size", v is NSYM, method(ctx, "len_problem", adt), "len_problem() is %s" % show(v))
            for _, v, _c in outs_(o2, "jacobian_provided"):
                check("adapter.jacobian provided", v is boolc(jac), method(ctx, "jacobian_provided", adt), "jacobian_provided() is %s" % show(v))
            if jac:
                for o, lab in ((o1, "after set_iteratives"), (o2, "after evaluate")):
                    jacobian(ctx, S, o, lab, outs_(o, "get_jacobian"), V, X, check, method(ctx, "get_jacobian", adt))
    for rule, (g, loc, d, n) in res.items():
        if g:
            ctx.ok(rule, adt, loc, "%d outcomes, from any state reached by set_iteratives and evaluate" % n)
        else:
            ctx.bad(rule, adt, loc, d)


def residuals(ctx, S, rv, V, X, Lf, check):
    i = sym("i")
    t = ctx.summ(ctx.fn("get_values", "ResidualsValues"), [cref(rv), i])
    app = mk("app", S.F, (V,))
    for n in (1, 2, 3):
        for k in range(n):
            e = Ev(GEN, {app: gvec("F", n), V: gvec("V", n), i: k, X: gvec("X", n), Lf: gvec("L", n)}, n, ctx.p)
            got = []
            for a, b in select(e, t.results):
                b = t.I.load_all(a, b)
                got.append([e.sc(e(q)) for q in b.args[2]])
            if not got:
                raise Unk("get_values")
            for g in got:
                okk = e.same(g[0], GEN.var(("F", k))) and e.same(g[1], GEN.const(0))
                check(None if okk else "residual %d of %d after evaluate() is %s = %s instead of the user's value = 0" % (k, n, pv(g[0]), pv(g[1])))


def jacobian(ctx, S, o, lab, outs, V, X, check, f):
    gj = ctx.fn("get_jacobians", "JacobianValues")
    ap = mk("app", S.J, (V,))
    for o4, r, c in outs:
        good = len(c) == 1 and c[0].args[0] is S.J and same(ctx, c[0].args[1][0], V)
        check("adapter.jacobian", good, f, "%s get_jacobian() calls %s instead of the user's jacobian at the current iteratives" % (lab, "; ".join(show(x) for x in c) or "nothing"))
        isok = r.op == "agg" and r.args[1] == 0
        check("adapter.jacobian", isok, f, "%s get_jacobian() returns %s" % (lab, show(r)))
        check("adapter.jacobian values", o4.args[2] == o.args[2], f, "get_jacobian() changes the model")
        if not isok:
            continue
        t = ctx.summ(gj, [cref(r.args[2][0])])
        for a, b in t.results:
            b = t.I.load_all(a, b)
            for n in (1, 2, 3):
                JM = gmat("J", n)
                e = Ev(GEN, {ap: JM, V: gvec("V", n), X: gvec("X", n)}, n, ctx.p)
                l, r_ = e.matv(e(b.args[2][0])), e.matv(e(b.args[2][1]))
                Z = Mat(n, n, [[GEN.const(0)] * n for _ in range(n)])
                check("adapter.jacobian values", e.same(l, JM) and e.same(r_, Z), f, "%s, dimension %d: left %s, right %s" % (lab, n, pv(l), pv(r_)))


def same(ctx, a, b):
    if a is b:
        return True
    for n in (1, 2, 3):
        e = Ev(GEN, {sym(k): [GEN.var((k, q)) for q in range(n)] for k in ("iteratives", "held", "last_result")}, n, ctx.p)
        if not e.same(e(a), e(b)):
            return False
    return True


def model_defaults(ctx):
    """a model that does not override them provides no jacobian and keeps no memory"""
    f = method(ctx, "jacobian_provided", "$default")
    s = ctx.summ(f, [cref(sym("model"))])
    vs = {v for _, v in s.results}
    loc = ctx.loc(f)
    (ctx.ok if vs == {FALSE} else lambda r, i, l, d: ctx.bad(r, i, l, "jacobian_provided() defaults to %s" % [show(v) for v in vs]))("adapter.default", "Model::jacobian_provided", loc, "false")
    g, h = method(ctx, "get_memory", "$default"), method(ctx, "set_memory", "$default")
    s = ctx.summ(h, [("mut", sym("model"), "m"), cref(sym("memory"))])
    okk = all(t.store[s.refs[0]] is sym("model") for t, _ in s.results) and s.results
    (ctx.ok if okk else lambda r, i, l, d: ctx.bad(r, i, l, "set_memory() changes the model"))("adapter.default", "Model::set_memory", ctx.loc(h), "no effect")
