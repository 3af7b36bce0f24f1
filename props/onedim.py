"""The one-dimensional helpers (C25): the loop of each function, as a transition
system between abstract loop-head states, against Newton's iteration."""
import math
from chk import *
import interp as IN


class LDom(Domain):
    join_calls = True
    raw_loops = True

    def __init__(self):
        self.done = []

    def loop_done(self, I, tag, heads, live, edges, entry, final):
        self.done.append((tag, [heads[j] for j in live], edges, entry))


def phis_of(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "phi":
        acc.add(t)
    for k in TM.kids(t):
        phis_of(k, acc, seen)


def check(ctx, name, args, deriv):
    rule = "one-dimensional newton"
    f = ctx.fn(name, free=True, crate="util")
    loc = ctx.loc(f)
    S = {a: sym(a) for a in args}
    dom = LDom()
    s = ctx.summ(f, [S[a] for a in args], st=St(), dom=dom)
    if s.panics:
        ctx.bad(rule, name + ": panic", loc, "panics at %s" % (s.panics[0][2],))
        return
    if len(dom.done) != 1 or len(dom.done[0][1]) != 1:
        raise Unk("%d loops" % len(dom.done))
    tag, heads, edges, entry = dom.done[0]
    h = heads[0]
    P = set()
    seen = set()
    for t in h.store.values():
        phis_of(t, P, seen)
    P = frozenset(p for p in P if p.args[0] == tag)
    xs = {v for _, v in s.results}
    if len(xs) != 1:
        raise Unk("%d returned values" % len(xs))
    X = xs.pop()
    steps = [sg for _, _, sg, _ in edges]
    starts = []
    for e in entry:
        sg = IN.match_state(h, e, P)
        if sg is None:
            raise Unk("entry of the loop")
        starts.append(sg)
    # iteration counter
    K = None
    for p in P:
        nx = {sg.get(p, p) for sg in steps}
        en = {sg.get(p, p) for sg in starts}
        if len(nx) != 1 or len(en) != 1:
            continue
        d = isub(nx.pop(), p)
        e = en.pop()
        if d is intc(1):
            K = isub(p, e)
        elif d is intc(-1):
            K = isub(e, p)
    if K is None:
        raise Unk("no iteration counter")
    dx = S.get("dx")
    # values: entry and step, over free variables
    G = Gen()
    env = {p: G.var(("phi", i)) for i, p in enumerate(sorted(P, key=lambda t: t.id))}
    env.update({S["init_guess"]: G.var("x0"), S["tol"]: G.var("tol")})
    if dx is not None:
        env[dx] = G.var("dx")

    def app(f, a):
        f = str(f)
        if f in ("func", "deriv") and len(a) == 1:
            return G.var((f, G.canon(a[0])))
        raise Unk("call of %s" % f)

    def ev(t, sg=None):
        e = Ev(G, env, 2, ctx.p)
        e.ext = lambda f, a: app(f, a)
        return e.sc(e(t if sg is None else subst(t, sg)))
    x = ev(X)
    for sg in starts:
        got = ev(X, sg)
        if not G.same(got, env[S["init_guess"]]):
            t = subst(X, sg)
            if t.op in ("sym", "flt"):
                ctx.bad(rule, name + ": start", loc, "the iteration starts from %s, not from the guess" % t)
            else:
                raise Unk("the loop is entered with %s" % t)
        else:
            ctx.ok(rule, name + ": start", loc, "enters the loop with the guess")
    fx = app("func", [x])
    d = app("deriv", [x]) if deriv else G.div(G.sub(app("func", [G.add(x, env[dx])]), fx), env[dx])
    want = G.sub(x, G.div(fx, d))
    okc = True
    for sg in steps:
        got = ev(X, sg)
        if not G.same(got, want):
            okc = False
            ctx.bad(rule, name + ": step", loc, "x becomes %s, which is not x - f(x)/%s" % (subst(X, sg), "d(x)" if deriv else "((f(x+dx)-f(x))/dx)"))
    if okc:
        ctx.ok(rule, name + ": step", loc, "%d back edges" % len(steps))
    # guards, over the classes of |f(x)| against the tolerance, of the count against the limit
    # and, where a guard depends on it, of the other values of the functions
    n = bad = 0
    XV = 1.5
    kp = [p for p in P if p in dict.fromkeys(phi_in(K))]
    if len(kp) != 1:
        raise Unk("counter")
    SPEC = (1.0, -1.0, 0.0, math.nan, math.inf, -math.inf, 1e-300, 1e300)
    for v in (math.nan, math.inf, -math.inf, 0.0, -0.0, 1e-9, -1e-9, 1e-6, -1e-6, 2e-6, -2e-6, 3.0):
        for tol in (1e-6, 0.0, math.inf, math.nan, -1.0):
            for k in (0, 1, 2, 5):
                for mx in (0, 1, 2, 3, 5, 6):
                    if k > mx:
                        continue
                    env2 = {S["tol"]: tol, S["max_iter"]: mx, S["init_guess"]: 0.25}
                    if dx is not None:
                        env2[dx] = 0.125
                    e0 = Ev(IEEE, {**env2, kp[0]: 0}, 2, ctx.p)
                    k0 = e0(K)
                    e1 = Ev(IEEE, {**env2, kp[0]: 1}, 2, ctx.p)
                    sl = e1(K) - k0
                    env2[kp[0]] = (k - k0) * sl
                    for p in P:
                        if p not in env2:
                            env2[p] = XV if X is p else None
                    env2 = {a: b for a, b in env2.items() if b is not None}
                    todo, asked = [{}], None
                    while todo:
                        known = todo.pop()
                        asked = []

                        def app2(f, a):
                            if str(f) not in ("func", "deriv") or len(a) != 1:
                                raise Unk("value of %s" % f)
                            if str(f) == "func" and a[0] == XV:
                                return v
                            q = (str(f), repr(a[0]))
                            if q not in known:
                                asked.append(q)
                                raise Unk("value of %s" % f)
                            return known[q]
                        e = Ev(IEEE, env2, 2, ctx.p)
                        e.ext = app2
                        try:
                            go = [1 for _, _, _, b in edges if e.holds(b.facts)]
                            stop = [1 for st, _ in s.results if e.holds(st.facts)]
                        except Unk:
                            if not asked or len(known) > 1:
                                raise
                            todo += [{**known, asked[0]: w} for w in SPEC]
                            continue
                        w = abs(v) > tol and k < mx
                        n += 1
                        if bool(go) != w or bool(stop) == w:
                            bad += 1
                            if bad == 1:
                                also = "".join(", %s(%s)=%s" % (q[0], q[1], z) for q, z in known.items())
                                ctx.bad(rule, name + ": stop rule", loc, "with f(x)=%g, tolerance %g%s, %d updates made of %d the loop %s" % (v, tol, also, k, mx, "goes on" if go else "stops"))
    if not bad:
        ctx.ok(rule, name + ": stop rule", loc, "%d classes" % n)


def phi_in(t):
    acc = set()
    phis_of(t, acc, set())
    return acc


def solver1d(ctx):
    check(ctx, "solver1d", ("init_guess", "func", "deriv", "max_iter", "tol"), True)


def solver1d_fd(ctx):
    check(ctx, "solver1d_fd", ("init_guess", "func", "max_iter", "tol", "dx"), False)
