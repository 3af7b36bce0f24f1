"""RootFinder::solve against its specification automaton.

The analysed code and the specification run in lockstep in the value-numbering
domain: the model is an abstract object (iteratives, last evaluation, memory)
whose trait methods are the events, the automaton's own state (current iterate,
proposal, jacobian in use, pending recomputation, pending failure, number of
iterations) lives in the abstract store next to the program's and is widened
with it.  Every event and every return is checked against the automaton; values
are compared in the domain's normal form, conditions by the classes of (previous
residuals, next residuals, tolerance) they admit.
"""
import collections, itertools, math, os, time
from chk import *
import kernel as K
import models as MD

OPT = "std::option::Option"
PRE, ITER, PROP, DAMP, DONE = range(5)
PHN = ("before the first evaluation", "in an iteration", "after the proposal", "after damping", "done")


def AG(kind, v, *f):
    return mk("agg", "$" + kind, v, tuple(f))


def phase(k):
    return AG("ph", k)


MF = ("x", "evx", "evm", "mem")
OF = ("ph", "n", "X", "XE", "P", "PE", "A", "AE", "jst", "fresh", "must", "fail", "J", "H", "Xp", "XpE", "Ap", "ApE", "lg", "pg")
OI = {n: i for i, n in enumerate(OF)}
NOJ, EXACT_, APPROX = AG("jst", 0), AG("jst", 1), AG("jst", 2)
MROOT, OROOT = ("P", "$model"), ("P", "$obs")

NAN_, INF_ = math.nan, math.inf
GOOD = [(.5, .2, .9), (1., 1., 1.), (0., 0., 0.), (.5, 1., .5)]
BAD = [(2., .5, .5), (.5, 2., .5), (.5, .5, 2.), (NAN_, .5, .5), (.5, NAN_, .5), (.5, .5, NAN_), (NAN_, NAN_, NAN_), (INF_, 0., 0.), (0., INF_, 0.), (.5, .5, INF_),
       (2., NAN_, .5), (1.0000001, 0., 0.), (0., 0., 1.5), (3., 3., 3.), (NAN_, 0., INF_)]
PREV = [(2., 3., 2.5), (3., 2., 2.), (2., 2., 3.), (INF_, 1., 1.), (NAN_, 1., 1.), (1., 1., NAN_), (NAN_, NAN_, NAN_)]
EXTRA = [(3., 2., 2.), (1., 1., .5), (9., 8., 9.), (NAN_, 1., 1.)]
NEXT = [(1.5, 2.5, 2.), (3., 1., 1.), (1., 1., 3.), (2.9, 3.5, 1.), (4., .5, .5), (.5, .5, 4.), (NAN_, .5, .5), (.5, NAN_, .5), (.5, .5, NAN_), (NAN_, NAN_, NAN_), (INF_, 1., 1.), (1., 1., INF_),
        (.1, .2, .3), (.1, .2, 2.), (NAN_, 5., 1.), (5., NAN_, 1.), (2.5, 3., 2.), (3., 3., 3.)]


class EvS(Ev):
    """evaluation at solve level: unknown vectors and matrices are indeterminates"""
    def __init__(self, dom, env, n, prog, D):
        Ev.__init__(self, dom, env, n, prog)
        self.SD = D

    def gv(self, key):
        return [self.D.var((key, i)) for i in range(self.n)]

    def gm(self, key):
        return Mat(self.n, self.n, [[self.D.var((key, i, j)) for j in range(self.n)] for i in range(self.n)])

    def inv(self, m):
        if m.r == m.c and m.r > 2:
            return self.gm(("minv",) + tuple(self.canon(m.e[i][j]) for i in range(m.r) for j in range(m.c)))
        return Ev.inv(self, m)

    def ev(self, t):
        o = t.op
        if o in ("slim", "pertv", "updv", "stopv", "prior"):
            return self.gv((o,) + tuple(self.canon(self(x)) for x in t.args))
        if o in ("res", "memf", "mem0", "jacv", "old", "errtok"):
            return Opq((o,) + tuple(self.canon(self(x)) if isinstance(x, T) else x for x in t.args))
        if o in ("jnorm", "jtok", "htok"):
            return self.gm((o,) + tuple(self.canon(self(x)) for x in t.args))
        if o == "phi":
            k = self.SD.typ(t)
            if k == "v":
                return self.gv(("phi", t.id))
            if k == "m":
                return self.gm(("phi", t.id))
            if k == "o":
                return Opq(("phi", t.id))
        return Ev.ev(self, t)


class SolveDom(Domain):
    def __init__(self, ctx, method, damping, provided, label, objs, debug=False):
        self.ctx, self.label = ctx, label
        self.debug = debug
        self.mainloops = set()
        self.kind, self.qn = method        # 'NR' | 'SN' | 'J' | 'I', method name
        self.damping = damping
        self.provided = provided
        (self.guess, self.its, self.cfg, self.umeth, self.tol, self.maxit) = objs
        self.seen = collections.Counter()
        self.deferred, self.replay, self.head = [], None, None
        self.depth = 0
        self._typ = {}
        self._tok = {}
        self._old = {}
        self._cls = {}
        self._same = {}
        self.why = ""
        self.keys = {}
        for nm, adt, tr in (("evaluate_stopping_residuals", "ResidualsConfig", None), ("evaluate_update_residuals", "ResidualsConfig", None),
                            ("step_limitations", "Iteratives", None), ("compute_perturbations", "Iteratives", None), ("normalize", "JacobianValues", None),
                            ("update_jacobian_with_exact_value", "JacobianMatrix", None), ("update_jacobian_with_approximated_value", "JacobianMatrix", None), ("update_inverse", "JacobianMatrix", None)):
            self.keys[ctx.fn(nm, adt, tr).key] = nm
        self.me = {n: ctx.variant("ModelError", n) for n in ("InaccurateValuesError", "UnusableValuesError")}
        self.se = {n: ctx.variant("SolverError", n) for n in ctx.variants("SolverError")}
        self.sie = {n: ctx.variant("SolverInternalError", n) for n in ctx.variants("SolverInternalError")}

    # ---- reports
    def rep(self, st, rule, what, detail, span=""):
        if rule not in ("?", "log off", "log append") and self.I.unmodelled and any(
                has_ext(t) for t in list(st.facts) + [st.store[r] for r in (MROOT, OROOT) if r in st.store]):
            # the state hangs on the result of a function without a model: nothing is refuted
            rule, what, detail = "?", rule, "%s, under a result of %s" % (what, ", ".join(sorted(self.I.unmodelled))[:200])
        self.I.reports.append((rule, what, span, detail, self.label))

    def good(self, rule):
        self.seen[rule] += 1

    def later(self, st, check, *terms):
        """the check could not be decided for every value of the loop variables:
        keep it for the constants the first passes of the loop give them (loop_done)"""
        if self.replay is None and len(self.deferred) < 4000:
            self.deferred.append((st, check, terms, self.head))

    # ---- state access
    def m(self, st, k):
        return st.store[MROOT].args[2][MF.index(k)]

    def setm(self, st, **kw):
        f = list(st.store[MROOT].args[2])
        for k, v in kw.items():
            f[MF.index(k)] = v
        st.store[MROOT] = mk("agg", "$model", 0, tuple(f))

    def o(self, st, k):
        return st.store[OROOT].args[2][OI[k]]

    def seto(self, st, **kw):
        f = list(st.store[OROOT].args[2])
        for k, v in kw.items():
            f[OI[k]] = v
        st.store[OROOT] = mk("agg", "$obs", 0, tuple(f))

    def ph(self, st):
        return self.o(st, "ph").args[1]

    def isfail(self, st):
        f = self.o(st, "fail")
        return f.args[1] != 0

    # ---- types of opaque leaves
    def typ(self, t):
        r = self._typ.get(t)
        if r is not None:
            return r
        o = t.op
        if t is self.guess or o in ("slim", "pertv", "updv", "stopv", "prior"):
            r = "v"
        elif o in ("jtok", "htok", "jnorm", "minv", "eye"):
            r = "m"
        elif o in ("res", "memf", "mem0", "jacv"):
            r = "o"
        elif o in ("madd", "msub", "mneg", "mscale", "mdivs", "upd", "mT"):
            r = self.typ(t.args[0])
        elif o == "mmul":
            r = "v" if self.typ(t.args[1]) == "v" else "m"
        elif o == "last":
            r = self.typ(t.args[1])
        elif o == "fill":
            r = self.typ(t.args[0])
        elif o == "vec":
            r = "v"
        elif o == "phi" and t in IN.PHI_SRC:
            self._typ[t] = "?"
            a, b = IN.PHI_SRC[t]
            r = self.typ(a)
            if r == "?":
                r = self.typ(b)
        else:
            r = "?"
        self._typ[t] = r
        return r

    def evs(self, n=2, env=()):
        e = EvS(GEN, dict(env), n, self.ctx.p, self)
        e.env.setdefault(self.guess, e.gv("guess"))
        return e

    def same(self, a, b, n=2):
        """True / False / None"""
        if a is b:
            return True
        k = (a, b, n)
        r = self._same.get(k)
        if r is None:
            r = self._same[k] = (self.same_(a, b, n), self.why)
        self.why = r[1]
        return r[0]

    def same_(self, a, b, n):
        try:
            e = self.evs(n)
            return e.same(e(a), e(b))
        except (Unk, IndexError, AttributeError, TypeError, ZeroDivisionError) as ex:
            self.why = "%s: %s" % (type(ex).__name__, ex)
            return None

    # ---- facts
    def has_tok(self, t):
        r = self._tok.get(t)
        if r is None:
            r = t.op == "stopv" or t is self.tol or t is self.maxit or any(self.has_tok(k) for k in kids(t))
            self._tok[t] = r
        return r

    def has_old(self, t):
        r = self._old.get(t)
        if r is None:
            r = t.op == "old" or any(self.has_old(k) for k in kids(t))
            self._old[t] = r
        return r

    def merge_key(self, st):
        return frozenset((a, v) for a, v in st.facts.items() if self.has_tok(a) or (a.op in ("discr", "batom") and self.has_old(a)))

    def classes(self, st, toks):
        """consistency of the facts about the given residual vectors with each class.
        toks: list of (term, value list); yields (assignment, True/False/None)
        other residual vectors the facts mention (errors of earlier iterates, update residuals)
        are not determined by these: the class is consistent when it is for some of their values"""
        terms = [t for t, _ in toks]
        rel = [(a, v) for a, v in st.facts.items() if any(self.mentions(a, t) for t in terms)]
        extra = sorted(frozenset().union(*[self.vectors(a) for a, _ in rel]) - set(terms), key=lambda t: t.id)
        if 0 < len(extra) <= 2:
            terms += extra
            n = len(toks)
            best = {}
            for vals, c in self.classes_(rel, terms, [vs for _, vs in toks] + [EXTRA] * len(extra), self.lengths(st)):
                o = best.get(vals[:n], False)
                best[vals[:n]] = True if c is True or o is True else None if c is None or o is None else False
            yield from best.items()
            return
        yield from self.classes_(rel, terms, [vs for _, vs in toks], self.lengths(st))

    def vectors(self, t):
        """the error vectors occurring in t"""
        k = ("vectors", t)
        r = self._tok.get(k)
        if r is None:
            r = frozenset([t]) if t.op in ("stopv", "updv") else frozenset().union(*[self.vectors(x) for x in kids(t)])
            self._tok[k] = r
        return r

    def lengths(self, st):
        """problem sizes at which the classes are sampled: 3, and sizes around the constants the size
        was compared with, as far as the facts admit them"""
        rel = [(a, v) for a, v in st.facts.items() if a.op in ("ige0", "ieq0") and isinstance(v, bool) and self.size_only(a)]
        if not rel:
            return [3]
        ks = set()
        for a, _ in rel:
            TM.int_consts(a, ks)
        out = []
        for n in [3] + sorted({k + d for k in ks for d in (-1, 0, 1, 2) if 3 < k + d <= 40}):
            e = Ev(IEEE, {}, n, self.ctx.p)
            try:
                if all(e.b(a) == v for a, v in rel):
                    out.append(n)
            except (Unk, IndexError, AttributeError, TypeError):
                return [3]
        return out[:3] or [3]

    def size_only(self, t):
        k = ("size", t)
        r = self._tok.get(k)
        if r is None:
            r = self._tok[k] = t is TM.NSYM or t.op == "int" or (t.op in ("ige0", "ieq0", "lin") and all(self.size_only(x) for x in kids(t)))
        return r

    def classes_(self, rel, terms, values, sizes=(3,)):
        for n in sizes:
            # longer vectors repeat the middle value
            vs = values if n == 3 else [[w[:1] + w[1:2] * (n - 2) + w[2:] for w in ws] for ws in values]
            for (vals, r), orig in zip(self.classes1(rel, terms, vs, n), itertools.product(*values)):
                yield orig, r

    def classes1(self, rel, terms, values, n):
        for vals in itertools.product(*values):
            e = None
            r = True
            for a, v in rel:
                k = (a, repr(vals)) + tuple(terms)
                x = self._cls.get(k)
                if x is None:
                    if e is None:
                        e = Ev(IEEE, {**{t: list(w) for t, w in zip(terms, vals)}, self.tol: 1.0}, n, self.ctx.p)
                    try:
                        x = ("v", e.b(a) if isinstance(v, bool) else e(a))
                    except (Unk, IndexError, AttributeError, TypeError) as ex:
                        x = ("?", str(ex))
                    self._cls[k] = x
                if x[0] == "?":
                    self.why = x[1]
                    r = None
                elif x[1] != v:
                    r = False
                    break
            yield vals, r

    def mentions(self, a, t):
        k = (a, t)
        r = self._tok.get(k)
        if r is None:
            r = a is t or any(self.mentions(x, t) for x in kids(a))
            self._tok[k] = r
        return r

    def stopv(self, res):
        return mk("stopv", self.cfg, res)

    def updv(self, res):
        return mk("updv", self.cfg, res)

    # ---- events
    def call(self, I, st, c, args, fr, span):
        tr = (c.get("trait") or "").split("::")[-1]
        if tr == "Model" and (c.get("args") or [""])[0] == "M":
            h = getattr(self, "ev_" + c["name"], None)
            if h is None:
                return None
            r = I.load_all(st, args[0])
            if r.op != "agg" or r.args[0] != "$model":
                return None
            return h(I, st.copy(), args, span)
        nm = self.keys.get(c.get("body"))
        if nm is None:
            return None
        if nm in ("evaluate_stopping_residuals", "evaluate_update_residuals"):
            t = "stopv" if "stopping" in nm else "updv"
            cf, rs = I.load_all(st, args[0]), I.load_all(st, args[1])
            return [(st, mk(t, cf, rs))]
        if nm == "step_limitations":
            return [(st, mk("slim", *[I.load_all(st, a) for a in args]))]
        if nm == "compute_perturbations":
            return [(st, mk("pertv", *[I.load_all(st, a) for a in args]))]
        if nm == "normalize":
            return [(st, mk("jnorm", *[I.load_all(st, a) for a in args]))]
        return self.ev_jm(I, st.copy(), nm, c, args, fr, span)

    def ev_len_problem(self, I, st, args, span):
        return [(st, NSYM)]

    def ev_jacobian_provided(self, I, st, args, span):
        return [(st, boolc(self.provided))]

    def ev_get_memory(self, I, st, args, span):
        return [(st, self.m(st, "mem"))]

    def ev_set_memory(self, I, st, args, span):
        self.setm(st, mem=I.load_all(st, args[1]))
        return [(st, UNIT)]

    def ev_get_iteratives(self, I, st, args, span):
        return [(st, self.m(st, "x"))]

    def after_fail(self, st, what, span):
        if self.isfail(st):
            self.rep(st, "continues", "%s after %s" % (what, FAILN[self.o(st, "fail").args[1]]), "the resolution goes on instead of reporting it", span)

    def ev_set_iteratives(self, I, st, args, span):
        v = I.load_all(st, args[1])
        self.after_fail(st, "set_iteratives", span)
        if self.has_old(v):
            self.rep(st, "history", "iteratives set from an earlier resolution", "the model is set to %s" % sh(v), span)
        self.setm(st, x=v)
        return [(st, UNIT)]

    def ev_get_residuals(self, I, st, args, span):
        x, e = self.m(st, "x"), self.m(st, "evx")
        if x is not e and self.ph(st) != DONE:
            if self.same(x, e) is not True:
                self.rep(st, "stale residuals", "residuals read %s while the iteratives are not evaluated" % PHN[self.ph(st)], "the model holds %s but was last evaluated at %s" % (sh(x), sh(e)), span)
        else:
            self.good("stale residuals")
        return [(st, mk("res", e, self.m(st, "evm")))]

    def do_eval(self, st):
        x, mem = self.m(st, "x"), self.m(st, "mem")
        self.setm(st, evx=x, evm=mem, mem=mk("memf", x, mem))
        return mk("batom", "acc", x, mem), mk("res", x, mem)

    def eval_fork(self, st, failkind, upd_):
        """the three answers of evaluate()"""
        acc, res = self.do_eval(st)
        if failkind != F_JAC:
            self.logged(st, "the next evaluation", "")
            self.seto(st, lg=AG("lg", 0))
        upd_(st, res)
        a, b, f = st, st.copy(), st.copy()
        a.facts[acc] = True
        b.facts[acc] = False
        tok = mk("errtok", "inaccurate", res)
        tok2 = mk("errtok", "unusable", res)
        self.seto(f, fail=AG("fail", failkind, tok2))
        f.facts[acc] = False
        r = "std::result::Result"
        return [(a, MD.ok(UNIT)), (b, MD.err(mk("agg", *self.me["InaccurateValuesError"], (tok,)))), (f, MD.err(mk("agg", *self.me["UnusableValuesError"], (tok2,))))]

    def ev_evaluate(self, I, st, args, span):
        self.after_fail(st, "evaluate", span)
        ph = self.ph(st)
        x = self.m(st, "x")
        n = self.o(st, "n")
        if self.has_old(x):
            self.rep(st, "history", "evaluation at values of an earlier resolution", sh(x), span)
        if ph == PRE:
            if x is not self.guess:
                s = self.same(x, self.guess)
                if s is None:
                    self.rep(st, "?", "initial evaluation", self.why, span)
                elif not s:
                    self.rep(st, "initial guess", "first evaluation is not at the initial guess", "first evaluation at %s" % sh(x), span)
            else:
                self.good("initial guess")
            return self.eval_fork(st, F_INIT, lambda s, res: self.seto(s, ph=phase(ITER), X=x, XE=res, A=x, AE=res))
        if ph in (PROP, DAMP):
            k = self.kind_of(st, x)
            if k == "damp" or ph == DAMP and k not in ("fd", "prop"):
                return self.ev_damped(I, st, x, span)
            out = []
            for s in self.settle(st, span):
                out += self.iter_eval(I, s, x, k, span)
            return out
        return self.iter_eval(I, st, x, self.kind_of(st, x), span)

    def kind_of(self, st, x):
        """what an evaluation at x is: finite difference, proposal or damped iterate"""
        ps = self.perts(x)
        if self.ph(st) in (PROP, DAMP):
            if any(t.args[-1] is self.m(st, "evx") for t in ps):
                return "fd"
            if self.ph(st) == PROP and self.mentions(x, self.o(st, "P")):
                return "damp"
            if x.op == "slim":
                return "prop"
            return "fd" if ps else "damp"
        if x.op == "slim":
            return "prop"
        return "fd" if ps else "prop"

    def perts(self, t):
        """perturbations used in t outside of earlier evaluations and steps"""
        k = ("perts", t)
        r = self._tok.get(k)
        if r is None:
            if t.op == "pertv":
                r = frozenset([t])
            elif t.op in ("slim", "phi", "res"):
                r = frozenset()
            else:
                r = frozenset().union(*[self.perts(x) for x in kids(t)])
            self._tok[k] = r
        return r

    def iter_eval(self, I, st, x, k, span):
        if k == "fd":
            if x is self.m(st, "evx"):
                self.rep(st, "evaluations", "repeated evaluation at a perturbed point", "the model is evaluated again without new iteratives", span)
            self.begin(st, span)
            self.due_exact(st, "a finite-difference evaluation", span)
            if self.provided:
                self.rep(st, "evaluations", "finite differences although the jacobian is provided", "perturbed evaluation although the model provides its jacobian", span)
            return self.eval_fork(st, F_JAC, lambda s, res: None)
        if x is self.o(st, "X"):
            if self.m(st, "evx") is x:
                self.rep(st, "evaluations", "repeated evaluation of the current iterate", "the model is evaluated again without new iteratives", span)
            return self.eval_fork(st, F_ITER, lambda s, res: self.seto(s, XE=res, A=x, AE=res))
        return self.ev_proposal(I, st, x, span)

    # ---- debug log
    def logged(self, st, when, span):
        if not self.debug:
            return
        k = self.o(st, "lg").args[1]
        if k != 7:
            self.rep(st, "log content", "an evaluated iterate is not reported", "%s missing before %s" % (", ".join(n for i, n in enumerate(("iteratives", "residuals", "errors")) if not k >> i & 1), when), span)
        else:
            self.good("log content")

    def io(self, I, st, name, c, args, fr, span):
        if OROOT not in st.store:
            return None
        full = c.get("rdef") or c.get("def") or name
        nm = c["name"]
        if full.startswith("std::path"):
            return None
        if not self.debug:
            self.rep(st, "log off", "%s without the debug log" % full, "input or output although no log was activated", span)
        st = st.copy()
        vals = [I.load_all(st, a) for a in args]
        if full.startswith("std::fs::OpenOptions"):
            if nm == "new":
                return [(st, AG("fopts", 0))]
            if nm == "open":
                flags = {f.args[0]: f.args[1] for f in vals[0].args[2]} if vals[0].op == "agg" else {}
                on = {k for k, v in flags.items() if v is not FALSE}
                if "append" not in on or "truncate" in on or "create_new" in on:
                    self.rep(st, "log append", "the log is opened for something else than appending", "options %s" % sorted(on), span)
                else:
                    self.good("log append")
                self.logpath(st, vals[1], span)
                return [(st, MD.ok(AG("file", 0)))]
            if args[0].op == "ref" and vals[0].op == "agg":
                fs = tuple(f for f in vals[0].args[2] if f.args[0] != nm) + (mk("fopt", nm, vals[1]),)
                I.store_ref(st, args[0], AG("fopts", 0, *fs))
                return [(st, args[0])]
            return None
        if nm in ("write_fmt", "write_all", "write_str", "write") and vals and vals[0].op == "agg" and vals[0].args[0] == "$file":
            self.content(st, vals[1], span)
            return [(st, MD.ok(UNIT if nm != "write" else mk("sym", "written")))]
        if nm in ("flush", "sync_all", "sync_data") and full.startswith(("std::fs", "std::io")):
            return [(st, MD.ok(UNIT))]
        if vals and vals[0].op == "agg" and vals[0].args[0] == "$file" and nm in ("new", "with_capacity", "by_ref", "get_mut", "get_ref"):
            return [(st, args[-1] if nm == "with_capacity" else args[0])]
        if full.startswith("std::fs"):
            self.rep(st, "log append", "%s during a resolution" % full, "the log is only appended to once created", span)
            if nm in ("create", "create_new", "open"):
                return [(st, MD.ok(AG("file", 0)))]
        return None

    def logpath(self, st, v, span):
        if not any(x is sym("path") for x in subterms(v)):
            self.rep(st, "log append", "another file than the log is written", "path %s" % sh(v), span)
        else:
            self.good("log append")

    def content(self, st, v, span):
        """values written to the log belong to the last evaluated iterate"""
        evx = self.m(st, "evx")
        E = mk("res", evx, self.m(st, "evm"))
        mask = self.o(st, "lg").args[1]
        for what, t in self.shown(v):
            want = evx if what == 0 else E
            if t is not want and self.same(t, want) is False:
                self.rep(st, "log content", "the log reports %s of another iterate than the last one evaluated" % ("iteratives", "residuals", "errors")[what], "%s instead of %s" % (sh(t), sh(want)), span)
            else:
                mask |= 1 << what
                self.good("log content")
        self.seto(st, lg=AG("lg", mask))

    def shown(self, v):
        k = ("shown", v)
        r = self._tok.get(k)
        if r is None:
            o = v.op
            if o == "stopv":
                r = frozenset([(2, v.args[1])])
            elif o == "res":
                r = frozenset([(1, v)])
            elif o in ("jtok", "htok", "minv", "jnorm", "updv", "memf"):
                r = frozenset()
            elif o != "phi" and self.typ(v) == "v":
                r = frozenset([(0, v)])
            elif o == "phi" and self.typ(v) == "v":
                r = frozenset([(0, v)])
            else:
                r = frozenset().union(*[self.shown(x) for x in kids(v)])
            self._tok[k] = r
        return r

    # ---- start of an iteration
    def begin(self, st, span):
        """obligations on any work of a new iteration: not converged, iterations left"""
        XE = self.o(st, "XE")
        n = self.o(st, "n")
        t = self.stopv(XE)
        unk = False
        for (v,), c in self.classes(st, [(t, GOOD)]):
            if c is True:
                self.rep(st, "iterates although converged", "work after every residual is within the tolerance", "stopping residuals %s with tolerance 1 do not end the resolution" % (v,), span)
                break
            unk |= c is None
        else:
            if unk:
                self.later(st, lambda q, xe: self.unconverged(q, xe, span), XE)
                self.rep(st, "?", "convergence test", self.why, span)
            else:
                self.good("iterates although converged")
        self.bound(st, n, span)

    def unconverged(self, st, XE, span):
        for (v,), c in self.classes(st, [(self.stopv(XE), GOOD)]):
            if c is True:
                return self.rep(st, "iterates although converged", "work after every residual is within the tolerance", "stopping residuals %s with tolerance 1 do not end the resolution" % (v,), span)

    def bound(self, st, n, span):
        c = ige0(isub(isub(self.maxit, n), intc(1)))
        d = decide(st, c)
        if d is True:
            self.good("iteration bound")
            return
        if d is None:
            # integer classes: is some n >= max_iter admitted by the facts?
            rel = [(a, v) for a, v in st.facts.items() if a.op in ("ige0", "ieq0") and self.mentions(a, self.maxit)]
            ok_ = False
            for k in range(0, 5):
                env = {self.maxit: 2}
                try:
                    e = Ev(IEEE, env, 3, self.ctx.p)
                    kn, m = TM._lin(n)
                    if not m:
                        if kn != k:
                            continue
                    elif len(m) == 1:
                        p, q = list(m.items())[0]
                        if (k - kn) % q:
                            continue
                        e.env[p] = (k - kn) // q
                        if e.env[p] < 0:
                            continue
                    else:
                        raise Unk("counter")
                    if all(e.b(a) == v for a, v in rel) and k >= 2:
                        ok_ = True
                        break
                except Unk as ex:
                    self.rep(st, "?", "iteration bound", "iteration count not related to the loop condition: %s" % ex, span)
                    return
            if not ok_:
                self.good("iteration bound")
                return
        self.rep(st, "iteration bound", "an iteration is made although max_iter iterations were made", "iteration number n=%s starts without n < max_iter being established (facts: %s)" % (sh(n), "; ".join("%s=%s" % (sh(a), v) for a, v in st.facts.items() if self.mentions(a, self.maxit))), span)

    def due(self, st):
        """what the method calls for at this iteration: 'exact', 'approx', None"""
        if self.o(st, "fresh") is TRUE:
            return None
        j = self.o(st, "jst")
        if self.kind == "NR":
            return "exact"
        if j is NOJ:
            return "exact"
        if self.kind == "SN":
            return "exact" if self.o(st, "must") is TRUE else None
        return "exact" if self.o(st, "must") is TRUE else "approx"

    def due_exact(self, st, what, span):
        d = self.due(st)
        if d != "exact":
            self.rep(st, "schedule", "jacobian evaluated although not due (%s)" % self.kind, "%s although the method calls for %s" % (what, d or "the jacobian in use"), span)
        else:
            self.good("schedule")

    # ---- jacobian
    def ev_get_jacobian(self, I, st, args, span):
        self.after_fail(st, "get_jacobian", span)
        out = []
        for s in (self.settle(st, span) if self.ph(st) in (PROP, DAMP) else [st]):
            if self.ph(s) == ITER:
                self.begin(s, span)
                self.due_exact(s, "get_jacobian", span)
            x, e = self.m(s, "x"), self.m(s, "evx")
            if x is not e:
                self.rep(s, "stale residuals", "jacobian asked while the iteratives are not evaluated", "the model holds %s but was last evaluated at %s" % (sh(x), sh(e)), span)
            v = mk("jacv", x, e, self.m(s, "evm"))
            out.append((s, MD.ok(v)))
            for nm in ("InaccurateValuesError", "UnusableValuesError"):
                f = s.copy()
                tok = mk("errtok", "jac" + nm, v)
                self.seto(f, fail=AG("fail", F_JAC, tok))
                out.append((f, MD.err(mk("agg", *self.me[nm], (tok,)))))
        return out

    def ev_jm(self, I, st, nm, c, args, fr, span):
        body = I.p.fns[c["body"]]
        Mx = I.load_all(st, args[1])
        out = []
        for s in (self.settle(st, span) if self.ph(st) in (PROP, DAMP) else [st]):
            self.after_fail(s, nm, span)
            self.begin(s, span)
            if nm == "update_jacobian_with_exact_value":
                self.due_exact(s, "exact jacobian stored", span)
                self.check_exact(s, Mx, span)
                tok = mk("jtok", self.o(s, "XE"))
                J, H, j = tok, mk("minv", tok), EXACT_
            else:
                inv = nm == "update_inverse"
                d = self.due(s)
                if d != "approx":
                    self.rep(s, "schedule", "approximation although %s (%s)" % (("the jacobian must be recomputed" if d == "exact" else "not due"), self.kind), "%s is called although the method calls for %s" % (nm, d or "the jacobian in use"), span)
                elif inv != (self.kind == "I"):
                    self.rep(s, "schedule", "wrong kind of approximation", "%s is called for the method %s" % (nm, self.kind), span)
                else:
                    self.good("schedule")
                    self.check_approx(s, Mx, inv, span)
                if inv:
                    tok = mk("htok", self.o(s, "H"), self.o(s, "XE"))
                    J, H, j = self.o(s, "J"), tok, APPROX
                else:
                    tok = mk("jtok", self.o(s, "J"), self.o(s, "XE"))
                    J, H, j = tok, mk("minv", tok), APPROX
            for s2, v in I.call_body(fr, s, body, [args[0], tok] + list(args[2:])):
                s2 = s2.copy()
                bad = v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1
                if bad:
                    self.seto(s2, fail=AG("fail", F_SING, UNIT))
                else:
                    self.seto(s2, jst=j, fresh=TRUE, must=FALSE, J=J, H=H)
                out.append((s2, v))
        return out

    def check_exact(self, st, Mx, span):
        X, XE = self.o(st, "X"), self.o(st, "XE")
        evx, evm = XE.args if XE.op == "res" else (None, None)
        if evx is None:
            return self.rep(st, "?", "exact jacobian", "current residuals %s" % sh(XE), span)
        if self.provided:
            want = mk("jnorm", mk("jacv", X, evx, evm), XE, self.umeth)
            s = self.same(Mx, want)
            if s is None:
                self.later(st, lambda q, M: self.check_exact(q, M, span), Mx)
                self.rep(st, "?", "exact jacobian", self.why, span)
            elif s:
                self.good("analytic jacobian")
            else:
                self.rep(st, "analytic jacobian", "stored matrix is not the normalised jacobian at the current iterate", "stored %s, required %s" % (sh(Mx), sh(want)), span)
            return
        mref = mk("memf", evx, evm)
        p = mk("pertv", self.its, X)
        for n in (1, 2, 3):
            try:
                e = self.evs(n)
                got = e.matv(e(Mx))
                pv_ = e(p)
                base = e(self.updv(XE))
                cols = []
                for j in range(n):
                    jt = intc(j)
                    pt = upd(X, jt, mk("fadd", idx(X, jt), idx(p, jt)))
                    u = e(self.updv(mk("res", pt, mref)))
                    cols.append([GEN.div(GEN.sub(u[i], base[i]), pv_[j]) for i in range(n)])
                want = Mat(n, n, [[cols[j][i] for j in range(n)] for i in range(n)])
                if e.same(got, want):
                    self.good("finite differences")
                    continue
                # which columns / rows differ
                d = ["(%d,%d)" % (i, j) for i in range(n) for j in range(n) if not e.same(got.e[i][j], want.e[i][j])]
                self.rep(st, "finite differences", "stored matrix is not the forward-difference jacobian", "dimension %d: entries %s differ; stored %s" % (n, " ".join(d), sh(Mx)), span)
                break
            except (Unk, IndexError, AttributeError, TypeError, ZeroDivisionError) as ex:
                s = str(ex)
                if "index out of bounds" in s or "store out of bounds" in s or "matrix shapes" in s:
                    self.rep(st, "finite differences", "stored matrix is not the forward-difference jacobian", "dimension %d: %s" % (n, s), span)
                else:
                    self.later(st, lambda q, M: self.check_exact(q, M, span), Mx)
                    self.rep(st, "?", "finite differences", s, span)
                break
        if self.m(st, "mem") is not mref:
            self.rep(st, "memory", "the reference memory is not restored after the finite differences", "memory is %s" % sh(self.m(st, "mem")), span)
        else:
            self.good("memory")

    def check_approx(self, st, Mx, inv, span):
        X, XE, Xp, XpE = (self.o(st, k) for k in ("X", "XE", "Xp", "XpE"))
        k = (Mx, inv) + tuple(self.o(st, q) for q in ("X", "XE", "Xp", "XpE", "Ap", "ApE", "J", "H"))
        r = self._same.get(k)
        if r is None:
            r = self._same[k] = self.approx(st, Mx, inv)
        rule, what, detail = r
        if what is None:
            self.good("step origin")
            self.good("quasi-Newton update")
        else:
            if rule == "?":
                self.later(st, lambda q, M: self.check_approx(q, M, inv, span), Mx)
            self.rep(st, rule, what, detail, span)

    def approx(self, st, Mx, inv):
        X, XE, Xp, XpE = (self.o(st, k) for k in ("X", "XE", "Xp", "XpE"))
        alts = [("", Xp, XpE), ("finite difference", self.o(st, "Ap"), self.o(st, "ApE"))]
        r = None
        for lab, xp, xpe in alts:
            try:
                e = self.evs(2)
                got = e.matv(e(Mx))
                J = e.matv(e(self.o(st, "J"))) if not inv else None
                H = e.matv(e(self.o(st, "H")))
                s = [GEN.sub(a, b) for a, b in zip(e(X), e(xp))]
                y = [GEN.sub(a, b) for a, b in zip(e(self.updv(XE)), e(self.updv(xpe)))]
                want = K.qn_spec(e, "inv" if inv else "jac", self.qn, J, H, s, y, e(self.updv(XE)))
                r = e.same(got, want)
            except (Unk, IndexError, AttributeError, TypeError, ZeroDivisionError) as ex:
                self.why = "%s: %s" % (type(ex).__name__, ex)
                return "?", "quasi-Newton update", self.why
            if r:
                if lab:
                    return "step origin", "quasi-Newton step starts at the last finite-difference point", "s and y are measured from %s instead of the previous iterate" % sh(xp)
                return "", None, ""
        return "quasi-Newton update", "update is not the %s formula on the last step" % self.qn, "stored %s" % sh(Mx)

    # ---- proposal
    def ev_proposal(self, I, st, x, span):
        self.begin(st, span)
        n = self.o(st, "n")
        d = self.due(st)
        if d is not None:
            self.rep(st, "schedule", "proposal without the %s jacobian that is due (%s)" % (d, self.kind), "the jacobian in use is %s" % ("missing", "exact", "approximated")[self.o(st, "jst").args[1]], span)
        else:
            self.good("schedule")
        A = self.m(st, "evx")
        AE = mk("res", A, self.m(st, "evm"))
        self.check_proposal(st, x, d, span)
        return self.eval_fork(st, F_ITER, lambda s, r: self.seto(s, ph=phase(PROP), n=iadd(n, intc(1)), P=x, PE=r, A=A, AE=AE))

    def check_proposal(self, st, x, d, span):
        X, XE, H = self.o(st, "X"), self.o(st, "XE"), self.o(st, "H")
        A = self.m(st, "evx")
        AE = mk("res", A, self.m(st, "evm"))
        res = None
        cands = [("", X, XE, X)]
        if A is not X:
            cands += [("finite difference", A, AE, A), ("finite difference", X, AE, X), ("finite difference", A, XE, A)]
        if d is None:
            for lab, a, ae, b in cands:
                want = mk("slim", self.its, a, mk("mneg", mk("mmul", H, self.updv(ae))))
                res = self.same(x, want)
                if res:
                    if lab:
                        self.rep(st, "proposal origin", "the Newton step is taken from the last finite-difference point", "the proposal starts at %s instead of the current iterate" % sh(a), span)
                    else:
                        self.good("proposal origin")
                        self.good("proposal")
                    break
            if not res:
                if res is None:
                    self.later(st, lambda q, y: self.check_proposal(q, y, d, span), x)
                    self.rep(st, "?", "proposal", self.why, span)
                elif x.op != "slim":
                    self.rep(st, "limited", "an iterate is not limited by the iteratives configuration", "the model is evaluated at %s" % sh(x), span)
                    self.rep(st, "proposal", "the proposal is not the limited Newton step", "the model is evaluated at %s" % sh(x), span)
                else:
                    self.rep(st, "proposal", "the proposal is not the limited Newton step", "the model is evaluated at %s" % sh(x), span)
        if x.op == "slim":
            self.good("limited")

    def ev_damped(self, I, st, x, span):
        ph = self.ph(st)
        if x is self.m(st, "evx"):
            self.rep(st, "evaluations", "repeated evaluation of the proposal", "the model is evaluated again without new iteratives", span)
        if ph == DAMP:
            self.rep(st, "evaluations", "more than one damped evaluation", "a second damped iterate %s is evaluated" % sh(x), span)
        self.check_damped(st, x, span)
        return self.eval_fork(st, F_ITER, lambda s, r: self.seto(s, ph=phase(DAMP)))

    def check_damped(self, st, x, span):
        half = fltc(Fr(1, 2))
        X, P, A = self.o(st, "X"), self.o(st, "P"), self.o(st, "A")
        done = False
        for lab, b in (("", X), ("finite difference", A)):
            want = mk("madd", mk("mscale", b, half), mk("mscale", P, half))
            s = self.same(x, want)
            if s:
                done = True
                if lab:
                    self.rep(st, "damping origin", "the damped iterate is measured from the last finite-difference point", "midpoint of %s and the proposal" % sh(b), span)
                else:
                    self.good("damping origin")
                    self.good("damped point")
                break
        if not done:
            if s is None:
                self.later(st, lambda q, y: self.check_damped(q, y, span), x)
                self.rep(st, "?", "damped point", self.why, span)
            else:
                self.rep(st, "damped point", "the iterate evaluated after the proposal is not the midpoint", "the model is evaluated at %s" % sh(x), span)

    # ---- end of an iteration
    def settle(self, st, span=""):
        ph = self.ph(st)
        st = st.copy()
        X, XE, A, AE, P, PE = (self.o(st, k) for k in ("X", "XE", "A", "AE", "P", "PE"))
        appr = self.kind != "NR" and self.o(st, "jst") is APPROX
        musts = set()
        if self.damping:
            musts = self.reaction(st, XE, PE, ph, appr, span, AE)
        else:
            if ph == DAMP:
                self.rep(st, "damping", "damped iterate although damping is off", "", span)
            else:
                self.good("damping")
            musts = {False}
        evx, evm = self.m(st, "evx"), self.m(st, "evm")
        E = mk("res", evx, evm)
        kw = dict(ph=phase(ITER), X=evx, XE=E, A=evx, AE=E, P=UNIT, PE=UNIT, fresh=FALSE)
        if self.kind in ("J", "I"):
            kw.update(Xp=X, XpE=XE, Ap=A, ApE=AE)
        out = []
        if not musts:
            self.good("(no class)")
        for mu in sorted(musts):
            s = st.copy()
            self.seto(s, must=boolc(mu), **kw)
            out.append(s)
        return out

    def reaction(self, st, XE, PE, ph, appr, span, AE):
        def run(base):
            bad, unk, musts = None, None, set()
            for (pv_, nx), c in self.classes(st, [(self.stopv(base), PREV), (self.stopv(PE), NEXT)]):
                if c is False:
                    continue
                if c is None:
                    unk = self.why
                    continue
                nan = any(q != q for q in nx)
                incr = nan or (not any(q != q for q in pv_) and max(nx) > max(pv_))
                if not incr:
                    need, mu = PROP, False
                elif appr:
                    need, mu = PROP, True
                else:
                    need, mu = DAMP, False
                if need != ph:
                    bad = (pv_, nx, need)
                    break
                musts.add(mu)
            return bad, unk, musts
        bad, unk, musts = run(XE)
        if (bad or unk) and AE is not XE:
            b2, u2, m2 = run(AE)
            if not b2 and not u2:
                self.rep(st, "damping origin", "the error is compared with the one of the last finite-difference point", "the previous iterate's error is not the one compared with", span)
                return m2
        if bad or unk:
            musts = {False}
        if bad:
            pv_, nx, need = bad
            self.rep(st, "damping", "%s where %s is required" % (("the iterate is kept", "", "the step is halved")[0 if ph == PROP else 2], "damping" if need == DAMP else "no damped iterate"),
                     "previous residuals %s, next residuals %s, jacobian %s" % (pv_, nx, "approximated" if appr else "exact"), span)
        elif unk:
            self.later(st, lambda q, xe, pe, ae: self.reaction(q, xe, pe, ph, appr, span, ae), XE, PE, AE)
            self.rep(st, "?", "damping condition", unk, span)
        else:
            self.good("damping")
        return musts

    def on_back(self, I, st, where=None):
        if self.depth != 1 or OROOT not in st.store:
            return [st]
        moved = self.ph(st) in (PROP, DAMP)
        if moved:
            self.mainloops.add(where)
        if where in self.mainloops:
            st = st.copy()
            self.seto(st, pg=AG("pg", 0 if moved else 1))
        return [self.forget(s) for s in (self.settle(st) if self.ph(st) in (PROP, DAMP) else [st])]

    def forget(self, st):
        """drop what is known about values the state no longer holds"""
        XE, AE = self.o(st, "XE"), self.o(st, "AE")
        acc = mk("batom", "acc", self.m(st, "evx"), self.m(st, "evm"))
        live = None
        s = St(st.store, {}, st.trace)
        for a, v in st.facts.items():
            if a.op == "batom":
                if a.args[0] == "acc" and a is not acc:
                    continue
                if a.args[0] == "invertible":
                    continue
            elif any(r.args[1] is not XE and r.args[1] is not AE for r in self.vectors(a)):
                continue
            s.facts[a] = v
        return s

    def partition(self, st):
        """what distinguishes loop-head states besides their store: the verdicts on the current evaluation"""
        if OROOT not in st.store or self.depth != 1:
            return None
        XE = self.o(st, "XE")
        acc = mk("batom", "acc", self.m(st, "evx"), self.m(st, "evm"))
        k = [("acc", st.facts.get(acc))]
        if isinstance(XE, T) and XE.op == "res":
            t = self.stopv(XE)
            d = mk("sym", "$current")
            for a, v in st.facts.items():
                if self.vectors(a) == {t}:
                    k.append((subst(a, {t: d}), v))
        return frozenset(k)

    def loop_enter(self, I):
        self.depth += 1

    def loop_leave(self, I):
        self.depth -= 1

    def loop_done(self, I, tag, heads, live, edges, entry, final):
        """every pass of the main loop makes a proposal or counts towards its bound"""
        if self.depth != 1:
            return
        self.counting(heads, edges, entry, tag)
        self.replays(heads, edges, entry, tag)
        for j, k, sg, b in edges:
            if OROOT not in b.store or self.o(b, "pg").args[1] != 1:
                continue
            for p, v in sg.items():
                d = isub(v, p) if isinstance(v, T) else None
                if d is not None and d.op == "int" and d.args[0] >= 1:
                    break
            else:
                self.rep(b, "progress", "a pass of the main loop makes no proposal and counts nothing", "the pass ends in the state it started from", tag)
                return
        if any(OROOT in b.store for _, _, _, b in edges):
            self.good("progress")

    def loop_stable(self, I):
        if self.depth == 1:
            del self.deferred[:]

    def loop_head(self, I, j):
        if self.depth == 1:
            self.head = j

    def histories(self, heads, edges, entry, tag):
        """what the loop variables of a head are in the first pass, and in the second one
        when nothing relates the errors of the first two iterates (a damped iterate, or a
        proposal from an approximated jacobian)"""
        first, second = {}, {}
        for j, h in enumerate(heads):
            if h is None:
                continue
            P = frozenset(p for t in h.store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
            for s in entry:
                m = match_state(h, s, P)
                if m is not None:
                    first.setdefault(j, []).append(m)
        for j, k, sg, b in edges:
            if OROOT not in b.store:
                continue
            X = self.m(b, "evx")
            if not isinstance(X, T) or X.op != "madd" and (X.op != "slim" or self.kind == "NR"):
                continue
            for m in first.get(j, ()):
                second.setdefault(k, []).append({p: subst(v, m) if m and isinstance(v, T) else v for p, v in sg.items()})
        return {j: first.get(j, []) + second.get(j, [])[:8] for j in set(first) | set(second)}

    def replays(self, heads, edges, entry, tag):
        """undecided checks, for the constant values the first passes give the loop variables,
        and for the terms they are in the first two passes"""
        if not self.deferred:
            return
        maps = [{}]
        for _ in range(4):
            new = []
            for m0 in maps:
                for j, k, sg, b in edges:
                    n = dict(m0)
                    for p, v in sg.items():
                        if isinstance(v, T) and v is not p:
                            w = subst(v, m0) if m0 else v
                            if w.op in ("int", "flt", "bool"):
                                n[p] = w
                    if n and n not in new and n not in maps:
                        new.append(n)
            if not new or len(maps) > 40:
                break
            maps += new[:20]
        hist = self.histories(heads, edges, entry, tag)
        keep = self.I.reports
        got = {}
        for st, check, terms, head in self.deferred:
            ph = frozenset().union(*[phis(t) for t in terms])
            for whole, m in [(False, m) for m in maps] + [(True, m) for m in hist.get(head, ())]:
                if not whole and not ph & set(m):
                    continue
                q = st.copy()
                facts = {}
                for a, v in st.facts.items():
                    if phis(a):
                        w = subst(a, m)
                        if w.op == "bool" and w.args[0] != v:
                            break
                        if whole and w.op != "bool":
                            if facts.get(w, v) != v:
                                break
                            facts[w] = v
                    elif whole:
                        facts[a] = v
                else:
                    if whole:
                        q.facts = facts
                    q.store[OROOT] = subst(q.store[OROOT], m)
                    q.store[MROOT] = subst(q.store[MROOT], m)
                    self.replay, self.I.reports, seen = m, [], self.seen.copy()
                    try:
                        check(q, *[subst(t, m) for t in terms])
                    except (Unk, Unsupported, Conflict, NoMatch):
                        pass
                    for r in self.I.reports:
                        if r[0] != "?":
                            got.setdefault(r[:2], r)
                    self.replay, self.I.reports, self.seen = None, keep, seen
        keep += got.values()
        del self.deferred[:]

    def counting(self, heads, edges, entry, tag):
        """every iteration moves the counter that max_iter bounds, always the same way"""
        ph = set()
        for j, k, sg, b in edges:
            if OROOT not in b.store or self.o(b, "pg").args[1] != 0:
                return
            for a in b.facts:
                if a.op in ("ige0", "ieq0") and self.mentions(a, self.maxit):
                    ph |= {p for p in TM._lin(a.args[0])[1] if p.op == "phi" and p.args[0] == tag}
        if not ph or not edges:
            return
        own = {j: frozenset().union(*[phis(t) for t in heads[j].store.values()]) for j in {e[0] for e in edges}}
        # the counter goes by different names at different heads: compare what is
        # left of max_iter where a pass starts with what is left where the next one does
        left = {}
        for j, k, sg, b in edges:
            for a, v in b.facts.items():
                if a.op == "ige0" and v is True and self.mentions(a, self.maxit) and phis(a) & own[j] and any(p.args[0] == tag for p in phis(a)):
                    left.setdefault(j, set()).add(a.args[0])
        ds = []
        for j, k, sg, b in edges:
            if len(left.get(j, ())) == 1 and len(left.get(k, ())) == 1:
                d = isub(TM.subst(next(iter(left[k])), {p: t for p, t in sg.items() if isinstance(t, T)}, {}), next(iter(left[j])))
                if d.op == "int":
                    ds.append((d.args[0], b))
        if ds and any(d >= 0 for d, _ in ds):
            b = next(b for d, b in ds if d >= 0)
            self.rep(b, "iteration bound", "an iteration is made without being counted", "what is left of max_iter changes by %s over the passes of the loop" % sorted({d for d, _ in ds}), tag)
            return
        dirs = {}
        for j, k, sg, b in edges:
            for p in ph:
                if p in own[j] and p in sg:
                    v = sg[p]
                    d = isub(v, p) if isinstance(v, T) else None
                    dirs.setdefault(p, []).append((d.args[0] if d is not None and d.op == "int" else None, b))
        for p, dl in dirs.items():
            ds = [d for d, _ in dl]
            if None not in ds and (all(d > 0 for d in ds) or all(d < 0 for d in ds)):
                self.good("iteration bound")
                return
        for p, dl in dirs.items():
            ds = [d for d, _ in dl]
            if None not in ds and any(ds):
                b = next(b for d, b in dl if d == 0 or d * max(ds, key=abs) < 0)
                self.rep(b, "iteration bound", "an iteration is made without being counted", "the counter compared with max_iter changes by %s over the passes of the loop" % sorted(set(ds)), tag)
                return

        self.overrun(heads, edges, entry, tag, ph)

    def overrun(self, heads, edges, entry, tag, ph):
        """a counter that is neither increasing nor decreasing: its values from the entry on,
        for some limits, with the integer guards of the passes"""
        ints = lambda a: a.op in ("ige0", "ieq0") and all(p in ph or p is self.maxit for p in TM.leaves(a))
        P = frozenset(ph)
        consts = set()
        for j, k, sg, b in edges:
            for t in list(b.facts) + [v for v in sg.values() if isinstance(v, T)]:
                TM.int_consts(t, consts)
        for j, k, sg, b in edges:
            g = [a for a in b.facts if self.mentions(a, self.maxit)]
            if not g or not all(ints(a) for a in g):
                return
        for lim in sorted({1, 2, 3, 5} | {c + d for c in consts if 0 < c <= 70000 for d in (0, 2)}):
            for j, h in enumerate(heads):
                if h is None:
                    continue
                for s in entry:
                    m = match_state(h, s, frozenset(p for t in h.store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag))
                    if m is None:
                        continue
                    cur = {p: m[p].args[0] for p in P if p in m and isinstance(m[p], T) and m[p].op == "int"}
                    at, made, b1 = j, 0, None
                    memo = {}
                    while made <= lim:
                        key = (at, tuple(sorted((p.id, v) for p, v in cur.items())))
                        nxt = memo.get(key)
                        if nxt is not None:      # the counter is back where it was: the passes never end
                            made = lim + 1
                            break
                        for j2, k2, sg, b in edges:
                            if j2 != at:
                                continue
                            e = Ev(IEEE, {**cur, self.maxit: lim}, 3, self.ctx.p)
                            try:
                                if all(e.b(a) == v for a, v in b.facts.items() if ints(a)):
                                    nxt = (k2, {p: e.num(e(sg.get(p, p))) for p in P if p in cur or p in sg}, b)
                                    break
                            except Unk:
                                continue
                        if nxt is None:
                            break
                        memo[key] = nxt
                        at, cur, b1 = nxt
                        made += 1
                    if made > lim:
                        self.rep(b1, "iteration bound", "an iteration is made although max_iter iterations were made", "with max_iter = %d the counter lets more than %d iterations be made" % (lim, lim), tag)
                        return

    # ---- other hooks
    def on_branch(self, I, st, v, fr, t):
        if self.has_old(v):
            self.rep(st, "history", "decision on the state left by an earlier resolution", "branch on %s" % sh(v), str(t[-1]) if t and isinstance(t[-1], str) else "")

    def on_panic(self, I, st, kind, fr, span, detail):
        if OROOT not in st.store:
            I.panics.append((kind, "?", span, st, detail))
            return
        nm = fr.body.key.split("::")[-1] if fr.body else "?"
        self.rep(st, "panic", "%s in %s" % (str(kind).split("::")[-1], nm), "reachable panic: %s %s" % (kind, sh(detail) if isinstance(detail, T) else ""), span)


_ext = {}


def has_ext(t):
    r = _ext.get(t)
    if r is None:
        r = _ext[t] = t.op in ("ext", "extmut") or any(has_ext(k) for k in TM.kids(t))
    return r


def sh(t):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) < 260 else s[:260] + "..."


F_INIT, F_ITER, F_JAC, F_SING = 1, 2, 3, 4
FAILN = ("", "unusable values at the initial evaluation", "unusable values at an iterate", "a failed jacobian evaluation", "a singular jacobian")
QNM = ("BroydenFirstMethod", "BroydenSecondMethod", "GreenstadtFirstMethod", "GreenstadtSecondMethod")
METHODS = [("NR", ""), ("SN", "")] + [("J", q) for q in QNM] + [("I", q) for q in QNM]


def method_term(ctx, m):
    k, q = m
    if k == "NR":
        return ctx.tvar("ResolutionMethod", "NewtonRaphson")
    if k == "SN":
        t = ctx.tvar("QuasiNewtonMethod", "StationaryNewton")
    else:
        t = ctx.tvar("QuasiNewtonMethod", "JacobianUpdate" if k == "J" else "InverseJacobianUpdate", ctx.tvar("UpdateQuasiNewtonMethod", q))
    return ctx.tvar("ResolutionMethod", "QuasiNewton", t)


def returned(D, st, v, span):
    """obligations on a return of solve()"""
    o = D.o
    if v.op != "agg":
        return D.rep(st, "?", "returned value", sh(v), span)
    isok = v.args[1] == 0
    err, pay = None, ()
    if not isok:
        e = v.args[2][0]
        if e.op != "agg":
            return D.rep(st, "?", "returned error", sh(e), span)
        err = [n for n, (a, i) in D.se.items() if i == e.args[1]][0]
        pay = e.args[2]
    f = o(st, "fail")
    got = "Ok" if isok else err
    if f.args[1]:
        want = {F_INIT: "ModelInitialEvaluationError", F_ITER: "ModelEvaluationError", F_JAC: "JacobianError", F_SING: "JacobianError"}[f.args[1]]
        if got != want:
            return D.rep(st, "error category", "%s reported as %s" % (FAILN[f.args[1]], got), "required %s" % want, span)
        if f.args[1] == F_SING:
            ok_ = pay and pay[0].op == "agg" and pay[0].args[1] == D.sie["InvalidJacobianInverseError"][1]
        elif f.args[1] == F_INIT:
            ok_ = any(f.args[2][0] in subterms(p) for p in pay)
        elif f.args[1] == F_ITER:
            ok_ = pay and pay[0].op == "agg" and pay[0].args[0] == D.me["UnusableValuesError"][0] and pay[0].args[1] == D.me["UnusableValuesError"][1] and pay[0].args[2] == (f.args[2][0],)
        else:
            ok_ = pay and pay[0].op == "agg" and pay[0].args[1] == D.sie["InvalidJacobianError"][1] and pay[0].args[2] and pay[0].args[2][0].op == "agg" and pay[0].args[2][0].args[2] == (f.args[2][0],)
            if ok_:
                vn = [n for n, (a, i) in D.me.items() if i == pay[0].args[2][0].args[1]][0]
                ok_ = ("inaccurate" in str(f.args[2][0].args[0]).lower()) == (vn == "InaccurateValuesError")
        if not ok_:
            return D.rep(st, "error payload", "%s does not carry the model's error" % got, "payload %s" % sh(pay[0] if pay else UNIT), span)
        D.good("error category")
        return
    if got not in ("Ok", "NonConvergenceError", "FinalEvaluationError"):
        return D.rep(st, "error category", "%s although nothing failed" % got, sh(v), span)
    if o(st, "ph") is phase(PRE):
        return D.rep(st, "initial guess", "returns without evaluating the model", "", span)
    D.logged(st, "the return", span)
    for s in (D.settle(st, span) if D.ph(st) in (PROP, DAMP) else [st]):
        XE = o(s, "XE")
        t = D.stopv(XE)
        conv = got != "NonConvergenceError"
        unk = None
        for (vals,), c in D.classes(s, [(t, BAD if conv else GOOD)]):
            if c is True:
                rule = "verdict" if got != "NonConvergenceError" else "verdict"
                D.rep(s, "verdict", "%s %s" % (got, "with a residual beyond the tolerance" if conv else "although every residual is within the tolerance"), "stopping residuals %s at tolerance 1" % (vals,), span)
                break
            if c is None:
                unk = D.why
        else:
            if unk:
                D.rep(s, "?", "verdict", unk, span)
            else:
                D.good("verdict")
        x, e = D.m(s, "x"), D.m(s, "evx")
        if got in ("Ok", "FinalEvaluationError"):
            if x is not e and D.same(x, e) is not True:
                D.rep(s, "final state", "%s while the model is not evaluated at the iteratives it holds" % got, "holds %s, evaluated at %s" % (sh(x), sh(e)), span)
            elif e is not o(s, "X"):
                D.rep(s, "final state", "%s while the model was last evaluated elsewhere" % got, "evaluated at %s" % sh(e), span)
            else:
                D.good("final state")
            acc = decide(s, mk("batom", "acc", e, D.m(s, "evm")))
            if acc is None or acc != isok:
                D.rep(s, "validity", "%s although the last evaluation %s" % (got, {None: "may have reported inaccurate values", True: "reported no error", False: "reported inaccurate values"}[acc]), "", span)
            else:
                D.good("validity")
        else:
            d = decide(s, ige0(isub(isub(D.maxit, o(s, "n")), intc(1))))
            if d is False:
                D.good("iterations used")
            elif d is None and stuck(D, s):
                D.rep(s, "?", "iterations used", "count not related to max_iter", span)
            else:
                D.rep(s, "iterations used", "NonConvergenceError before max_iter iterations", "n=%s" % sh(o(s, "n")), span)


def stuck(D, s):
    """facts about max_iter that involve another counter than n: nothing can be refuted"""
    n = o_ = D.o(s, "n")
    _, m = TM._lin(n)
    for a in s.facts:
        if a.op in ("ige0", "ieq0") and D.mentions(a, D.maxit):
            _, k = TM._lin(a.args[0])
            if any(x is not D.maxit and x not in m for x in k):
                return True
    return False


def placeholders(ctx, rf, args):
    """fields of the solver that hold no argument of its constructor"""
    r = []
    syms = set()
    for a in args:
        syms |= {x for x in subterms(a) if x.op == "sym"}
    for i, f in enumerate(rf.args[2]):
        if not any(x in syms for x in subterms(f)):
            r.append(i)
    return r


def setup(ctx, method, damping, debug, old):
    tol, maxit = sym("tol"), sym("max_iter")
    guess = sym("guess")
    L, R, S, U, rv, rc = K.res_objects(ctx)
    ps = sym("params")
    its = ctx.build("new", "Iteratives", [cref(ps)])
    par = ctx.build("new", "SolverParameters", [NSYM, tol, maxit, method_term(ctx, method), boolc(damping)])
    f = ctx.fn("new", "RootFinder")
    sm = ctx.summ(f, [par, guess, cref(its), cref(rc)])
    vs = {v for _, v in sm.results}
    if len(vs) != 1:
        raise Unk("RootFinder::new has %d results" % len(vs))
    rf = vs.pop()
    ph = placeholders(ctx, rf, [par, guess, its, rc])
    st = ctx.base_state()
    root = ("P", "rf")
    st.store[root] = rf
    fixed = set()
    if True:
        g = ctx.fn("activate_debug", "RootFinder")
        st2 = st.copy()
        sm = ctx.summ(g, [("ref", root), cref(mk("s", (sym("path"),)))], st=st2)
        vals = {s.store[root] for s, _ in sm.results}
        if len(vs) > 1 or not vals:
            raise Unk("activate_debug has %d results" % len(vals))
        dbg = vals.pop()
        fixed = {i for i in range(len(rf.args[2])) if dbg.args[2][i] is not rf.args[2][i]}
        if debug:
            rf = dbg
    fs = list(rf.args[2])
    fld = ctx.p.adts[rf.args[0]]["variants"][0]["fields"]
    for i in (ph if old is None else sorted(old)):
        if i not in fixed or old is not None:
            nm = fld[i]["name"] if isinstance(fld[i], dict) else fld[i][0] if isinstance(fld[i], (list, tuple)) else str(fld[i])
            fs[i] = mk("old", nm)
    st.store[root] = mk("agg", rf.args[0], rf.args[1], tuple(fs))
    um = ctx.summ(ctx.fn("get_update_methods", "ResidualsConfig"), [cref(rc)])
    u = {um.I.load_all(s, v) for s, v in um.results}.pop()
    return st, root, (guess, its, rc, u, tol, maxit), [i for i in ph if i not in fixed], rf


def analyse(ctx, method, damping, provided, debug, old=None, budget=None):
    st, root, objs, ph, rf0 = setup(ctx, method, damping, debug, old)
    label = "%s%s damping=%s jacobian=%s log=%s" % (method[0], "/" + method[1] if method[1] else "", "on" if damping else "off", "analytic" if provided else "finite-difference", "on" if debug else "off")
    D = SolveDom(ctx, method, damping, provided, label, objs, debug)
    st.store[MROOT] = mk("agg", "$model", 0, (mk("prior", intc(0)), mk("prior", intc(1)), mk("mem0"), mk("mem0")))
    z = UNIT
    init = dict(ph=phase(PRE), n=intc(0), X=z, XE=z, P=z, PE=z, A=z, AE=z, jst=NOJ, fresh=FALSE, must=FALSE, fail=AG("fail", 0), J=z, H=z, Xp=z, XpE=z, Ap=z, ApE=z, lg=AG("lg", 7), pg=AG("pg", 0))
    st.store[OROOT] = mk("agg", "$obs", 0, tuple(init[k] for k in OF))
    f = ctx.fn("solve", "RootFinder")
    I = ctx.interp(D)
    if budget:
        I.budget = budget

    class F:
        pass
    fr = F()
    fr.depth, fr.body = 0, f
    try:
        rs = I.call_body(fr, st, f, [mk("ref", root, ()), mk("ref", MROOT, ())])
        for s, v in rs:
            if D.has_old(v):
                D.rep(s, "history", "result depends on an earlier resolution", sh(v), D.ctx.loc(f))
            returned(D, s.copy(), v, ctx.loc(f))
    finally:
        ctx.note(I)
    return D, I, rs, root, ph, rf0


# ------------------------------------------------------------------ driver
ORIGIN = ("proposal origin", "step origin", "damping origin")


def run_config(ctx, cfg, budget=4000000):
    """one configuration; a violation found from an arbitrary earlier state of the solver
    is only kept if it also occurs from the states resolutions can leave behind"""
    method, damping, provided, debug = cfg
    D, I, rs, root, ph, rf = analyse(ctx, method, damping, provided, debug, None, budget)
    every = range(len(rf.args[2]))
    # settings a resolution changes are part of the state it leaves behind
    changed = {i for s, _ in rs for i in every if i not in ph and s.store[root].args[2][i] is not rf.args[2][i]}
    if all(r[0] in ORIGIN for r in I.reports) and not changed:
        return D, I, "any earlier state"
    old = set()
    for _ in range(6):
        try:
            D2, I2, rs, root, ph, rf = analyse(ctx, method, damping, provided, debug, old, budget)
        except (Unsupported, Unk, Conflict, NoMatch, RecursionError):
            return D, I, "any earlier state"
        ch = {i for s, _ in rs for i in every if i not in old and s.store[root].args[2][i] is not rf.args[2][i]}
        if not ch:
            return D2, I2, "earlier states differing in %d fields" % len(old)
        old |= ch
    return D, I, "any earlier state"


def worker(p, cfg, tier):
    ctx = Ctx(p, tier)
    TM.UNIFORM[0] = True
    r = dict(cfg=cfg, seen={}, reports=[], err=None, label=label_of(cfg), scope="")
    t = time.time()
    try:
        D, I, scope = run_config(ctx, cfg)
        r["seen"] = dict(D.seen)
        r["scope"] = scope
        g = {}
        for rule, what, span, detail, lab in I.reports:
            g.setdefault((rule, what), []).append((span, detail))
        r["reports"] = [(k[0], k[1], str(v[0][0]), str(v[0][1])[:700], len(v)) for k, v in g.items()]
    except Anchor as e:
        r["err"] = ("anchor", str(e))
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        r["err"] = ("undecided", "%s: %s at %s" % (type(e).__name__, str(e)[:300], "; ".join("%s:%d" % (x.filename.split("/")[-1], x.lineno) for x in tb[-3:])))
    r.update(analysed=ctx.analysed, callsites=ctx.callsites, states=ctx.states, loops=ctx.loops, unmodelled=ctx.unmodelled, wall=round(time.time() - t, 1))
    return r


def label_of(cfg):
    m, d, a, l = cfg
    return "%s%s damping=%s jacobian=%s log=%s" % (m[0], "/" + m[1] if m[1] else "", "on" if d else "off", "analytic" if a else "finite-difference", "on" if l else "off")


def configs(tier, debug):
    out = []
    for m in METHODS:
        rep = m[1] in ("", "BroydenFirstMethod")
        for d in (True, False):
            for a in (False, True):
                for l in (True, False):
                    if l and debug is False:
                        continue
                    if tier != "thorough" and (l or debug) and not rep:
                        continue
                    out.append((m, d, a, l))
    return sorted(out, key=lambda c: (-c[1] - 2 * c[3], c[2], c[0]))


def run_all(ctx, cfgs, limit=650):
    import multiprocessing as mp
    mpc = mp.get_context("fork")
    res, pend, live = {}, list(cfgs), {}
    t0 = time.time()
    ncpu = min(8, os.cpu_count() or 2)

    def start(cfg):
        a, b = mpc.Pipe(False)

        def go():
            a.close()
            b.send(worker(ctx.p, cfg, ctx.tier))
            b.close()
            os._exit(0)
        p = mpc.Process(target=go)
        p.start()
        b.close()
        live[cfg] = (p, a)
    from multiprocessing.connection import wait
    while pend or live:
        while pend and len(live) < ncpu and time.time() - t0 < limit:
            start(pend.pop(0))
        if not live:
            break
        left = limit - (time.time() - t0)
        rd = wait([a for _, a in live.values()], timeout=max(0.1, left))
        for cfg in [c for c, (_, a) in live.items() if a in rd]:
            p, a = live.pop(cfg)
            try:
                res[cfg] = a.recv()
            except EOFError:
                res[cfg] = dict(cfg=cfg, label=label_of(cfg), err=("undecided", "analysis process ended early"))
            a.close()
            p.join()
        if time.time() - t0 > limit:
            for cfg, (p, a) in live.items():
                p.kill()
                p.join()
                res[cfg] = dict(cfg=cfg, label=label_of(cfg), err=("undecided", "time limit"))
            live = {}
            for cfg in pend:
                res[cfg] = dict(cfg=cfg, label=label_of(cfg), err=("undecided", "time limit"))
            pend = []
    return [res[c] for c in cfgs]


def automaton(ctx, mode="all"):
    """mode 'all': every rule in every configuration; 'log': what activating the log changes"""
    rs = run_all(ctx, configs(ctx.tier, mode == "log" or None))
    for r in rs:
        for k, v in r.get("analysed", {}).items():
            ctx.analysed[k] = ctx.analysed.get(k, 0) + v
        ctx.callsites |= r.get("callsites", set())
        ctx.states += r.get("states", 0)
        ctx.loops += r.get("loops", 0)
        for k, v in r.get("unmodelled", {}).items():
            ctx.unmodelled.setdefault(k, set()).update(v)
    loc = ctx.loc(ctx.fn("solve", "RootFinder"))
    off = {r["cfg"][:3]: r for r in rs if not r["cfg"][3]}
    bad = {}
    for r in rs:
        lab = r["label"]
        if r["err"]:
            if r["err"][0] == "anchor":
                ctx.bad("anchor", "solve: " + r["err"][1], loc, "public item not found: the automaton cannot be run")
            else:
                ctx.unk("automaton", lab, loc, r["err"][1])
            continue
        base = None
        if mode == "log":
            if not r["cfg"][3]:
                lo = [x for x in r["reports"] if x[0] == "log off"]
                if not lo:
                    ctx.ok("log off", lab, loc, "no input or output in %d block states" % r["states"])
                for x in lo:
                    bad.setdefault(("log off", x[1], ""), []).append((lab, x))
                continue
            base = off.get(r["cfg"][:3])
            base = {x[:2] for x in base["reports"]} if base and not base["err"] else set()
        rules = set()
        for x in r["reports"]:
            if base is not None and x[:2] in base:
                continue
            rules.add(x[0])
            if x[0] == "?":
                ctx.unk(x[1], lab, x[2], x[3])
            else:
                bad.setdefault((x[0], x[1], "analytic" if r["cfg"][2] else "finite-difference"), []).append((lab, x))
        for k in ("panic", "history", "continues", "error payload", "evaluations"):
            if k not in rules:
                ctx.ok(k, lab, loc, "no such event in %d block states" % r["states"])
        for k, v in sorted(r["seen"].items()):
            if k not in rules and k != "(no class)":
                ctx.ok(k, lab, loc, "%d checks, starting from %s" % (v, r["scope"]))
    for (rule, what, jac), xs in sorted(bad.items()):
        lab, x = xs[0]
        ctx.bad(rule, what + (" [" + jac + " jacobian]" if jac else ""), x[2] or loc, "%s; in %d configurations, e.g. %s" % (x[3], len(xs), lab), "%s|%s|%s" % (rule, what, jac))
    ctx.extra = dict(getattr(ctx, "extra", {}), solver_configurations=len(rs), configurations_undecided=[r["label"] for r in rs if r["err"]],
                     seconds_per_configuration={r["label"]: r.get("wall") for r in rs})
