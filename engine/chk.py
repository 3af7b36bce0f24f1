"""Check context: obligations, summaries, guarded comparison, reports."""
import itertools
from fractions import Fraction as Fr
from terms import *
import terms as TM
from interp import *
import interp as IN
from ev import *
import ev as EV
import math, os

LIB = "newton_rootfinder"


class Anchor(Exception):
    pass


class Summ:
    def __init__(self, fn, results, panics, I, refs):
        self.fn, self.results, self.panics, self.I, self.refs = fn, results, panics, I, refs


class Ctx:
    def __init__(self, prog, tier="quick"):
        self.p = prog
        self.tier = tier
        self.obl = []
        self.analysed = {}
        self.callsites = set()
        self.states = 0
        self.loops = 0
        self.unmodelled = {}
        self.assumptions = set()
        self.cache = {}

    # ---- obligations
    def add(self, status, rule, inst, loc, detail="", key=None):
        self.obl.append(dict(status=status, rule=rule, instance=inst, loc=loc, detail=detail, key=key or "%s|%s" % (rule, inst)))

    def ok(self, rule, inst, loc="", detail=""):
        self.add("ok", rule, inst, loc, detail)

    def bad(self, rule, inst, loc, detail, key=None):
        self.add("violated", rule, inst, loc, detail, key)

    def unk(self, rule, inst, loc, detail):
        self.add("undecided", rule, inst, loc, detail)

    # ---- anchors
    def fn(self, name, adt=None, trait=None, crate=LIB, free=None):
        fs = self.p.find(name, adt, trait, crate, free)
        if len(fs) != 1:
            raise Anchor("%s%s::%s (%d found)" % (adt or "", (" as " + trait) if trait else "", name, len(fs)))
        return fs[0]

    def fns(self, name, adt=None, trait=None, crate=LIB, free=None):
        return self.p.find(name, adt, trait, crate, free)

    def loc(self, f):
        return "%s (%s)" % (f.d.get("span", "?"), f.key.split("::", 1)[-1])

    def adt(self, name):
        r = [a for a in self.p.adts if a.split("::")[-1].split("<")[0] == name and self.p.adts[a].get("local")]
        if len(r) != 1:
            raise Anchor("type " + name)
        return r[0]

    def variant(self, adt, name):
        a = self.adt(adt)
        for i, v in enumerate(self.p.adts[a]["variants"]):
            if v["name"] == name:
                return a, i
        raise Anchor("variant %s::%s" % (adt, name))

    def variants(self, adt):
        a = self.adt(adt)
        return [v["name"] for v in self.p.adts[a]["variants"]]

    def tvar(self, adt, name, *fields):
        """term for an enum value"""
        a, i = self.variant(adt, name)
        return mk("agg", a, i, tuple(fields))

    def vvar(self, adt, name, *fields):
        """evaluated enum value"""
        a, i = self.variant(adt, name)
        return Agg(a, i, fields)

    # ---- summaries
    def interp(self, dom=None):
        return Interp(self.p, dom or Domain())

    def base_state(self):
        st = St()
        st.facts[ige0(isub(NSYM, intc(1)))] = True
        return st

    def summ(self, fn, args, st=None, dom=None):
        """args: list of terms; ('mut', term) allocates a mutable place"""
        I = self.interp(dom)
        I.panics = []
        st = (st or self.base_state()).copy()
        a, refs = [], []
        for i, x in enumerate(args):
            if isinstance(x, tuple) and x[0] == "mut":
                root = ("P", "%s%d" % (x[2] if len(x) > 2 else "a", i))
                st.store[root] = x[1]
                a.append(mk("ref", root, ()))
                refs.append(root)
            elif isinstance(x, tuple) and x[0] == "ref":
                a.append(mk("ref", x[1], ()))
                refs.append(x[1])
            else:
                a.append(x)
                refs.append(None)

        class F:
            pass
        fr = F()
        fr.depth, fr.body = 0, fn
        try:
            rs = I.call_body(fr, st, fn, a)
        finally:
            self.note(I)
        return Summ(fn, rs, I.panics, I, refs)

    def note(self, I):
        for k, v in I.analysed.items():
            self.analysed[k] = self.analysed.get(k, 0) + v
        self.callsites |= I.callsites
        self.states += I.nstates
        self.loops += I.loops
        for k, v in I.unmodelled.items():
            self.unmodelled.setdefault(k, set()).update(v)

    # ---- objects built through their public constructors
    def build(self, name, adt, args, key=None):
        """the object a constructor returns on its non-panicking path"""
        f = self.fn(name, adt)
        s = self.summ(f, args)
        vs = {v for _, v in s.results}
        if len(vs) != 1:
            raise Unk("%s::%s has %d results" % (adt, name, len(vs)))
        return vs.pop()

    # ---- constants the derived terms depend on
    def consts(self, *summs):
        """(integers, floats) written in the derived results, facts and panics"""
        ints, flts, seen = set(), set(), set()

        def walk(t):
            if not isinstance(t, T):
                if isinstance(t, (tuple, list)):
                    for x in t:
                        walk(x)
                return
            if t.id in seen:
                return
            seen.add(t.id)
            if t.op == "int":
                ints.add(t.args[0])
            elif t.op == "lin":
                ints.add(t.args[0])
                ints.update(k for _, k in t.args[1])
            elif t.op == "flt":
                flts.add(float(t.args[0]))
            if t.op not in LEAF:
                walk(t.args)
        for s in summs:
            for st, v in s.results:
                walk(v)
                try:
                    walk(s.I.load_all(st, v))
                except Exception:
                    pass
                for k in st.facts:
                    walk(k)
                for r in s.refs:
                    if r is not None:
                        walk(st.store.get(r))
            for p in s.panics:
                for k in p[3].facts:
                    walk(k)
        return ints, flts

    def sizes(self, base, *summs, most=4000):
        """the sizes to enumerate: the base ones, and those around every integer the derived
        terms mention (a size above each threshold, one at it, one below)"""
        out = list(base)
        for k in sorted({abs(k) for k in self.consts(*summs)[0]}):
            for n in (k - 1, k, k + 1, k + 2):
                if max(base) < n <= most and n not in out:
                    out.append(n)
        return tuple(out)

    # ---- comparison
    def compare(self, rule, inst, summ, classes, expect, project=None, extfn=None, valid=None):
        """for every class: the value derived for the class equals expect(ev, label)
        project(ev, st, value) -> evaluated value"""
        loc = self.loc(summ.fn)
        n = 0
        seen = {}
        for dom, env, size, label in classes:
            e = Ev(dom, env, size, self.p)
            e.ext = extfn
            cls = (env, size, label) if dom is GEN else None
            try:
                hits = select(e, summ.results)
                pan = []
                for p in summ.panics:
                    try:
                        if e.holds(p[3].facts):
                            pan.append(p)
                    except Unk:
                        pass
                want = expect(e, label)
                if want == "panic":
                    if hits:
                        self.bad(rule, inst, loc, "class %s: returns instead of being rejected" % label, "%s|%s|%s" % (rule, inst, label))
                        n += 1
                        continue
                    if not pan:
                        raise Unk("no outcome derived")
                    n += 1
                    continue
                if pan and not hits:
                    self.bad(rule, inst, loc, "class %s: panics (%s at %s)" % (label, pan[0][0], pan[0][2]), "%s|%s|%s" % (rule, inst, label))
                    continue
                if not hits:
                    raise Unk("no outcome derived")
                okc = True
                for st, v in hits:
                    got = project(e, st, v) if project else e(v)
                    if not e.same(got, want):
                        self.bad(rule, inst, loc, "class %s: derived %s, required %s; derived term %s" % (label, pv(got), pv(want), str(v)[:300]), "%s|%s|%s" % (rule, inst, label))
                        okc = False
                        break
                n += 1
                for t, o, d in e.dec:
                    seen.setdefault(t, {}).setdefault(o, []).append((cls, d))
                if not okc:
                    continue
            except (Unk, IndexError, AttributeError, TypeError, ZeroDivisionError, OverflowError) as ex:
                self.unk(rule, "%s [%s]" % (inst, label), loc, "%s: %s" % (type(ex).__name__, ex))
        n += self.complete(rule, inst, loc, summ, seen, expect, project, extfn, valid)
        if n and not any(o["rule"] == rule and o["instance"] == inst and o["status"] != "ok" for o in self.obl):
            self.ok(rule, inst, loc, "%d classes" % n)
        return n


    def complete(self, rule, inst, loc, summ, seen, expect, project, extfn, valid):
        """a decision of the derived term that every enumerated class takes the same way: look
        for a class that takes it the other way and compare there too"""
        n = 0
        todo = [t for t in seen if len(seen[t]) == 1]
        done = set()
        while todo:
            t = todo.pop()
            if t in done or len(done) > 60:
                continue
            done.add(t)
            if len(seen.get(t, ())) != 1:
                continue
            (o0, uses), = seen[t].items()
            hit = 0
            tried = 0
            for cls, d in uses[:: max(1, len(uses) // 6)]:
                if hit >= 24 or cls is None:
                    continue
                env, size, label = cls
                fl = Flip(env)
                try:
                    for ch in fl.candidates(d):
                        tried += 1
                        try:
                            fl(ch)
                            if valid is not None and not valid(lambda q: env[q].s):
                                continue
                            e = Ev(GEN, env, size, self.p)
                            e.ext = extfn
                            hits = select(e, summ.results)
                            vs = [(st, v, project(e, st, v) if project else e(v)) for st, v in hits]
                            if not any(t2 is t and o != o0 for t2, o, _ in e.dec):
                                continue
                            want = expect(e, label)
                            lab = "%s, with %s" % (label, ", ".join("%s=%.3g" % (str(k), float(x)) for k, x in sorted(((varname(v), x) for v, x in ch.items()), key=str)[:4]))
                            if want == "panic":
                                continue
                            if not hits:
                                if any(e.holds(p[3].facts) for p in summ.panics):
                                    self.bad(rule, inst, loc, "class %s: panics" % lab, "%s|%s|panics in the class where %s" % (rule, inst, str(t)[:80]))
                                    hit = 99
                                    break
                                continue
                            for st, v, got in vs:
                                if not e.same(got, want):
                                    self.bad(rule, inst, loc, "class %s: derived %s, required %s; derived term %s" % (lab, pv(got), pv(want), str(v)[:300]), "%s|%s|where the other way: %s" % (rule, inst, str(t)[:80]))
                                    hit = 99
                                    break
                            hit += 1
                            n += 1
                            for t2, o, d2 in e.dec:
                                if t2 not in seen:
                                    todo.append(t2)
                                seen.setdefault(t2, {}).setdefault(o, [])
                            if hit >= 24:
                                break
                        except (Unk, IndexError, AttributeError, TypeError, ZeroDivisionError, OverflowError, KeyError):
                            continue
                finally:
                    fl.restore()
            if not hit:
                self.oneway = getattr(self, "oneway", 0) + 1
                if os.environ.get("ONEWAY"):
                    print("one way:", rule, inst, o0, str(t)[:200], "tried", tried)
        return n


def pv(v):
    if isinstance(v, G):
        return "%s" % (float(v.s) if v.s is not None else "?")
    if isinstance(v, list):
        return "[" + ", ".join(pv(x) for x in v) + "]"
    if isinstance(v, Mat):
        return "[" + "; ".join(", ".join(pv(x) for x in r) for r in v.e) + "]"
    if isinstance(v, Agg):
        return v.adt.split("::")[-1] + "#%d(" % v.v + ", ".join(pv(x) for x in v.f) + ")"
    return str(v)


def varname(no):
    for k, v in EV._vars.items():
        if v == no:
            return k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == "s" else k
    return no


def gvec(nm, n):
    D = Gen()
    return [D.var((nm, i)) for i in range(n)]


def gmat(nm, n):
    D = Gen()
    return Mat(n, n, [[D.var((nm, i, j)) for j in range(n)] for i in range(n)])


GEN, IEEE = Gen(), Ieee()


def guard(ctx, rule, inst, f, *a, **k):
    """run one obligation group: an anchor that disappeared fails closed, an
    operation without a model leaves the obligation undecided"""
    try:
        return f(*a, **k)
    except Anchor as e:
        ctx.bad("anchor", "%s: %s" % (rule, e), "", "public item not found: the obligation %s %s cannot be located" % (rule, inst))
    except (Unsupported, Unk, Conflict, NoMatch, RecursionError) as e:
        ctx.unk(rule, inst, "", "%s: %s" % (type(e).__name__, e))
    except (AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        ctx.unk(rule, inst, "", "%s: %s at %s" % (type(e).__name__, e, "; ".join("%s:%d" % (x.filename.split("/")[-1], x.lineno) for x in tb[-3:])))
