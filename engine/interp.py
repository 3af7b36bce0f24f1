"""Abstract interpreter over the exported MIR.

Domain: a state is a store (places -> hash-consed terms) and a finite set of
facts (truth values of opaque atoms, variants of opaque enums).  Calls to local
functions are analysed context-sensitively; block joins keep one state per
distinct store; loop heads are brought to a fixpoint by anti-unification
(differing leaves become phi symbols), after which first-order recurrences
(counters, element-wise fills, appends, folds, last value) are solved.
Nothing is executed and no path is handed to a solver.
"""
import sys
from terms import *
import terms as TM

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Conflict(Exception):
    pass


class St:
    __slots__ = ("store", "facts", "trace")

    def __init__(self, store=None, facts=None, trace=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.trace = trace

    def copy(self):
        return St(dict(self.store), dict(self.facts), self.trace)

    def skey(self):
        return frozenset(self.store.items())

    def note(self, *ev):
        self.trace = (self.trace, ev)


def trace_list(st, n=40):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


# ------------------------------------------------------------------ facts
def decide(st, c):
    """True / False / None for a boolean term"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    o = c.op
    if o == "not":
        r = decide(st, c.args[0])
        return None if r is None else not r
    if o == "and":
        a, b = decide(st, c.args[0]), decide(st, c.args[1])
        if a is False or b is False:
            return False
        if a and b:
            return True
        return st.facts.get(c)
    if o == "sel":
        k = decide(st, c.args[0])
        if k is None:
            a, b = decide(st, c.args[1]), decide(st, c.args[2])
            return a if a == b else None
        return decide(st, c.args[1] if k else c.args[2])
    f = st.facts
    r = f.get(c)
    if r is not None:
        return r
    if o == "ige0":
        return _dec_int(st, c)
    if o in ("flt2", "fle", "feq", "isnan"):
        return _dec_flt(st, c)
    if o == "ieq0":
        l = c.args[0]
        # x - k == 0 with known other equality of the same variable part
        for a, v in f.items():
            if a.op == "ieq0" and v:
                d = isub(a.args[0], l)
                if d.op == "int" and d.args[0] != 0:
                    return False
                d = iadd(a.args[0], l)
                if d.op == "int" and d.args[0] != 0:
                    return False
        p = decide(st, ige0(isub(l, intc(1))))
        if p:
            return False
        q = decide(st, ige0(isub(iscale(l, -1), intc(1))))
        if q:
            return False
        return None
    if o == "streq":
        a, b = c.args
        for x, y in ((a, b), (b, a)):
            cy = str_const(y)
            if cy is None:
                continue
            for at, v in f.items():
                if at.op == "streq" and v and x in at.args:
                    z = at.args[0] if at.args[1] is x else at.args[1]
                    cz = str_const(z)
                    if cz is not None and cz != cy:
                        return False
        return None
    return None


def _dec_int(st, c):
    l = c.args[0]
    k, m = TM._lin(l)
    # unsigned variables: every term non negative
    if k >= 0 and all(v > 0 for v in m.values()):
        return True
    for a, v in st.facts.items():
        if a.op == "ige0":
            k2, m2 = TM._lin(a.args[0])
            if m2 == m:
                # know L2>=0 (v) or L2<=-1
                if v and k >= k2:
                    return True
                if not v and k <= k2:
                    return False
        elif a.op == "ieq0" and v:
            k2, m2 = TM._lin(a.args[0])
            if m2 == m:
                return k - k2 >= 0
            if {x: -y for x, y in m2.items()} == m:
                return k + k2 >= 0
    return None


def _dec_flt(st, c):
    f = st.facts
    g = f.get

    def nn(x):
        if x.op == "flt":
            return x is not NAN
        r = g(isnan(x))
        if r is not None:
            return not r
        if x.op in ("fabs",):
            return nn(x.args[0])
        if x.op == "idx" and x.args[0].op != "vec":
            for a, v in f.items():
                if a.op == "any" and v is False and a.args[1].op == "lam" and a.args[0] is vlen(x.args[0]):
                    j = mk("tmp", "nn", 0)
                    if ap(a.args[1], j) is isnan(idx(x.args[0], j)):
                        return True
        if x.op in ("m_amax", "m_amin", "m_max", "m_min"):
            for a, v in f.items():
                if a.op == "any" and v is False and a.args[1].op == "lam":
                    j = mk("tmp", "nn", 0)
                    if ap(a.args[1], j) is isnan(idx(x.args[0], j)):
                        return True
        r = g(mk("feq", x, x))
        if r is not None:
            return r
        for a, v in f.items():
            if v is True and a.op in ("flt2", "fle", "feq") and x in a.args:
                return True
        return None
    if c.op == "isnan":
        r = nn(c.args[0])
        return None if r is None else not r
    a, b = c.args
    if nn(a) is False or nn(b) is False:
        return False
    both = nn(a) and nn(b)
    if c.op == "feq":
        if a is b:
            return True if both else None
        if g(mk("flt2", a, b)) or g(mk("flt2", b, a)):
            return False
        if g(mk("fle", a, b)) and g(mk("fle", b, a)):
            return True
        return None
    if c.op == "fle":
        if a is b:
            return True if both else None
        if g(mk("flt2", a, b)) or g(TM.feq(a, b)):
            return True
        if g(mk("flt2", b, a)):
            return False
        if both:
            if g(mk("flt2", b, a)) is False:
                return True
            if g(mk("fle", b, a)) is False:
                return True
        return None
    if c.op == "flt2":
        if a is b:
            return False
        if g(mk("fle", b, a)) or g(TM.feq(a, b)) or g(mk("flt2", b, a)):
            return False
        if g(mk("fle", a, b)) is False:
            return False
        if both and g(mk("fle", b, a)) is False:
            return True
        return None
    return None


def branch(st, c):
    """[(state, bool)] for the feasible truth values of c"""
    r = decide(st, c)
    if r is not None:
        return [(st, r)]
    o = c.op
    if o == "not":
        return [(s, not v) for s, v in branch(st, c.args[0])]
    if o == "and":
        out = []
        for s, v in branch(st, c.args[0]):
            if v:
                out += branch(s, c.args[1])
            else:
                out.append((s, False))
        return out
    if o == "sel":
        out = []
        for s, v in branch(st, c.args[0]):
            out += branch(s, c.args[1] if v else c.args[2])
        return out
    a, b = st.copy(), st.copy()
    a.facts[c] = True
    b.facts[c] = False
    return [(a, True), (b, False)]


def assume(st, c, val=True):
    """list of states in which c == val"""
    return [s for s, v in branch(st, c) if v == val]


# ------------------------------------------------------------------ anti-unification
PHI_SRC = {}


AU_MEMO = {}
DEBUG_FIX = ""


JOIN_CONST = [False]      # let booleans and NaN constants be generalised at a loop head


def au(a, b, tag, depth=0):
    if a is b:
        return a
    if depth:
        k = (a, b, tag)
        r = AU_MEMO.get(k)
        if r is None:
            try:
                r = au_(a, b, tag, 1)
            except Conflict:
                r = False
            AU_MEMO[k] = r
        if r is False:
            raise Conflict()
        return r
    return au_(a, b, tag, 0)


def au_(a, b, tag, depth=0):
    oa, ob = a.op, b.op
    if depth == 0:
        if (oa == "bool" or ob == "bool" or a is NAN or b is NAN) and not JOIN_CONST[0]:
            raise Conflict()
        if oa == "agg" and ob == "agg":
            if a.args[0] != b.args[0] or a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]):
                raise Conflict()
            return mk("agg", a.args[0], a.args[1], tuple(au(x, y, tag, 0) for x, y in zip(a.args[2], b.args[2])))
        if oa == "agg" or ob == "agg":
            if (a if oa == "agg" else b).args[0] not in ("tuple", "array") or True:
                raise Conflict()
        if oa == "ref" or ob == "ref":
            raise Conflict()
        if oa == "clo" and ob == "clo" and a.args[0] == b.args[0]:
            return mk("clo", a.args[0], tuple(au(x, y, tag, 0) for x, y in zip(a.args[1], b.args[1])))
        if oa == "it" and ob == "it":
            # a loop over a few listed values is unrolled
            if a.args[0] is b.args[0] and a.args[0].op == "seq" and a.args[0].args[0].op == "int" and a.args[0].args[0].args[0] <= 8 \
                    and a.args[1].op == "int" and b.args[1].op == "int" and a.args[1] is not b.args[1]:
                raise Conflict()
            return mk("it", au(a.args[0], b.args[0], tag, 1), au(a.args[1], b.args[1], tag, 1))
        if oa == "s" and ob == "s" and str_const(a) is not None and str_const(b) is not None:
            ca, cb = str_const(a), str_const(b)
            if not (cb.startswith(ca) or ca.startswith(cb)):
                raise Conflict()
    if oa == ob and oa not in LEAF and oa not in ("lin", "s", "lam") and len(a.args) == len(b.args):
        try:
            return rebuild(oa, tuple(_au_arg(x, y, tag, depth + 1) for x, y in zip(a.args, b.args)))
        except Conflict:
            pass
    if oa == "lam" and ob == "lam":
        j = mk("tmp", "au", a.id, b.id)
        try:
            r = au(ap(a, j), ap(b, j), tag, depth + 1)
            if not any(j in phis(x) for p in phis(r) for x in PHI_SRC.get(p, ())):
                return mk_lam(j, r)
        except Conflict:
            pass
    if depth > 0 and (oa == "ref" or ob == "ref"):
        raise Conflict()
    r = mk("phi", tag, a.id, b.id)
    PHI_SRC.setdefault(r, (a, b))
    return r


_bv = {}


def is_vec_ref(t):
    return t.startswith("&") and not t.startswith("&mut") and "Matrix<f64" in t and "Const<1>" in t


def has_bv(t):
    r = _bv.get(t)
    if r is None:
        r = t.op == "bv" or any(has_bv(k) for k in kids(t))
        _bv[t] = r
    return r


def _au_arg(x, y, tag, depth):
    if isinstance(x, T) and isinstance(y, T):
        return au(x, y, tag, depth)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(_au_arg(p, q, tag, depth) for p, q in zip(x, y))
    if x == y:
        return x
    raise Conflict()


class NoMatch(Exception):
    pass


def match(h, b, P, sg):
    if h in P or h is b or not phis(h):
        return match_(h, b, P, sg)
    seen = sg.setdefault("$seen", set())
    if (h, b) in seen:
        return
    match_(h, b, P, sg)
    seen.add((h, b))


def match_(h, b, P, sg):
    if h in P:
        o = sg.get(h)
        if o is None:
            sg[h] = b
        elif o is not b:
            raise NoMatch()
        return
    if h is b:
        for p in phis(h):
            if p in P:
                o = sg.get(p)
                if o is None:
                    sg[p] = p
                elif o is not p:
                    raise NoMatch()
        return
    if not (phis(h) & P):
        raise NoMatch()
    if h.op == "lin":
        k, m = TM._lin(h)
        hp = [t for t in m if phis(t) & P]
        if len(hp) == 1 and hp[0] in P and m[hp[0]] == 1:
            rest = isub(h, hp[0])
            match(hp[0], isub(b, rest), P, sg)
            return
        return   # verified later by substitution
    if h.op == "lam" and b.op == "lam":
        j = mk("tmp", "au", h.id, b.id)
        n = dict((k, v) for k, v in sg.items() if k != "$seen")
        match(ap(h, j), ap(b, j), P, n)
        for k, v in n.items():
            if k != "$seen" and k not in sg:
                if j in phis(v):
                    raise NoMatch()
                sg[k] = v
        return
    if h.op != b.op or len(h.args) != len(b.args):
        if h.op in TM.SMART:
            return   # might simplify; verified later
        raise NoMatch()
    for x, y in zip(h.args, b.args):
        _match_arg(x, y, P, sg)


def _match_arg(x, y, P, sg):
    if isinstance(x, T):
        if not isinstance(y, T):
            raise NoMatch()
        match(x, y, P, sg)
    elif isinstance(x, tuple):
        if not isinstance(y, tuple) or len(x) != len(y):
            raise NoMatch()
        for p, q in zip(x, y):
            _match_arg(p, q, P, sg)
    elif x != y:
        raise NoMatch()


def match_state(h, b, P):
    if h.store.keys() != b.store.keys():
        return None
    sg = {}
    try:
        for r, t in h.store.items():
            match(t, b.store[r], P, sg)
    except NoMatch:
        return None
    sg.pop("$seen", None)
    memo = {}
    for r, t in h.store.items():
        if subst(t, sg, memo) is not b.store[r]:
            return None
    for a, v in h.facts.items():
        a2 = subst(a, sg, memo)
        if a.op == "discr" or not isinstance(v, bool):
            if b.facts.get(a2) != v:
                return None
        elif decide(b, a2) != v:
            return None
    return sg


def why_not(h, b, tag):
    P = frozenset(p for t in h.store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
    sg = {}
    for r, t in h.store.items():
        try:
            match(t, b.store[r], P, sg)
        except NoMatch:
            print("    nomatch", r)
    sg.pop("$seen", None)
    memo = {}
    for p, q in sg.items():
        print("     ", show(p), ":=", show(q)[:150])
    for r, t in h.store.items():
        x = subst(t, sg, memo)
        if x is not b.store[r]:
            print("    differs", r)
            diff(x, b.store[r])
    for a, v in h.facts.items():
        a2 = subst(a, sg, memo)
        if (b.facts.get(a2) if a.op == "discr" or not isinstance(v, bool) else decide(b, a2)) != v:
            print("    fact", show(a)[:200], v)
            print("       ", show(a2)[:200])


def diff(x, y, d=0):
    if x is y or d > 30:
        return
    if x.op == y.op and len(kids(x)) == len(kids(y)) and kids(x):
        for k, l in zip(kids(x), kids(y)):
            if k is not l:
                return diff(k, l, d + 1)
    print("       ", show(x)[:200], "|", show(y)[:200])


def widen(h, b, tag):
    if h.store.keys() != b.store.keys():
        raise Conflict()
    st = St(trace=b.trace)
    for r, t in h.store.items():
        st.store[r] = au(t, b.store[r], tag)
    # facts that survive under the generalisation
    newphi = {}
    for t in st.store.values():
        for p in phis(t):
            if p.op == "phi" and p.args[0] == tag:
                newphi[p] = 1
    by = {}
    for a, v in b.facts.items():
        by.setdefault((a.op, v), []).append(a)
    for a, v in h.facts.items():
        if b.facts.get(a) == v and type(b.facts.get(a)) == type(v):
            st.facts[a] = v
        elif isinstance(v, bool) and decide(b, a) == v and a.op != "discr":
            st.facts[a] = v
        for a2 in by.get((a.op, v), ()):
            if a2 is a:
                continue
            try:
                g = au(a, a2, tag, 1)
            except Conflict:
                continue
            ps = [p for p in phis(g) if p.op == "phi" and p.args[0] == tag]
            if g.op == a.op and all(p in newphi for p in ps):
                st.facts[g] = v
    return st


# ------------------------------------------------------------------ interpreter
class Frame:
    __slots__ = ("body", "depth")

    def __init__(self, body, depth):
        self.body, self.depth = body, depth


class Interp:
    def __init__(self, prog, domain):
        self.p = prog
        self.dom = domain
        domain.I = self
        self.fnreg = {}
        self.stack = []
        self.unmodelled = {}
        self.reductions = {}       # fn key -> its value on opaque vectors, None if it has no closed form
        self.reports = []          # violations found by the domain
        self.panics = []           # (kind, fn, span, state, detail)
        self.analysed = {}         # fn key -> number of contexts
        self.callsites = set()
        self.nstates = 0
        self.promo = {}
        self.loops_solved = 0
        self.loops = 0
        self.witness = {}
        self.budget = 400000
        import models
        self.models = models

    # ---- places
    def root(self, fr, local):
        return ("L", fr.depth, local)

    def resolve(self, st, fr, place):
        """-> (root, proj) or (None, term)"""
        root, proj, val = self.root(fr, place[0]), [], None
        var = None
        for e in place[1]:
            if e == "*":
                v = self.read_rp(st, root, proj) if root is not None else val
                if v.op == "ref":
                    root, proj, val = v.args[0], list(v.args[1]), None
                elif v.op == "sel":
                    root, proj, val = None, [], deref_sel(self, st, v)
                else:
                    root, proj, val = None, [], deref(v)
            elif e == "?":
                raise Unsupported("projection")
            else:
                k = e[0]
                if k == "d":
                    var = e[1]
                    continue
                if k == "f":
                    el = ("vf", var, e[1]) if var is not None else ("f", e[1])
                    var = None
                elif k == "i":
                    el = ("at", self.read_rp(st, self.root(fr, e[1]), []))
                elif k == "ci":
                    if e[3]:
                        raise Unsupported("index from end")
                    el = ("at", intc(e[1]))
                else:
                    raise Unsupported("projection " + str(e))
                if root is not None:
                    proj.append(el)
                else:
                    val = get1(val, el)
        if root is not None:
            return root, tuple(proj)
        return None, val

    def read_rp(self, st, root, proj):
        v = st.store.get(root)
        if v is None:
            v = mk("uninit", str(root))
        for e in proj:
            v = get1(v, e)
        return v

    def write_rp(self, st, root, proj, x):
        if not proj:
            st.store[root] = x
            return
        v = st.store.get(root)
        if v is None:
            v = mk("uninit", str(root))
        st.store[root] = put(v, list(proj), x)

    def read(self, st, fr, place):
        r, p = self.resolve(st, fr, place)
        return p if r is None else self.read_rp(st, r, p)

    def write(self, st, fr, place, x):
        r, p = self.resolve(st, fr, place)
        if r is None:
            raise Unsupported("write through an opaque pointer in %s" % fr.body.key)
        self.dom.on_write(self, st, r, p, x)
        self.write_rp(st, r, p, x)

    def load(self, st, v):
        """value behind a reference value"""
        if v.op == "ref":
            return self.read_rp(st, v.args[0], v.args[1])
        return deref(v)

    def load_all(self, st, v):
        """strip every reference layer"""
        n = 0
        while v.op in ("ref", "cref") and n < 10:
            v = self.load(st, v)
            n += 1
        return v

    def store_ref(self, st, ref, x):
        if ref.op != "ref":
            raise Unsupported("store through opaque reference")
        self.dom.on_write(self, st, ref.args[0], ref.args[1], x)
        self.write_rp(st, ref.args[0], ref.args[1], x)

    # ---- operands
    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            return self.read(st, fr, o[1])
        if o[0] == "c":
            return self.const(o[1])
        return mk("sym", "rtchk")

    def const(self, c):
        k = c["k"]
        if k == "fn":
            if c.get("ctor") and not c.get("body"):
                pass
            t = mk("fnv", c.get("full"), c.get("body") or "", ",".join(c.get("args") or []))
            self.fnreg[t] = c
            return t
        if k == "closure":
            return mk("clo", c["body"], ())
        if k == "int":
            return intc(c["v"])
        if k == "float":
            return fltc(c["v"])
        if k == "bool":
            return boolc(c["v"])
        if k == "char":
            return intc(c["v"])
        if k == "str":
            return cref(lit(c["v"]))
        if k == "bytes":
            return cref(mk("bytes", bytes(c["v"])))
        if k == "zst":
            if "Const<1" in c.get("ty", ""):
                return intc(1)
            if c.get("adt") is None:
                return UNIT
            return mk("agg", c["adt"], 0, ())
        if k == "agg":
            return mk("agg", c["adt"], c["variant"], tuple(self.const(f) for f in c["fields"]))
        if k == "refto":
            return cref(self.const(c["v"]))
        if k == "promoted":
            return self.promoted(c["owner"], c["idx"])
        if k == "static":
            return mk("sym", "static", c["def"])
        if k == "bits":
            return intc(int(c["v"]))
        return mk("sym", "const", c.get("from") or c.get("s", "?"), c.get("ty", ""))

    def promoted(self, owner, i):
        key = (owner, i)
        if key in self.promo:
            return self.promo[key]
        import mir
        ob = self.p.fns.get(owner)
        if ob is None:
            for f in self.p.fns.values():
                if f.full == owner:
                    ob = f
        if ob is None:
            raise Unsupported("promoted of " + owner)
        d = dict(ob.promoted_raw[i])
        d.setdefault("name", "promoted")
        b = mir.Body("%s[promoted %d]" % (owner, i), d, ob.crate)
        _, _, rets = self.process(Frame(b, 500), None, 0, [St()], None)
        if len(rets) != 1:
            raise Unsupported("promoted value")
        v = self.freeze(rets[0], rets[0].store.get(("L", 500, 0), UNIT))
        self.promo[key] = v
        return v

    def freeze(self, st, v, d=0):
        if v.op == "ref" and d < 20:
            return cref(self.freeze(st, self.load(st, v), d + 1))
        if v.op == "agg":
            return mk("agg", v.args[0], v.args[1], tuple(self.freeze(st, x, d + 1) for x in v.args[2]))
        return v

    # ---- rvalues
    def rvalue(self, st, fr, rv, dst_ty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "raw":
            r, p = self.resolve(st, fr, rv[2])
            if r is None:
                return cref(p)
            return mk("ref", r, p)
        if k == "discr":
            v = self.read(st, fr, rv[1])
            return self.discr(st, v, rv[2])
        if k == "agg":
            h = rv[1]
            fs = tuple(self.operand(st, fr, o) for o in rv[2])
            if h[0] == "adt":
                return mk("agg", h[1], h[2], fs)
            if h[0] == "tuple":
                return mk("agg", "tuple", 0, fs)
            if h[0] == "array":
                return mk("agg", "array", 0, fs)
            if h[0] == "closure":
                return mk("clo", h[1], fs)
            return mk("sym", "agg", str(h))
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return bnot(a) if rv[3] == "bool" else mk("inot", a)
            if rv[1] == "Neg":
                return fneg(a) if rv[3] in ("f64", "f32") else iscale(a, -1)
            if rv[1] == "PtrMetadata":
                return vlen(self.load(st, a))
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            to, frm = rv[3], rv[4]
            kind = rv[1]
            if kind.startswith("IntToFloat"):
                return fltc(a.args[0]) if a.op == "int" else mk("i2f", a)
            if kind.startswith("FloatToInt"):
                return mk("f2i", a)
            return a
        if k == "repeat":
            a = self.operand(st, fr, rv[1])
            try:
                n = int(str(rv[2]).split("_")[0])
                if n <= 64:
                    return mk("agg", "array", 0, (a,) * n)
            except ValueError:
                pass
            return mk("vec", mk("sym", "n", str(rv[2])), lam_const(a))
        if k == "other":
            raise Unsupported("rvalue " + str(rv)[:100])
        raise Unsupported("rvalue " + k)

    def discr(self, st, v, adt):
        if v.op == "agg":
            a = self.p.adts.get(v.args[0])
            if a and a["variants"] and v.args[1] < len(a["variants"]):
                d = a["variants"][v.args[1]].get("discr")
                try:
                    return intc(int(d))
                except (TypeError, ValueError):
                    pass
            return intc(v.args[1])
        if v.op == "sel":
            return sel(v.args[0], self.discr(st, v.args[1], adt), self.discr(st, v.args[2], adt))
        if v.op == "updv":
            return intc(v.args[1])
        return mk("discr", v, adt or "")

    def binop(self, st, op, a, b, ty):
        fl = ty in ("f64", "f32")
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Ge"):
                a, b = b, a
                op = "Lt" if op == "Gt" else "Le"
            if fl:
                return flt(a, b) if op == "Lt" else fle(a, b)
            return ilt(a, b) if op == "Lt" else ile(a, b)
        if op in ("Eq", "Ne"):
            if fl:
                r = feq(a, b) if not (a is b and a.op != "flt") else bnot(isnan(a))
            elif ty == "bool":
                if a.op == "bool" or b.op == "bool":
                    if b.op == "bool":
                        a, b = b, a
                    r = b if a is TRUE else bnot(b)
                else:
                    r = sel(a, b, bnot(b))
            elif a.op in ("discr", "sel") or b.op in ("discr", "sel"):
                r = self.deq(a, b)
            else:
                r = ieq(a, b)
            return r if op == "Eq" else bnot(r)
        if fl:
            m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}
            if op in m:
                return fop(m[op], a, b)
            raise Unsupported("float op " + op)
        if ty == "bool":
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                return sel(a, bnot(b), b)
            raise Unsupported("bool op " + op)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        m = {"Add": iadd, "Sub": isub, "Mul": imul}
        if base in m:
            r = m[base](a, b)
            if op.endswith("WithOverflow"):
                return tup(r, mk("ovf", base, a, b, ty))
            return r
        if base in ("Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Cmp", "Offset"):
            if a.op == "int" and b.op == "int" and base == "Div" and b.args[0] > 0 and a.args[0] >= 0:
                return intc(a.args[0] // b.args[0])
            if a.op == "int" and b.op == "int" and base == "Rem" and b.args[0] > 0 and a.args[0] >= 0:
                return intc(a.args[0] % b.args[0])
            return mk("i" + base.lower(), a, b)
        raise Unsupported("binop " + op)

    def deq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "sel":
            return sel(a.args[0], self.deq(a.args[1], b), self.deq(a.args[2], b))
        if b.op == "sel":
            return sel(b.args[0], self.deq(a, b.args[1]), self.deq(a, b.args[2]))
        if a.op == "int" and b.op == "int":
            return boolc(a.args[0] == b.args[0])
        if a.op == "int":
            a, b = b, a
        if b.op == "discr" and b.id < a.id:
            a, b = b, a
        return mk("deq", a, b)

    # ---- discriminant reasoning
    def variants(self, adt):
        a = self.p.adts.get(adt)
        if not a:
            return None
        out = []
        for i, v in enumerate(a["variants"]):
            try:
                out.append(int(v.get("discr")))
            except (TypeError, ValueError):
                out.append(i)
        return out

    def fork_discr(self, st, d):
        """states with the variant of opaque d (term discr(v)) known"""
        known = st.facts.get(d)
        if known is not None:
            return [(st, known)]
        vs = self.variants(d.args[1])
        if not vs:
            raise Unsupported("discriminant of unknown enum " + str(d.args[1]))
        out = []
        for v in vs:
            if st.facts.get(mk("deq", d, intc(v))) is False:
                continue
            s = st.copy()
            s.facts[d] = v
            out.append((s, v))
        return out

    def split(self, st, c):
        """branch on a boolean term, resolving discriminant equalities"""
        dq = [x for x in subterms_bool(c) if x.op == "deq"]
        sts = [st]
        for x in dq:
            for d in x.args:
                if d.op == "discr":
                    sts = [s for t in sts for s, _ in self.fork_discr(t, d)]
        out = []
        for s in sts:
            c2 = c
            if dq:
                m = {}
                for x in dq:
                    vals = [s.facts[d] if d.op == "discr" else d.args[0] for d in x.args]
                    m[x] = boolc(vals[0] == vals[1])
                c2 = subst(c, m)
            out += branch(s, c2)
        return out

    # ---- body execution
    def run_body(self, body, args, st, depth):
        """-> [(state, return value)]"""
        if len(args) != body.argc:
            raise Unsupported("arity of %s: %d args for %d" % (body.key, len(args), body.argc))
        fr = Frame(body, depth)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[("L", depth, i + 1)] = a
        exits, backs, rets = self.process(fr, None, 0, [st], None)
        out, seen = [], {}
        for s in rets:
            v = s.store.get(("L", depth, 0), UNIT)
            s = s.copy()
            for r in [r for r in s.store if r[0] == "L" and r[1] >= depth]:
                del s.store[r]
            self.gc_tmp(s, v)
            k = (s.skey(), v, self.dom.merge_key(s), frozenset(s.facts.items()) if len(rets) <= 4 else None)
            o = seen.get(k)
            if o is not None:
                o.facts = inter_facts(o.facts, s.facts)
            else:
                seen[k] = s
                out.append((s, v))
        return out

    def gc_tmp(self, st, *extra):
        """drop closure temporaries no longer referenced"""
        tmp = [r for r in st.store if r[0] == "C"]
        if not tmp:
            return
        used = set()
        work = [v for r, v in st.store.items() if r[0] != "C"] + list(extra)
        while work:
            v = work.pop()
            for x in refroots(v):
                if x[0] == "C" and x not in used:
                    used.add(x)
                    if x in st.store:
                        work.append(st.store[x])
        for r in tmp:
            if r not in used:
                del st.store[r]

    def gc(self, st, fr, block):
        live = fr.body.live_in[block]
        d = fr.depth
        mine = [r for r in st.store if r[0] == "L" and r[1] == d]
        drop = [r for r in mine if r[2] not in live]
        if not drop:
            return st
        keep = set()
        work = [v for r, v in st.store.items() if r not in drop_set(drop)]
        ds = set(drop)
        while work:
            v = work.pop()
            if v.op in LEAF and v.op != "ref":
                continue
            for x in refroots(v):
                if x in ds and x not in keep:
                    keep.add(x)
                    work.append(st.store[x])
        st = st.copy()
        for r in drop:
            if r not in keep:
                del st.store[r]
        return st

    def dedupe(self, states, fr, block):
        if self.dom.join_calls:
            seen = {}
            for s in states:
                s = self.gc(s, fr, block)
                seen.setdefault((s.skey(), self.dom.merge_key(s)), []).append(s)
            out = []
            for g in seen.values():
                s = g[0].copy()
                if len(g) > 1:
                    s.facts = self.join_facts([x.facts for x in g])
                out.append(s)
            return out
        seen, out = {}, []
        few = len(states) <= 32     # keep what tells the paths apart while there are few
        for s in states:
            s = self.gc(s, fr, block)
            k = (s.skey(), self.dom.merge_key(s), frozenset(s.facts.items()) if few else None)
            o = seen.get(k)
            if o is not None:
                o.facts = inter_facts(o.facts, s.facts)
            else:
                s = s.copy() if s in states else s
                seen[k] = s
                out.append(s)
        return out

    def process(self, fr, region, start, states, head):
        """run the blocks of `region` (None: the whole body) from `start`.
        -> (exits [(block,state)], backs [state at head], rets [state])"""
        body = fr.body
        pos = {b: i for i, b in enumerate(body.rpo)}
        loops = body.loops
        pending = {start: list(states)}
        exits, backs, rets = [], [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: pos[x])
            sts = pending.pop(b)
            if len(sts) > 1:
                sts = self.dedupe(sts, fr, b)

            def go(t, s):
                if head is not None and t == head:
                    backs.extend(self.dom.on_back(self, s, (body.key, head)))
                elif region is not None and t not in region:
                    exits.append((t, s))
                else:
                    pending.setdefault(t, []).append(s)
            if b in loops and not (first and b == head):
                ex, rt = self.loop(fr, b, sts)
                rets += rt
                for t, s in ex:
                    go(t, s)
            else:
                for s in sts:
                    for t, s2 in self.block(fr, b, s):
                        if t == "ret":
                            rets.append(s2)
                        else:
                            go(t, s2)
            first = False
        return exits, backs, rets

    def block(self, fr, b, st):
        self.nstates += 1
        if self.nstates > self.budget:
            raise Unsupported("analysis budget exceeded")
        blk = fr.body.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], None)
                self.write(st, fr, s[1], v)
            elif s[0] == "setd":
                raise Unsupported("SetDiscriminant")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            want = t[2]
            return self.do_assert(fr, st, c, want, t)
        if k == "call":
            self.callsites.add((fr.body.key, b))
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, a) for a in t[2]]
            out = []
            for s, v in self.call(fr, st, f, args, t[5], t[6] if len(t) > 6 else "", t[4]):
                if t[4] is None or t[4] < 0:
                    self.panic(s, "diverging call", fr, t[5], f)
                    continue
                s = s.copy()
                self.write(s, fr, t[3], v)
                out.append((t[4], s))
            return out
        if k == "unwind":
            return []
        raise Unsupported("terminator " + k)

    def panic(self, st, kind, fr, span, detail):
        self.dom.on_panic(self, st, kind, fr, span, detail)

    def do_assert(self, fr, st, c, want, t):
        if c.op == "ovf":
            base, a, b, ty = c.args
            sts = self.dom.overflow(self, st, base, a, b, fr, t)
            return [(t[4], s) for s in sts]
        out = []
        for s, v in self.split(st, c):
            if v == want:
                out.append((t[4], s))
            else:
                self.panic(s, "assert " + str(t[3])[:60], fr, t[5], c)
        return out

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        if v.op == "sel":
            out = []
            for s, k in self.split(st, v.args[0]):
                out += self.switch_on(fr, s, v.args[1] if k else v.args[2], targets, other, t)
            return out
        return self.switch_on(fr, st, v, targets, other, t)

    def switch_on(self, fr, st, v, targets, other, t):
        if v.op == "sel":
            out = []
            for s, k in self.split(st, v.args[0]):
                out += self.switch_on(fr, s, v.args[1] if k else v.args[2], targets, other, t)
            return out

        def tgt(n):
            for val, b in targets:
                if val == n:
                    return b
            return other
        unreach = other is not None and other >= 0 and fr.body.blocks[other] and fr.body.blocks[other]["t"][0] == "unreachable"
        if v.op in ("bool",):
            return [(tgt(1 if v.args[0] else 0), st)]
        if v.op == "int":
            return [(tgt(v.args[0]), st)]
        if v.op == "discr":
            self.dom.on_branch(self, st, v, fr, t)
            out = []
            for s, d in self.fork_discr(st, v):
                b = tgt(d)
                if b is not None and b >= 0 and not (b == other and unreach):
                    out.append((b, s))
            return out
        if v.op in ("ige0", "ieq0", "flt2", "fle", "feq", "isnan", "not", "and", "streq", "deq", "any", "all", "batom") or \
           (len(targets) == 1 and targets[0][0] == 0 and self.is_bool(fr, t[1])):
            self.dom.on_branch(self, st, v, fr, t)
            return [(tgt(1 if k else 0), s) for s, k in self.split(st, v)]
        # integer switch
        self.dom.on_branch(self, st, v, fr, t)
        out, rest = [], [st]
        for val, b in targets:
            nr = []
            for s in rest:
                for s2, k in branch(s, ieq(v, intc(val))):
                    if k:
                        out.append((b, s2))
                    else:
                        nr.append(s2)
            rest = nr
        if other is not None and other >= 0 and not unreach:
            out += [(other, s) for s in rest]
        return out

    def is_bool(self, fr, op):
        if op[0] in ("cp", "mv") and not op[1][1]:
            return fr.body.locals[op[1][0]] == "bool"
        return True

    # ---- calls
    def call(self, fr, st, f, args, span, dty="", target=0):
        if f.op in ("ref", "cref"):
            f = self.load_all(st, f)
        if f.op == "clo":
            return self.call_closure(st, f, args, fr.depth)
        if f.op != "fnv":
            r = self.dom.opaque_call(self, st, f, args, fr, span)
            if r is not None:
                return r
            return [(st, mk("call", f, tuple(self.load_all(st, a) for a in args)))]
        c = self.fnreg[f]
        r = self.dom.call(self, st, c, args, fr, span)
        if r is not None:
            return r
        if c.get("ctor"):
            return [(st, mk("agg", c["ctor"][0], c["ctor"][1], tuple(args)))]
        key = c.get("body")
        if c.get("trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and len(args) == 2:
            tup = self.load_all(st, args[1]) if args[1].op in ("ref", "cref") else args[1]
            g = args[0]
            while g.op in ("ref", "cref") and self.load_all(st, g).op in ("clo", "fnv") and self.load(st, g).op in ("ref", "cref"):
                g = self.load(st, g)
            gv = self.load_all(st, g)
            if tup.op == "agg" and tup.args[0] == "tuple" and gv.op in ("clo", "fnv"):
                return self.call_closure(st, g, list(tup.args[2]), fr.depth)
        if key and key in self.p.fns:
            m = self.models.lookup_override(c)
            if m is None:
                return self.call_body(fr, st, self.p.fns[key], args)
            return m(self, st, c, args, fr, span)
        m = self.models.lookup(c)
        if m is not None:
            r = m(self, st, c, args, fr, span)
            if r is not None:
                return r
        if target is None or target < 0:
            return [(st, UNIT)]
        return self.unknown_call(st, c, args, fr, span)

    def call_body(self, fr, st, body, args):
        if body.key in self.stack:
            raise Unsupported("recursion through " + body.key)
        self.analysed[body.key] = self.analysed.get(body.key, 0) + 1
        q = self.reduction(fr, st, body, args)
        if q is not None:
            return [(st, q)]
        self.stack.append(body.key)
        try:
            r = self.run_body(body, args, st, fr.depth + 1)
        finally:
            self.stack.pop()
        return self.join_returns(r) if self.dom.join_calls and len(r) > 1 else r

    def reduction(self, fr, st, body, args):
        """a function from vectors to one number is summarised once, on opaque vectors"""
        if not TM.UNIFORM[0] or self.dom.raw_loops or not args or not body.local or body.locals[0] not in ("f64", "bool", "usize") \
                or not all(is_vec_ref(t) for t in body.locals[1:body.argc + 1]):
            return None
        vs = [self.load_all(st, a) for a in args]
        if all(v.op == "sym" for v in vs) or any(TM.vlen(v) is not NSYM for v in vs):
            return None
        xs = [mk("sym", "$vec%d" % k) for k in range(len(args))]
        r = self.reductions.get(body.key, 0)
        if r == 0:
            np_, nr, um = len(self.panics), len(self.reports), len(self.unmodelled)
            s0 = st.copy()
            s0.facts = {}
            r = None
            self.stack.append(body.key)
            try:
                rs = self.run_body(body, [mk("cref", x) for x in xs], s0, fr.depth + 1)
                if len(rs) > 1:
                    rs = self.join_returns(rs)
                if len(rs) == 1 and len(self.panics) == np_ and len(self.reports) == nr and len(self.unmodelled) == um \
                        and rs[0][0].store == s0.store and not any(p.op == "phi" for p in phis(rs[0][1])) and not refroots(rs[0][1]):
                    r = rs[0][1]
            except (Unsupported, Conflict):
                pass
            finally:
                self.stack.pop()
            del self.panics[np_:], self.reports[nr:]
            self.reductions[body.key] = r
        return None if r is None else subst(r, dict(zip(xs, vs)))

    def join_returns(self, rs):
        """returns that differ by their value only become one return of a
        selection on the facts that tell them apart; the facts of each side are
        kept as implications, so the joined set of states is the same set"""
        groups = {}
        for s, v in rs:
            ok = joinable(v)
            groups.setdefault((s.skey(), self.dom.merge_key(s)) if ok else (id(s),), []).append((s, v))
        out = []
        for g in groups.values():
            if len(g) == 1 or len(g) > 64:
                out += g
                continue
            j = self.join_rec([(s.facts, v) for s, v in g], 0)
            if j is None:
                out += g
                continue
            s = g[0][0].copy()
            s.facts = j[0]
            out.append((s, j[1]))
        return out

    def join_facts(self, fs):
        """what holds when one of the given sets of facts does"""
        j = self.join_rec([(f, UNIT) for f in fs], 0) if len(fs) <= 64 else None
        if j is not None:
            return j[0]
        out = fs[0]
        for f in fs[1:]:
            out = inter_facts(out, f)
        return out

    def join_apart(self, g):
        """the same for sides no single atom tells apart: each on its own path condition"""
        out = g[0][0]
        for f, _ in g[1:]:
            out = inter_facts(out, f)
        rest = [[(k, v) for k, v in f.items() if k not in out] for f, _ in g]
        if not all(rest) or sum(map(len, rest)) > 32:
            return None
        conds = []
        for r in rest:
            c = TRUE
            for k, v in r:
                c = band(c, k if v is True else bnot(k) if v is False else mk("deq", k, intc(v)))
            conds.append(c)
        none = TRUE                          # "none of them" is false
        for c in conds:
            none = band(none, bnot(c))
        if none.op == "and":
            out = dict(out)
            out[none] = False
        elif none is not FALSE:
            return None
        order = sorted(range(len(g)), key=lambda i: any(k.op in ("and", "not") for k, _ in rest[i]))
        t = g[order[-1]][1]
        for i in reversed(order[:-1]):
            t = gsel(conds[i], g[i][1], t)
        return out, t

    def join_rec(self, g, depth):
        if len(g) == 1:
            return dict(g[0][0]), g[0][1]
        common = set(g[0][0])
        for f, _ in g[1:]:
            common &= set(f)
        if depth > 14:
            return None
        for a in sorted(common, key=lambda t: t.id):
            vals = sorted({(type(f[a]).__name__, f[a]) for f, _ in g})
            if len(vals) < 2:
                continue
            parts = []
            for v in vals:
                q = self.join_rec([x for x in g if x[0][a] == v[1] and type(x[0][a]).__name__ == v[0]], depth + 1)
                if q is None:
                    break
                parts.append((a if v[1] is True else bnot(a) if v[1] is False else mk("deq", a, intc(v[1])), q))
            if len(parts) < len(vals):
                continue
            facts = parts[0][1][0]
            for _, q in parts[1:]:
                facts = inter_facts(facts, q[0])
            facts = dict(facts)
            for c, (fs, _) in parts:
                for k, v in fs.items():
                    if k in facts or k is a:
                        continue
                    lit = k if v is True else bnot(k) if v is False else mk("deq", k, intc(v))
                    imp = band(c, bnot(lit))
                    if imp.op == "and":
                        facts[imp] = False
            t = parts[-1][1][1]
            for c, (_, v) in reversed(parts[:-1]):
                t = gsel(c, v, t)
            return facts, t
        return self.join_apart(g)

    def call_closure(self, st, f, args, depth):
        """args: already spread"""
        if f.op in ("ref", "cref"):
            fv = self.load_all(st, f)
        else:
            fv = f
        if fv.op == "fnv":
            class F:
                pass
            fr = F()
            fr.depth = depth
            fr.body = None
            return self.call(fr, st, fv, args, "")
        if fv.op != "clo":
            return [(st, mk("call", fv, tuple(self.load_all(st, a) for a in args)))]
        body = self.p.fns.get(fv.args[0])
        if body is None:
            raise Unsupported("closure body " + str(fv.args[0]))
        st = st.copy()
        if body.locals[1].startswith("&"):
            if f.op == "ref":
                x = self.load(st, f)
                envv = f
                while x.op == "ref":
                    envv, x = x, self.load(st, x)
            else:
                root = ("C", depth + 1, body.key)
                st.store[root] = fv
                envv = mk("ref", root, ())
        else:
            envv = fv

        class F2:
            pass
        fr = F2()
        fr.depth = depth
        return self.call_body(fr, st, body, [envv] + list(args))

    def unknown_call(self, st, c, args, fr, span):
        name = c.get("rfull") or c.get("full")
        self.unmodelled.setdefault(name, set()).add(fr.body.key if fr.body else "?")
        st = st.copy()
        vals = []
        for a in args:
            vals.append(self.load_all(st, a))
        args_ty = c.get("args") or []
        # every place reachable through a mutable reference may change
        for k, a in enumerate(args):
            if a.op == "ref" and self.dom.may_mutate(self, c, k):
                self.store_ref(st, a, mk("extmut", name, k, tuple(vals)))
        return [(st, mk("ext", name, tuple(vals)))]

    # ---- loops
    def loop(self, fr, h, states):
        body = fr.body
        region = body.loops[h]
        tag = "%s@%d#%d" % (body.key, h, fr.depth)
        states = self.dedupe(states, fr, h)
        exits, rets = [], []

        def run(st):
            ex, bk, rt = self.process(fr, region, h, [st], h)
            bk = self.dedupe(bk, fr, h) if bk else bk
            return ex, bk, rt
        for group in [[s] for s in states]:
            e, r = self.fix_const(group, run, tag, fr)
            # once quantified, what is known about the last iteration only matters while its variables live
            for t, x in e:
                if id(x) in self.witness and any(p.args[0] == tag for a in x.facts for p in phis(a)):
                    g = self.gc(x, fr, t)
                    used = {p for v in g.store.values() for p in phis(v) if p.args[0] == tag}
                    x = x.copy()
                    x.facts = {a: v for a, v in x.facts.items() if not any(p.args[0] == tag and p not in used for p in phis(a))}
                exits.append((t, x))
            rets += r
        return exits, rets

    def fix_const(self, entry, run, tag, fr, gc=True):
        """a flag or a NaN set on the way splits the head of a loop; when the loop only works on
        the variables of its own function, the split is replaced by a closed form of the flag"""
        n0, np_ = self.loops_solved, len(self.panics)
        nr, lv = len(self.reports), [0]
        own = lambda r: r[0] in ("L", "X", "C") and r[1] >= fr.depth
        e, r = self.fix(entry, run, tag, lv)
        if lv[0] < 2 or len(entry) != 1 or self.dom.raw_loops or r or JOIN_CONST[0] or len(self.reports) != nr or len(self.panics) != np_:
            return e, r
        for _, x in e:
            if any(t is not entry[0].store.get(q) for q, t in x.store.items() if not own(q)):
                return e, r
        keep = self.witness
        JOIN_CONST[0] = True
        try:
            l2 = [0]
            e2, r2 = self.fix(entry, run, tag, l2)
            if l2[0] == 1 and not r2 and len(self.reports) == nr and len(self.panics) == np_:
                for k, (t, x) in enumerate(e2):
                    g = self.gc(x, fr, t) if gc else x
                    if id(x) in self.witness:
                        self.witness[id(g)] = g
                    e2[k] = (t, g)
                if not any(p.op == "phi" and p.args[0] == tag for _, x in e2 for v in x.store.values() for p in phis(v)):
                    return e2, r2
        except (Unsupported, Conflict):
            pass
        finally:
            JOIN_CONST[0] = False
        del self.reports[nr:], self.panics[np_:]
        self.witness = keep
        return e, r

    def fix(self, entry, run, tag, nlive=None):
        """fixpoint over a set of loop-head states; -> (exits, rets)"""
        self.loops += 1
        self.witness = {}
        heads = [s.copy() for s in entry]
        entries = {i: [s] for i, s in enumerate(heads)}
        results = {}
        self.dom.loop_enter(self)
        base_reports = len(self.reports)
        it = 0
        todo = list(range(len(heads)))
        saved_an = None
        while todo:
            it += 1
            if it > 240:
                raise Unsupported("loop fixpoint did not stabilise: " + tag)
            i = todo.pop(0)
            if heads[i] is None:
                continue
            results[i] = run(heads[i])
            for b in results[i][1]:
                cov = None
                for j, h in enumerate(heads):
                    if h is None:
                        continue
                    P = frozenset(p for t in h.store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
                    if match_state(h, b, P) is not None:
                        cov = j
                        break
                if cov is not None:
                    continue
                best = None
                for j, h in enumerate(heads):
                    if h is None:
                        continue
                    if self.dom.partition(h) != self.dom.partition(b):
                        continue
                    try:
                        w = widen(h, b, tag)
                    except Conflict:
                        continue
                    cost = sum(1 for t in w.store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
                    if best is None or cost < best[0]:
                        best = (cost, j, w)
                if DEBUG_FIX and DEBUG_FIX in tag:
                    print("it", it, "from", i, "->", None if best is None else (best[0], best[1]), "heads", sum(h is not None for h in heads))
                    if best is None:
                        print("   part", [(show(x[0])[:300] if isinstance(x[0], T) else x[0], x[1]) for x in self.dom.partition(b) or ()])
                        for j, h in enumerate(heads):
                            if h is None: continue
                            if h.store.keys() != b.store.keys(): print(j, "keys", set(h.store) ^ set(b.store)); continue
                            if self.dom.partition(h) != self.dom.partition(b): print(j, "part"); continue
                            for r in h.store:
                                try: au(h.store[r], b.store[r], tag)
                                except Conflict: print(j, "conflict", r, show(h.store[r])[:300], "~", show(b.store[r])[:300])
                    if best is not None:
                        why_not(heads[best[1]], b, tag)
                if best is None:
                    heads.append(b.copy())
                    todo.append(len(heads) - 1)
                    if len(heads) > 300:
                        raise Unsupported("too many loop-head states: " + tag)
                else:
                    _, j, w = best
                    heads[j] = w
                    results.pop(j, None)
                    if j not in todo:
                        todo.append(j)
            # drop heads subsumed by others
            for j in range(len(heads)):
                if heads[j] is None:
                    continue
                for k in range(len(heads)):
                    if k == j or heads[k] is None or heads[j] is None:
                        continue
                    P = frozenset(p for t in heads[k].store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
                    if not P:
                        continue
                    if match_state(heads[k], heads[j], P) is not None:
                        entries.setdefault(k, []).extend(entries.pop(j, []))
                        heads[j] = None
                        results.pop(j, None)
                        if j in todo:
                            todo.remove(j)
                        break
        self.dom.loop_stable(self)
        del self.reports[base_reports:]
        # final pass on the stable heads (reports of earlier passes discarded)
        live = [j for j, h in enumerate(heads) if h is not None]
        if nlive is not None:
            nlive[0] = len(live)
        exits, rets = [], []
        edges = []
        final = {}
        for j in live:
            self.dom.loop_head(self, j)
            final[j] = run(heads[j])
            for b in final[j][1]:
                for k in live:
                    P = frozenset(p for t in heads[k].store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
                    sg = match_state(heads[k], b, P)
                    if sg is not None:
                        edges.append((j, k, sg, b))
                        break
        self.dom.loop_done(self, tag, heads, live, edges, entry, final)
        self.dom.loop_leave(self)
        for j in live:
            ex, bk, rt = final[j]
            rets += rt
            if len(live) == 1 and not self.dom.raw_loops:
                ex2 = self.solve(tag, heads[j], entry, [(sg, b) for (_, _, sg, b) in edges], ex)
            else:
                ex2 = ex
            exits += ex2
        return exits, rets

    def solve(self, tag, h, entry, backs, exits):
        P = frozenset(p for t in h.store.values() for p in phis(t) if p.op == "phi" and p.args[0] == tag)
        if not P or len(entry) != 1:
            return exits
        s0 = match_state(h, entry[0], P)
        if s0 is None or not backs:
            return exits
        I = fresh_tmp("i")
        solved = {}       # phi -> value at iteration I
        for p in P:
            steps = {isub(sg.get(p, p), p) for sg, _ in backs}
            if len(steps) == 1:
                d = steps.pop()
                if d.op == "int":
                    solved[p] = iadd(s0[p], imul(d, I))
        # merge differing back edges by one gate
        nxt = {}
        if len(backs) == 1:
            nxt = {p: backs[0][0].get(p, p) for p in P}
        else:
            nxt = self.gate(P, backs) or {}
        ch = True
        while ch:
            ch = False
            for p in P:
                if p in solved or p not in nxt:
                    continue
                t = nxt[p]
                if t is p:
                    solved[p] = s0[p]
                    ch = True
                    continue
                r = self.recur(p, t, P, solved, s0[p], I)
                if r is not None:
                    solved[p] = r
                    ch = True
        # conditions under which every iteration goes on: quantified over the iterations
        quants = []
        for a, v in backs[0][1].facts.items():
            ph = [q for q in phis(a) if q in P]
            if a.op in ("ige0", "ieq0") or v is not True and v is not False or not ph or any(q not in solved for q in ph) or a in h.facts:
                continue
            if all(b.facts.get(a) is v for _, b in backs):
                j = fresh_tmp("q")
                a2 = subst(subst(a, solved), {I: j})
                if not any(q in P for q in phis(a2)):
                    quants.append((a, v, mk_lam(j, bnot(a2) if v else a2)))
        trips = [self.trip(P, solved, backs, x, I) for _, x in exits]
        total = {n for n in trips if n is not None}
        total = total.pop() if len(total) == 1 else None
        out = []
        for (tgt, x), n in zip(exits, trips):
            if n is None:
                if total is not None and len(exits) == 2:
                    hit = [q for a, v, q in quants if x.facts.get(a) is (not v)]
                    if hit:
                        x = x.copy()
                        for q in hit:
                            x.facts[mk("any", total, q)] = True
                        self.witness[id(x)] = x
                out.append((tgt, x))
                continue
            self.loops_solved += 1
            m = {}
            for p, v in solved.items():
                m[p] = subst(v, {I: n})
            s = St(trace=x.trace)
            memo = {}
            for r, t in x.store.items():
                s.store[r] = subst(t, m, memo)
            for a, v in x.facts.items():
                a2 = subst(a, m, memo)
                if a2.op in ("bool", "int"):
                    continue
                s.facts[a2] = v
            if n is total:
                for a, v, q in quants:
                    s.facts[mk("any", n, q)] = False
            out.append((tgt, s))
        return out

    def gate(self, P, backs):
        """next values as selections on the facts that tell the back edges apart"""
        if len(backs) > 64:
            return None

        def rec(bs, depth):
            if len(bs) == 1:
                return {p: bs[0][0].get(p, p) for p in P}
            r = {}
            for p in P:
                vs = {sg.get(p, p) for sg, _ in bs}
                if len(vs) == 1:
                    r[p] = vs.pop()
            if len(r) == len(P):
                return r
            if depth > 12:
                return r
            common = None
            for sg, b in bs:
                ks = set(b.facts)
                common = ks if common is None else common & ks
            best = None
            for a in sorted(common, key=lambda t: t.id):
                vals = sorted({(type(b.facts[a]).__name__, b.facts[a]) for _, b in bs})
                if len(vals) < 2:
                    continue
                parts = [(v, rec([x for x in bs if x[1].facts[a] == v[1]], depth + 1)) for v in vals]
                g = {}
                for p in P:
                    if any(q is None or q.get(p) is None for _, q in parts):
                        continue
                    t = parts[-1][1][p]
                    for v, q in reversed(parts[:-1]):
                        if isinstance(v[1], bool):
                            t = gsel(a, t, q[p])     # parts sorted False, True
                        else:
                            t = gsel(mk("deq", a, intc(v[1])), q[p], t)
                    g[p] = t
                g.update({p: v for p, v in r.items() if p not in g})
                if best is None or len(g) > len(best):
                    best = g
                if len(g) == len(P):
                    break
            return best if best is not None else r
        return rec(backs, 0)

    def recur(self, p, t, P, solved, init, I):
        """closed form of p at iteration I, given p' = t"""
        free = [q for q in phis(t) if q in P]
        others = [q for q in free if q is not p]
        if any(q not in solved for q in others):
            return None
        m = {q: solved[q] for q in others}
        t = subst(t, m)
        if p not in free:
            j = fresh_tmp("j")
            return mk("last", I, init, mk_lam(j, subst(t, {I: j})))
        if not contains_phi(t, p):
            return None
        j = fresh_tmp("j")
        # element-wise store
        if t.op == "upd" and t.args[0] is p and not contains_phi(t.args[1], p) and not contains_phi(t.args[2], p):
            return mkfill_(init, I, mk_lam(j, subst(mk("kv", t.args[1], t.args[2]), {I: j})))
        if t.op == "fill" and t.args[0] is p and not contains_phi(t.args[1][0], p) and not contains_phi(t.args[2], p):
            return mk("fill", init, (I,), mk_lam(j, subst(mk("nest", t.args[1][0], t.args[2]), {I: j})))
        if t.op == "vpush" and t.args[0] is p and not contains_phi(t.args[1], p):
            lamv = mk_lam(j, subst(t.args[1], {I: j}))
            if vlen(init) is intc(0):
                return mk("vec", I, lamv)
            return mk("vext", init, I, lamv)
        if t.op == "s" and t.args[0] and t.args[0][0] is p:
            rest = mk("s", t.args[0][1:])
            if not contains_phi(rest, p):
                return scat(init, mk("rep", I, mk_lam(j, subst(rest, {I: j}))))
        a = fresh_tmp("acc")
        return TM.fold_(I, init, mk_lam(j, mk_lam(a, subst(t, {I: j, p: a}))))

    def trip(self, P, solved, backs, x, I):
        """iteration number at which this exit is taken (loop condition false)"""
        for a, v in x.facts.items():
            if a.op not in ("ige0", "ieq0"):
                continue
            if not any(q in P for q in phis(a)):
                continue
            if not all(b.facts.get(a) == (not v) for _, b in backs_head(backs)):
                pass
            if any(q in P and q not in solved for q in phis(a)):
                continue
            L = subst(a.args[0], solved)
            k, m = TM._lin(L)
            c = m.get(I)
            if c is None or any(I in phis(t) for t in m if t is not I):
                continue
            rest = isub(L, iscale(I, c))
            if a.op == "ige0":
                if v is False and c == -1:      # continue while rest - I >= 0
                    return iadd(rest, intc(1))
                if v is True and c == 1:        # continue while I + rest < 0
                    return iscale(rest, -1)
            elif v is True:
                if c == 1:
                    return iscale(rest, -1)
                if c == -1:
                    return rest
        return None


def backs_head(backs):
    return backs


def contains_phi(t, p):
    return p in phis(t)


def gsel(c, a, b):
    """selection pushed below element stores on the same base and index"""
    if a is b:
        return a
    if a.op == "vpush" and b.op == "vpush" and a.args[0] is b.args[0]:
        return mk("vpush", a.args[0], gsel(c, a.args[1], b.args[1]))
    if a.op == "fill" and b.op == "fill" and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
        la, lb = a.args[2], b.args[2]
        if la.op == "lam" and lb.op == "lam":
            j = fresh_tmp("g")
            ka, kb = ap(la, j), ap(lb, j)
            if ka.op == "kv" and kb.op == "kv" and ka.args[0] is kb.args[0]:
                return mk("fill", a.args[0], a.args[1], mk_lam(j, mk("kv", ka.args[0], gsel(c, ka.args[1], kb.args[1]))))
    if a.op == "upd" and b.op == "upd" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return upd(a.args[0], a.args[1], gsel(c, a.args[2], b.args[2]))
    return sel(c, a, b)


def mkfill_(init, n, lamkv):
    """fill(base, (n,), λi. kv(index, value))"""
    return mk("fill", init, (n,), lamkv)


def drop_set(d):
    return set(d)


def joinable(v):
    if v.op == "agg":
        if v.args[0].split("<")[0].split("::")[-1] in ("Option", "Result", "ControlFlow", "Ordering"):
            return False
        return all(joinable(x) for x in v.args[2])
    return v.op not in ("ref", "clo")


def inter_facts(a, b):
    if a is b:
        return a
    return {k: v for k, v in a.items() if k in b and b[k] == v}


def subterms_bool(c):
    out, st = [], [c]
    while st:
        x = st.pop()
        if x.op in ("not", "and", "sel"):
            st += [a for a in x.args if isinstance(a, T)]
        else:
            out.append(x)
    return out


def get1(v, e):
    if e[0] == "f":
        return field(v, e[1])
    if e[0] == "vf":
        return vfield(v, e[1], e[2])
    if e[0] == "at":
        return idx(v, e[1])
    raise Unsupported("projection")


def put(v, proj, x):
    e = proj[0]
    if len(proj) > 1:
        x = put(get1(v, e), proj[1:], x)
    if e[0] == "f":
        return set_field(v, e[1], x)
    if e[0] == "vf":
        if v.op == "agg":
            fs = list(v.args[2])
            fs[e[2]] = x
            return mk("agg", v.args[0], v.args[1], tuple(fs))
        return mk("updv", v, e[1], e[2], x)
    if e[0] == "at":
        return upd(v, e[1], x)
    raise Unsupported("projection")


def deref_sel(I, st, v):
    if v.op == "sel":
        return sel(v.args[0], deref_sel(I, st, v.args[1]), deref_sel(I, st, v.args[2]))
    if v.op == "ref":
        return I.load(st, v)
    return deref(v)


def fop(op, a, b):
    ca = a.args[0] if a.op == "flt" and isinstance(a.args[0], Fr) else None
    cb = b.args[0] if b.op == "flt" and isinstance(b.args[0], Fr) else None
    if ca is not None and cb is not None:
        if op == "fadd":
            return fltc(ca + cb)
        if op == "fsub":
            return fltc(ca - cb)
        if op == "fmul":
            return fltc(ca * cb)
        if op == "fdiv" and cb != 0:
            return fltc(ca / cb)
    return mk(op, a, b)


class Domain:
    """default domain: no events; every hook can be overridden"""
    I = None
    join_calls = False   # join the returns of a call exactly (selections, implications)
    raw_loops = False    # leave the exits of loops in terms of the loop head

    def call(self, I, st, c, args, fr, span):
        return None

    def opaque_call(self, I, st, f, args, fr, span):
        return None

    def on_write(self, I, st, root, proj, x):
        pass

    def on_branch(self, I, st, v, fr, t):
        pass

    def on_panic(self, I, st, kind, fr, span, detail):
        I.panics.append((kind, fr.body.key if fr.body else "?", span, st, detail))

    def overflow(self, I, st, base, a, b, fr, t):
        return [st]

    def may_mutate(self, I, c, k):
        return True

    def children(self, e):
        """the number of children of a node, when the analysis assumes one"""
        return None

    def loop_enter(self, I):
        pass

    def loop_head(self, I, j):
        pass

    def loop_stable(self, I):
        pass

    def loop_done(self, I, tag, heads, live, edges, entry, final):
        pass

    def loop_leave(self, I):
        pass


def _dom_defaults():
    def merge_key(self, st):
        return None

    def on_back(self, I, st, where=None):
        return [st]

    def partition(self, st):
        return None

    def on_index(self, I, st, v, i, fr, span):
        pass

    def same_len(self, a, b):
        return a is b

    def display(self, I, st, v, ty):
        return None

    def io(self, I, st, name, c, a, fr, span):
        return None
    Domain.on_index, Domain.same_len, Domain.display, Domain.io = on_index, same_len, display, io
    Domain.merge_key, Domain.on_back, Domain.partition = merge_key, on_back, partition


_dom_defaults()
