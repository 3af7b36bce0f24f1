"""What the Display implementations show (C23): the text each `fmt` writes, as a
sequence of literals and displayed values, read as labels and cells."""
import itertools, re
from chk import *
import interp as IN
from onedim import LDom, phis_of

RULE = "display"
TABLE = "displayed table"


class SDom(LDom):
    def __init__(self, fd=None):
        LDom.__init__(self)
        self.fd = fd

    def call(self, I, st, c, args, fr, span):
        if c["name"] == "with_finite_diff" and not c.get("body") and self.fd is not None:
            return [(st, TM.TRUE if self.fd else TM.FALSE)]
        return None


def short(adt):
    return adt.split("::")[-1].split("<")[0]


def fmt_of(ctx, adt):
    return ctx.fn("fmt", adt, trait="Display")


def texts(ctx, adt, v, fd=None):
    """[(state, text)] of the Display implementation of adt on the value v, and its loops"""
    key = ("shown", adt, v, fd)
    if key not in ctx.cache:
        dom = SDom(fd)
        f = fmt_of(ctx, adt)
        s = ctx.summ(f, [cref(v), ("mut", TM.lit(""), "f")], dom=dom)
        out = []
        for st, r in s.results:
            if r.op == "agg" and r.args[1] != 0:
                raise Unk("an outcome of %s::fmt is an error" % adt)
            out.append((st, st.store[s.refs[1]]))
        ctx.cache[key] = (s, dom, out)
    return ctx.cache[key]


# ---------------------------------------------------------------- pieces of text
def toks(ctx, t, env, trunc=False):
    """literals and values of a text; env: string-valued loop variables -> text"""
    out = []
    for p in TM.sparts(t):
        if p.op == "lit":
            out.append(("lit", p.args[0]))
        elif p.op in ("disp", "dbg"):
            v = p.args[-1]
            if v.op == "s" or v in env:
                out += toks(ctx, v, env, trunc)
            else:
                out.append(("val", v, trunc))
        elif p.op == "pad":
            pr = p.args[3]
            out += toks(ctx, p.args[0], env, trunc or pr.op != "none")
        elif p in env:
            out += toks(ctx, env[p], env, trunc)
        else:
            raise Unk("text made of %s" % str(p)[:80])
    return out


def looped(out):
    """does a text depend on a loop that is not unrolled?"""
    P, seen = set(), set()
    for _, t in out:
        phis_of(t, P, seen)
    return bool(P)


def const_text(ctx, v):
    """the text shown for a concrete value of an enumeration"""
    adt = short(v.args[0])
    s, dom, out = texts(ctx, adt, v)
    res = set()
    for st, t in out:
        x = ""
        for k in toks(ctx, t, {}):
            if k[0] == "lit":
                x += k[1]
            elif k[1].op == "agg":
                x += const_text(ctx, k[1])
            else:
                raise Unk("%s shown for %s" % (str(k[1])[:60], v))
        res.add(x)
    if s.panics or len(res) != 1:
        raise Unk("%d texts for %s" % (len(res), v))
    return res.pop()


def values(ctx, adt):
    """every value of an enumeration whose payloads are enumerations"""
    a = ctx.adt(adt)
    out = []
    for i, v in enumerate(ctx.p.adts[a]["variants"]):
        kinds = []
        for _, ty, _ in v["fields"]:
            kinds.append([(short(ty) + "::" + n if 0 else n, t) for n, t in values(ctx, short(ty))])
        for c in itertools.product(*kinds):
            n = v["name"] + ("(" + ", ".join(x[0] for x in c) + ")" if c else "")
            out.append((n, mk("agg", a, i, tuple(x[1] for x in c))))
    return out


ENUMS = ["NormalizationMethod", "PerturbationMethod", "UpdateQuasiNewtonMethod", "QuasiNewtonMethod", "ResolutionMethod"]


def enums(ctx):
    for adt in ENUMS:
        guard(ctx, RULE, adt, enum1, ctx, adt)


def enum1(ctx, adt):
    loc = ctx.loc(fmt_of(ctx, adt))
    vs = values(ctx, adt)
    by = {}
    for n, v in vs:
        by.setdefault(const_text(ctx, v).strip(), []).append(n)
    bad = False
    for t, ns in by.items():
        if len(ns) > 1:
            bad = True
            ctx.bad(RULE, "%s: %s" % (adt, " and ".join(ns)), loc, "different choices are displayed with the same text %r" % t)
        if not t:
            bad = True
            ctx.bad(RULE, "%s: %s" % (adt, ns[0]), loc, "nothing is displayed")
    if not bad:
        ctx.ok(RULE, adt, loc, "%d values, %d texts: %s" % (len(vs), len(by), "; ".join(sorted(by))[:300]))


# ---------------------------------------------------------------- errors
ERRORS = ["SolverError", "SolverInternalError", "ModelError"]


def sub(t, x, seen=None):
    seen = set() if seen is None else seen
    if t is x:
        return True
    if t in seen:
        return False
    seen.add(t)
    return any(sub(k, x, seen) for k in TM.kids(t))


def errors(ctx):
    for adt in ERRORS:
        guard(ctx, RULE, adt, error1, ctx, adt)


def error1(ctx, adt):
    a = ctx.adt(adt)
    loc = ctx.loc(fmt_of(ctx, adt))
    skel = {}
    bad = False
    n = 0
    for i, v in enumerate(ctx.p.adts[a]["variants"]):
        pay = [sym("payload%d" % k) for k in range(len(v["fields"]))]
        s, dom, out = texts(ctx, adt, mk("agg", a, i, tuple(pay)))
        inst = "%s::%s" % (adt, v["name"])
        if s.panics or not out:
            raise Unk("%s: no text" % inst)
        for st, t in out:
            tk = toks(ctx, t, {})
            n += 1
            for p in pay:
                if not any(k[0] == "val" and not k[2] and sub(k[1], p) for k in tk) and not decided_by(st, p):
                    bad = True
                    ctx.bad(RULE, inst, loc, "the wrapped error is not shown: text %s" % show(tk), "%s|%s|payload" % (RULE, inst))
            sk = "".join(k[1] if k[0] == "lit" else "\0" for k in tk).strip()
            if skel.setdefault(sk, v["name"]) != v["name"]:
                bad = True
                ctx.bad(RULE, "%s: %s and %s" % (adt, skel[sk], v["name"]), loc, "different errors are displayed with the same text %r" % sk.replace("\0", "{}"))
    if not bad:
        ctx.ok(RULE, adt, loc, "%d texts, pairwise different, payloads shown" % n)


def decided_by(st, p):
    """the text was chosen by looking inside the payload"""
    return any(sub(a, p) for a in st.facts)


def show(tk):
    return "".join(k[1] if k[0] == "lit" else "{%s}" % str(k[1])[:60] for k in tk)[:300]


# ---------------------------------------------------------------- tables
def lines(tk):
    """lines of cells; a cell is a list of tokens"""
    out = [[[]]]
    for k in tk:
        if k[0] != "lit":
            out[-1][-1].append(k)
            continue
        for i, part in enumerate(k[1].split("\n")):
            if i:
                out.append([[]])
            for j, c in enumerate(part.split("|")):
                if j:
                    out[-1].append([])
                if c.strip():
                    out[-1][-1].append(("lit", c))
    return out


def word(cell):
    if any(k[0] != "lit" for k in cell):
        return None
    return re.sub(r"[^a-z]", "", "".join(k[1] for k in cell).lower())


def header(ls, cols):
    """(line number, {column label: position}) of the line holding every label"""
    for n, l in enumerate(ls):
        ws = [word(c) for c in l]
        pos = {}
        for name, keys in cols:
            hit = [i for i, w in enumerate(ws) if w and any(all(k in w for k in ks) for ks in keys)]
            if len(hit) == 1:
                pos[name] = hit[0]
        if len(pos) == len(cols) and len(set(pos.values())) == len(cols):
            return n, pos
    return None


def cell_is(ctx, cell, want, facts, enum=None):
    """None if the cell shows `want`, else what is wrong"""
    cell = [k for k in cell if k[0] == "val" or k[1].strip()]
    vals = [k for k in cell if k[0] == "val"]
    if not vals:
        w = "".join(k[1] for k in cell).strip()
        if want.op == "int" and w == str(want.args[0]):
            return None
        if enum:
            for n, v in values(ctx, enum):
                if const_text(ctx, v).strip() == w and compatible(facts, want, v):
                    return None
        if any(sub(a, want) for a in facts) and not enum:
            raise Unk("text chosen by the value")
        return "shows %r" % w
    if len(vals) != 1:
        return "shows %d values" % len(vals)
    v = vals[0][1]
    if v is not want:
        if v.op == "int" and want.op == "int" and v.args[0] == want.args[0]:
            return None
        if v.op in ("sel", "phi", "ext", "app", "call"):
            raise Unk("cell holds %s" % str(v)[:80])
        return "shows %s instead of %s" % (str(v)[:80], str(want)[:80])
    if vals[0][2]:
        return "shows %s truncated to a fixed precision" % str(want)[:80]
    return None


def compatible(facts, want, v):
    """the facts say that `want` is the enumeration value v (same variant)"""
    for a, k in facts.items():
        if a.op == "discr" and a.args[0] is want:
            return k == v.args[1]
    return False


def params_cells():
    return [("max_step_abs", [("step", "abs")]), ("max_step_rel", [("step", "rel")]), ("min_value", [("min",)]), ("max_value", [("max", "val")])]


def row_check(ctx, inst, loc, hdr, row, wants, facts, what):
    pos = hdr
    bad = False
    for name, want, enum in wants:
        i = pos[name]
        if i >= len(row):
            ctx.bad(TABLE, inst, loc, "%s: no cell in the column of %s" % (what, name), "%s|%s|%s" % (TABLE, inst, name))
            return True
        w = cell_is(ctx, row[i], want, facts, enum)
        if w:
            bad = True
            ctx.bad(TABLE, inst, loc, "%s: the column of %s %s" % (what, name, w), "%s|%s|%s" % (TABLE, inst, name))
    return bad


def parameters(ctx):
    """SolverParameters: one table, one row"""
    f = fmt_of(ctx, "SolverParameters")
    n, tol, it, m, d = (sym(x) for x in ("problem_size", "tolerance", "max_iter", "method", "damping"))
    # which argument is which setting is what the accessors say
    o = sym("parameters")
    acc = {}
    for g in ("get_problem_size", "get_tolerance", "get_max_iter", "get_resolution_method", "get_damping"):
        s = ctx.summ(ctx.fn(g, "SolverParameters"), [cref(o)])
        vs = {v for _, v in s.results}
        if len(vs) != 1:
            raise Unk(g)
        acc[g] = vs.pop()
    s, dom, out = texts(ctx, "SolverParameters", o)
    loc = ctx.loc(f)
    cols = [("problem size", [("size",)]), ("maximum of iterations", [("iter",)]), ("tolerance", [("tol",)]), ("damping", [("damp",)]), ("resolution method", [("method",), ("resol",)])]
    wants = list(zip([c[0] for c in cols], [acc["get_problem_size"], acc["get_max_iter"], acc["get_tolerance"], acc["get_damping"], acc["get_resolution_method"]], [None, None, None, None, "ResolutionMethod"]))
    if not out or looped(out):
        raise Unk("%d texts, %d loops" % (len(out), len(dom.done)))
    bad = False
    for st, t in out:
        ls = lines(toks(ctx, t, {}))
        h = header(ls, cols)
        if h is None:
            raise Unk("no header line with every label")
        rows = [l for l in ls[h[0] + 1:] if any(k[0] == "val" for c in l for k in c)]
        if len(rows) != 1:
            ctx.bad(TABLE, "SolverParameters", loc, "%d lines of values under the header" % len(rows), "%s|SolverParameters|lines" % TABLE)
            return
        bad |= row_check(ctx, "SolverParameters", loc, h[1], rows[0], wants, st.facts, "row of values")
    if not bad:
        ctx.ok(TABLE, "SolverParameters", loc, "%d columns" % len(cols))


def unroll(ctx, s, dom, t, facts, n):
    """(text before the rows, [(row index, row text, facts)], text after) of a one-loop text, for a table of n rows"""
    if len(dom.done) != 1 or len(dom.done[0][1]) != 1:
        raise Unk("%d loops" % len(dom.done))
    tag, heads, edges, entry = dom.done[0]
    h = heads[0]
    P, seen = set(), set()
    for x in h.store.values():
        phis_of(x, P, seen)
    P = frozenset(p for p in P if p.args[0] == tag)
    st0 = [IN.match_state(h, e, P) for e in entry]
    if len(st0) != 1 or st0[0] is None:
        raise Unk("entry of the loop")
    ints = {p: x for p, x in st0[0].items() if x.op == "int"}
    strs = [p for p, x in st0[0].items() if x.op == "s"]
    txt = [p for p in strs if sub(t, p)]
    if len(txt) != 1:
        raise Unk("%d texts built by the loop" % len(txt))
    S = txt[0]
    rowsof = []
    for _, _, sg, b in edges:
        nx = sg.get(S, S)
        ps = TM.sparts(nx)
        if nx is not S and (not ps or ps[0] is not S or any(sub(q, S) for q in ps[1:])):
            raise Unk("the loop rewrites the text")
        rowsof.append((mk("s", tuple(ps[1:])) if nx is not S else mk("s", ()), {p: sg.get(p, p) for p in ints}, b.facts))
    pre = st0[0][S]
    ps = list(TM.sparts(t))
    at = [i for i, q in enumerate(ps) if q is S or (q.op == "disp" and q.args[0] is S)]
    if len(at) != 1:
        raise Unk("the text of the loop is used %d times" % len(at))
    before, after = mk("s", tuple(ps[:at[0]])), mk("s", tuple(ps[at[0] + 1:]))
    # the rows written for n elements
    rows = []
    cur = {p: x.args[0] for p, x in ints.items()}
    for _ in range(n + 3):
        env = {p: v for p, v in cur.items()}
        if holds(ctx, facts, env, n):
            return TM.scat(before, pre), rows, after
        go = [r for r in rowsof if holds(ctx, r[2], env, n)]
        if not go:
            raise Unk("no transition of the loop")
        sg = {p: intc(v) for p, v in cur.items()}
        nxts = set()
        for x, step, fa in go:
            rows.append((len(rows), TM.subst(x, sg, {}), {TM.subst(a, sg, {}): v for a, v in fa.items()}))
            e = Ev(GEN, env, n, ctx.p)
            nxts.add(tuple(sorted((str(p), e(q)) for p, q in step.items())))
        if len(nxts) != 1:
            raise Unk("several next rows")
        e = Ev(GEN, env, n, ctx.p)
        cur = {p: e(q) for p, q in go[0][1].items()}
    raise Unk("the loop does not stop at the last row")


def holds(ctx, facts, env, n):
    """the integer facts of a state hold; facts about anything else are ignored"""
    for a, v in facts.items():
        e = Ev(GEN, env, n, ctx.p)
        try:
            if e.holds({a: v}) is False:
                return False
        except Unk:
            continue
    return True


def table(ctx, inst, loc, adt, obj, cols, wants, fd=None, expand=None):
    """every row r shows wants(r), each in its column"""
    s, dom, out = texts(ctx, adt, obj, fd)
    if s.panics:
        raise Unk("%s::fmt can panic" % adt)
    bad = False
    if not out:
        raise Unk("no text")
    for n in sizes(dom, out):
        if bad:
            break
        bad = table_of(ctx, inst, loc, s, dom, out, cols, wants, expand, n)
    if not bad:
        ctx.ok(TABLE, inst, loc, "%d columns, rows of tables of %s" % (len(cols), ", ".join(map(str, sizes(dom, out)))))


def sizes(dom, out):
    """sizes of a table to look at: 3, and both sides of every constant the code compares an integer with"""
    c = set()
    fs = [st.facts for st, _ in out] + [b.facts for _, _, edges, _ in dom.done for _, _, _, b in edges]
    for fa in fs:
        for a in fa:
            if a.op in ("ige0", "ieq0"):
                c.add(abs(TM._lin(a.args[0])[0]))
    return sorted({3} | {k + d for k in c if 2 < k <= 1200 for d in (0, 1, 2)})


def table_of(ctx, inst, loc, s, dom, out, cols, wants, expand, n):
    bad = False
    for st, t in out:
        pre, rows, post = unroll(ctx, s, dom, t, st.facts, n)
        pl = lines(toks(ctx, pre, {}))
        h = header(pl, cols)
        if h is None:
            raise Unk("no header line with every label")
        seen = set()
        for _, x, fa in rows:
            tk = toks(ctx, x, {})
            if expand:
                tk = expand(tk)
            for l in lines(tk):
                if not any(k[0] == "val" for c in l for k in c):
                    continue
                lab = [k for c in l[:h[1]["row"] + 1] for k in c if k[0] == "val"]
                if not lab or lab[0][1].op != "int":
                    raise Unk("row label %s" % (lab[:1],))
                r = int(lab[0][1].args[0])
                seen.add(r)
                bad |= row_check(ctx, inst, loc, h[1], l, [("row", intc(r), None)] + wants(r), fa, "row %d" % r)
                if len(l) != len(pl[h[0]]):
                    bad = True
                    ctx.bad(TABLE, inst, loc, "row %d has %d cells, the header %d" % (r, len(l), len(pl[h[0]])), "%s|%s|cells" % (TABLE, inst))
        if seen != set(range(n)):
            bad = True
            d = sorted(set(range(n)) ^ seen)
            ctx.bad(TABLE, inst, loc, "for %d elements %d rows are shown; row %d is %s" % (n, len(seen), d[0], "missing" if d[0] < n else "too many"), "%s|%s|rows" % (TABLE, inst))
    return bad


def tables(ctx):
    guard(ctx, TABLE, "SolverParameters", parameters, ctx)
    guard(ctx, TABLE, "ResidualsConfig", residuals_config, ctx)
    for fd in (False, True):
        guard(ctx, TABLE, "Iteratives of IterativeParams" + ("FD" if fd else ""), iteratives, ctx, fd)
    guard(ctx, TABLE, "ResidualsValues", residuals_values, ctx)
    guard(ctx, TABLE, "JacobianMatrix", jacobian, ctx)


def residuals_config(ctx):
    S, U = sym("stop"), sym("upd")
    rc = ctx.build("new", "ResidualsConfig", [cref(S), cref(U)])
    cols = [("row", [("residual", "n"), ("equation",), ("number",)]), ("stopping criterion", [("stop",)]), ("update method", [("upd",)])]
    table(ctx, "ResidualsConfig", ctx.loc(fmt_of(ctx, "ResidualsConfig")), "ResidualsConfig", rc, cols,
          lambda r: [("stopping criterion", TM.idx(S, intc(r)), "NormalizationMethod"), ("update method", TM.idx(U, intc(r)), "NormalizationMethod")])


def iteratives(ctx, fd):
    adt = "IterativeParamsFD" if fd else "IterativeParams"
    P = sym("params")
    it = ctx.build("new", "Iteratives", [cref(P)])
    f = ctx.fns("with_finite_diff", adt, "Iterative") or [g for g in ctx.p.fns.values() if g.name == "with_finite_diff" and (g.d.get("trait_item") or "").split("::")[-1] == "Iterative" and not g.d.get("impl_self")]
    if len(f) == 1:
        vs = {v for _, v in ctx.summ(f[0], [cref(sym("params_i"))]).results}
    else:
        vs = set()
    if vs not in ({TM.TRUE}, {TM.FALSE}):
        raise Unk("with_finite_diff of %s: %s" % (adt, vs))
    kind = vs == {TM.TRUE}
    loc = ctx.loc(fmt_of(ctx, adt))
    # the text of one element, on an opaque element
    X = sym("params_i")
    s, dom, out = texts(ctx, adt, X)
    if s.panics or len(out) != 1 or looped(out):
        raise Unk("%s::fmt: %d texts" % (adt, len(out)))
    names = ["max_step_abs", "max_step_rel", "min_value", "max_value"] + (["perturbation_method", "dx_abs", "dx_rel"] if fd else [])
    acc = {}
    for nme in names:
        g = ctx.summ(ctx.fn("get_" + nme, adt), [cref(X)])
        r = {v for _, v in g.results}
        if len(r) != 1:
            raise Unk("get_" + nme)
        acc[nme] = r.pop()
    elt = out[0][1]

    def at(t, r):
        return TM.subst(t, {X: TM.idx(P, intc(r))}, {})

    def element(tk, r):
        o = []
        for k in tk:
            if k[0] == "val" and k[1].op in ("idx", "sel") or (k[0] == "val" and r(k[1]) is not None):
                i = r(k[1])
                if i is None:
                    raise Unk("row shows %s" % str(k[1])[:80])
                o += elem_toks(i)
            else:
                o.append(k)
        return o

    def index_of(t):
        for i in range(-2, 8):
            if t is TM.idx(P, intc(i)):
                return i
        return None

    def elem_toks(i):
        o = []
        for k in toks(ctx, at(elt, i), {}):
            if fd and k[0] == "val" and short_local(ctx, k[1], X, P, i):
                o += inner(ctx, k[1], k[2])
            else:
                o.append(k)
        return o

    cols = [("row", [("iterative",), ("variable",)])] + params_cells()
    if fd:
        cols += [("perturbation_method", [("perturb",), ("method",)]), ("dx_abs", [("dx", "abs")]), ("dx_rel", [("dx", "rel")])]
    table(ctx, "Iteratives<%s>" % adt, loc, "Iteratives", it, cols,
          lambda r: [(n, at(acc[n], r), "PerturbationMethod" if n == "perturbation_method" else None) for n in names], kind, lambda tk: element(tk, index_of))


def short_local(ctx, t, X, P, i):
    """a displayed part of the element that is itself a set of iterative parameters"""
    g = ctx.fns("get_iterative_params", "IterativeParamsFD")
    if len(g) != 1:
        return False
    key = ("ipof", g[0].key)
    if key not in ctx.cache:
        s = ctx.summ(g[0], [cref(X)])
        ctx.cache[key] = {s.I.load_all(a, b) for a, b in s.results}
    ps = {TM.subst(x, {X: TM.idx(P, intc(i))}, {}) for x in ctx.cache[key]}
    ps |= {x.args[0] for x in ps if x.op == "cref"}
    return t in ps


def inner(ctx, v, trunc):
    s, dom, out = texts(ctx, "IterativeParams", v)
    if len(out) != 1 or looped(out):
        raise Unk("IterativeParams::fmt")
    return toks(ctx, out[0][1], {}, trunc)


def residuals_values(ctx):
    L, R = sym("L"), sym("R")
    rv = ctx.build("new", "ResidualsValues", [L, R])
    f = ctx.fn("get_values_str_eq", "ResidualsValues")
    i = sym("i")
    st = ctx.base_state()
    st.facts[ige0(i)] = True
    st.facts[ige0(isub(isub(TM.NSYM, i), intc(1)))] = True
    s = ctx.summ(f, [cref(rv), i, sym("width")], st=st)
    inst = "ResidualsValues::get_values_str_eq"
    vs = {v for _, v in s.results}
    if len(vs) != 1:
        raise Unk("%d texts" % len(vs))
    order(ctx, inst, ctx.loc(f), toks(ctx, vs.pop(), {}), [TM.idx(L, i), TM.idx(R, i)])
    s, dom, out = texts(ctx, "ResidualsValues", rv)
    loc = ctx.loc(fmt_of(ctx, "ResidualsValues"))
    if s.panics or not out:
        raise Unk("ResidualsValues::fmt")
    for st, t in out:
        pre, rows, post = unroll(ctx, s, dom, t, st.facts, 3)
        if len(rows) != 3:
            ctx.bad(TABLE, "ResidualsValues", loc, "%d rows for 3 equations" % len(rows), "%s|ResidualsValues|rows" % TABLE)
            return
        got = set()
        for _, x, fa in rows:
            tk = toks(ctx, x, {})
            vals = [k[1] for k in tk if k[0] == "val"]
            if not vals or vals[0].op != "int":
                raise Unk("row label")
            r = int(vals[0].args[0])
            got.add(r)
            order(ctx, "ResidualsValues::fmt", loc, tk, [intc(r), TM.idx(L, intc(r)), TM.idx(R, intc(r))])
        if got != {0, 1, 2}:
            ctx.bad(TABLE, "ResidualsValues", loc, "rows of equations %s" % sorted(got), "%s|ResidualsValues|rows" % TABLE)


def order(ctx, inst, loc, tk, wants):
    vals = [k for k in tk if k[0] == "val"]
    if [k[1] for k in vals] != wants:
        if any(k[1].op in ("sel", "phi", "ext", "app", "call") for k in vals):
            raise Unk("shows %s" % show(tk))
        ctx.bad(TABLE, inst, loc, "shows %s, required the values %s in this order" % (show(tk), [str(w) for w in wants]), "%s|%s|order" % (TABLE, inst))
    elif any(k[2] for k in vals):
        ctx.bad(TABLE, inst, loc, "a value is truncated to a fixed precision", "%s|%s|precision" % (TABLE, inst))
    else:
        ctx.ok(TABLE, inst, loc, show(tk))


def jacobian(ctx):
    o = sym("jacobian_matrix")
    acc = {}
    for g in ("get_jacobian", "get_inverse"):
        s = ctx.summ(ctx.fn(g, "JacobianMatrix"), [cref(o)])
        vs = {s.I.load_all(a, b) for a, b in s.results}
        vs = {x.args[0] if x.op == "cref" else x for x in vs}
        if len(vs) != 1:
            raise Unk(g)
        acc[g] = vs.pop()
    s, dom, out = texts(ctx, "JacobianMatrix", o)
    loc = ctx.loc(fmt_of(ctx, "JacobianMatrix"))
    if dom.done or s.panics or not out:
        raise Unk("JacobianMatrix::fmt")
    bad = False
    kinds = {}
    for st, t in out:
        tk = toks(ctx, t, {})
        present = []
        for g, x in acc.items():
            k = [v for a, v in st.facts.items() if a.op == "discr" and a.args[0] is x]
            if len(k) != 1:
                raise Unk("whether %s is present" % g)
            if k[0] == 1:
                present.append(g)
        want = [mk("fld", acc[g], 1, 0) for g in present]
        vals = [k for k in tk if k[0] == "val"]
        for g in acc:
            n = sum(1 for k in vals if sub(k[1], acc[g]))
            if (g in present) != (n > 0):
                bad = True
                ctx.bad(TABLE, "JacobianMatrix", loc, "%s is %s but %s: %s" % (g[4:], "present" if g in present else "absent", "shown" if n else "not shown", show(tk)), "%s|JacobianMatrix|%s" % (TABLE, g))
        kinds.setdefault("".join(k[1] if k[0] == "lit" else "\0" for k in tk), set()).add(tuple(present))
    for x, ks in kinds.items():
        if len(ks) > 1:
            bad = True
            ctx.bad(TABLE, "JacobianMatrix", loc, "the same text for different contents", "%s|JacobianMatrix|same" % TABLE)
    if not bad:
        ctx.ok(TABLE, "JacobianMatrix", loc, "%d texts" % len(out))


def shown(ctx):
    enums(ctx)
    errors(ctx)
    tables(ctx)
