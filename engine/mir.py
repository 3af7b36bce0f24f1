"""Loader for the exported MIR: CFG utilities (successors, dominators, natural
loops, liveness) and lookup of functions/ADTs by their public API names."""
import json


class Body:
    def __init__(self, key, d, crate):
        self.key = key
        self.crate = crate
        self.d = d
        self.name = d.get("name", "")
        self.full = d.get("full", key)
        self.span = d.get("span", "")
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.names = {int(k): v for k, v in (d.get("names") or {}).items()}
        self.blocks = d["blocks"]
        self.promoted_raw = d.get("promoted") or []
        self.local = d.get("local", False)
        self._succ = None
        self._loops = None
        self._live = None
        self._rpo = None

    def __repr__(self):
        return "<Body %s>" % self.key

    # ---- CFG
    def term_succ(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None and t[3] >= 0 else [])
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None and t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        return []

    @property
    def succ(self):
        if self._succ is None:
            s = []
            for b in self.blocks:
                if b is None:
                    s.append([])
                else:
                    seen = []
                    for x in self.term_succ(b["t"]):
                        if x not in seen and self.blocks[x] is not None:
                            seen.append(x)
                    s.append(seen)
            self._succ = s
        return self._succ

    @property
    def rpo(self):
        if self._rpo is None:
            seen, out = set(), []
            st = [(0, iter(self.succ[0]))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for n in it:
                    if n not in seen:
                        seen.add(n)
                        st.append((n, iter(self.succ[n])))
                        break
                else:
                    out.append(b)
                    st.pop()
            out.reverse()
            self._rpo = out
        return self._rpo

    @property
    def loops(self):
        """header -> set(blocks).  Irreducible graphs raise."""
        if self._loops is not None:
            return self._loops
        rpo = self.rpo
        pos = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        idom = {rpo[0]: rpo[0]}

        def inter(a, b):
            while a != b:
                while pos[a] > pos[b]:
                    a = idom[a]
                while pos[b] > pos[a]:
                    b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    n = inter(p, n)
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if pos[s] <= pos[b]:
                    if not dom(s, b):
                        raise ValueError("irreducible control flow in %s" % self.key)
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops

    # ---- liveness (locals directly used later)
    @property
    def live_in(self):
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, deff = [set() for _ in range(n)], [set() for _ in range(n)]

        for i, b in enumerate(self.blocks):
            if b is None:
                continue
            u, d = use[i], deff[i]

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def wr(p):
                if p[1]:
                    rd(p)
                else:
                    d.add(p[0])

            def op(o):
                if o and o[0] in ("cp", "mv"):
                    rd(o[1])

            for s in b["s"]:
                if s[0] == "=":
                    rvalue_operands(s[2], op, rd)
                    wr(s[1])
                elif s[0] == "setd":
                    rd(s[1])
            t = b["t"]
            if t[0] == "switch":
                op(t[1])
            elif t[0] == "drop":
                rd(t[1])
            elif t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
                wr(t[3])
            elif t[0] == "assert":
                op(t[1])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        order = list(reversed(self.rpo))
        while ch:
            ch = False
            for i in order:
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                new = use[i] | (out - deff[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self._live = live
        return live


def rvalue_operands(rv, op, rd):
    k = rv[0]
    if k == "use" or k == "repeat":
        op(rv[1])
    elif k in ("ref", "raw"):
        rd(rv[2])
    elif k == "cast":
        for x in rv[1:]:
            if isinstance(x, list) and x and x[0] in ("cp", "mv", "c"):
                op(x)
    elif k == "bin":
        op(rv[2]); op(rv[3])
    elif k == "un":
        op(rv[2])
    elif k == "discr":
        rd(rv[1])
    elif k == "agg":
        for x in rv[2]:
            op(x)
    elif k == "copyref":
        rd(rv[1])


class Program:
    def __init__(self, paths):
        self.fns, self.adts, self.items = {}, {}, []
        self.crates = []
        for p in paths:
            d = json.load(open(p))
            c = d["crate"]
            self.crates.append(c)
            for k, f in d["fns"].items():
                self.fns[k] = Body(k, f, c)
            for k, a in d["adts"].items():
                self.adts.setdefault(k, a)
            for it in d["items"]:
                it["crate"] = c
                self.items.append(it)

    def local_fns(self):
        return [f for f in self.fns.values() if f.local]

    def find(self, name, adt=None, trait=None, crate="newton_rootfinder", free=None):
        """functions by API name: adt = last path segment of the impl's ADT"""
        r = []
        for f in self.fns.values():
            if not f.local or f.crate != crate or f.name != name:
                continue
            d = f.d
            a = (d.get("impl_adt") or "").split("::")[-1].split("<")[0]
            t = (d.get("impl_trait") or "").split("<")[0].split("::")[-1]
            if adt is not None and a != adt:
                continue
            if trait is not None and t != trait:
                continue
            if trait is None and adt is not None and t:
                continue
            if free and (a or t):
                continue
            r.append(f)
        return r


def pp_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s = "(%s as %s)" % (s, e[1])
        else:
            s += str(e)
    return s


def pp_op(o):
    if o[0] in ("cp", "mv"):
        return ("move " if o[0] == "mv" else "") + pp_place(o[1])
    return "const " + pp_const(o[1]) if o[0] == "c" else str(o)


def pp_const(c):
    k = c.get("k")
    if k == "fn":
        return "fn %s" % c.get("full") + (" => " + c["body"] if c.get("body") else "") + (" [%s]" % c.get("rfull") if c.get("rfull") and c.get("rfull") != c.get("full") else "")
    return json.dumps({a: b for a, b in c.items() if a not in ("ty", "from")})[:160]


def pp(body):
    out = ["fn %s argc=%d  %s" % (body.key, body.argc, body.span)]
    for i, l in enumerate(body.locals):
        out.append("  let _%d: %s // %s" % (i, l[:110], body.names.get(i, "")))
    for i, b in enumerate(body.blocks):
        if b is None:
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=":
                rv = s[2]
                out.append("    %s = %s" % (pp_place(s[1]), pp_rv(rv)))
            else:
                out.append("    " + str(s))
        t = b["t"]
        if t[0] == "call":
            out.append("    %s = %s(%s) -> bb%s" % (pp_place(t[3]), pp_op(t[1]), ", ".join(map(pp_op, t[2])), t[4]))
        elif t[0] == "switch":
            out.append("    switch %s %s else %s" % (pp_op(t[1]), t[2], t[3]))
        else:
            out.append("    " + str(t)[:200])
    return "\n".join(out)


def pp_rv(rv):
    r = [rv[0]]
    for x in rv[1:]:
        if isinstance(x, list) and x and x[0] in ("cp", "mv", "c"):
            r.append(pp_op(x))
        elif isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            r.append(pp_place(x))
        elif isinstance(x, list) and x and isinstance(x[0], list) and x[0] and x[0][0] in ("cp", "mv", "c"):
            r.append("[" + ", ".join(map(pp_op, x)) + "]")
        else:
            r.append(str(x))
    return " ".join(r)
