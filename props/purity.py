"""Hidden inputs (C20): every function constant, cast, static and unsafe block of
the exported program, classified, with the call graph that reaches it."""
import re
from chk import *

R = "hidden input"
AMBIENT = [
    (r"std::env::", "environment"), (r"std::time::(?!.*duration)", "clock"), (r"std::thread::", "threads"), (r"std::process::", "process"),
    (r"std::net::", "network"), (r"std::os::", "operating system"), (r"std::sys(::|_common::)", "operating system"), (r"std::hash::random::", "random source"), (r"std::random::|core::random::", "random source"),
    (r"std::io::stdio::(?!_e?print)", "standard input"), (r"chrono::.*::now$", "clock"), (r"chrono::.*local", "time zone"), (r"whoami::", "operating system"), (r"rustc_version_runtime::", "compiler version"),
    (r"(rand|rand_core|rand_chacha|getrandom|fastrand|oorandom)::", "random source"), (r"nalgebra::.*(new_random|from_distribution)", "random source"),
    (r"(rayon|crossbeam|tokio|async_std|futures|libc|nix|rustix)::", "operating system or threads"),
    (r"core::fmt::rt::(\{impl#\d+\}::)?new_pointer", "address"), (r"core::ptr::.*::(addr|expose_provenance|expose_addr|to_raw_parts)$", "address"), (r"core::hash::.*ptr", "address"),
]
AMBIENT = [(re.compile(a), b) for a, b in AMBIENT]
HASHED = re.compile(r"(std::collections::hash|hashbrown)::")
HASHITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if", "union", "intersection", "difference", "symmetric_difference"}
FILES = re.compile(r"std::(fs|io|path)::")
NOFILE = re.compile(r"std::io::(stdio::_e?print|error::|.*write_fmt$)|std::path::")
CASTS = ("PointerExposeProvenance", "PointerExposeAddress", "FnPtrToPtr")


def refs(f, fns):
    """(function constants, casts, bodies referred to) of one body"""
    out, casts, edges = [], [], set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "fn":
                out.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) > 1 and x[0] == "cast" and isinstance(x[1], str):
                casts.append(x[1])
            for v in x:
                walk(v)
        elif isinstance(x, str) and x in fns:
            edges.add(x)
    walk(f.blocks)
    walk(f.promoted_raw)
    edges.discard(f.key)
    return out, casts, edges


def sites(f, rx):
    """source positions of the calls whose callee matches"""
    r = []
    for b in f.blocks:
        if b and b["t"][0] == "call" and b["t"][1][0] == "c":
            c = b["t"][1][1]
            if rx(c):
                r.append(b["t"][5])
    return r


def paths_of(c):
    return [p for p in {c.get("rfull"), c.get("full"), c.get("rdef"), c.get("def")} if p]


def ambient(c):
    for p in paths_of(c):
        for rx, what in AMBIENT:
            if rx.match(p):
                return what
        if HASHED.match(p) and c.get("name") in HASHITER:
            return "randomised iteration order"
    ps = " ".join(paths_of(c)) + " " + " ".join(c.get("args") or []) + " " + str(c.get("rself") or "")
    if c.get("name") in HASHITER and ("HashMap<" in ps or "HashSet<" in ps):
        return "randomised iteration order"
    return None


def purity(ctx):
    P = ctx.p
    F = {k: f for k, f in P.fns.items() if f.local}
    info = {k: refs(f, P.fns) for k, f in P.fns.items()}
    # dispatch on a local trait may reach every implementation
    bytrait = {}
    for k, f in F.items():
        t = f.d.get("impl_trait")
        if t:
            bytrait.setdefault((t.split("<")[0].split("::")[-1], f.name), set()).add(k)
    edges = {}
    for k, (cs, _, es) in info.items():
        e = set(es)
        for c in cs:
            t = (c.get("trait") or "").split("<")[0].split("::")[-1]
            if t and not c.get("body"):
                e |= bytrait.get((t, c.get("name")), set())
            # a conversion to text displays its argument
            if c.get("name") in ("to_string", "new_display", "new_debug"):
                for tr in ("Display", "Debug"):
                    for a in c.get("args") or []:
                        for k2 in bytrait.get((tr, "fmt"), ()):
                            if (F[k2].d.get("impl_adt") or "?").split("::")[-1] in a:
                                e.add(k2)
        edges[k] = e
    logs = {k for k, f in F.items() if (f.d.get("impl_adt") or "").split("::")[-1].split("<")[0] == "SolverLog"}
    called = {x for k in F for x in edges[k]}
    roots = {k for k, f in F.items() if k not in logs and (f.d.get("reach") or f.d.get("impl_trait") or k not in called)}

    def reach(roots, stop=()):
        seen, par, todo = set(), {}, sorted(roots)
        while todo:
            k = todo.pop()
            if k in seen or k in stop:
                continue
            seen.add(k)
            for x in sorted(edges.get(k, ())):
                if x not in seen and x not in stop:
                    par.setdefault(x, k)
                    todo.append(x)
        return seen, par

    def chain(k, par):
        out = [k]
        while out[-1] in par and len(out) < 12:
            n = par[out[-1]]
            if n in out:
                break
            out.append(n)
        return " <- ".join(x.split("::", 1)[-1] for x in out)

    X, par = reach(roots, logs)
    bad = 0
    for k in sorted(X):
        f = P.fns[k]
        if not f.local:
            continue
        for c in info[k][0]:
            w = ambient(c)
            if w:
                n = c.get("rdef") or c.get("def")
                at = sites(f, lambda d: d is c or paths_of(d) == paths_of(c)) or [ctx.loc(f)]
                bad += 1
                ctx.bad(R, "%s: %s" % (k.split("::", 1)[-1], n), at[0], "%s read by %s; reached through %s" % (w, n, chain(k, par)))
        for c in info[k][1]:
            if c.startswith(CASTS):
                bad += 1
                ctx.bad(R, "%s: cast" % k.split("::", 1)[-1], ctx.loc(f), "the address of an object becomes a number (%s)" % c)
    ncalls = sum(len(info[k][0]) for k in X)
    if not bad:
        ctx.ok(R, "ambient calls", "", "%d functions reachable without the log writer, %d function constants, none reads a clock, random source, environment, thread, process or address" % (len(X), ncalls))
    # files: the resolution touches them only through the log writer
    rf = {k for k, f in F.items() if (f.d.get("impl_adt") or "").split("::")[-1].split("<")[0] == "RootFinder"}
    if not rf:
        raise Anchor("methods of RootFinder")
    Y, par = reach(rf, logs)
    nb = 0
    for k in sorted(Y):
        for c in info[k][0]:
            for p in paths_of(c):
                if FILES.match(p) and not NOFILE.match(p) and P.fns[k].local:
                    nb += 1
                    ctx.bad("files", "%s: %s" % (k.split("::", 1)[-1], c.get("rdef") or c.get("def")), ctx.loc(P.fns[k]), "the resolution uses a file outside the log writer; reached through %s" % chain(k, par))
                    break
    if not nb:
        ctx.ok("files", "resolution", "", "%d functions reachable from RootFinder, files only in the %d methods of the log writer" % (len(Y), len(logs)))
    # what the log writer hands back carries nothing it read
    for k in sorted(logs):
        guard(ctx, "log writer", F[k].name, handed_back, ctx, F[k])
    # statics
    ns = nst = 0
    for it in P.items:
        if it["kind"] == "static":
            ns += 1
            ty = it.get("ty", "")
            lazy = re.search(r"LazyLock<|LazyCell<|Lazy<", ty) and not re.search(r"Cell<|Mutex<|RwLock<|Atomic", ty.split("<", 1)[1])
            if it.get("mutable") or it.get("thread_local") or (not it.get("freeze", True) and not lazy):
                nst += 1
                ctx.bad("global state", it["path"], it.get("span", ""), "static %s: %s can change during the life of the program" % (it["path"], ty))
    if not nst:
        ctx.ok("global state", "statics", "", "%d statics, none can change" % ns)
    # unsafe code
    nu = 0
    for it in P.items:
        what = {"unsafe_block": "unsafe block", "foreign": "foreign functions"}.get(it["kind"]) or ("unsafe implementation of %s" % it.get("trait") if it.get("unsafe") else None)
        if what:
            nu += 1
            ctx.bad("unsafe code", "%s in %s" % (what, it.get("path") or it.get("self")), it.get("span", ""), what)
    for k, f in F.items():
        if f.d.get("unsafe"):
            nu += 1
            ctx.bad("unsafe code", "unsafe fn %s" % k.split("::", 1)[-1], ctx.loc(f), "unsafe function")
    if not nu:
        ctx.ok("unsafe code", "crate", "", "%d bodies: no unsafe block, function, implementation or foreign item" % len(F))
    for k in X:
        ctx.analysed[k] = ctx.analysed.get(k, 0) + 1
        for i in range(len(info[k][0])):
            ctx.callsites.add((k, i))
    ctx.extra = dict(functions_scanned=len(F), statics=ns, call_edges=sum(len(v) for v in edges.values()))


def handed_back(ctx, f):
    """the value a log method returns, and what it leaves in its arguments, are
    free of anything read from outside"""
    ret = f.locals[0]
    muts = [l for l in f.locals[1:f.argc + 1] if l.startswith("&mut")]
    if ret == "()" and not muts:
        ctx.ok("log writer", f.name, ctx.loc(f), "returns nothing, changes no argument")
        return
    if muts:
        raise Unk("changes an argument")
    from onedim import LDom
    s = ctx.summ(f, [sym("a%d" % i) for i in range(f.argc)], dom=LDom())
    for st, v in s.results:
        t = s.I.load_all(st, v)
        io = find_op(t, "io")
        if io is not None:
            ctx.bad("log writer", f.name, ctx.loc(f), "returns a value computed from %s" % str(io)[:120])
            return
    ctx.ok("log writer", f.name, ctx.loc(f), "returned value independent of what was read")


def find_op(t, op, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    if t.op == op:
        return t
    for k in TM.kids(t):
        r = find_op(k, op, seen)
        if r is not None:
            return r
    return None
