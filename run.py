#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree

exit 0: every obligation holds (or is a listed known finding); exit 1 with a
VIOLATION line: some obligation is refuted; exit 2: the check could not run.
"""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "props"), HERE]
sys.dont_write_bytecode = True


def known():
    """exact keys of the recorded, unrepaired findings: {property: {key: text}}"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line.strip()[9:].split(" ;; "))
                out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import build
    files = build.export()
    import registry, importlib
    import mir, terms as TM
    from chk import Ctx, guard
    prog = mir.Program(files)
    ctx = Ctx(prog, tier)
    per = []
    for name in registry.PROPS[prop]:
        mod, fn, arg, uniform = registry.OBL[name]
        TM.UNIFORM[0] = uniform
        M = importlib.import_module(mod)
        n0 = len(ctx.obl)
        t = time.time()
        guard(ctx, name, "", getattr(M, fn), ctx, *([arg] if arg is not None else []))
        for o in ctx.obl[n0:]:
            o["group"] = name
        per.append(dict(obligation=name, instances=len(ctx.obl) - n0, seconds=round(time.time() - t, 2)))
    keep = getattr(registry, "FILTER", {}).get(prop)
    obl = [o for o in ctx.obl if keep is None or keep(o)]
    kf = known().get(prop, {})
    bad = [o for o in obl if o["status"] == "violated"]
    und = [o for o in obl if o["status"] == "undecided"]
    okk = [o for o in obl if o["status"] == "ok"]
    listed = [o for o in bad if o["key"] in kf]
    new = [o for o in bad if o["key"] not in kf]
    floor = registry.FLOOR.get(prop, 0)
    if len(obl) - len(und) < floor and not new:
        o = dict(status="violated", rule="coverage floor", instance="%d obligations decided, %d required" % (len(obl) - len(und), floor), loc="", detail="; ".join("%s %s: %s" % (u["rule"], u["instance"], u["detail"]) for u in und[:5]), key="floor|" + prop, group="")
        new.append(o)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    report = os.path.join(ev, prop + ".report.json")
    seen = set()
    for o in listed:
        if o["key"] not in seen:
            seen.add(o["key"])
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kf[o["key"]], o["key"]))
    rules = {}
    for o in okk:
        rules[o["rule"]] = rules.get(o["rule"], 0) + 1
    cov = dict(
        explanation="Static analysis of the exported MIR of /repo's current tree: abstract interpretation (value numbering with a fixpoint per loop) of the listed functions; each obligation compares the derived summary with the rule, instance by instance.",
        obligations=len(obl), discharged=len(okk), undecided=len(und), known_findings=len(listed),
        rules=rules, groups=per,
        functions_analysed=sorted(k.split("::", 1)[-1] for k in ctx.analysed), contexts=sum(ctx.analysed.values()),
        call_sites=len(ctx.callsites), abstract_block_states=ctx.states, loops_brought_to_fixpoint=ctx.loops,
        functions_in_crate=len(prog.fns), unmodelled_calls={k: sorted(v) for k, v in ctx.unmodelled.items()},
        undecided_list=["%s | %s | %s" % (u["rule"], u["instance"], u["detail"][:200]) for u in und[:40]],
        samples=["%s | %s | %s | %s" % (o["rule"], o["instance"], o["loc"], o["detail"]) for o in okk[:8]],
        checker_cmd="python3 run.py %s" % prop, trusted_base=registry.TRUSTED)
    if hasattr(ctx, "extra"):
        cov.update(ctx.extra)
    data = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, assumptions=registry.ASSUMPTIONS.get(prop, []) + sorted(ctx.assumptions), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)
    with open(report, "w") as f:
        json.dump(dict(property=prop, violations=new, known=listed, undecided=und), f, indent=1, default=str)
    print("%s: %d obligations, %d hold, %d undecided, %d known findings, %d violated; %d functions, %d call sites; %.1fs" %
          (prop, len(obl), len(okk), len(und), len(listed), len(new), len(ctx.analysed), len(ctx.callsites), time.time() - t0))
    if new:
        for o in new[:12]:
            print("  rule %s, instance %s\n    at %s\n    %s" % (o["rule"], o["instance"], o["loc"], str(o["detail"])[:900]))
        print("VIOLATION property=%s replay=%s" % (prop, report))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
