#!/usr/bin/env python3
"""Check runner:  python3 sa/run.py C12 [--thorough]

Compiles /repo's current sources to LLVM IR, interprets the property's drivers abstractly together
with them, and reports every rule that the abstract semantics cannot discharge."""
import sys, os, time, json, traceback, multiprocessing, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, dom, engine, checks

ROOT = os.path.dirname(ir.HERE)
MEMRULES = {"null-dereference", "out-of-bounds", "use-after-free", "double-free", "bad-free", "dangling-stack", "call-null", "write-to-constant", "leak", "assertion", "endless-loop"}
JOBS = {}
DEADLINE = multiprocessing.Value("d", 0.0)


def work(key):
    job, lib, drv, opts = JOBS[key]
    entry = key[2]
    t = time.time(); counters = set()
    err = None; n = 0
    try:
        while True:
            dom.reset()
            en = engine.Engine(lib, drv, dict(opts, deadline=lambda: DEADLINE.value))
            en.counters = counters
            try:
                n = len(en.run(entry)); break
            except engine.Restart: counters = en.counters
    except engine.Budget as x: err = "budget: %s" % x
    except engine.AnalysisError as x: err = "analysis: %s" % x
    except RecursionError as x: err = "recursion limit"
    except Exception as x: err = "internal: %s\n%s" % (x, traceback.format_exc()[-1500:])
    seen = {}
    for v in en.viol:
        k = (v["rule"], v["loc"], v["function"], v["msg"])
        if k not in seen: seen[k] = v
        elif len(v["path"]) < len(seen[k]["path"]): seen[k] = v
    return {"key": key, "err": err, "exits": n, "viol": list(seen.values()), "checks": {k: list(map(list, v.items())) for k, v in en.checks.items()},
            "reached": dict(en.reached), "unknown": sorted(map(str, en.unknown_calls)), "fns": sorted(en.fn_seen), "blks": sorted(en.blk_seen),
            "alog": list(en.alog.items()), "steps": en.steps, "joins": en.joins, "loops": sorted(map(str, en.loops)), "calls": en.calls, "wall": round(time.time() - t, 2)}


def relevant(job, rule):
    only = job.get("rules")
    return only is None or rule in MEMRULES or any(rule.startswith(o) for o in only)


def rule_names(mod):
    """rule strings used by the driver: reach markers and checks"""
    reach, chk = {}, {}

    def text(o):
        g = mod.globals.get(o[1]) if o[0] == "g" else None
        if g is None or not g.init or g.init[0] != "s": return None
        b = engine.decode_cstr(g.init[1])
        return bytes(b[:b.index(0)]).decode()
    for f in mod.funcs.values():
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op != "call": continue
                callee, args, tys = ins.a
                if callee[0] != "g": continue
                if callee[1] == "__sa_reach": reach[text(args[0])] = f.name
                elif callee[1] == "__sa_check": chk[text(args[1])] = f.name
    return reach, chk


def known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) rule=(\S+) function=(\S+)\s*(.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    prop = sys.argv[1]; tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    spec = checks.CHECKS[prop]
    base = os.environ.get("SA_OUT", ROOT); evdir = os.path.join(base, "evidence")
    os.makedirs(evdir, exist_ok=True)
    outdir = os.path.join(base, "out"); os.makedirs(outdir, exist_ok=True)
    viol = []; results = []; errors = []
    extra = {}; extra_post = {}
    level = spec.get("level", "proof")
    try:
        units = ir.library_units()
        need = set(); jobs = []
        for j in spec.get("jobs", ()):
            if j.get("tier") == "thorough" and tier != "thorough": continue
            us = units if j.get("units") is None else list(j["units"])
            need.update(us); need.add(os.path.join(ir.HERE, "drivers", j["driver"]))
            jobs.append((j, us))
        mods = ir.build(sorted(need)) if need else {}
        reach = {}; chk = {}
        keys = []
        for n, (j, us) in enumerate(jobs):
            drv = mods[os.path.join(ir.HERE, "drivers", j["driver"])]
            entries = j.get("entries") or sorted(f for f in drv.funcs if f.startswith("check_"))
            opts = dict(j.get("opts", {}))
            if tier == "thorough": opts.update(j.get("thorough_opts", {}))
            opts.setdefault("budget", 600 if tier == "quick" else 3000)
            if spec.get("subject"): opts.setdefault("subject", spec["subject"])
            for e in entries:
                k = (n, j["driver"], e)
                JOBS[k] = (j, [mods[u] for u in us], drv, opts); keys.append(k)
            r, c = rule_names(drv)
            only = j.get("rules")
            for src, dst in ((r, reach), (c, chk)):
                for x in src:
                    if x is not None and (only is None or any(x.startswith(o) for o in only)) and x not in j.get("skip", ()): dst[x] = "%s:%s" % (j["driver"], src[x])
        if keys:
            DEADLINE.value = t0 + (780 if tier == "quick" else 1e6)
            kn0 = {(r, f) for r, f, _ in known(prop)}
            with multiprocessing.get_context("fork").Pool(min(8, len(keys))) as pool:
                for r in pool.imap_unordered(work, keys, 1):
                    results.append(r)
                    # one violation is enough: what is still running gets a little more time
                    if any((v["rule"], v["function"]) not in kn0 and relevant(JOBS[r["key"]][0], v["rule"]) for v in r["viol"]):
                        DEADLINE.value = min(DEADLINE.value, max(time.time(), t0 + 60) + 30)
        results.sort(key=lambda r: r["key"])
        for r in results:
            if r["err"]: errors.append("%s/%s: %s" % (r["key"][1], r["key"][2], r["err"]))
            viol += [dict(v, entry="%s:%s" % (r["key"][1], r["key"][2])) for v in r["viol"]
                     if relevant(JOBS[r["key"]][0], v["rule"])]
        done_r = set(); done_c = {}
        for r in results:
            done_r.update(r["reached"])
            for k, v in r["checks"].items(): done_c.setdefault(k, {}).update({(r["key"], str(a)): b for a, b in v})
        if not errors:
            for x in sorted(reach):
                if x not in done_r:
                    viol.append({"rule": x, "loc": reach[x], "function": reach[x].split(":")[1], "entry": reach[x],
                                 "msg": "no execution of the code reaches this required outcome: the over-approximation of all behaviours does not contain it", "frames": [], "path": []})
            for x in sorted(chk):
                if x not in done_c and not any(v["rule"] == x for v in viol):
                    viol.append({"rule": x, "loc": chk[x], "function": chk[x].split(":")[1], "entry": chk[x],
                                 "msg": "the code never performs the operation this rule is about", "frames": [], "path": []})
        if "post" in spec and not errors:
            v, ev = spec["post"](results)
            viol += v; extra_post = ev
        for fn in spec.get("python", ()):
            v, ev = fn(mods, tier)
            viol += v; extra.update(ev)
    except ir.FrontEndError as x:
        errors.append("front end: %s" % x)
    kn = known(prop); shown = []; real = []
    for v in viol:
        m = [k for k in kn if k[0] == v["rule"] and k[1] == v["function"]]
        if m: shown.append((m[0], v))
        else: real.append(v)
    for m in sorted({m for m, _ in shown}):
        print("KNOWN-FINDING: property=%s rule %s in %s: %s" % (prop, m[0], m[1], m[2]))
    # ---- evidence
    fns = sorted({f for r in results for f in r["fns"]}); blks = {tuple(b) for r in results for b in r["blks"]}
    libfn = {}
    if not errors or results:
        for u, m in mods.items():
            if not os.path.isabs(u):
                for f in m.funcs.values(): libfn[(m.name, f.name)] = len(f.order)
            elif spec.get("subject"):   # code of /repo's headers instantiated in the driver's module
                for f in m.funcs.values():
                    if re.match(spec["subject"], f.name): libfn[(m.name, f.name)] = len(f.order)
    seenfn = sorted({(m, f) for m, f, b in blks if (m, f) in libfn})
    inst = {}
    for r in results:
        for k, v in r["checks"].items(): inst[k] = inst.get(k, 0) + sum(b for _, b in v)
    obligations = sum(inst.values()) + len({x for r in results for x in r["reached"]})
    cov = {
        "explanation": spec["explanation"],
        "rules": inst,
        "required_outcomes_reached": {x: sum(r["reached"].get(x, 0) for r in results) for r_ in results for x in r_["reached"]},
        "obligations": obligations, "discharged": obligations - len(viol) if obligations >= len(viol) else 0,
        "checker_cmd": "python3 sa/run.py %s" % prop,
        "trusted_base": "clang 18 front end and sroa; the abstract interpreter in sa/ (transfer functions, join, entailment); the environment models in sa/drivers/; stated assumptions",
        "analysed_functions": ["%s:%s" % x for x in seenfn],
        "blocks_covered": "%d of %d in the analysed functions" % (len({b for b in blks if (b[0], b[1]) in libfn}), sum(libfn[x] for x in seenfn)),
        "loops_at_fixpoint": len({l for r in results for l in r["loops"]}),
        "abstract_steps": sum(r["steps"] for r in results), "joins": sum(r["joins"] for r in results),
        "inlined_calls": sum(r["calls"] for r in results),
        "external_calls_by_havoc": sorted({u for r in results for u in r["unknown"]}),
        "entries": [{"entry": "%s:%s" % (r["key"][1], r["key"][2]), "exit_states": r["exits"], "steps": r["steps"], "wall_s": r["wall"]} for r in results],
    }
    cov.update(extra); cov.update(extra_post)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
          "violations": [{k: v[k] for k in ("rule", "loc", "function", "msg")} for v in real], "wall_s": round(time.time() - t0, 2)}
    if errors: ev["coverage"]["errors"] = errors
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    rep = os.path.join(outdir, prop + "-report.txt")
    with open(rep, "w") as f:
        for v in real:
            f.write("rule %s\n  at %s in %s\n  %s\n  driver %s\n" % (v["rule"], v["loc"], v["function"], v["msg"], v.get("entry")))
            for x in v["frames"]: f.write("    called from %s\n" % x)
            for x in v["path"]: f.write("    path %s\n" % x)
        for e in errors: f.write("ERROR %s\n" % e)
    seen = set()
    for v in real[:40]:
        k = (v["rule"], v["loc"])
        if k in seen: continue
        seen.add(k)
        print("%s: [%s] in %s: %s" % (v["loc"], v["rule"], v["function"], v["msg"][:300]))
    for e in errors: print("ERROR: " + e[:1500])
    if extra: obligations = extra.get("obligations", obligations); seenfn = extra.get("analysed_functions", seenfn)
    print("%s %s: %d rule instances in %d functions, %d blocks, %d violations, %.1f s" % (prop, tier, obligations, len(seenfn), len(blks), len(real), time.time() - t0))
    if real:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, ROOT)))
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
