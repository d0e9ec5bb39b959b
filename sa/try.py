"""developer's entry point: python3 sa/try.py driver.c [entry ...] [-u unit,unit] [-o opt=val]"""
import sys, os, time; sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, dom, engine

def load(units, driver):
    drv = os.path.join(ir.HERE, "drivers", driver)
    mods = ir.build(list(units) + [drv])
    return [mods[u] for u in units], mods[drv]

if __name__ == "__main__":
    args = sys.argv[1:]; units = None; opts = {}; prof = False
    pos = []
    while args:
        a = args.pop(0)
        if a == "-u": units = args.pop(0).split(",")
        elif a == "-o":
            k, v = args.pop(0).split("="); opts[k] = int(v) if v.isdigit() else v
        elif a == "-p": prof = True
        else: pos.append(a)
    if units is None: units = ir.library_units()
    units = [u for u in units if u]
    lib, drv = load(units, pos[0])
    entries = pos[1:] or [f for f in drv.funcs if f.startswith("check_")]
    for e in entries:
        dom.reset()
        t = time.time()
        en = engine.Engine(lib, drv, dict(opts))
        if prof:
            import cProfile, pstats
            pr = cProfile.Profile(); pr.enable()
        try:
            while True:
                try: out = en.run(e); break
                except engine.Restart:
                    print("restart: counters", en.counters, "%.1f s" % (time.time() - t)); dom.reset(); c = en.counters; en = engine.Engine(lib, drv, dict(opts)); en.counters = c
        except (engine.Budget, engine.AnalysisError) as x:
            out = []; print("!!", e, type(x).__name__, x)
        if prof:
            pr.disable(); pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
        print("== %s: %d exit states, %d violations, %.1fs, steps %d joins %d loops %d" % (e, len(out), len(en.viol), time.time() - t, en.steps, en.joins, len(en.loops)))
        seen = set()
        for v in en.viol:
            k = (v["rule"], v["loc"], v["msg"])
            if k in seen: continue
            seen.add(k)
            if len(seen) > 12: continue
            print("  VIOL", v["rule"], v["loc"], v["function"], v["msg"])
            if os.environ.get("SA_PATH"): print("     ", " > ".join(v["frames"])[:200]); print("      path:", " ; ".join(v["path"][-int(os.environ.get("SA_PATH")):]))
        print("  checks:", {k: sum(v.values()) for k, v in en.checks.items()})
        print("  reached:", en.reached)
        if en.unknown_calls: print("  unknown:", en.unknown_calls)
