"""python3-vt -m pyvc.verify <property> [--tier quick|thorough] [--out file] [--only substring] [-v]

Generates the obligations of every contract registered for the property from /repo's current source and discharges them."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

LIMITS = {"quick": 480, "thorough": 2400}


def run_contract(idx_, prop, tier):
    """executed in a forked child: verify one contract, return a JSON-able result"""
    sys.setrecursionlimit(20000)
    from pyvc import lib, smt, spec, table, vc
    from pyvc import terms as tm
    from pyvc.core import Done, E, Infeasible, ModelledError, Unsupported
    con = spec.CONTRACTS[idx_]
    t0 = time.time()
    res = {"function": con.key, "contract": con.name, "obligations": [], "gap": None, "paths": 0, "vacuity": None}
    E.reset()
    E.obligations = []
    E.purity = con.purity
    if tier == "thorough":
        E.prove_ms = 60000
        E.BRANCH_MS = 6000
    elif con.ms:
        E.prove_ms = con.ms
    w = spec.world()
    w.under = set(con.under) if con.under is not None else {con.key}
    vc.SPECS[:] = [s() if isinstance(s, type) else s for s in con.specs]
    reached = [0]
    vac = []

    def run():
        E.draws, E.queries, E.log, E.perms, E.impure, E.samples, E.groups = [], [], [], [], [], [], []
        # names are the same on every path, so that proofs are found in the cache
        tm.REWRITE.clear()
        tm.DEFINED.clear()
        tm.SELECTED.clear()
        tm.SELPOS.clear()
        tm.GROUPED.clear()
        lib._seqids.clear()
        table.LIVE.clear()
        E.applied = []
        lib.UNIQ.clear()
        vc._ids[0] = 0
        try:
            con.fn(w)
        except Done:
            pass
        # vacuity: the path's hypotheses must not be contradictory
        vac.append(smt.satisfiable(list(E.pc), 1500 if len(vac) < 2 else 300))
        reached[0] += 1
        return None
    try:
        paths = E.explore(run)
        res["paths"] = len(paths)
        for ds, fs, oc, _ in paths:
            if oc[0] == "exc":
                e = oc[1]
                cls = e.cls.__name__ if isinstance(e, ModelledError) else type(e).__name__
                E.pc, E.kind = list(ds) + list(fs), ["d"] * (len(ds) + len(fs))
                E.oblige("returns normally (no %s)" % cls, tm.FALSE, assume=False)
                E.obligations[-1].detail = (E.obligations[-1].detail or "") + " | %s: %s" % (cls, str(e)[:200])
        if reached[0] and all(v == "unsat" for v in vac):
            res["gap"] = "every path's hypotheses are contradictory"
        if not reached[0] and not E.obligations:
            res["gap"] = "no path reaches the end of the function"
        res["vacuity"] = {"paths": len(vac), "contradictory": sum(1 for v in vac if v == "unsat")}
    except Unsupported as e:
        res["gap"] = "outside the verifier's reach: %s" % e
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
    except RecursionError:
        res["gap"] = "term too deep"
    except Exception as e:      # noqa: BLE001
        res["gap"] = "verifier error: %s: %s" % (type(e).__name__, e)
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
    agg = {}
    for o in E.obligations:
        a = agg.setdefault(o.name, {"name": "%s [%s]: %s" % (con.key, con.name, o.name), "status": "proved", "backend": {}, "instances": 0,
                                    "detail": "", "model": None, "where": o.where})
        a["instances"] += 1
        a["backend"][o.backend] = a["backend"].get(o.backend, 0) + 1
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if rank[o.status] > rank[a["status"]]:
            a["status"], a["detail"], a["model"], a["where"] = o.status, o.detail, o.model, o.where
    res["obligations"] = list(agg.values())
    res["steps_used"], res["steps_proved"] = sorted(map(repr, E.steps_used)), sorted(map(repr, E.steps_proved))
    res["models"] = sorted(E.used_models)
    res["contracts_used"] = sorted(E.used_contracts)
    res["solver_s"] = round(smt.STATS["z3_s"], 2)
    res["queries"] = smt.STATS["queries"]
    res["secs"] = round(time.time() - t0, 2)
    return res


def child(q, i, prop, tier):
    try:
        q.send(run_contract(i, prop, tier))
    except BaseException as e:      # noqa: BLE001
        traceback.print_exc()
        q.send({"error": "%s: %s" % (type(e).__name__, e)})
    finally:
        q.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from pyvc import smt, spec
    for m in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if m.endswith(".py") and m != "__init__.py":
            importlib.import_module("contracts." + m[:-3])
    todo = [i for i, c in enumerate(spec.CONTRACTS) if (a.prop in c.props or a.prop == "all") and a.only in c.key + " " + c.name]
    t0 = time.time()
    limit = LIMITS.get(a.tier, 300)
    results, running, queue = [], [], list(todo)
    gaps = []
    ctx = mp.get_context("fork")
    load_error = None
    try:
        w = spec.world()
        for i in todo:
            w.load(spec.CONTRACTS[i].key.split(":")[0])
    except Exception as e:          # noqa: BLE001
        load_error = "%s: %s" % (type(e).__name__, e)
        if a.v:
            traceback.print_exc()
    if load_error:
        gaps.append({"function": "*", "why": "the package could not be loaded by the verifier: " + load_error})
        queue = []
    while queue or running:
        while queue and len(running) < 7:
            i = queue.pop(0)
            r, s = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(s, i, a.prop, a.tier))
            p.start()
            s.close()
            running.append((p, r, i, time.time()))
        time.sleep(0.05)
        still = []
        for p, r, i, ts in running:
            key = spec.CONTRACTS[i].key
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    res = {"error": "verifier process died"}
                p.join()
                if "error" in res:
                    gaps.append({"function": key, "contract": spec.CONTRACTS[i].name, "why": res["error"]})
                else:
                    results.append(res)
            elif not p.is_alive():
                gaps.append({"function": key, "contract": spec.CONTRACTS[i].name, "why": "verifier process died"})
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                gaps.append({"function": key, "contract": spec.CONTRACTS[i].name, "why": "time limit of %d s" % limit})
            else:
                still.append((p, r, i, ts))
        running = still
        if time.time() - t0 > limit and queue:
            for i in queue:
                gaps.append({"function": spec.CONTRACTS[i].key, "contract": spec.CONTRACTS[i].name, "why": "time limit of %d s" % limit})
            queue = []
    obs, models, used = [], set(), set()
    backends = {}
    shared = {k for r in results if not r["gap"] for k in r["steps_proved"]}
    for r in results:
        lost = [k for k in r["steps_used"] if k not in shared]
        if lost and not r["gap"] and not a.only:
            r["gap"] = "a loop step it relies on is not verified in this run: %s" % lost[0]
    for r in results:
        obs += r["obligations"]
        if r["gap"]:
            gaps.append({"function": r["function"], "contract": r["contract"], "why": r["gap"]})
        elif not r["obligations"]:
            gaps.append({"function": r["function"], "contract": r["contract"], "why": "no obligation was generated"})
        models |= set(r["models"])
        used |= set(r["contracts_used"])
        for o in r["obligations"]:
            for b, k in o["backend"].items():
                backends[b] = backends.get(b, 0) + k
    funcs = [{"function": r["function"], "contract": r["contract"], "obligations": len(r["obligations"]), "paths": r["paths"],
              "solver_s": r["solver_s"], "queries": r["queries"], "secs": r["secs"], "complete": not r["gap"]} for r in results]
    out = {"obligations": obs, "gaps": gaps, "functions": funcs, "backends": backends,
           "trusted": sorted("library model: " + m for m in models) + spec.TRUSTED_ALWAYS,
           "contracts_at_call_sites": sorted(used),
           "assumptions": spec.ASSUMPTIONS, "solver_s": round(sum(r["solver_s"] for r in results), 2),
           "vacuity": {"paths_checked": sum((r["vacuity"] or {}).get("paths", 0) for r in results),
                       "contradictory_paths": sum((r["vacuity"] or {}).get("contradictory", 0) for r in results)},
           "wall_s": round(time.time() - t0, 2)}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1, default=str)
    if a.v or not a.out:
        for r in results:
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            print("%-70s %-28s %3d obl %3d bad %3d paths %6.1fs %s" % (r["function"], r["contract"], len(r["obligations"]), len(bad), r["paths"], r["secs"],
                                                              "GAP " + r["gap"] if r["gap"] else ""))
            for o in bad:
                print("     %s: %s @ %s\n        %s" % (o["status"], o["name"].split("]: ", 1)[1], o["where"], (o["detail"] or "")[:1200].replace("\n", "\n        ")))
                if o["model"]:
                    print("        model: %s" % o["model"][:600])
            if a.v and not r["gap"]:
                for o in r["obligations"]:
                    if o["status"] == "proved":
                        print("     ok x%d %s" % (o["instances"], o["name"].split("]: ", 1)[1]))
        for g in gaps:
            print("GAP", g)
        print("solver %.1fs wall %.1fs" % (out["solver_s"], out["wall_s"]))


if __name__ == "__main__":
    main()
