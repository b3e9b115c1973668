#!/opt/venv/bin/python
"""Runs the run-time oracles of one property against the real package in VP_REPO (default /repo).

  run.py C01 --seed 1 --tier quick --out result.json      all cases
  run.py C01 --seed 1 --only c01_history#17               one case again (this is what a replay file does)
Exit 0: every case held; 1: some case failed (printed); 3: the package could not be imported."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


CASE_LIMIT = 60         # seconds; a case takes well under 2 s on the unchanged tree


def on_alarm(signum, frame):
    raise AssertionError("the call did not return within %d s" % CASE_LIMIT)


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("--max-seconds", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    res = {"property": a.prop, "seed": a.seed, "tier": a.tier, "cases": 0, "failures": [], "samples": [], "by_case": {},
           "skipped_for_time": 0}
    try:
        import common
        import numpy as np
        cases = []
        for mod in ("pdprops", "perfprops", "treeprops", "tableprops", "plotprops", "histprops"):
            if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), mod + ".py")):
                cases += importlib.import_module(mod).CASES.get(a.prop, [])
    except Exception:                                           # noqa: BLE001
        res["failures"].append({"case": "import", "error": traceback.format_exc()[-3000:], "input": ""})
        if a.out:
            json.dump(res, open(a.out, "w"))
        print(traceback.format_exc())
        return 1
    budget = a.max_seconds or (60 if a.tier == "quick" else 600)
    mult = 1 if a.tier == "quick" else 12
    plan = [(fn, f"{fn.__name__}#{k}") for fn, cnt in cases for k in range(cnt * (mult if cnt > 1 else 1))]
    # interleave so that a time limit cuts every kind of case evenly
    plan.sort(key=lambda p: int(p[1].split("#")[1]))
    for fn, label in plan:
        if a.only and label != a.only:
            continue
        if time.time() - t0 > budget and not a.only:
            res["skipped_for_time"] += 1
            continue
        rng = np.random.default_rng([a.seed, zlib.crc32(label.encode())])
        np.random.seed(rng.integers(0, 2 ** 31))
        info = {}
        try:
            signal.alarm(CASE_LIMIT)
            fn(rng, info)
        except BaseException as e:                              # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(f.filename, common.REPO)}:{f.lineno} {f.name}" for f in tb if common.REPO in f.filename]
            res["failures"].append({"case": label, "error": f"{type(e).__name__}: {e}"[:3000], "where": where[-4:],
                                    "input": "\n".join(f"{k} =\n{v}" for k, v in info.items())[:6000]})
            if len(res["failures"]) >= 5:
                break
        finally:
            signal.alarm(0)
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
        res["cases"] += 1
        res["by_case"][fn.__name__] = res["by_case"].get(fn.__name__, 0) + 1
        if len(res["samples"]) < 2 and info:
            res["samples"].append({"case": label, "input": "\n".join(f"{k} =\n{v}" for k, v in info.items())[:1500]})
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"), default=str)
    for f in res["failures"]:
        print("FAILED", f["case"], f["error"], *f.get("where", []), sep="\n  ")
        if a.only:
            print(f["input"])
    print(f"{a.prop}: {res['cases']} cases, {len(res['failures'])} failed, {res['wall_s']} s, skipped {res['skipped_for_time']}")
    return 1 if res["failures"] else 0


if __name__ == "__main__":
    sys.exit(main())
