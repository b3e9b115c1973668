#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property on /repo's current working tree:
 1. pyvc/verify.py (python3-vt) generates the obligations of the property's functions from /repo's source and
    discharges them (see DESIGN.md);
 2. rt/run.py (/opt/venv) runs the executable form of the same contracts on the real package: it supplies the failing
    input when an obligation fails, cross-checks the verifier's library models on the unchanged tree and is the stated
    bounded stand-in for the functions outside the verifier's reach.
Exit 0: held.  Exit 1 with VIOLATION: a failing input was found on the real code, an obligation was refuted, or an
obligation generated from changed code is no longer discharged.  An obligation left undecided on code that is the one in
baseline.json (a solver out of time) is reported in the evidence and is not an alarm; neither is code the verifier's
language subset does not cover (a gap), which the evidence lists."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
RT_PY = "/opt/venv/bin/python"
VT_PY = "python3-vt"
TIER_LIMITS = {"quick": {"rt": 150, "vc": 540}, "thorough": {"rt": 1500, "vc": 3000}}


def launch(cmd, log, env):
    return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=env, cwd=HERE,
                            start_new_session=True)


def finish(p, deadline):
    try:
        p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return None
    return p.returncode


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def changed_modules():
    """modules whose code differs from the tree on which every obligation was discharged"""
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import mkbaseline
    base = load(os.path.join(HERE, "baseline.json")) or {}
    now = mkbaseline.digests(os.environ.get("VC_REPO", "/repo"))
    return sorted(f for f in set(base) | set(now) if base.get(f) != now.get(f))


def concerns(o, changed, prop):
    """was the obligation generated from changed code (its own module, or one the property is anchored in)?"""
    if not changed:
        return False
    files = {o["name"].split(":")[0].replace(".", "/") + ".py"}
    try:
        with open(os.path.join(HERE, "properties.jsonl")) as f:
            for line in f:
                p = json.loads(line)
                if p["id"] == prop:
                    files |= set(p["anchors"]["files"])
    except (OSError, ValueError):
        pass
    return bool(files & set(changed))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in TIER_LIMITS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    lim = TIER_LIMITS[tier]
    ev_dir, rp_dir = os.path.join(HERE, "evidence"), os.path.join(HERE, "replays")
    os.makedirs(ev_dir, exist_ok=True)
    os.makedirs(rp_dir, exist_ok=True)
    rt_out, vc_out = (os.path.join(ev_dir, ".%s.%s.json" % (prop, k)) for k in ("rt", "vc"))
    for f in (rt_out, vc_out):
        if os.path.exists(f):
            os.remove(f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp/mplconfig"))
    rt_cmd = [RT_PY, "rt/run.py", prop, "--seed", str(seed), "--tier", tier, "--out", rt_out, "--max-seconds",
              str(lim["rt"] * 0.6)]
    vc_cmd = [VT_PY, "-m", "pyvc.verify", prop, "--tier", tier, "--out", vc_out]
    p_rt = launch(rt_cmd, os.path.join(ev_dir, ".%s.rt.log" % prop), env)
    p_vc = launch(vc_cmd, os.path.join(ev_dir, ".%s.vc.log" % prop), env)
    rt_rc = finish(p_rt, t0 + lim["rt"])
    rt = load(rt_out)
    vc_rc = finish(p_vc, t0 + (lim["vc"] if not (rt or {}).get("failures") else min(lim["vc"], 240)))
    vc = load(vc_out)
    changed = changed_modules()

    lines, code = [], 0
    failures = (rt or {}).get("failures", [])
    obs = (vc or {}).get("obligations", [])
    refuted = [o for o in obs if o["status"] == "refuted"]
    undecided = [o for o in obs if o["status"] == "unknown"]
    discharged = [o for o in obs if o["status"] == "proved"]
    gaps = (vc or {}).get("gaps", []) if vc else [{"function": "*", "why": "verifier gave no result (exit %s)" % vc_rc}]

    if failures:
        code = 1
        path = os.path.join(rp_dir, "%s.json" % prop)
        f = failures[0]
        with open(path, "w") as out:
            json.dump({"property": prop, "kind": "failing input on the real code",
                       "rerun": "cd /verif && MPLBACKEND=Agg %s rt/run.py %s --seed %d --only '%s'" % (RT_PY, prop, seed, f["case"]),
                       "failure": f, "all_failures": [x["case"] for x in failures],
                       "failed_obligations": [{k: o.get(k) for k in ("name", "status", "detail", "model")} for o in refuted + undecided]},
                      out, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif refuted or (undecided and any(concerns(o, changed, prop) for o in undecided)):
        code = 1
        if not refuted:
            refuted = [o for o in undecided if concerns(o, changed, prop)]
        path = os.path.join(rp_dir, "%s.json" % prop)
        with open(path, "w") as out:
            json.dump({"property": prop, "kind": "failed obligation", "changed_modules": changed,
                       "rerun": "cd /verif && %s -m pyvc.verify %s" % (VT_PY, prop),
                       "failed_obligations": refuted}, out, indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))

    trusted = list((vc or {}).get("trusted", []))
    cov = {"obligations": len(obs), "discharged": len(discharged),
           "checker_cmd": "cd /verif && %s -m pyvc.verify %s" % (VT_PY, prop),
           "trusted_base": trusted,
           "back_ends": (vc or {}).get("backends", {}), "solver_s": (vc or {}).get("solver_s", 0.0),
           "functions_under_contract": (vc or {}).get("functions", []),
           "undecided_obligations": [o["name"] for o in undecided], "refuted_obligations": [o["name"] for o in refuted],
           "outside_verifier_reach": gaps,
           "vacuity_checks": (vc or {}).get("vacuity", 0),
           "bounded_cross_check": {"evaluations": (rt or {}).get("cases", 0), "by_oracle": (rt or {}).get("by_case", {}),
                                   "skipped_for_time": (rt or {}).get("skipped_for_time"),
                                   "failures": len(failures), "samples": (rt or {}).get("samples", []),
                                   "note": "bounded: real code on generated inputs against the executable contracts; never counted as proved"}}
    fully = bool(obs) and len(discharged) == len(obs) and not gaps
    partial = bool(discharged)
    level = "proof" if (partial and (vc or {}).get("claims_proof", True)) else "exploration"
    if level == "exploration":
        cov["evaluations"] = (rt or {}).get("cases", 0)
        cov["distinct_nontrivial"] = (rt or {}).get("cases", 0)
        cov["rule"] = "each case is a freshly generated dataset/model/tree/table run through the real code and compared with the definition"
        cov["samples"] = (rt or {}).get("samples", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (vc or {}).get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    ev["coverage"]["fully_discharged"] = fully
    with open(os.path.join(ev_dir, prop + ".json"), "w") as out:
        json.dump(ev, out, indent=1, default=str)
    for f in (rt_out, vc_out):
        if os.path.exists(f):
            os.remove(f)
    for line in lines:
        print(line)
    print("%s: %d/%d obligations discharged, %d gaps; cross-check %s cases, %d failures; %.1f s" %
          (prop, len(discharged), len(obs), len(gaps), (rt or {}).get("cases", "no result"), len(failures), time.time() - t0))
    for f in failures[:3]:
        print("  failing input:", f["case"], f["error"][:600].replace("\n", " | "))
    for o in refuted[:5] + undecided[:5]:
        print("  obligation %s: %s  %s" % (o["status"], o["name"], (o.get("detail") or "")[:300].replace("\n", " | ")))
    return code


if __name__ == "__main__":
    sys.exit(main())
