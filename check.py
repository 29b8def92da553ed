#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]   run one property's check
   check.py --replay FILE                 replay one recorded violation
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import importlib
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PY = "/opt/vp/venv/bin/python"


def outer(argv):
    from vlib import build
    t0 = time.time()
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            pid = json.load(f)["property"]
        tier = None
    else:
        pid = argv[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
    flavors = ["plain"]
    with open(os.path.join(VERIF, "checks", pid.lower() + ".py")) as f:
        head = f.read(2000)
    m = re.search(r"^# flavors: (.*)$", head, re.M)
    if m:
        flavors = m.group(1).split()
    env = dict(os.environ)
    try:
        for fl in flavors:
            pkg, info = build.build(fl)
            env["VERIF_PKG_" + fl.upper()] = pkg
            env["VERIF_KLIB_" + fl.upper()] = info["libs"]["libawkward-cpu-kernels.so"]
    except build.BuildError as e:
        print("ERROR: the tree does not build\n%s" % e)
        return 2
    main = flavors[0]
    env["PYTHONPATH"] = env["VERIF_PKG_" + main.upper()] + ":" + VERIF
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = env["MKL_NUM_THREADS"] = "1"
    env["NUMBA_NUM_THREADS"] = "1"
    env["JAX_PLATFORMS"] = "cpu"
    env["VERIF_T0"] = str(t0)
    if tier:
        env["VERIF_TIER"] = tier
    if main == "asan":
        import glob
        libasan = sorted(glob.glob("/usr/lib/gcc/x86_64-linux-gnu/*/libasan.so"))[-1]
        env["LD_PRELOAD"] = os.path.realpath(libasan)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:symbolize=0"
        env["PYTHONMALLOC"] = "malloc"
    env["VERIF_INNER"] = "1"
    sys.stdout.flush()
    os.execve(PY, [PY, os.path.abspath(__file__)] + argv, env)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid and e["status"] == "known"]


def match(entry, failure):
    k = failure["key"]
    if k in entry.get("keys", []):
        return True
    return any(re.fullmatch(r, k) for r in entry.get("key_regex", []))


def inner(argv):
    from vlib import explore
    t0 = float(os.environ.get("VERIF_T0", time.time()))
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            rp = json.load(f)
        mod = importlib.import_module("checks." + rp["property"].lower())
        check = mod.Check()
        explore.Rec.known, explore.Rec.known_match = load_known(rp["property"]), match
        units = check.units(rp["tier"])
        result, failures, desc = explore.run_single(check, units[rp["unit"]], rp["unit"], rp["ordinal"], 600)
        print("replay:", result)
        print("case:", desc)
        for f in failures:
            print(f["message"])
        return 0 if result == "ok" else 1

    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid.lower())
    check = mod.Check()
    known = load_known(pid)
    explore.Rec.known, explore.Rec.known_match = known, match
    res, units = explore.explore(check, tier, hang_s=getattr(check, "hang_s", 90))
    hit = {e["id"]: (e, res.known_hits[e["id"]]) for e in known if e["id"] in res.known_hits}
    bad = res.failures
    if os.environ.get("VERIF_TRIAGE"):
        with open(os.environ["VERIF_TRIAGE"], "w") as f:
            json.dump(bad, f)
    for eid, (e, n) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s [%s, %d cases]" % (pid, e["what"], eid, n))
    # confirm deterministically before reporting
    confirmed = []
    bad.sort(key=lambda f: (len(str(f.get("desc"))), f["unit"], f["ordinal"]))
    if bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        import hashlib
    for f in bad[:40]:
        if len(confirmed) >= 5:
            break
        if f["message"].startswith("process ended"):
            ok = True
        else:
            r, fl, _ = explore.run_single(check, units[f["unit"]], f["unit"], f["ordinal"], 300)
            ok = r != "ok"
            if not ok:
                r, fl, _ = explore.run_single(check, units[f["unit"]], f["unit"], f["ordinal"], 300)
                ok = r != "ok"
        if not ok and f.get("history"):
            ok = True
        if ok:
            h = hashlib.sha256((f["key"]).encode("utf-8", "replace")).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as fh:
                json.dump(dict(f, property=pid, tier=tier), fh, indent=1)
            confirmed.append((path, f))
    for path, f in confirmed:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case: %s" % f["desc"])
        print("  " + f["message"].replace("\n", "\n  ")[-1200:])
    if bad and not confirmed:
        print("NOTE: %d failures did not reproduce on replay; first: %s %s" % (len(bad), bad[0]["desc"], bad[0]["message"][:2000]))
    for e in res.errors[:3]:
        print("HARNESS-ERROR:", e)
    if res.units_done < res.units:
        print("units finished: %d of %d" % (res.units_done, res.units))
    cov = {
        "states": len(res.states), "transitions": res.transitions,
        "traces_validated_against_impl": res.validated,
        "evaluations": res.cases, "distinct_nontrivial": len(res.outcomes),
        "distinct_outcomes": len(res.outcomes),
        "rule": check.rule,
        "units": res.units, "units_completed": res.units_done,
        "exhaustive": res.units_done >= res.units and not res.errors,
        "bounds": check.bounds(tier),
        "samples": res.samples[:12],
        "notes": res.notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(check, "level", "model_checking"),
          "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
          "known_findings": {k: n for k, (e, n) in hit.items()}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: units=%d/%d cases=%d states=%d transitions=%d outcomes=%d failures=%d known=%d %.1fs" % (
        pid, tier, res.units_done, res.units, res.cases, len(res.states), res.transitions,
        len(res.outcomes), res.nfail, sum(n for _, n in hit.values()), time.time() - t0))
    if confirmed:
        return 1
    if res.errors or bad:
        return 2
    return 0


if __name__ == "__main__":
    if os.environ.get("VERIF_INNER"):
        rc = inner(sys.argv[1:])
        sys.stdout.flush()
        os._exit(rc)
    else:
        sys.exit(outer(sys.argv[1:]))
