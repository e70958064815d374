"""The check of a property: the proofs (Stage A) and the search for a failing input (Stage B)."""
import concurrent.futures as cf
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import driver
import mirror
import proofs
from mirror import VERIF


def known_findings():
    keys = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=C17 key=async-pending text
                parts = line[9:].split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                keys[(prop, key)] = parts[2]
    return keys


def write_replay(prop, name, obj):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, name))
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
    return path


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="fitsv.")
    try:
        return check(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, scratch, t0):
    mdir = os.path.join(scratch, "mirror")
    mirror.make(mdir)
    thorough = tier == "thorough"
    pool = cf.ThreadPoolExecutor(4)
    fb = pool.submit(driver.build, scratch, mdir)
    fa = pool.submit(proofs.run, prop, mdir, scratch, thorough)
    exe, why = fb.result()
    failures, summary, cmds = [], None, []
    searches = []
    if exe:
        if thorough:
            plan = [(seed + i * 1000003, True, 120) for i in range(4)]
        else:
            plan = [(seed, False, 60)]
        fs = [pool.submit(driver.search, exe, prop, s, scratch, th, b) for s, th, b in plan]
        for f in fs:
            fl, sm, cmd = f.result()
            failures += fl
            searches.append((sm, cmd))
    res = fa.result()
    failed = [o for o in res.obligations if o["status"] == "failed"]
    if failed and exe and not any(f.get("known") is None for f in failures):
        # an obligation failed: look longer for an input that shows it
        fs = [pool.submit(driver.search, exe, prop, seed + 7919 * (i + 1), scratch, True, 90) for i in range(3)]
        for f in fs:
            fl, sm, cmd = f.result()
            failures += fl
            searches.append((sm, cmd))
    pool.shutdown()

    listed = known_findings()
    lines = []
    violations = []
    seen_known = set()
    for f in failures:
        key = (prop, f["known"]) if f.get("known") else None
        if key and key in listed:
            if key not in seen_known:
                seen_known.add(key)
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, listed[key]))
            continue
        violations.append(f)
    if violations:
        f = violations[0]
        path = write_replay(prop, "input", {
            "property": prop, "what": f["what"], "case": f, "replay": "build /verif/driver against /repo, then: " + f.get("replay", ""),
            "failed_obligations": failed})
        lines.append("%s: %s" % (prop, f["what"][:800]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif failed:
        o = failed[0]
        path = write_replay(prop, "obligation", {"property": prop, "failed_obligations": failed,
                                                 "searched": [c for _, c in searches]})
        lines.append("%s: failed obligation: %s" % (prop, o["name"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))

    sums = [s for s, _ in searches if s]
    undecided = [o for o in res.obligations if o["status"] == "undecided"]
    counts = [o for o in res.obligations]
    cov = {
        "obligations": sum(o.get("count", 1) for o in counts),
        "discharged": sum(o.get("count", 1) for o in counts if o["status"] == "discharged"),
        "undecided": sum(o.get("count", 1) for o in undecided),
        "failed": sum(o.get("count", 1) for o in failed),
        "checker_cmd": "; ".join(sorted(set(res.commands))) or "none",
        "trusted_base": res.trusted,
        "functions_under_contract": sorted(set(res.functions)),
        "obligation_list": [{k: o[k] for k in o if k != "output"} for o in res.obligations],
        "extraction": res.extraction,
        "solver_s": round(res.solver_s, 2),
        "evaluations": sum(s["evaluations"] for s in sums),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in sums),
        "rule": (sums[0]["rule"] if sums else "the driver was not run: " + why),
        "samples": [x for s in sums for x in s["samples"]][:6],
        "bounded_stand_in": "the cases counted under evaluations come from the bounded stand-in (the driver); none of them counts as proved",
        "kinds": sums[0]["kinds"] if sums else {},
        "driver_cmds": [c for _, c in searches],
    }
    if not exe:
        cov["driver_not_run"] = why[-1500:]
    # a run in which the verifier left something open shows no more than the cases it ran
    level = proofs.level(prop) if not undecided and counts else "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 1),
          "violations": len(violations) + (1 if failed and not violations else 0)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in undecided:
        print("%s: undecided: %s: %s" % (prop, o["name"], o.get("why", "")[:300].replace("\n", " ")))
    if not exe:
        print("%s: the bounded stand-in was not run: %s" % (prop, why[-600:]))
    for l in lines:
        print(l)
    print("%s: %d of %d obligations discharged, %d undecided, %d failed; %d cases run; %.1f s" % (
        prop, cov["discharged"], cov["obligations"], cov["undecided"], cov["failed"], cov["evaluations"], time.time() - t0))
    sys.stdout.flush()
    return 1 if violations or failed else 0
