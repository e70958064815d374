"""Stage A: the contracts, discharged by Verus on text extracted from the tree on this run."""
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

from extract import Lost
from mirror import VERIF

sys.path.insert(0, os.path.join(VERIF, "units"))
import plan  # noqa: E402  (units/plan.py: which unit and functions serve which property)

# at most this many verifiers at once
SLOTS = threading.Semaphore(int(os.environ.get("FITSV_JOBS", "8")))


class Result:
    def __init__(self):
        self.obligations = []
        self.commands = []
        self.trusted = []
        self.functions = []
        self.extraction = []
        self.assumptions = []
        self.solver_s = 0.0


def verus_cmd(path, extra):
    return ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "8", "-V", "spinoff-all", "--num-threads", "8"] + extra


def fn_lines(text):
    """[(first line, last line, name)] of the functions of a unit"""
    out = []
    lines = text.split("\n")
    starts = []
    for n, l in enumerate(lines, 1):
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:open\s+|closed\s+|broadcast\s+)*(?:spec\s+|proof\s+|const\s+|exec\s+|uninterp\s+)*fn\s+(\w+)", l)
        if m:
            starts.append((n, m.group(1)))
    for i, (n, name) in enumerate(starts):
        last = starts[i + 1][0] - 1 if i + 1 < len(starts) else len(lines)
        out.append((n, last, name))
    return out


def parse_errors(stderr, text):
    """{function: [message]}"""
    fl = fn_lines(text)
    out = {}
    for block in re.split(r"(?m)^(?=error|warning|note)", stderr):
        if not block.startswith("error"):
            continue
        msg = block.strip()
        locs = [int(x) for x in re.findall(r"-->\s+\S+?\.rs:(\d+)", block)]
        # the places marked in the block (a failed postcondition is declared at one place and fails at another)
        marks = [int(x) for x in re.findall(r"(?m)^\s*(\d+)\s*\|", block)]
        name = None
        for at in locs + marks:
            for a, b, f in fl:
                if a <= at <= b:
                    name = f
                    break
            if name:
                break
        out.setdefault(name, []).append(msg)
    return out


def run_verus(path, text, extra, timeout):
    """{'ok': bool, 'functions': {name: (success, ms)}, 'errors': {name: [msg]}, 'why': str}"""
    cmd = verus_cmd(path, extra)
    with SLOTS:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, cwd=os.path.dirname(path))
        except subprocess.TimeoutExpired:
            return {"ok": False, "functions": {}, "errors": {}, "why": "the verifier took more than %d s" % timeout}
        except OSError as e:
            return {"ok": False, "functions": {}, "errors": {}, "why": "the verifier could not be run: %s" % e}
    try:
        j = json.loads(p.stdout)
        vr = j["verification-results"]
    except (ValueError, KeyError):
        return {"ok": False, "functions": {}, "errors": {}, "why": "the verifier refused the text: " + p.stderr[:1500]}
    fns = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m["function-breakdown"]:
            name = f["function"].split("::", 1)[-1]
            ok, ms = fns.get(name, (True, 0))
            fns[name] = (ok and f["success"], ms + f["time"])
    why = ""
    if vr.get("encountered-vir-error") or not fns:
        return {"ok": False, "functions": {}, "errors": {}, "why": "the verifier refused the text: " + p.stderr[:1500]}
    return {"ok": True, "functions": fns, "errors": parse_errors(p.stderr, text), "why": why}


def relevant(unit, prop, name):
    """Does the function of the unit serve the property?"""
    last = name.split("::")[-1]
    for pat in plan.UNITS[unit]["props"].get(prop, []):
        if re.fullmatch(pat, last) or re.fullmatch(pat, name):
            return True
    return False


def run_unit(unit, prop, mdir, scratch, thorough):
    res = Result()
    mod = importlib.import_module(plan.UNITS[unit].get("module", unit))
    d = os.path.join(scratch, "units")
    os.makedirs(d, exist_ok=True)
    try:
        u = mod.build(mdir)
        up = mod.build(mdir, probe=True)
    except Lost as e:
        res.obligations.append({"name": "unit %s" % unit, "status": "undecided", "why": "not found in the source as expected: %s" % e})
        return res
    except (ValueError, IndexError, KeyError, OSError, AttributeError, re.error) as e:
        res.obligations.append({"name": "unit %s" % unit, "status": "undecided", "why": "the extraction gave up: %s" % e})
        return res
    text = u.text()
    path = os.path.join(d, unit + ".rs")
    with open(path, "w") as f:
        f.write(text)
    ptext = up.text()
    ppath = os.path.join(d, unit + "_probe.rs")
    with open(ppath, "w") as f:
        f.write(ptext)
    extra = list(plan.UNITS[unit].get("args", []))
    limit = plan.UNITS[unit].get("timeout", 300)
    with cf.ThreadPoolExecutor(2) as pool:
        fa = pool.submit(run_verus, path, text, extra, limit)
        fp = pool.submit(run_verus, ppath, ptext, extra + ["--rlimit", "5"], limit)
        a, p = fa.result(), fp.result()
    res.commands.append(" ".join(["verus", unit + ".rs"] + verus_cmd("", extra)[2:]))
    if not a["ok"]:
        res.obligations.append({"name": "unit %s" % unit, "status": "undecided", "why": a["why"]})
        return res
    bad = [f for f, (ok, _) in a["functions"].items() if not ok and relevant(unit, prop, f)]
    again = {}
    if bad:
        # once more with other choices of the solver, so that an unlucky search is not taken for a failure
        b = run_verus(path, text, extra + ["--rlimit", "60", "--smt-option", "smt.random_seed=7"], limit)
        again = b["functions"]
    origin = {}
    for f, o in u.functions:
        if o not in origin.setdefault(f, []):
            origin[f].append(o)
    unreached = set()
    if p["ok"]:
        # with `assert(false)` at its entry, a function under contract must fail, else its precondition is contradictory
        for f, (ok, _) in p["functions"].items():
            if ok and f.split("::")[-1] in origin:
                unreached.add(f)
    for f, (ok, ms) in sorted(a["functions"].items()):
        if not relevant(unit, prop, f):
            continue
        last = f.split("::")[-1]
        ob = {"name": "verus %s::%s" % (unit, f), "ms": ms}
        if last in origin:
            ob["code"] = " | ".join(origin[last])
            res.functions += origin[last]
        else:
            ob["lemma"] = True
        msgs = a["errors"].get(last, [])
        if not ok and again.get(f, (False, 0))[0]:
            ok = True
            ob["second_run"] = True
        if ok and f in unreached:
            ob.update(status="undecided", why="the precondition of the contract looks contradictory: assert(false) is provable at entry")
        elif ok:
            ob["status"] = "discharged"
        elif prop == "C19" and msgs and not any(safety(m) for m in msgs):
            ob.update(status="undecided", why="a functional obligation fails, so that what follows from it is not shown to be safe: " + msgs[0][:300])
        elif msgs and not all("rlimit" in m or "esource limit" in m for m in msgs):
            ob.update(status="failed", output="\n".join(m for m in msgs if "rlimit" not in m)[:6000])
        else:
            ob.update(status="undecided", why="the verifier gave up: " + (msgs[0][:300] if msgs else "no message"))
        res.solver_s += ms / 1000.0
        res.obligations.append(ob)
    # every function the unit puts under contract has to be reported on
    names = {f.split("::")[-1] for f in a["functions"]}
    for f, o in u.functions:
        if f not in names and relevant(unit, prop, f):
            res.obligations.append({"name": "verus %s::%s" % (unit, f), "status": "undecided", "why": "no report of the verifier"})
    res.trusted += ["%s: %s" % (unit, t) for t in u.trusted]
    res.trusted += scan_trusted(unit, text)
    res.extraction += ["%s: %s" % (unit, n) for n in sorted(u.notes)]
    if p["ok"]:
        res.assumptions.append("%s: vacuity probe: assert(false) at entry was refuted for %d functions under contract" % (
            unit, sum(1 for f, (ok, _) in p["functions"].items() if not ok)))
    return res


def safety(msg):
    """Is it an obligation whose failure is a panic or an endless loop?"""
    return bool(re.search(r"possible arithmetic|division by zero|overflow|could not prove termination|decreases not satisfied", msg)
                or ("precondition not satisfied" in msg and ("vstd" in msg or "std_specs" in msg)))


def scan_trusted(unit, text):
    """What the unit leaves unchecked, counted in its text"""
    out = []
    for w, what in (("external_body", "bodies not verified"), ("assume_specification", "assumed contracts of library functions"),
                    ("uninterp spec", "uninterpreted functions"), ("admit()", "admitted steps"), ("assume(", "assumed facts"),
                    ("#[verifier::external]", "ignored items"), ("exec_allows_no_decreases_clause", "functions whose termination is not proved"),
                    ("axiom fn", "axioms")):
        n = text.count(w)
        if n:
            out.append("%s: %d %s (`%s`)" % (unit, n, what, w))
    return out


def run(prop, mdir, scratch, thorough):
    total = Result()
    units = [u for u in plan.UNITS if prop in plan.UNITS[u]["props"]]
    with cf.ThreadPoolExecutor(max(1, len(units))) as pool:
        for r in pool.map(lambda u: run_one(u, prop, mdir, scratch, thorough), units):
            for k in ("obligations", "commands", "trusted", "functions", "extraction", "assumptions"):
                getattr(total, k).extend(getattr(r, k))
            total.solver_s += r.solver_s
    total.assumptions.append("machine arithmetic is checked as machine arithmetic (overflow is an obligation); floating point values are opaque in Verus")
    total.assumptions.append(plan.NOT_PROVED.get(prop, ""))
    total.assumptions = [a for a in total.assumptions if a]
    return total


def run_one(unit, prop, mdir, scratch, thorough):
    kind = plan.UNITS[unit].get("kind", "verus")
    if kind == "verus":
        return run_unit(unit, prop, mdir, scratch, thorough)
    import kani
    return kani.run_unit(unit, prop, mdir, scratch, thorough)


def level(prop):
    return plan.LEVEL.get(prop, "exploration")
