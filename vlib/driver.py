"""Stage B: the real library, compiled from the mirror, run on generated inputs (bounded)."""
import json
import os
import re
import resource
import shutil
import subprocess

from mirror import VERIF


def env(scratch):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(scratch, "target"),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="-Awarnings", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             TMPDIR=scratch, RUST_BACKTRACE="0", RUST_MIN_STACK="8388608")
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("HOME", "/root") + "/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def build(scratch, mirror_dir):
    """The path of the driver, or None and the reason"""
    d = os.path.join(scratch, "driver")
    shutil.copytree(os.path.join(VERIF, "driver", "src"), os.path.join(d, "src"))
    with open(os.path.join(VERIF, "driver", "Cargo.toml.in")) as f:
        toml = f.read().replace("@MIRROR@", mirror_dir)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml)
    shutil.copy(os.path.join(VERIF, "driver", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    try:
        r = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=env(scratch), capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "the build of the driver takes more than 600 s"
    if r.returncode != 0:
        return None, "the driver does not build: " + r.stderr[-3000:]
    return os.path.join(scratch, "target", "debug", "fits-driver"), ""


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run(exe, args, scratch, timeout):
    try:
        r = subprocess.run([exe] + args, cwd=scratch, env=env(scratch), capture_output=True, timeout=timeout, preexec_fn=_limits)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), ""


def search(exe, prop, seed, scratch, thorough=False, budget=40):
    """Runs the driver: (failures, summary or None, command)"""
    args = [prop, "--seed", str(seed), "--budget", str(budget)]
    if thorough:
        args.append("--thorough")
    cmd = "fits-driver " + " ".join(args)
    rc, out, err = _run(exe, args, scratch, budget + 60)
    failures = [json.loads(l[8:]) for l in out.splitlines() if l.startswith("FAILURE ")]
    summary = next((json.loads(l[8:]) for l in out.splitlines() if l.startswith("SUMMARY ")), None)
    if rc in (0, 1) and (summary or failures):
        for f in failures:
            f["replay"] = cmd + " --only %d" % f["case"]
        return failures, summary, cmd
    # the process died (stack, memory): run again writing each case down first
    trace = os.path.join(scratch, "trace")
    if os.path.exists(trace):
        os.remove(trace)
    rc2, out2, err2 = _run(exe, args + ["--trace", trace], scratch, 2 * budget + 90)
    if rc2 in (0, 1) and "SUMMARY " in out2:
        failures = [json.loads(l[8:]) for l in out2.splitlines() if l.startswith("FAILURE ")]
        summary = next((json.loads(l[8:]) for l in out2.splitlines() if l.startswith("SUMMARY ")), None)
        return failures, summary, cmd
    if os.path.exists(trace):
        with open(trace) as f:
            case = json.load(f)
        case["what"] = "the process ends abnormally (%s): %s" % (rc2, err2[-300:])
        case["known"] = None
        case["replay"] = cmd + " --only %d" % case["case"]
        # alone, to be sure that this input does it
        rc3, out3, _ = _run(exe, args + ["--only", str(case["case"])], scratch, budget + 60)
        if rc3 not in (0, 1) or any(l.startswith("FAILURE ") for l in out3.splitlines()):
            return failures + [case], summary, cmd
    return failures, summary, cmd
