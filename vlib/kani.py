"""Layer A1: Kani obligations (loop-free, all bit patterns) on the real crate."""
import os, re, shutil
from .common import *

CRATE = os.path.join(VERIF, "kani")
TARGET = os.path.join(BUILD, "kani")
# failed checks that say the tool could not decide, not that the code is wrong
UNDECIDED = re.compile(r"unwinding assertion|not currently supported|is not supported|unsupported|recursion", re.I)


def _parse(out):
    """-> {harness: {status, checks, covers, failed, secs}}"""
    res, on, cur = {}, {}, None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            on[m.group(1) or "0"] = m.group(2)
            cur = m.group(2)
            res[cur] = {"status": None, "checks": 0, "covers": None, "failed": [], "secs": 0.0}
            continue
        m = re.match(r"Thread (\d+): ?$", l)
        if m:
            cur = on.get(m.group(1))
            continue
        if cur is None:
            continue
        r = res[cur]
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
        if m:
            r["checks"] = int(m.group(2))
            r["nfailed"] = int(m.group(1))
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            r["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            r["failed"].append(m.group(1))
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m:
            r["status"] = m.group(1)
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            r["secs"] = float(m.group(1))
        if "timed out" in l.lower():
            r["status"] = r["status"] or "TIMEOUT"
    return res


def run_harnesses(patterns, timeout, per_harness, jobs=8, flags=()):
    unstale("kani", CRATE, TARGET)
    cmd = ["cargo", "kani", "-j", str(jobs), "--output-format", "terse", "-Z", "unstable-options", "-Z", "stubbing",
           "--harness-timeout", "%ds" % per_harness] + list(flags)
    for p in patterns:
        cmd += ["--harness", p]
    rc, out, secs = run(cmd, cwd=CRATE, timeout=timeout, envv=env(CARGO_TARGET_DIR=TARGET))
    res = _parse(out)
    r = {"cmd": " ".join(cmd), "secs": secs, "harnesses": res, "failed": [], "undecided": [], "proved": [],
         "checks": sum(h["checks"] for h in res.values()), "out": out, "solver_s": sum(h["secs"] for h in res.values())}
    if not res:
        r["undecided"].append("kani produced no verdicts: " + out[-1500:])
    if rc is None:
        r["undecided"].append("kani did not end within %d s" % timeout)
    for n, h in sorted(res.items()):
        if h["status"] == "SUCCESSFUL" and h["covers"] and h["covers"][0] == h["covers"][1] > 0:
            r["proved"].append(n)
        elif h["status"] == "SUCCESSFUL":
            r["undecided"].append("%s: vacuous (cover %s)" % (n, h["covers"]))
        elif h["status"] == "FAILED":
            bad = [f for f in h["failed"] if not UNDECIDED.search(f)]
            und = [f for f in h["failed"] if UNDECIDED.search(f)]
            if bad and not und:
                r["failed"].append((n, bad))
            else:
                r["undecided"].append("%s: %s" % (n, und or "no failed check named"))
        else:
            r["undecided"].append("%s: %s" % (n, h["status"] or "no verdict"))
    return r


def merge(a, b):
    if a is None:
        return b
    return {"cmd": a["cmd"] + " ; " + b["cmd"], "secs": a["secs"] + b["secs"], "harnesses": {**a["harnesses"], **b["harnesses"]},
            "failed": a["failed"] + b["failed"], "undecided": a["undecided"] + b["undecided"], "proved": a["proved"] + b["proved"],
            "checks": a["checks"] + b["checks"], "out": a["out"] + b["out"], "solver_s": a["solver_s"] + b["solver_s"]}


def counterexample(name, timeout=240):
    """Ask Kani for concrete values and run the same harness natively on them.
    -> (text, command) of a confirmed failing input, or None"""
    cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback=print", "--harness", name, "--exact"]
    rc, out, _ = run(cmd, cwd=CRATE, timeout=timeout, envv=env(CARGO_TARGET_DIR=TARGET))
    for block in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S):
        vals = re.findall(r"vec!\[([\d, ]*)\]", block)
        notes = re.findall(r"// (.*)", block)
        r = native(name, vals)
        if r:
            return ("harness %s with symbolic inputs %s (bytes %s): %s" % (name, notes, vals, r[0]), r[1])
    return None


def native(name, vals):
    d = os.path.join(BUILD, "kanireplay_crate")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "replay"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n'
                '[dependencies]\nkserd-verif-kani = { path = "%s" }\n' % CRATE)
    lock = os.path.join(CRATE, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("fn main() {\n    kserd_verif_kani::kani::load(vec![%s]);\n    kserd_verif_kani::%s();\n}\n"
                % (", ".join("vec![%s]" % v for v in vals), name))
    cmd = ["cargo", "run", "-q", "--offline"]
    rc, out, _ = run(cmd, cwd=d, timeout=300, envv=env(CARGO_TARGET_DIR=os.path.join(BUILD, "kanireplay")))
    if "panicked at" in out and rc not in (0, 3, None):
        return out[out.index("panicked at"):][:600], "cd %s && CARGO_TARGET_DIR=%s/kanireplay %s" % (d, BUILD, " ".join(cmd))
    return None
