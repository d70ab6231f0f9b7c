"""Layer B: executable contracts evaluated on the compiled crate over stated, bounded domains."""
import json, os
from .common import *

CRATE = os.path.join(VERIF, "harness")
TARGET = os.path.join(BUILD, "harness")
BIN = os.path.join(TARGET, "debug", "kserd-verif-harness")


def build():
    unstale("harness", CRATE, TARGET)
    rc, out, s = run(["cargo", "build", "--offline"], cwd=CRATE, timeout=600, envv=env(CARGO_TARGET_DIR=TARGET))
    if rc != 0:
        raise CheckError("harness does not build against /repo:\n" + out[-4000:])
    return s


def evaluate(prop, tier, seed, timeout):
    d = os.path.join(BUILD, "out")
    os.makedirs(d, exist_ok=True)
    outf, trf = os.path.join(d, prop + ".json"), os.path.join(d, prop + ".trace")
    for f in (outf, trf):
        if os.path.exists(f):
            os.remove(f)
    cmd = [BIN, "run", prop, tier, str(seed), outf]
    rc, out, s = run(cmd, timeout=timeout)
    if rc in (0, 1) and os.path.exists(outf):
        r = json.load(open(outf))
    elif rc == 2:
        raise CheckError("harness refused to run: " + out[-2000:])
    else:
        # died on a signal (stack overflow, abort) or never ended: find the case by tracing
        rc2, out2, s2 = run(cmd + [trf], timeout=timeout)
        if rc2 in (0, 1) and os.path.exists(outf):
            r = json.load(open(outf))
        elif os.path.exists(trf):
            t = (open(trf, errors="replace").read().split("\n", 3) + [""] * 4)[:4]
            how = "no result in time" if rc2 is None else "process died with status %s" % rc2
            r = {"evaluations": 0, "distinct": 0, "bounds": [], "contracts": {}, "samples": [],
                 "failures": [{"contract": t[0], "domain": t[1], "index": int(t[2] or 0), "input": t[3],
                               "detail": how + "; " + out2[-500:]}]}
        else:
            raise CheckError("harness died (status %s) without a trace: %s" % (rc, out[-2000:]))
    r["cmd"] = " ".join(cmd)
    r["secs"] = s
    return r


def replay_cmd(prop, tier, seed, f):
    return "%s replay %s %s %s %s %s" % (BIN, prop, tier, seed, f["domain"], f["index"])
