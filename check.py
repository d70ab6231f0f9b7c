#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property on /repo's current working tree.

exit 0  held (every obligation discharged, bounded contracts clean)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  the check could not run
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import *
from vlib import bounded, kani, verus
from vlib.props import PROPS


def known_findings():
    """`known: property=<id> input=<json string>` lines; `fixed:` lines suppress nothing."""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("known: property="):
            prop, rest = l[len("known: property="):].split(" ", 1)
            inp, what = json.JSONDecoder().raw_decode(rest[len("input="):])
            r[(prop, inp)] = rest[len("input=") + what:].strip()
    return r


def decide(prop, tier, seed):
    cfg = PROPS[prop]
    t0 = time.time()
    budget = 840.0

    def left():
        return max(30.0, budget - (time.time() - t0))

    bounded.build()
    b = bounded.evaluate(prop, tier, seed, min(left(), 400))
    known = known_findings()
    bfail = [f for f in b["failures"] if (prop, f["input"]) not in known]
    for f in b["failures"]:
        if (prop, f["input"]) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, f["input"])]))

    v = verus.verify(prop, cfg["verus"], min(left(), 300)) if cfg.get("verus") else None
    k = None
    for g in cfg.get("kani", []):
        # with a failing input in hand the remaining obligations only add detail
        r = kani.run_harnesses(g["run"], min(left(), 240) if bfail else left(), g.get("each_s", 240), g.get("jobs", 8), g.get("flags", ()))
        k = kani.merge(k, r)

    obligations = discharged = 0
    backends, undecided, failed = [], [], []
    if k:
        obligations += k["checks"]
        discharged += sum(k["harnesses"][n]["checks"] for n in k["proved"])
        undecided += ["kani: " + u for u in k["undecided"]]
        failed += [("kani obligation " + n + ": " + "; ".join(c), k["out"], n) for n, c in k["failed"]]
        backends.append({"tool": "Kani 0.68 / CBMC 6.11 (SAT: cadical)", "harnesses": len(k["harnesses"]),
                         "harnesses_proved": len(k["proved"]), "checks": k["checks"],
                         "solver_s": round(k["solver_s"], 2), "cmd": k["cmd"]})
    if v:
        obligations += len(v["obligations"])
        discharged += sum(1 for o in v["obligations"] if o["status"] == "ok")
        undecided += ["verus: " + u for u in v["undecided"]]
        failed += [("verus obligation " + o["name"], v["out"], None) for o in v["obligations"] if o["status"] == "failed"]
        backends.append({"tool": "Verus (Z3)", "functions_under_contract": [o["name"] for o in v["obligations"]],
                         "lemmas": v["lemmas"], "solver_s": v["solver_s"], "cmd": v["cmd"]})

    violations = []
    if bfail:
        f = bfail[0]
        violations.append({"kind": "contract", "contract": f["contract"], "input": f["input"], "detail": f["detail"],
                           "replay": bounded.replay_cmd(prop, tier, seed, f), "all": bfail[:10],
                           "failed_obligations": [n for n, _, _ in failed]})
    elif failed:
        cex = None
        for n, out, h in [f for f in failed if f[2]][:2]:
            if not cex and left() > 60:
                cex = kani.counterexample(h, min(240, left()))
        violations.append({"kind": "obligation", "failed_obligations": [n for n, _, _ in failed],
                           "input": cex[0] if cex else None, "replay": cex[1] if cex else None,
                           "verifier_output": "\n".join(dict.fromkeys(o[-20000:] for _, o, _ in failed))})

    trusted = list(cfg.get("trusted", [])) + (v["trusted"] if v else [])
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": " ; ".join(x["cmd"] for x in backends) or b["cmd"],
        "trusted_base": trusted,
        "backends": backends,
        "undecided": undecided,
        "bounded_stand_in": {
            "label": "bounded, not proved",
            "bounds": b["bounds"],
            "contracts": b["contracts"],
            "cmd": b["cmd"],
        },
        "evaluations": b["evaluations"],
        "distinct_nontrivial": b["distinct"],
        "rule": cfg["rule"],
        "samples": b["samples"][:20],
        "explanation": cfg["explain"],
    }
    if v:
        cov["extraction"] = v["extraction"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": cfg["level"] if not undecided else "exploration",
        "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + (v["assumptions"] if v else []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bfail) + len(failed),
    }
    jdump(os.path.join(EVID, prop + ".json"), ev)
    for u in undecided:
        print("note: undecided this run (bounded contracts stand in): " + u[:400])
    if b["evaluations"] == 0 and not bfail:
        raise CheckError("no contract was evaluated")
    if violations:
        path = os.path.join(EVID, prop + ".replay.json")
        jdump(path, {"property": prop, "tier": tier, "seed": seed, **violations[0]})
        x = violations[0]
        print("%s: %s" % (x.get("contract") or x["failed_obligations"][0], (x["input"] or "")[:500]))
        if x.get("detail"):
            print("  " + x["detail"][:500])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if x["input"] else " no-failing-input-found"))
        return 1
    print("%s held: %d of %d obligations discharged, %d contract evaluations (bounded), %.1f s"
          % (prop, discharged, obligations, b["evaluations"], time.time() - t0))
    return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = abs(int(os.environ.get("VERIF_SEED", "0"))) % (1 << 63)
    except ValueError:
        seed = 0
    try:
        return decide(prop, tier, seed)
    except CheckError as e:
        print("check error: %s" % e)
    except Exception:
        traceback.print_exc(file=sys.stdout)
    return 2


if __name__ == "__main__":
    sys.exit(main())
