#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree."""
import sys, json, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import engines
try:
    import proof
except ImportError:
    proof = None


def main():
    prop = sys.argv[1]
    t0 = time.time()
    repdir = os.path.join(VERIF, "replay")
    os.makedirs(repdir, exist_ok=True)
    shutil.rmtree(os.path.join(repdir, prop), ignore_errors=True)
    ok, out = build_repo()
    if not ok:
        print(out[-3000:])
        print("ERROR: /repo does not build")
        return 2
    ok, out = build_harness()
    if not ok:
        print(out[-3000:])
        print("ERROR: harness does not build")
        return 2
    pr = proof.run(prop, repdir) if proof else None
    reps = engines.run(prop, repdir)
    if pr is not None and (pr["failed"] or pr["undecided"]) and not any("violation" in r or "error" in r for r in reps):
        # an obligation is open: look harder for an input that fails
        engines.SEED += 7919
        reps += engines.run(prop, repdir, 5.0 if TIER == "quick" else 1.0)
    for r in reps:
        if "error" in r:
            print("ERROR:", r["error"])
            return 2
    viol = next((r for r in reps if "violation" in r), None)
    alarm = pr is not None and bool(pr["failed"])
    proved = pr is not None and not pr["failed"] and not pr["undecided"] and pr["obligations"] > 0
    ev = evidence(prop, pr, reps, proved, time.time() - t0, viol is not None or alarm)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in reps:
        print("engine %-14s %s" % (r["engine"][:40], r.get("unavailable") or "%d evaluations, %d distinct non-trivial" % (r.get("evaluations", 0), r.get("distinct_nontrivial", 0))))
    if pr:
        proof.summary(pr)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        print("failing input:", viol["violation"][:1500])
        if alarm:
            print("failed obligations:", "; ".join(pr["failed"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        return 1
    if alarm:
        f = os.path.join(repdir, prop, "obligation.txt")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, "w").write("property: %s\nfailed obligations:\n%s\n\nverifier output:\n%s\n" % (prop, "\n".join(pr["failed"]), pr["output"]))
        print("failed obligations:", "; ".join(pr["failed"])[:1500])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, f))
        return 1
    print("OK property=%s %s %.1fs" % (prop, "proved" if proved else "no violation found (bounded)", time.time() - t0))
    return 0


def known(prop):
    try:
        ls = open(os.path.join(VERIF, "known_findings.txt")).read().splitlines()
    except OSError:
        return []
    return [l.split("property=%s " % prop, 1)[1] for l in ls if l.startswith("known: property=%s " % prop)]


def evidence(prop, pr, reps, proved, wall, bad):
    cov = {
        "evaluations": sum(r.get("evaluations", 0) for r in reps),
        "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for r in reps),
        "rule": "bounded stand-in and replay search: generated maps, command lines, block bytes or call histories (seeded); non-trivial = the case has at least one selected/affected block (end-to-end) or is distinct by content (unit engines)",
        "samples": [s for r in reps for s in r.get("samples", [])][:6] or ["none"],
        "engines": [{k: v for k, v in r.items() if k != "samples"} for r in reps],
    }
    assumptions = ["the bounded engines' own codec, geometry and expectations are an independent statement of the property"]
    level = "exploration"
    if pr:
        level = "proof" if proved else "exploration"
        cov.update({
            "obligations": pr["obligations"], "discharged": pr["discharged"], "checker_cmd": pr["cmd"],
            "trusted_base": pr["trusted"], "functions_under_contract": pr["functions"],
            "undecided": pr["undecided"], "failed_obligations": pr["failed"], "solver_time_ms": pr["smt_ms"], "back_end": pr["backend"],
            "extraction": pr["extraction"], "bounded_only": pr["bounded"],
        })
        assumptions += pr["assumptions"]
    return {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
            "assumptions": assumptions, "wall_s": round(wall, 2), "violations": 1 if bad else 0}


if __name__ == "__main__":
    sys.exit(main())
