#!/usr/bin/env python3
"""Are the contracts and invariants satisfiable?

Puts something false, under an unknown condition, at the start and end of every function under
contract and of every loop body and after every loop.  Verus has to refuse each one; one that is
accepted sits at a point the verifier believes unreachable, that is a contradictory precondition,
invariant or assumed contract.  Not part of the checks: run by hand after changing contracts.
"""
import sys, os, re, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import proof

w = os.path.join(BUILD, "vacuity")
os.makedirs(w, exist_ok=True)
assert proof.build_extractor() is True
src = os.path.join(w, "unit.rs")
env = dict(ENV)
env["EXTRACT_VACUITY"] = "1"
rc, out = sh([proof.EXTRACT, os.path.join(REPO, "src"), proof.CON, src, os.path.join(w, "unit.json")], env=env)
print(out[-500:])
cmd = [proof.VERUS, src, "--rlimit", "80", "--multiple-errors", "60", "--error-format=json", "--no-report-long-running"]
for m in sys.argv[1:]:
    cmd += ["--verify-only-module", m]
p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=w)
refused, other = set(), []
txt = open(src).read().splitlines()
fns = json.load(open(os.path.join(w, "unit.json")))["functions"]
for l in p.stderr.decode("utf-8", "replace").splitlines():
    try:
        d = json.loads(l)
    except ValueError:
        continue
    if d.get("level") != "error" or d["message"].startswith("aborting"):
        continue
    ids = [m.group(1) for s in d["spans"] for n in range(s["line_start"] - 3, s["line_end"]) for m in [re.search(r"vac\s*\((\d+)\)", txt[n])] if m and s["is_primary"]]
    if d["message"] == "assertion failed" and ids:
        refused |= set(ids)
    else:
        other.append((d["message"], proof.owner(d, fns)))
where = {}
for n, t in enumerate(txt):
    m = re.search(r"vac\s*\((\d+)\)", t)
    if m:
        o = [f["fn"] for f in fns if f["first"] <= n + 1 <= f["last"] and not f["fn"].endswith("::*")]
        where[m.group(1)] = ((o or ["?"])[0], n + 1)
left = [i for i, (o, n) in sorted(where.items()) if i not in refused and (not sys.argv[1:] or o.split("::")[0] in sys.argv[1:])]
print(len(where), "points,", len(refused), "refused at once", flush=True)


# Points the solver did not get to: one at a time.
def alone(i):
    o, n = where[i]
    d = os.path.join(w, "p" + i)
    os.makedirs(d, exist_ok=True)
    one = re.sub(r"proof \{ if vac\s*\((\d+)\) \{ assert\(false\); \} \}", lambda m: m.group(0) if m.group(1) == i else "", "\n".join(txt))
    open(os.path.join(d, "unit.rs"), "w").write(one)
    mod = o.split("::")[0]
    name = next(m.group(1) for l in reversed(txt[:n]) for m in [re.match(r"\s*(?:pub\s+)?fn\s+(\w+)", l)] if m)
    for only in (["--verify-function", name], []):
        r = subprocess.run([proof.VERUS, "unit.rs", "--rlimit", "80", "--error-format=json", "--no-report-long-running", "--verify-only-module", mod] + only,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d)
        says = [json.loads(l)["message"] for l in r.stderr.decode("utf-8", "replace").splitlines() if l.startswith("{") and json.loads(l).get("level") == "error"]
        if not any("--verify-function" in x for x in says):
            break
    if "assertion failed" in says:
        return None
    return ("ACCEPTED" if not says else "UNDECIDED", i, o, n, says[:2])


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("VACUITY_JOBS", "4"))) as pool:
    n = 0
    for r in pool.map(alone, left):
        if r:
            print(*r, flush=True)
        else:
            n += 1
print(len(left), "tried one at a time,", n, "refused")
for o in other:
    print("OTHER", o)
