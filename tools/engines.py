"""Replay engines: run the real code on generated inputs against independent oracles.

They serve as the search for a concrete failing input when an obligation fails,
and as the labelled bounded stand-in for what is not under contract.
"""
import os, subprocess, time
from common import *

CMDS = "fill,replacenodes,setparam2,deletemeta,deletetimers,deleteobjects,replaceininv,setmetavar,deleteblocks,clone,overlay"
# property -> list of engines: (kind, argument, share of time)
ENG = {
    "C01": [("unit", "u_spatial", 1), ("e2e", CMDS + ",nocounts", 0.4)],
    "C02": [("unit", "u_spatial", 1), ("e2e", "fill,deleteblocks,clone,overlay,nocounts", 0.4)],
    "C03": [("unit", "u_spatial", 1), ("e2e", "fill,replacenodes,setparam2,nocounts", 0.4)],
    "C04": [("e2e", "deleteblocks,fill,replacenodes,setparam2,deletemeta,deletetimers,deleteobjects,replaceininv,setmetavar,nocounts", 1)],
    "C05": [("unit", "u_codec", 1), ("e2e", "setparam2,deletetimers,setmetavar,replacenodes,nocounts", 0.6)],
    "C06": [("unit", "u_codec", 1), ("e2e", CMDS, 1)],
    "C07": [("e2e", "fill", 1)],
    "C08": [("e2e", "replacenodes", 1)],
    "C09": [("e2e", "setparam2", 1)],
    "C10": [("e2e", "clone", 1), ("special", "big", 0.4)],
    "C11": [("e2e", "overlay", 1)],
    "C12": [("unit", "u_codec", 1), ("e2e", "fill,replacenodes,clone,overlay,nocounts", 0.6)],
    "C13": [("e2e", "deletemeta", 1)],
    "C14": [("e2e", "deletetimers", 1)],
    "C15": [("e2e", "deleteobjects", 1)],
    "C16": [("e2e", "replaceininv", 1)],
    "C17": [("e2e", "setmetavar", 1)],
    "C18": [("e2e", "deleteblocks", 1)],
    "C19": [("special", "crash", 1.5)],
    "C20": [("special", "args", 1)],
    "C21": [("unit", "u_db", 1), ("e2e", "vacuum,deleteblocks,fill,nocounts", 0.5)],
    "C23": [("special", "open", 1)],
    "C24": [("unit", "u_shown", 1), ("e2e", CMDS, 0.7)],
    "C22": [("unit", "u_utils", 0.6), ("special", "big", 1)],
}
SECS = {"quick": 14.0, "thorough": 240.0}


def run(prop, repdir, scale=1.0):
    """Returns a list of engine reports (dicts)."""
    res = []
    for kind, arg, share in ENG[prop]:
        secs = SECS.get(TIER, 14.0) * share * scale
        rep = {"engine": kind + ":" + arg}
        res.append(rep)
        if kind == "unit":
            ok, out = build_unit(arg)
            if not ok:
                rep["unavailable"] = "does not compile against the current interface: " + " | ".join(l for l in out.splitlines() if l.startswith("error"))[:300]
                continue
            shards = 7
            ps = []
            for s in range(shards):
                cmd = [os.path.join(DBG, arg), prop, repdir, str(SEED * 1000 + s), str(secs)]
                ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV))
            js = []
            for p in ps:
                try:
                    o, _ = p.communicate(timeout=secs + 300)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    js.append({"hang": True})
                    continue
                js.append(last_json(o.decode("utf-8", "replace")) or {"died": p.returncode})
            rep["cmd"] = " ".join(cmd)
            rep["evaluations"] = sum(j.get("evaluations", 0) for j in js)
            rep["distinct_nontrivial"] = max([j.get("distinct_nontrivial", 0) for j in js])
            rep["samples"] = next((j["samples"] for j in js if j.get("samples")), [])[:3]
            for j in js:
                if "violation" in j:
                    rep["violation"], rep["replay"] = j["violation"], j["replay"]
                elif "hang" in j or "died" in j:
                    rep["violation"] = "the real code did not return (or aborted the process) on a generated input: %s" % j
                    f = os.path.join(repdir, prop, "replay.txt")
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, "w").write(rep["violation"] + "\nreplay: " + rep["cmd"] + "\n")
                    rep["replay"] = f
        else:
            bin = os.path.join(DBG, "mapeditr")
            if kind == "e2e":
                cmds = [c for c in arg.split(",") if c != "nocounts"]
                cmd = [os.path.join(DBG, "e2e"), prop, bin, repdir, str(SEED), str(secs), ",".join(cmds)] + (["nocounts"] if "nocounts" in arg else [])
            else:
                cmd = [os.path.join(DBG, "special"), arg, prop, bin, repdir, str(SEED), str(secs), os.path.join(BUILD, "shim.so")]
            rc, out = sh(cmd, timeout=secs + 400)
            j = last_json(out)
            if j is None:
                rep["error"] = "engine died: " + out[-400:]
                continue
            rep["cmd"] = " ".join(cmd)
            rep.update({k: j[k] for k in ("evaluations", "distinct_nontrivial", "samples", "violation", "replay") if k in j})
        if "violation" in rep:
            break
    return res
