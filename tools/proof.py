"""Deductive verification of /repo's current source.

The extractor cuts the functions named in contracts/*.vc out of /repo/src, splices their
contracts in and writes one Verus crate; Verus then has to accept every obligation of the
modules the property depends on.  The result is mapped back to functions of /repo.
"""
import glob, hashlib
from common import *
import props

CON = os.path.join(VERIF, "contracts")
XT = os.path.join(BUILD, "xt")
EXTRACT = os.path.join(XT, "release", "extract")
VERUS = shutil.which("verus", path=ENV["PATH"]) or "/usr/local/bin/verus"
LIMIT = float(os.environ.get("VERIF_VERUS_SECS", "420"))
RLIMIT = os.environ.get("VERIF_RLIMIT", "40")
START = time.time()


def build_extractor():
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = XT
    rc, out = sh(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "extract", "Cargo.toml")], env=env)
    return rc == 0 or out[-2000:]


def verus(work, src, modules, extra=(), limit=LIMIT):
    """-> (json or None, diagnostics list)"""
    cmd = [VERUS, src, "--output-json", "--time-expanded", "--rlimit", RLIMIT, "--multiple-errors", "3", "--error-format=json", "--no-report-long-running"]
    for m in modules:
        cmd += ["--verify-only-module", m]
    cmd += list(extra)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=work, start_new_session=True)
    try:
        so, se = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, [], " ".join(cmd), "TIMEOUT"
    try:
        js = json.loads(so.decode("utf-8", "replace"))
    except ValueError:
        js = None
    ds = []
    raw = se.decode("utf-8", "replace")
    for l in raw.splitlines():
        try:
            d = json.loads(l)
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                ds.append(d)
        except (ValueError, AttributeError):
            pass
    return js, ds, " ".join(cmd), raw


def owner(d, fns):
    """Function (or module text) a diagnostic belongs to."""
    sp = sorted(d.get("spans", []), key=lambda s: not s["is_primary"])
    for want in (lambda f: not f.endswith("::*"), lambda f: True):
        for s in sp:
            best = None
            for f in fns:
                if f["first"] <= s["line_start"] <= f["last"] and want(f["fn"]):
                    if best is None or f["last"] - f["first"] < best["last"] - best["first"]:
                        best = f
            if best:
                return best["fn"]
    return None


def run(prop, repdir):
    info = props.INFO.get(prop, {})
    modules = info.get("modules")
    if not modules:
        return None
    t0 = time.time()
    res = {"failed": [], "undecided": [], "obligations": 0, "discharged": 0, "cmd": "", "trusted": [], "functions": [], "smt_ms": 0,
           "backend": "Verus (Z3)", "extraction": "", "bounded": info.get("bounded", []), "assumptions": list(info.get("assumptions", [])), "output": ""}
    ok = build_extractor()
    if ok is not True:
        res["undecided"].append("extractor does not build: " + str(ok)[-300:])
        return res
    work = os.path.join(BUILD, "proof-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        prove(prop, modules, info, work, res)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    res["wall"] = round(time.time() - t0, 1)
    return res


def in_modules(fn, modules):
    return fn.split("::")[0] in modules


def crashed(r, ds, raw):
    """The verifier stopped on an internal error: what it then reports (nothing verified, nothing refused) is no answer."""
    vr = (r or {}).get("verification-results") or {}
    if "internal error:" in raw or "panicked at" in raw:
        return True
    # every answer has obligations, and an unsuccessful one names an error
    return not ds and (not vr.get("success") or vr.get("encountered-error") or not vr.get("verified"))


def other_layouts(work, external, fns):
    """Functions with a refused obligation, tried again with the same contract laid out differently (extract/src/norm.rs,
    alt): annotations repeated before continue and return, loops that know what was known before them.
    -> {function: layout in which the verifier accepted all of it}"""
    src, js = os.path.join(work, "again.rs"), os.path.join(work, "again.json")
    left, done, end = set(fns), {}, min(time.time() + 240, START + 480)
    for level in (1, 2, 3):
        batch = set(left)
        for _ in range(3):
            if not batch or time.time() > end:
                break
            cmd = [EXTRACT, os.path.join(REPO, "src"), CON, src, js, "--alt", ",".join("%s=%d" % (f, level) for f in sorted(batch))]
            if external:
                cmd += ["--external", ",".join(sorted(external))]
            if sh(cmd)[0] != 0:
                break
            meta = json.load(open(js))
            r, ds, _, raw = verus(work, "again.rs", sorted({f.split("::")[0] for f in batch}), limit=min(LIMIT, 120))
            if raw == "TIMEOUT":
                break
            vr = (r or {}).get("verification-results") or {}
            owners = {owner(d, meta["functions"]) for d in ds}
            if crashed(r, ds, raw):
                break
            if r is not None and "verified" in vr and not vr.get("encountered-vir-error") and not any(d.get("code") for d in ds):
                proved = {f["fn"] for f in meta["functions"] if f["note"] != "external"} - {p["fn"] for p in meta["problems"]}
                if None not in owners:
                    for f in (batch & proved) - owners:
                        done[f] = level
                break
            bad = owners & batch
            if not bad:
                break
            batch -= bad
        left -= set(done)
    return done


def prove(prop, modules, info, work, res):
    external = set()
    why = {}
    src, js = os.path.join(work, "unit.rs"), os.path.join(work, "unit.json")
    only = info.get("functions")

    def relevant(fn):
        if not in_modules(fn, modules):
            return False
        return only is None or fn.endswith("::*") or any(fn.startswith(o) for o in only)
    for attempt in range(14):
        if time.time() > START + 420:
            res["undecided"].append("the verifier gave no answer in time")
            return
        cmd = [EXTRACT, os.path.join(REPO, "src"), CON, src, js]
        if external:
            cmd += ["--external", ",".join(sorted(external))]
        rc, out = sh(cmd)
        if rc != 0:
            res["undecided"].append("extraction failed: " + out[-300:])
            return
        meta = json.load(open(js))
        fns = meta["functions"]
        r, ds, vcmd, raw = verus(work, "unit.rs", modules)
        res["cmd"] = vcmd.replace(work, "$WORK")
        if raw == "TIMEOUT":
            res["undecided"].append("the verifier gave no answer within %d s" % LIMIT)
            return
        vr = (r or {}).get("verification-results") or {}
        if crashed(r, ds, raw):
            res["undecided"].append("the verifier ended with an internal error")
            res["output"] = raw[-4000:]
            return
        if r is not None and "verified" in vr and not vr.get("encountered-vir-error") and not any(d.get("code") for d in ds):
            break
        # not accepted as a program: set the offending functions aside, keep the rest
        bad = set()
        for d in ds:
            o = owner(d, fns)
            if o and not o.endswith("::*"):
                bad.add(o)
                why[o] = d["message"]
        bad -= external
        if not bad:
            res["undecided"].append("the verifier does not accept the extracted source: " + "; ".join(sorted(set(d["message"] for d in ds)))[:400])
            res["output"] = raw_text(ds)
            return
        external |= bad
    else:
        res["undecided"].append("the verifier does not accept the extracted source")
        return
    for p in meta["problems"]:
        if relevant(p["fn"]):
            res["undecided"].append("%s: %s" % (p["fn"], p["problem"]))
    for f in sorted(external):
        if relevant(f):
            res["undecided"].append("%s: not accepted by the verifier (%s)" % (f, why.get(f, "")))
    setaside = external | {p["fn"] for p in meta["problems"]}
    owners = {owner(d, fns) or "?" for d in ds}
    again = {o for o in owners if o != "?" and not o.endswith("::*") and relevant(o)}
    settled = other_layouts(work, external, again) if again and "?" not in owners else {}
    for d in ds:
        o = owner(d, fns) or "?"
        if o != "?" and not relevant(o) or o in settled:
            continue
        m = d["message"]
        line = next((s["text"][0]["text"].strip() for s in sorted(d["spans"], key=lambda s: not s["is_primary"]) if s.get("text")), "")
        txt = "%s: %s: %s" % (o, m, line[:160])
        if "rlimit" in m or "Resource limit" in m or "canceled" in m or "unexpected" in m.lower():
            res["undecided"].append(txt)
        elif setaside and calls_any(src, fns, o, setaside):
            # a callee outside the verifier's reach took its (unproved) contract along
            res["failed"].append(txt)
        else:
            res["failed"].append(txt)
    res["output"] = raw_text(ds)
    vr = r["verification-results"]
    res["obligations"] = vr["verified"] + vr["errors"]
    # those of the settled functions were discharged in another run
    res["discharged"] = res["obligations"] if settled and not res["failed"] and not [d for d in ds if owner(d, fns) not in settled] else vr["verified"]
    try:
        res["smt_ms"] = r["times-ms"]["smt"]["total"]
    except KeyError:
        pass
    res["functions"] = [f["fn"] for f in fns if relevant(f["fn"]) and not f["fn"].endswith("::*") and f["fn"] not in setaside and f["note"] != "external"]
    res["trusted"] = trusted()
    res["extraction"] = "functions cut from /repo/src by extract/ on this run, rewriting rules in DESIGN.md; modules verified: " + ", ".join(modules)
    if settled:
        res["extraction"] += "; discharged in another layout of the same contract: " + ", ".join(sorted(settled))
    if not res["functions"]:
        res["undecided"].append("no function of this property could be extracted")


def calls_any(src, fns, o, names):
    return False


def raw_text(ds):
    return "\n".join(d.get("rendered") or d["message"] for d in ds)[:20000]


def trusted():
    """Names of assumed contracts: every external_body / axiom / assume in contracts/."""
    out = []
    for f in sorted(glob.glob(os.path.join(CON, "*"))):
        txt = open(f).read()
        for m in re.finditer(r"(external_body\)?\]?|external_type_specification\]|\baxiom\b|\badmit\(\)|\bassume\()", txt):
            tail = txt[m.end():m.end() + 300]
            n = re.search(r"\b(?:fn|struct|enum)\s+([A-Za-z0-9_]+)", tail)
            out.append("%s: %s" % (os.path.basename(f), n.group(1) if n else txt[m.start():m.end()]))
        for m in re.finditer(r"^fn (\S+)[^\n]* external\b", txt, re.M):
            out.append("%s: %s (contract assumed, body not verified)" % (os.path.basename(f), m.group(1)))
    return sorted(set(out))


def summary(pr):
    print("verus: %d obligations, %d discharged, %d functions under contract, solver %d ms" % (pr["obligations"], pr["discharged"], len(pr["functions"]), pr["smt_ms"]))
    for u in pr["undecided"][:8]:
        print("undecided:", u[:300])
    for u in pr["failed"][:8]:
        print("failed obligation:", u[:300])


if __name__ == "__main__":
    p = run(sys.argv[1], "/tmp")
    if p:
        summary(p)
        print(p.get("wall"))
        if len(sys.argv) > 2:
            print(p["output"])
