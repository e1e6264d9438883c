"""Shared plumbing: paths, building the code under test and the replay engines."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TARGET = os.path.join(BUILD, "target")
DBG = os.path.join(TARGET, "debug")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")

ENV = dict(os.environ)
ENV.update({
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "",
    "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_TERM_COLOR": "never",
    "CARGO_TARGET_DIR": TARGET,
})


def sh(cmd, timeout=850, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def drop_fingerprints(*names):
    d = os.path.join(DBG, ".fingerprint")
    if os.path.isdir(d):
        for e in os.listdir(d):
            if any(re.match(n + "-[0-9a-f]+$", e) for n in names):
                shutil.rmtree(os.path.join(d, e), ignore_errors=True)


def seed_target():
    """Third-party dependencies only: reuse /repo's build output where there is some."""
    if os.path.isdir(DBG):
        return
    os.makedirs(DBG, exist_ok=True)
    src = os.path.join(REPO, "target", "debug")
    for d in ("deps", "build", ".fingerprint"):
        if os.path.isdir(os.path.join(src, d)):
            subprocess.call(["cp", "-a", os.path.join(src, d), DBG])


def build_repo():
    seed_target()
    drop_fingerprints("mapeditr")
    rc, out = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bin", "mapeditr"])
    return rc == 0, out


def build_harness():
    seed_target()
    rc, out = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")])
    if rc == 0:
        so = os.path.join(BUILD, "shim.so")
        rc, o2 = sh(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".%d" % os.getpid(), os.path.join(VERIF, "harness", "shim", "shim.c"), "-ldl"])
        out += o2
        if rc == 0:
            os.replace(so + ".%d" % os.getpid(), so)
    return rc == 0, out


def build_unit(name):
    """The unit engines compile /repo's own modules; a changed interface makes them unavailable."""
    d = os.path.join(BUILD, "units")
    mods = open(os.path.join(VERIF, "units", "mods.rs.in")).read().replace("@REPO@", REPO)
    write_if_changed(os.path.join(d, "Cargo.toml"), open(os.path.join(VERIF, "units", "Cargo.toml.in")).read().replace("@VERIF@", VERIF))
    shutil.copyfile(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    src = os.path.join(VERIF, "units", "src")
    for f in os.listdir(src):
        write_if_changed(os.path.join(d, "src", f), open(os.path.join(src, f)).read().replace('include!("mods.rs");\n', mods).replace("@REPO@", REPO))
    drop_fingerprints("vunits")
    rc, out = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml"), "--bin", name])
    return rc == 0, out


def rust_json(l):
    """Rust's {:?} of a string, as JSON."""
    def f(m):
        if m.group(1):
            return "\\u%04x" % min(int(m.group(1), 16), 0xffff)
        return {"\\0": "\\u0000", "\\'": "'"}.get(m.group(0), m.group(0))
    return re.sub(r"\\(?:u\{([0-9a-f]+)\}|.)", f, l)


def last_json(out):
    for l in reversed(out.strip().splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(rust_json(l))
            except ValueError:
                pass
    return None
