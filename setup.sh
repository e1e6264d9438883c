#!/bin/bash
# Builds the replay engines and the extractor; every check redoes whatever is missing.
cd "$(dirname "$(realpath "$0")")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
from common import *
for n, f in (("repo", build_repo), ("harness", build_harness)):
    ok, out = f()
    print(n, "built" if ok else out[-3000:])
    if not ok:
        sys.exit(1)
for u in ("u_spatial", "u_codec", "u_db", "u_utils"):
    print(u, build_unit(u)[0])
try:
    import proof
    print("extractor", proof.build_extractor())
except ImportError:
    pass
P
