#!/bin/bash
# Warms the build cache for the checks; each check also builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, ".")
from check import build
from checks import CHECKS
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    todo = {s for c in CHECKS.values() for s in c["stages"]} | {(b, s[1]) for c in CHECKS.values() for b in c.get("binaries", []) for s in c["stages"]}
    for harness, race in sorted(todo):
        build(harness, race, work)
        print("built", harness, "with race detector" if race else "")
finally:
    shutil.rmtree(work, ignore_errors=True)
P
