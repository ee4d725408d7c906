#!/bin/bash
# Prepares /verif/.build: compiles everything once so that the checks' own builds hit the cache.
cd "$(dirname "$0")" || exit 1
/opt/vp/venv/bin/python - <<'P'
import glob, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from vp import build, harness
t = ["_vmecpp"] + sorted(os.path.basename(f)[:-3] for f in glob.glob("cpp/vx_*.cc"))
try:
    build.build(t, tag="setup")
except build.BuildError as e:   # each check builds what it needs and reports on its own
    print(e)
P
rm -rf /verif/.build/cmake-setup
exit 0
