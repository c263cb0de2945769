#!/bin/sh
# Warms the build cache: instruments and compiles the harness once.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import vlib
w = vlib.Work("setup")
try:
    print(vlib.build(w)[1])
    print(vlib.build(w, os_dirs="antcache,internal")[1])
finally:
    w.close()
P
