#!/usr/bin/env python3
"""setup_cmd: build the engine, std's IR and every harness crate once."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for n in sorted(os.listdir(build.V + "/harness")):
    if n == "symrt" or not os.path.exists(build.V + "/harness/%s/Cargo.toml" % n): continue
    t = time.time(); r = build.build(n); print(n, bool(r), "%.0fs" % (time.time() - t), flush=True)
    if not r: sys.exit(1)
