#!/usr/bin/env python3
"""Setup: compiles the driver once (warms Go's build cache) and parses every specification."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, shutil
c = vlib.Check("setup", "quick", 1)
try:
    c.build()
    for f in sorted(glob.glob(os.path.join(vlib.SPEC, "*.tla"))):
        r = subprocess.run(["java", "-cp", vlib.CP, "tla2sany.SANY", os.path.basename(f)], cwd=vlib.SPEC, capture_output=True, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout:
            print(r.stdout[-2000:])
            sys.exit(1)
finally:
    shutil.rmtree(c.tmp, ignore_errors=True)
print("ok")
