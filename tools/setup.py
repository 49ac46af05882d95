#!/usr/bin/env python3
"""setup_cmd: nothing is compiled ahead of the checks (each builds what it needs
from /repo); this only confirms that the tools are there and the specs parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                        "tla2sany.SANY", f], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode or "*** Errors:" in r.stdout or "Could not" in r.stdout:
        bad = 1
        print(f, r.stdout[-1500:])
sys.exit(bad)
