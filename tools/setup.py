#!/usr/bin/env python3
"""Nothing has to be installed: checks that the tools the checks use are there and that every specification parses."""
import glob, os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for t in ("java", "g++", "clang++"):
    if not shutil.which(t):
        sys.exit(t + " is missing")
import concurrent.futures as cf
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def sany(f):
    r = subprocess.run(["java", "-cp", J, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f), capture_output=True, text=True)
    return f, r.returncode, r.stdout + r.stderr
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for f, rc, out in ex.map(sany, sorted(glob.glob(os.path.join(V, "spec", "*.tla")))):
        if rc:
            bad = 1
            print(f, out[-1500:])
print("specifications parsed")
sys.exit(bad)
