#!/usr/bin/env python3
"""check.py ID [--thorough] [args]: rebuild from /repo's working tree, then run the explorer of property ID."""
import os, sys, time, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import HARNESS
from props import P
def main():
    pid = sys.argv[1]; t = time.time()
    try:
        exe = HARNESS[pid](build)
    except build.BuildError as e:
        print("BUILD-ERROR", e); return 2
    env = dict(os.environ, VERIF_DIR=build.VERIF, VERIF_BUILD_S="%.2f" % (time.time() - t), LC_ALL="C.UTF-8", VERIF_RULE=P[pid]["rule"], VERIF_ASSUME=P[pid]["assume"])
    print("built in %.1fs" % (time.time() - t), flush=True)
    return subprocess.call([exe] + sys.argv[2:] if isinstance(exe, str) else exe + sys.argv[2:], env=env)
sys.exit(main())
