#!/usr/bin/env python3
"""setup_cmd: builds libhfst from /repo and every harness (the checks rebuild whatever has changed since)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import HARNESS
t = time.time()
for k, f in sorted(HARNESS.items()):
    f(build); print(k, "%.1fs" % (time.time() - t), flush=True)
