#!/usr/bin/env python3
"""mkseed.py ID: completes seeded/ID (demo.cpp, patch.diff, meta.json written by hand) with the frame its demonstration needs."""
import os
import shutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d = os.path.join(V, "seeded", i)
    kit = os.path.join(d, "kit")
    shutil.rmtree(kit, ignore_errors=True)
    for s in ("core", "stub"):
        shutil.copytree(os.path.join(V, "sim", s), os.path.join(kit, "sim", s))
    for f in ("demo.h", "build.sh"):
        shutil.copy(os.path.join(V, "bin/demokit", f), os.path.join(kit, f))
    shutil.copy(os.path.join(V, "bin/demokit/demo.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
