#!/usr/bin/env python3
"""origlines.py ID...: how many lines of the original repository (not of commits added here) a planted change removes"""
import os
import re
import subprocess
import sys

BASE = "cd7f89d"
new = set(subprocess.run(["git", "-C", "/repo", "rev-list", BASE + "..HEAD"], capture_output=True, text=True).stdout.split())
for i in sys.argv[1:]:
    own = orig = 0
    f = None
    for l in open("%s/seeded/%s/patch.diff" % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), i)):
        m = re.match(r"--- a/(.*)", l)
        if m:
            f = m.group(1).strip()
            blame = [x.split()[0].lstrip("^") for x in subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f],
                                                                       capture_output=True, text=True).stdout.splitlines()]
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1)) - 1
            continue
        if f is None or l.startswith(("+", "diff", "index")):
            continue
        if l.startswith("-"):
            if any(c.startswith(blame[n][:39]) for c in new):
                own += 1
            else:
                orig += 1
        n += 1
    print(i, "original", orig, "own", own)
