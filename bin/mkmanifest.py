#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (run by hand after changing the table)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS, NOT_CLAIMED  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded exploration: %d runs of the real engine per quick check, each with a generated workload, schedule and fault sequence; nothing is said about schedules that were not run. "
        "Trusted: the simulator, the stand-ins for the index and the log store, the oracle; sequentially consistent memory is assumed.")
m = {
    "version": 1,
    "setup_cmd": "python3 bin/build.py",
    "checks": [
        {"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
         "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + c["how"],
         "level": "exploration", "level_note": NOTE % c["quick"]}
        for p, c in CHECKS.items() if p not in NOT_CLAIMED
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_CLAIMED.items()],
    "notes": "No hooks in /repo: the seams are the compiler's instrumentation, interposed system calls and stand-ins for the two libraries that are not part of the repository. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
