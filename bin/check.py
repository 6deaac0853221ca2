#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property by seeded simulation
check.py replay FILE [-v]                      run a replay file again
check.py sweep SECONDS [PROFILE...]            look for anything in every profile (triage)

Exit 0: the property held in every simulated run (known findings are printed), 1: violation, with a
line VIOLATION property=<id> replay=<path>; anything else: the check could not decide.
"""
import argparse
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from table import CHECKS, ASSUMPTIONS, COMPONENTS, FAULT_NAMES, PROBE_NAMES, SITE_NAMES  # noqa: E402

VERIF = build.VERIF
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    """lines 'known: property=<id> class=<class> <what fails>'; 'fixed:' lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line.strip())
            if m:
                out.append({"props": m.group(1).split(","), "cls": m.group(2), "what": m.group(3), "seen": 0})
    return out


def wanted(cfg, v):
    """does this violation break the property of this check?"""
    if v["prop"] == "HARNESS":
        return True
    if v["prop"] == "*":
        return True
    for p in v["prop"].split("+"):
        for w in cfg["want"]:
            if w == p or w == p + ":" + v["cls"]:
                return True
    return False


def sim_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("SHIRAKAMI_", "TSURUGI_", "GLOG_", "SIM_"))}
    return e


class Campaign:
    def __init__(self, exe, tmp, jobs, on_violation):
        """jobs: list of (profile, first, stride, runs); every job is one process"""
        self.exe, self.tmp, self.jobs = exe, tmp, list(jobs)
        self.on_violation = on_violation
        self.summaries, self.hashes, self.bad = [], [], []
        self.stop = False
        self.procs = set()
        self.lock = threading.Lock()

    def worker(self, deadline):
        while not self.stop:
            with self.lock:
                if not self.jobs:
                    return
                n = len(self.jobs)
                prof, first, stride, runs = self.jobs.pop(0)
            left = deadline - time.time()
            if left <= 0:
                return
            hf = os.path.join(self.tmp, "h.%s.%d.%d" % (prof, first, n))
            p = subprocess.Popen([self.exe, "camp", prof, str(first), str(stride), "%.1f" % left, "", hf, str(runs)],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=self.tmp, env=sim_env(), start_new_session=True)
            with self.lock:
                self.procs.add(p)
            for line in p.stdout:
                try:
                    d = json.loads(line)
                except ValueError:
                    self.bad.append(line[:200])
                    continue
                if d.get("summary"):
                    self.summaries.append(d)
                elif d.get("violation"):
                    with self.lock:
                        if self.on_violation(d):
                            self.stop = True
            p.wait()
            with self.lock:
                self.procs.discard(p)
            if os.path.exists(hf):
                for line in open(hf):
                    f = line.split()
                    if len(f) == 5:
                        self.hashes.append((prof, int(f[0]), f[1], f[2], f[3], f[4] == "1"))
                os.unlink(hf)

    def run(self, seconds, workers):
        deadline = time.time() + seconds
        ts = [threading.Thread(target=self.worker, args=(deadline,)) for _ in range(workers)]
        for t in ts:
            t.start()
        hard = deadline + 60
        while any(t.is_alive() for t in ts):
            time.sleep(0.1)
            if self.stop or time.time() > hard:
                time.sleep(1.0)
                with self.lock:
                    for p in list(self.procs):
                        try:
                            os.killpg(p.pid, 9)
                        except OSError:
                            pass
                self.stop = True
        for t in ts:
            t.join()


def run_once(exe, tmp, prof, seed):
    r = subprocess.run([exe, "run", prof, str(seed)], capture_output=True, text=True, cwd=tmp, env=sim_env(), timeout=400)
    for line in r.stdout.splitlines():
        if line.startswith('{"profile"'):
            return json.loads(line)
    return None


def sum_into(tot, s):
    for k, v in s.items():
        if k in ("profile", "summary", "wall_s"):
            continue
        if isinstance(v, list):
            a = tot.setdefault(k, [0] * len(v))
            for i, x in enumerate(v):
                a[i] += x
        elif isinstance(v, (int, float)):
            tot[k] = tot.get(k, 0) + v


def check(pid, tier, seed):
    t0 = time.time()
    cfg = CHECKS[pid]
    try:
        exe = build.build()
    except RuntimeError as e:
        print("ERROR: the engine does not build:\n" + str(e))
        return 2
    t_build = time.time() - t0
    workers = int(os.environ.get("SIM_WORKERS", os.cpu_count() or 8))
    known = [k for k in known_findings() if pid in k["props"]]
    seen = collections.Counter()
    fresh = []
    harness = []
    other = collections.Counter()

    def on_violation(d):
        if d["prop"] == "HARNESS":
            harness.append(d)
            return True
        if not wanted(cfg, d):
            other[d["prop"] + ":" + d["cls"]] += 1
            return False
        for k in known:
            if k["cls"] == d["cls"]:
                k["seen"] += 1
                return False
        seen[d["prop"] + ":" + d["cls"]] += 1
        fresh.append(d)
        return True

    # the runs are a fixed set of seeds, so that the outcome does not depend on the speed or the
    # number of the processors; the time limit is only a safety net
    runs, limit = (cfg["quick"], 240.0) if tier == "quick" else (cfg["thorough"], float(os.environ.get("SIM_THOROUGH_S", "3300")))
    weights = cfg["profiles"]
    wsum = sum(weights.values())
    base = 1 + seed * 1000003 % (1 << 40)
    jobs = []
    chunk = 50 if tier == "quick" else 500
    per = {p: max(8, int(runs * w / wsum)) for p, w in weights.items()}
    for p in weights:
        for a in range(0, per[p], chunk):
            jobs.append((p, base + a, 1, min(chunk, per[p] - a)))
    # interleave the profiles, so that a cut-off touches all of them alike
    byp = collections.defaultdict(list)
    for j in jobs:
        byp[j[0]].append(j)
    order = []
    for p, js in byp.items():
        order += [((i + 0.5) / len(js), j) for i, j in enumerate(js)]
    jobs = [j for _, j in sorted(order, key=lambda x: x[0])]

    with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
        exe = shutil.copy(exe, os.path.join(tmp, "simrun"))  # a build of another tree may prune the original
        c = Campaign(exe, tmp, jobs, on_violation)
        t1 = time.time()
        c.run(limit, workers)
        wall = time.time() - t1
        if harness:
            print("ERROR: the simulator itself failed: " + json.dumps(harness[0])[:600])
            return 3
        if c.bad:
            print("ERROR: unreadable output of the simulator: " + c.bad[0])
            return 3
        tot = {}
        for s in c.summaries:
            sum_into(tot, s)
        # determinism: the same seeds again, one fresh process each
        step = max(1, len(c.hashes) // (16 if tier == "quick" else 64))
        sample = sorted(c.hashes)[::step][: 16 if tier == "quick" else 64]
        mism = []
        if not fresh:
            def again(h):
                r = run_once(exe, tmp, h[0], h[1])
                if r is None or r["hash"] != h[2]:
                    mism.append((h[0], h[1], h[2], r and r["hash"]))
            import concurrent.futures
            with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
                list(ex.map(again, sample))
        distinct = {(p, sh, shape) for p, _, _, sh, shape, nt in c.hashes if nt}
        status = 0
        reported = []
        if fresh:
            status = report(exe, tmp, pid, fresh, known, reported)
        elif mism:
            print("ERROR: not deterministic: %s" % (mism[:3],))
            status = 3
        nruns = tot.get("runs", 0)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": nruns,
                "distinct_nontrivial": len(distinct),
                "rule": "one evaluation is one simulated run (a generated workload, one schedule, one fault sequence, all oracles of the property over its history); "
                        "distinct_nontrivial counts different pairs of (schedule hash, history shape) among runs in which at least two transactions committed",
                "samples": ["simrun run %s %d" % (p, s) for p, s, *_ in sorted(c.hashes)[:: max(1, len(c.hashes) // 5)][:5]],
                "runs_per_profile": dict(collections.Counter(h[0] for h in c.hashes)),
                "planned_runs": sum(per.values()),
                "seeds": {"base": base, "per_profile": per},
                "runs_per_hour": int(nruns / wall * 3600) if wall > 0 else 0,
                "simulated_seconds": round(tot.get("sim_s", 0), 3),
                "incarnations": tot.get("incarnations", 0),
                "events": tot.get("events", 0), "context_switches": tot.get("switches", 0), "schedule_decisions": tot.get("decisions", 0),
                "distinct_schedules": len({h[3] for h in c.hashes}), "distinct_histories": len({h[4] for h in c.hashes}),
                "history_records": tot.get("records", 0),
                "transactions": {k: tot.get(k, 0) for k in ("committed", "aborted", "inflight", "open", "waits", "premature")},
                "committed_by_mode": dict(zip(("short", "long", "read_only"), tot.get("committed_by_mode", [0] * 3))),
                "observations": {k: tot.get(k, 0) for k in ("reads", "absents", "rows")},
                "serial_order_searches": {"searches": tot.get("searches", 0), "nodes": tot.get("nodes", 0), "inconclusive": tot.get("inconclusive", 0)},
                "durable_transactions_checked": tot.get("must", 0),
                "faults_injected": dict(zip(FAULT_NAMES, tot.get("faults", []))),
                "crashes_by_log_site": dict(zip(SITE_NAMES, tot.get("crash_sites", []))),
                "log": {k: tot.get(k, 0) for k in ("log_sessions", "log_entries", "torn_sessions", "lost_entries", "epoch_writes")},
                "probes": {n: v for n, v in zip(PROBE_NAMES, tot.get("probes", []))},
                "determinism": {"seeds_repeated_in_a_fresh_process": len(sample) if not fresh else 0, "mismatches": len(mism)},
                "components": COMPONENTS,
                "other_classes_seen": dict(other),
                "known_findings_seen": {k["cls"]: k["seen"] for k in known},
                "build_s": round(t_build, 1), "campaign_s": round(wall, 1), "workers": workers,
            },
            "wall_s": round(time.time() - t0, 2),
            "assumptions": ASSUMPTIONS,
        }
        if reported:
            ev["violations"] = reported
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (class %s, met in %d runs)" % (pid, k["what"], k["cls"], k["seen"]))
    print("%s %s: %d runs, %d distinct, %d workers, build %.1f s, campaign %.1f s, exit %d" % (pid, tier, nruns, len(distinct), workers, t_build, wall, status))
    return status


def report(exe, tmp, pid, fresh, known, reported):
    """confirm, minimise and print the violations; 1 if one stands, 3 if none could be reproduced"""
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    done = set()
    status = 3
    kn = {k["cls"] for k in known}
    for d in fresh[:6]:
        k = d["prop"] + ":" + d["cls"]
        if k in done or len(done) >= 2:
            continue
        # the same seed twice more, in fresh processes
        a, b = run_once(exe, tmp, d["profile"], d["seed"]), run_once(exe, tmp, d["profile"], d["seed"])
        if a is None or b is None or a["hash"] != b["hash"] or a["hash"] != d["hash"]:
            print("ERROR: seed %s/%d does not repeat itself: %s %s %s" % (d["profile"], d["seed"], d["hash"], a and a["hash"], b and b["hash"]))
            continue
        path = os.path.join(rdir, "%s-%s-%d.replay" % (pid, d["profile"], d["seed"]))
        ok = False
        for secs in ("25", "0"):
            try:
                subprocess.run([exe, "shrink", d["profile"], str(d["seed"]), k, secs, path], capture_output=True, text=True, cwd=tmp, env=sim_env(), timeout=300)
            except subprocess.TimeoutExpired:
                continue
            try:
                r = subprocess.run([exe, "replay", path], capture_output=True, text=True, cwd=tmp, env=sim_env(), timeout=300)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1:
                ok = True
                break
        if not ok:
            print("ERROR: the replay file of %s/%d does not reproduce %s" % (d["profile"], d["seed"], k))
            continue
        done.add(k)
        status = 1
        print("class %s profile %s seed %d: %s" % (k, d["profile"], d["seed"], d["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        reported.append({"class": k, "profile": d["profile"], "seed": d["seed"], "message": d["msg"][:600], "replay": path})
    return status


def sweep(args):
    secs = float(args[0])
    exe = build.build(True)
    profs = args[1:] or subprocess.run([exe, "profiles"], capture_output=True, text=True).stdout.split()
    first = int(os.environ.get("SIM_FIRST", "1"))
    out = collections.defaultdict(list)
    known = {k["cls"] for k in known_findings()}

    def on_violation(d):
        out[d["prop"] + ":" + d["cls"]].append(d)
        return False

    with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
        exe = shutil.copy(exe, os.path.join(tmp, "simrun"))
        w = int(os.environ.get("SIM_WORKERS", os.cpu_count() or 8))
        jobs = []
        for a in range(0, 100000):
            for p in profs:
                jobs.append((p, first + a * 100, 1, 100))
        c = Campaign(exe, tmp, jobs, on_violation)
        c.run(secs, w)
        tot = {}
        for s in c.summaries:
            sum_into(tot, s)
        print("runs", tot.get("runs"), collections.Counter(h[0] for h in c.hashes).most_common(3), "inconclusive", tot.get("inconclusive"))
    for k, ds in sorted(out.items(), key=lambda x: -len(x[1])):
        print("%5d %s%s" % (len(ds), k, " (known)" if k.split(":", 1)[1] in known else ""))
        if k.split(":", 1)[1] not in known:
            for d in ds[:4]:
                print("        %s %d: %s" % (d["profile"], d["seed"], d["msg"][:300]))


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        exe = build.build()
        sys.exit(subprocess.run([exe, "replay"] + sys.argv[2:], env=sim_env()).returncode)
    if len(sys.argv) >= 3 and sys.argv[1] == "sweep":
        sweep(sys.argv[2:])
        sys.exit(0)
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = ap.parse_args()
    if a.property not in CHECKS:
        print("ERROR: no check for", a.property)
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(check(a.property, a.tier, a.seed))


if __name__ == "__main__":
    main()
