"""What each check runs and which violation classes count for its property.

profiles: workload profiles of the simulator with weights; want: properties, or property:class, whose
violations break this check's property (a crash, an invalid memory access, a deadlock or an endless
loop of the engine, "*", counts for every check); quick/thorough: number of simulated runs.
"""

CHECKS = {
    "P01": dict(how="search for a serial order of the recorded history",
                profiles={"mix": 3, "occ": 2, "occtiny": 2, "ltx": 2, "ltxup": 2, "rtx": 1, "scan": 2, "phantom": 1.5, "wp": 1, "gc": 1},
                want=["P01", "P02:not-strict", "P04:aborted-write-visible", "P05:own-write", "P05:own-write-scan", "P03", "P06"], quick=10600, thorough=1500000),
    "P02": dict(how="search for a serial order that respects the real-time order of short transactions",
                profiles={"occ": 3, "mix": 2, "session": 1, "solo": 2, "ltxup": 1, "commit": 1, "phantom": 1}, want=["P02", "P01"], quick=10600, thorough=1500000),
    "P03": dict(how="scan results against the serial order and the requested range",
                profiles={"scan": 4, "phantom": 4, "own": 2, "rtx": 2, "mix": 1}, want=["P03", "P05:own-write-scan", "P01", "P06"], quick=10600, thorough=1500000),
    "P04": dict(how="values of aborted transactions must never be observed, written or recovered",
                profiles={"abort": 4, "own": 1, "crash": 1, "state": 1, "mix": 1, "bulk": 0.3}, want=["P04", "P01:garbage-value", "P01", "P19:log-uncommitted"], quick=9200, thorough=1300000),
    "P05": dict(how="status of every operation against a model of the transaction's own writes",
                profiles={"own": 4, "abort": 2, "scan": 1, "mix": 1, "ltxup": 1, "bulk": 1}, want=["P05", "P04:inline", "P01"], quick=10600, thorough=1500000),
    "P06": dict(how="reads of read-only transactions against one committed state",
                profiles={"rtx": 4, "gc": 2, "mix": 1, "ltx": 1}, want=["P06", "P01"], quick=10600, thorough=1500000),
    "P07": dict(how="commit answers counted and compared with the installed writes",
                profiles={"commit": 4, "abort": 1, "state": 1, "mix": 1, "crash": 1, "bulk": 0.4}, want=["P07", "P18:inline", "P04", "P01", "P15:inline"], quick=9200, thorough=1300000),
    "P08": dict(how="crashes at seeded points, recovered contents against announced durability",
                profiles={"crash": 3, "crashocc": 3, "durable": 1}, want=["P08", "P20"], quick=5300, thorough=700000),
    "P09": dict(how="crashes at seeded points, recovered contents against transaction-closed prefixes",
                profiles={"crash": 4, "crashocc": 3, "bulk": 0.6}, want=["P09", "P08", "P04", "P19:log-order"], quick=5300, thorough=700000),
    "P10": dict(how="orderly restarts, contents before and after compared",
                profiles={"restart": 5, "ddl": 1, "seq": 1}, want=["P10", "P09", "P08"], quick=4000, thorough=500000),
    "P11": dict(how="table operations against a model, with restarts and crashes",
                profiles={"ddl": 1}, want=["P11", "P10", "P08", "P09"], quick=5300, thorough=700000),
    "P12": dict(how="sequence operations against a model, with restarts and crashes",
                profiles={"seq": 1}, want=["P12"], quick=5900, thorough=800000),
    "P13": dict(how="long transactions against short ones only, every failure is a violation",
                profiles={"solo": 5, "wp": 2, "strand": 1}, want=["P13"], quick=10600, thorough=1500000),
    "P14": dict(how="reservations and read areas against the documented results",
                profiles={"wp": 4, "ltx": 2, "mix": 1, "abort": 1}, want=["P14", "P13:reservation"], quick=9200, thorough=1300000),
    "P15": dict(how="bounded progress once faults stop, deadlock and starvation detection",
                profiles={"progress": 4, "ltx": 1, "commit": 1, "mix": 1, "session": 1, "strand": 1, "restart": 1}, want=["P15", "P20"], quick=7900, thorough=1200000),
    "P16": dict(how="every memory access checked against the simulated heap, memory growth over rounds",
                profiles={"gc": 4, "gcround": 0.25, "mix": 1, "ddl": 1, "abort": 1, "strand": 1}, want=["P16"], quick=7300, thorough=1000000),
    "P17": dict(how="polled transaction states against the recorded outcome",
                profiles={"state": 1}, want=["P17"], quick=8600, thorough=1200000),
    "P18": dict(how="sessions opened, closed and reused against a model",
                profiles={"session": 4, "strand": 1}, want=["P18", "P05"], quick=9200, thorough=1300000),
    "P19": dict(how="log entries compared with the committed writes and their serial order",
                profiles={"log": 5, "abort": 1, "crash": 1, "bulk": 0.3}, want=["P19", "P08:marker"], quick=7300, thorough=1000000),
    "P20": dict(how="announcement of durability within a bounded time after the last commit",
                profiles={"durable": 1}, want=["P20", "P08"], quick=10600, thorough=1500000),
}

# components driven directly and the properties that rest on them; each check gives them a share of its runs
PARTS = {
    "part_tid": "P01 P02 P03 P04 P05 P06 P08 P09 P13 P15 P16 P19",
    "part_record": "P01 P02 P03 P04 P05 P06 P16 P19",
    "part_readby": "P01 P02 P03 P13 P16",
    "part_wplock": "P01 P02 P06 P13 P14 P15",
    "part_wpmeta": "P01 P02 P03 P04 P06 P13 P14 P15 P16 P18",
    "part_answers": "P04 P05 P06 P07 P10 P11 P13 P14 P17 P18 P19",
    "part_sets": "P01 P02 P03 P04 P05 P07 P12 P13 P15 P19",
    "part_notify": "P07 P08 P10 P15 P16 P17 P20",
}
PART_SHARE = 0.16
# the whole engine used by one client, against an exact model
WHOLE = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P18 P19 P20"
WHOLE_SHARE = 0.06
for _pid, _c in CHECKS.items():
    _names = [n for n, ps in PARTS.items() if _pid in ps.split()]
    _sum = sum(_c["profiles"].values())
    for n in _names:
        _c["profiles"][n] = round(_sum * PART_SHARE / (1 - PART_SHARE) / len(_names), 3)
    if _pid in WHOLE.split():
        _c["profiles"]["part_one"] = round(_sum * WHOLE_SHARE, 3)

NOT_CLAIMED = {}

FAULT_NAMES = ["crash_at_event", "crash_at_log_site", "crash_after_workload", "shutdown_with_flush", "shutdown_forced", "runs_with_slow_log_device", "thread_stalls", "late_timers", "clock_fast_forwards", "accesses_in_halves"]
SITE_NAMES = ["-", "begin_session", "add_entry", "before_sync", "after_sync", "before_epoch_record", "after_epoch_record", "after_durability_callback", "switch_epoch", "recovery"]
PROBE_NAMES = ["engine_error_log_lines", "component_runs"]

COMPONENTS = {
    "real": ["all sources of /repo/src (concurrency control, long/short/read-only transactions, epochs, background commit, garbage collection, write-ahead log layer, recovery, "
             "start-up and shutdown), compiled unmodified from the working tree", "libstdc++, TBB, glog, boost"],
    "stub": ["yakushima (ordered index): tree of small leaves with node versions, same interface", "limestone (log store): in-memory channels, epoch file, snapshot and recovery with the crash semantics of the real one",
             "operating system scheduler, clocks, sleeps, condition variables, mutexes and memory allocator (under the simulator's control)"],
}
ASSUMPTIONS = [
    "the index and the log store are stand-ins written from their published interfaces; defects of the real libraries are out of scope",
    "executions are sequentially consistent: reordering by weak memory models is not simulated",
    "index operations are atomic except that scans advance leaf by leaf",
    "allocation failures are not injected (the engine does not handle them)",
]
