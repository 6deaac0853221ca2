// Deterministic simulator core: one running thread at a time, seeded scheduler,
// simulated clock, checked arena allocator.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

// splitmix/xorshift style PRNG: the only randomness in a run
struct Rng {
    uint64_t s{0x9e3779b97f4a7c15ULL};
    Rng() = default;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    // log-uniform in [a,b]
    uint64_t logu(uint64_t a, uint64_t b);
};
uint64_t mix(uint64_t a, uint64_t b);

constexpr int MAX_THREADS = 96;

// one scheduling decision: thread tid, after `local` own events, handed over to `target`
struct Decision {
    uint32_t tid;
    uint32_t target;
    uint64_t local;
};

// shared with the supervising process; survives the death of the simulated process
struct TraceBuf {
    static constexpr uint32_t CAP = 1U << 16;
    uint32_t n;
    uint32_t overflow;
    Decision d[CAP];
};

enum ExitCode : int {
    EXIT_OK = 0,
    EXIT_CRASH = 40,    // injected crash
    EXIT_DEADLOCK = 41, // nothing runnable, nothing sleeping
    EXIT_STEPS = 42,    // event budget exhausted
    EXIT_MEM = 43,      // access to memory that is not allocated
    EXIT_HARNESS = 44,  // error in the simulator itself
    EXIT_ORACLE = 45,   // inline invariant violated
};

struct Outcome { // written by the dying process
    int32_t code;
    char msg[1500];
    uint64_t events;
    uint64_t now_ns;
    uint64_t switches;
    uint64_t decisions;
    uint64_t sched_hash;
    uint64_t stalls;
    uint64_t fast_forwards;
    uint64_t late_timers;
    uint64_t threads;
    uint64_t tears;
    uint64_t crash_at_point;
};

struct Config {
    uint64_t seed{1};
    int policy{0};               // 0 random walk, 1 priorities with change points, 2 long slices
    uint64_t mean_interval{50};  // events between preemption decisions
    uint64_t ns_per_event{50};
    uint64_t max_events{60000000};
    uint32_t ff_permille{5};     // fast forward to a sleeper although others can run
    uint32_t stall_permille{0};  // stall a thread (per decision)
    uint64_t stall_ns{0};
    uint32_t late_timer_permille{0};
    uint64_t late_timer_ns{0};
    uint32_t pct_changes{3};
    uint64_t pct_span{200000};
    uint64_t crash_event{0};     // kill the process at this event count (0: never)
    // replay
    const Decision* replay{nullptr};
    uint32_t replay_n{0};
    bool replay_mode{false};
    TraceBuf* trace{nullptr};
    Outcome* out{nullptr};
};

void start(const Config& c); // calling thread becomes simulated thread 0
bool active();
int self();
uint64_t now_ns();
uint64_t seq();              // global, strictly increasing stamp
uint64_t events();
void set_max_events(uint64_t n);
void set_crash_event(uint64_t n);
void point(unsigned w = 4);  // possible preemption
void pause();                // spin hint: let others run
void sleep_ns(uint64_t ns);
void no_preempt(bool on);    // harness sections
void stop_faults();          // no further stalls, late timers or crashes
[[noreturn]] void die(int code, const char* fmt, ...);
void note_hash(uint64_t v);
const char* describe_threads(char* buf, size_t n);
uint64_t heap_live_bytes();
uint64_t heap_live_objects();
// what a stand-in allocates while it holds one of these is not counted as the engine's memory
extern int g_aside;
struct Aside {
    Aside() { ++g_aside; }
    ~Aside() { --g_aside; }
};
void heap_watch(bool on);
void heap_dump(int round);
void canonical_heap();       // call before start(): heap addresses repeat from here on

struct NoPreempt {
    NoPreempt() { no_preempt(true); }
    ~NoPreempt() { no_preempt(false); }
};

} // namespace sim

extern "C" void sim_pause(void);
