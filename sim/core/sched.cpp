// Seeded scheduler. Real threads, but exactly one runs at any time; who runs next is
// decided here at intercepted events: memory accesses and atomics (compiler callbacks),
// pthread primitives, sleeps and clocks (symbol interposition).
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include "mem.h"
#include "sim.h"

namespace sim {

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static unsigned ilog2(uint64_t v) { return 63 - __builtin_clzll(v | 1); }
uint64_t Rng::logu(uint64_t a, uint64_t b) {
    if (a < 1) a = 1;
    unsigned lo = ilog2(a);
    unsigned hi = ilog2(b);
    unsigned e = static_cast<unsigned>(range(lo, hi));
    uint64_t v = (1ULL << e) + below(1ULL << e);
    if (v < a) v = a;
    if (v > b) v = b;
    return v;
}

enum State { RUN, SLEEP, BLOCK, BLOCK_T, DONE };

struct TDtor {
    void (*fn)(void*);
    void* arg;
};

struct Thread {
    int id;
    State st;
    bool spin;
    bool stalled;
    int go; // futex
    uint64_t local;
    uint64_t next_preempt;
    uint64_t wake;
    const void* obj;
    bool timed_out;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t real;
    bool detached;
    unsigned weight;
    int64_t prio;
    uint64_t sleeps;
    uint32_t rp; // index into the replay list of this thread
    TDtor dt[32];
    int ndt;
    int nopreempt;
    uint64_t slice; // own events when it was last given the processor
    uint64_t since; // runnable without having run since this event
    // an access of 16 bytes that is not atomic happens in two halves
    int tear;        // 1: a store that is about to happen, 2: a load that is about to happen
    uint64_t* half;  // the half that comes later (1), or that is shown as it was before (2)
    uint64_t keep;   // its content before (1), or the real one (2)
};

static Thread g_t[MAX_THREADS];
static int g_n = 0;
static Thread* g_cur = nullptr;
static __thread Thread* t_self = nullptr;
static bool g_active = false;
static Config g_c;
static Rng g_rng;      // scheduling
static Rng g_frng;     // stalls, late timers
static uint64_t g_events = 0;
static uint64_t g_seq = 0;
static uint64_t g_base_ns = 0; // clock jumps
static uint64_t g_limit = 0;
static uint64_t g_switches = 0;
static uint64_t g_tears = 0;
static uint64_t g_decisions = 0;
static uint64_t g_hash = 0;
static uint64_t g_stalls = 0, g_ffs = 0, g_lates = 0;
static bool g_faults_on = true;
static int64_t g_low_prio = -1;
static int64_t g_high_prio = 2000000;
static uint64_t g_pct_pts[16];
static unsigned g_pct_n = 0, g_pct_i = 0;
// replay lists per thread
static Decision* g_rl[MAX_THREADS];
static uint32_t g_rn[MAX_THREADS];

constexpr uint32_t STALL = 0x8000;
constexpr uint64_t FAIR = 3000000; // a run this long gives every thread the same share from then on
constexpr uint64_t STARVE = 60000; // a runnable thread runs again within about this many events
constexpr uint64_t SLICE = 40000; // a thread cannot keep others from running longer than this
constexpr uintptr_t STACKS = 0x220000000000ULL;
constexpr uintptr_t STACK_SZ = 1ULL << 20;

bool active() { return g_active; }
int self() { return t_self ? t_self->id : -1; }
uint64_t now_ns() { return g_base_ns + g_events * g_c.ns_per_event; }
uint64_t seq() { return ++g_seq; }
uint64_t events() { return g_events; }
void note_hash(uint64_t v) { g_hash = mix(g_hash, v); }

static void futex_wake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void futex_wait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }

static void fill_out(int code) {
    if (Outcome* o = g_c.out) {
        o->code = code;
        o->events = g_events;
        o->now_ns = now_ns();
        o->switches = g_switches;
        o->decisions = g_decisions;
        o->sched_hash = g_hash;
        o->stalls = g_stalls;
        o->tears = g_tears;
        o->fast_forwards = g_ffs;
        o->late_timers = g_lates;
        o->threads = g_n;
    }
}

void die(int code, const char* fmt, ...) {
    g_active = false;
    fill_out(code);
    if (g_c.out) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_c.out->msg, sizeof(g_c.out->msg), fmt, ap);
        va_end(ap);
    } else {
        va_list ap;
        va_start(ap, fmt);
        vfprintf(stderr, fmt, ap);
        va_end(ap);
        fputc('\n', stderr);
    }
    _exit(code);
}

const char* describe_threads(char* buf, size_t n) {
    size_t o = 0;
    static const char* nm[] = {"run", "sleep", "block", "block_t", "done"};
    for (int i = 0; i < g_n && o + 40 < n; ++i) {
        if (g_t[i].st == DONE) continue;
        o += static_cast<size_t>(snprintf(buf + o, n - o, " t%d:%s%s:%llu", i, nm[g_t[i].st], g_t[i].spin ? "*" : "", (unsigned long long)g_t[i].local));
    }
    return buf;
}

static bool eligible(Thread& t) {
    if (t.st == RUN) return true;
    if ((t.st == SLEEP || t.st == BLOCK_T) && t.wake <= now_ns()) {
        if (t.st == BLOCK_T) t.timed_out = true;
        t.st = RUN;
        t.since = g_events;
        t.stalled = false;
        t.obj = nullptr;
        return true;
    }
    return false;
}

static void record(Thread* me, uint32_t target) {
    g_hash = mix(g_hash, (me->local << 16) ^ (static_cast<uint64_t>(me->id) << 8) ^ target);
    TraceBuf* tb = g_c.trace;
    if (!tb) return;
    if (tb->n >= TraceBuf::CAP) {
        tb->overflow = 1;
        return;
    }
    tb->d[tb->n++] = {static_cast<uint32_t>(me->id), target, me->local};
}

// the sleeping thread with the earliest wake time
static Thread* earliest() {
    Thread* b = nullptr;
    for (int i = 0; i < g_n; ++i) {
        Thread& t = g_t[i];
        if (t.st == SLEEP || t.st == BLOCK_T) {
            if (!b || t.wake < b->wake) b = &t;
        }
    }
    return b;
}

static void jump_to(Thread* t) {
    uint64_t n = now_ns();
    if (t->wake > n) g_base_ns += t->wake - n;
    for (int i = 0; i < g_n; ++i) g_t[i].spin = false;
    eligible(*t);
}

static void check_limits() {
    if (g_c.crash_event && g_faults_on && g_events >= g_c.crash_event) {
        if (g_c.out) g_c.out->crash_at_point = g_events;
        die(EXIT_CRASH, "injected crash at event %llu", (unsigned long long)g_events);
    }
    if (g_events >= g_c.max_events) {
        if (getenv("SIM_HOLD") != nullptr) for (;;) syscall(SYS_pause); // for a debugger
        char b[900];
        die(EXIT_STEPS, "event budget exhausted:%s", describe_threads(b, sizeof(b)));
    }
}

static void set_limit() {
    g_limit = g_c.max_events;
    if (g_c.crash_event && g_faults_on && g_c.crash_event < g_limit) g_limit = g_c.crash_event;
}
void set_max_events(uint64_t n) {
    g_c.max_events = n;
    set_limit();
}
void set_crash_event(uint64_t n) {
    g_c.crash_event = n;
    set_limit();
    if (t_self) t_self->next_preempt = t_self->local; // re-evaluate
}
void stop_faults() {
    g_faults_on = false;
    set_limit();
    for (int i = 0; i < g_n; ++i) {
        Thread& t = g_t[i];
        if (t.st == SLEEP && t.stalled) {
            t.st = RUN;
            t.since = g_events;
            t.stalled = false;
        }
    }
}

static void arm(Thread* t) {
    uint64_t d = UINT64_MAX / 4;
    if (g_c.replay_mode) {
        if (t->rp < g_rn[t->id]) {
            uint64_t l = g_rl[t->id][t->rp].local;
            d = l > t->local ? l - t->local : 0;
        }
    } else {
        // geometric-like: uniform in [1, 2*mean]
        d = 1 + g_rng.below(2 * g_c.mean_interval);
        if (g_c.policy == 1 && g_pct_i < g_pct_n && g_events < FAIR) {
            uint64_t p = g_pct_pts[g_pct_i];
            uint64_t x = p > g_events ? p - g_events : 0;
            if (x < d) d = x;
        }
    }
    uint64_t lim = g_limit > g_events ? g_limit - g_events : 0;
    if (lim < d) d = lim;
    uint64_t rem = t->slice + SLICE > t->local ? t->slice + SLICE - t->local : 0;
    if (rem < d) d = rem;
    t->next_preempt = t->local + d;
}

static Thread* default_pick(Thread* me, bool forced) {
    if (!forced && me->st == RUN) return me;
    Thread* spinner = nullptr;
    for (int k = 1; k <= g_n; ++k) {
        Thread& t = g_t[(me->id + k) % g_n];
        if (!eligible(t)) continue;
        if (!t.spin) return &t;
        if (!spinner) spinner = &t;
    }
    Thread* e = earliest();
    if (e) return e;
    return spinner;
}

static Thread* seeded_pick(Thread* me, bool forced) {
    Thread* c[MAX_THREADS];
    int n = 0;
    int nspin = 0;
    for (int i = 0; i < g_n; ++i) {
        if (!eligible(g_t[i])) continue;
        c[n++] = &g_t[i];
        if (g_t[i].spin) ++nspin;
    }
    Thread* e = nullptr;
    if (n == nspin) {
        // only spinners (or nobody): let time pass
        e = earliest();
        if (e) return e;
        if (n == 0) return nullptr;
        for (int i = 0; i < n; ++i) c[i]->spin = false;
        nspin = 0;
    }
    if (g_c.ff_permille && g_rng.below(1000) < g_c.ff_permille) {
        e = earliest();
        if (e) {
            ++g_ffs;
            return e;
        }
    }
    bool fair = g_events >= FAIR;
    if (g_c.policy == 1 && !fair) {
        while (g_pct_i < g_pct_n && g_events >= g_pct_pts[g_pct_i]) {
            ++g_pct_i;
            me->prio = g_low_prio--;
        }
        Thread* b = nullptr;
        for (int i = 0; i < n; ++i) {
            if (c[i]->spin) continue;
            if (!b || c[i]->prio > b->prio) b = c[i];
        }
        if (b) return b;
    }
    (void)forced;
    uint64_t tot = 0;
    for (int i = 0; i < n; ++i) tot += c[i]->spin ? 1 : 4ULL * (fair ? 1 : c[i]->weight);
    uint64_t r = g_rng.below(tot);
    for (int i = 0; i < n; ++i) {
        uint64_t w = c[i]->spin ? 1 : 4ULL * (fair ? 1 : c[i]->weight);
        if (r < w) return c[i];
        r -= w;
    }
    return c[n - 1];
}

static void apply_stall(uint32_t victim) {
    Thread& t = g_t[victim];
    if (t.st != RUN && t.st != SLEEP) return;
    uint64_t d = g_c.stall_ns / 2 + mix(g_c.seed, 77 + g_stalls) % (g_c.stall_ns + 1);
    uint64_t w = now_ns() + d;
    if (t.st == SLEEP) {
        if (w > t.wake) t.wake = w;
    } else {
        t.st = SLEEP;
        t.wake = w;
    }
    t.stalled = true;
    ++g_stalls;
}

static void hand_over(Thread* me, Thread* n) {
    if (n == me) {
        g_cur = me;
        return;
    }
    ++g_switches;
    me->since = g_events;
    g_cur = n;
    if (me->st == DONE) {
        __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
        futex_wake(&n->go);
        return;
    }
    __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
    futex_wake(&n->go);
    while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
}

static inline bool is_live(const void* p) {
    uintptr_t o = reinterpret_cast<uintptr_t>(p) - ARENA;
    return o >= ARENA_SZ || g_shadow[o >> 4] == 16;
}
// the access is over
static void whole(Thread* t) {
    if (t->tear == 2 && is_live(t->half)) *t->half = t->keep;
    t->tear = 0;
}

// choose who runs next. forced: the caller cannot (or should not) continue
static void reschedule(bool forced) {
    Thread* me = t_self;
    if (me->tear) whole(me);
    check_limits();
    ++g_decisions;
    Thread* n = nullptr;
    bool rec = true;
    Thread* other = nullptr; // set when the slice of the caller is over
    if (!forced && me->st == RUN && me->local >= me->slice + SLICE) {
        me->slice = me->local;
        me->prio = g_low_prio--;
        for (int k = 1; k < g_n && !other; ++k) {
            Thread& t = g_t[(me->id + k) % g_n];
            if (eligible(t) && !t.spin) other = &t;
        }
    }
    for (int i = 0; i < g_n; ++i) eligible(g_t[i]);
    // nobody starves
    for (int i = 0; i < g_n && !other; ++i) {
        Thread& t = g_t[i];
        if (&t == me || t.st != RUN || t.since + STARVE > g_events) continue;
        other = &t;
        t.prio = ++g_high_prio;
        t.spin = false;
    }
    if (g_c.replay_mode) {
        Decision* l = g_rl[me->id];
        while (me->rp < g_rn[me->id] && l[me->rp].local < me->local) ++me->rp;
        while (me->rp < g_rn[me->id] && l[me->rp].local == me->local && (l[me->rp].target & STALL)) {
            apply_stall(l[me->rp].target & ~STALL);
            record(me, l[me->rp].target);
            ++me->rp;
        }
        bool f = forced || me->st != RUN;
        if (me->rp < g_rn[me->id] && l[me->rp].local == me->local) {
            uint32_t tg = l[me->rp].target;
            ++me->rp;
            if (tg < static_cast<uint32_t>(g_n)) {
                Thread& t = g_t[tg];
                if (eligible(t) || t.st == SLEEP || t.st == BLOCK_T) n = &t;
            }
        }
        if (!n) n = other ? other : default_pick(me, f);
        if (!f && n == me) rec = false;
    } else {
        if (g_c.stall_permille && g_faults_on && g_frng.below(1000) < g_c.stall_permille) {
            auto v = static_cast<uint32_t>(g_frng.below(static_cast<uint64_t>(g_n)));
            if (g_t[v].st == RUN || g_t[v].st == SLEEP) {
                record(me, STALL | v);
                apply_stall(v);
            }
        }
        n = other ? other : seeded_pick(me, forced);
        if (!forced && n == me && me->st == RUN) rec = false;
    }
    if (!n) {
        char b[900];
        die(EXIT_DEADLOCK, "deadlock:%s", describe_threads(b, sizeof(b)));
    }
    if (rec) record(me, static_cast<uint32_t>(n->id));
    if (n->st != RUN) jump_to(n);
    n->spin = false;
    if (n != me) {
        n->slice = n->local;
        arm(n);
    }
    hand_over(me, n);
    if (me->st != DONE && n == me) arm(me);
}

static void slow() {
    Thread* me = t_self;
    if (me->nopreempt) {
        me->next_preempt = me->local + 1;
        if (me->tear) whole(me);
        return;
    }
    if (me->tear == 1 && is_live(me->half)) {
        // half of the value is there already
        uint64_t* p = me->half;
        uint64_t v = *p;
        *p = me->keep;
        me->tear = 0;
        ++g_tears;
        reschedule(false);
        if (is_live(p)) *p = v;
        return;
    }
    if (me->tear == 2) {
        // as if the load had not been noticed
        whole(me);
        arm(me);
        return;
    }
    reschedule(false);
}

static inline void ev(unsigned w) {
    Thread* t = t_self;
    if (!g_active || t == nullptr) return;
    t->local += w;
    g_events += w;
    if (t->local >= t->next_preempt) slow();
}

void point(unsigned w) { ev(w); }

void pause() {
    Thread* t = t_self;
    if (!g_active || t == nullptr) return;
    t->local += 4;
    g_events += 4;
    t->spin = true;
    reschedule(true);
}

void no_preempt(bool on) {
    if (t_self) t_self->nopreempt += on ? 1 : -1;
}

static uint64_t late(Thread* t, uint64_t ns) {
    ++t->sleeps;
    if (g_faults_on && g_c.late_timer_permille) {
        uint64_t h = mix(mix(g_c.seed, static_cast<uint64_t>(t->id)), t->sleeps);
        if (h % 1000 < g_c.late_timer_permille) {
            ++g_lates;
            return ns + mix(h, 5) % (g_c.late_timer_ns + 1);
        }
    }
    return ns;
}

void sleep_ns(uint64_t ns) {
    Thread* t = t_self;
    if (!g_active || t == nullptr) return;
    t->local += 4;
    g_events += 4;
    t->wake = now_ns() + late(t, ns);
    t->st = SLEEP;
    reschedule(true);
}

// block the caller on obj
static void block_on(const void* obj) {
    Thread* t = t_self;
    t->obj = obj;
    t->st = BLOCK;
    reschedule(true);
}
static bool block_on_until(const void* obj, uint64_t wake) {
    Thread* t = t_self;
    t->obj = obj;
    t->st = BLOCK_T;
    t->wake = wake;
    t->timed_out = false;
    reschedule(true);
    return t->timed_out;
}
static void wake_all(const void* obj) {
    for (int i = 0; i < g_n; ++i) {
        Thread& t = g_t[i];
        if ((t.st == BLOCK || t.st == BLOCK_T) && t.obj == obj) {
            t.st = RUN;
            t.since = g_events;
            t.obj = nullptr;
            t.spin = false;
        }
    }
}
static void wake_one(const void* obj) {
    int c[MAX_THREADS];
    int n = 0;
    for (int i = 0; i < g_n; ++i) {
        Thread& t = g_t[i];
        if ((t.st == BLOCK || t.st == BLOCK_T) && t.obj == obj) c[n++] = i;
    }
    if (n == 0) return;
    Thread& t = g_t[c[mix(g_c.seed, g_events) % static_cast<uint64_t>(n)]];
    t.st = RUN;
    t.since = g_events;
    t.obj = nullptr;
    t.spin = false;
}

static Thread* new_thread() {
    if (g_n >= MAX_THREADS) die(EXIT_HARNESS, "too many simulated threads");
    Thread* t = &g_t[g_n];
    memset(t, 0, sizeof(*t));
    t->id = g_n++;
    t->st = RUN;
    t->since = g_events;
    static const unsigned ws[] = {1, 1, 2, 4, 8, 4, 4};
    t->weight = ws[mix(g_c.seed, 1000 + static_cast<uint64_t>(t->id)) % 7];
    t->prio = static_cast<int64_t>(1 + mix(g_c.seed, 2000 + static_cast<uint64_t>(t->id)) % 1000000);
    return t;
}

void start(const Config& c) {
    g_c = c;
    g_rng = Rng(mix(c.seed, 1));
    g_frng = Rng(mix(c.seed, 2));
    g_hash = mix(c.seed, 3);
    Thread* t = new_thread();
    t_self = t;
    g_cur = t;
    set_limit();
    if (c.policy == 1) {
        g_pct_n = c.pct_changes > 16 ? 16 : c.pct_changes;
        for (unsigned i = 0; i < g_pct_n; ++i) g_pct_pts[i] = g_rng.below(c.pct_span);
        for (unsigned i = 0; i < g_pct_n; ++i)
            for (unsigned j = i + 1; j < g_pct_n; ++j)
                if (g_pct_pts[j] < g_pct_pts[i]) {
                    uint64_t x = g_pct_pts[i];
                    g_pct_pts[i] = g_pct_pts[j];
                    g_pct_pts[j] = x;
                }
    }
    if (c.replay_mode) {
        for (uint32_t i = 0; i < c.replay_n; ++i)
            if (c.replay[i].tid < MAX_THREADS) ++g_rn[c.replay[i].tid];
        for (int i = 0; i < MAX_THREADS; ++i) {
            if (!g_rn[i]) continue;
            g_rl[i] = static_cast<Decision*>(
                    mmap(nullptr, g_rn[i] * sizeof(Decision), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            g_rn[i] = 0;
        }
        for (uint32_t i = 0; i < c.replay_n; ++i) {
            const Decision& d = c.replay[i];
            if (d.tid < MAX_THREADS) g_rl[d.tid][g_rn[d.tid]++] = d;
        }
    }
    // pre-map stacks so that addresses do not depend on anything else
    g_active = true;
    arm(t);
}

// ---------------------------------------------------------------- threads

using create_t = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
using join_t = int (*)(pthread_t, void**);
static create_t real_create() {
    static create_t f = nullptr;
    if (!f) f = reinterpret_cast<create_t>(dlsym(RTLD_NEXT, "pthread_create"));
    return f;
}
static join_t real_join() {
    static join_t f = nullptr;
    if (!f) f = reinterpret_cast<join_t>(dlsym(RTLD_NEXT, "pthread_join"));
    return f;
}

static void finish_self() {
    Thread* t = t_self;
    while (t->ndt > 0) {
        --t->ndt;
        t->dt[t->ndt].fn(t->dt[t->ndt].arg);
    }
    t->st = DONE;
    wake_all(t);
    reschedule(true);
}

static void* trampoline(void* a) {
    auto* t = static_cast<Thread*>(a);
    t_self = t;
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
    t->ret = t->fn(t->arg);
    finish_self();
    t_self = nullptr;
    return t->ret;
}

static Thread* by_real(pthread_t p) {
    for (int i = 0; i < g_n; ++i)
        if (g_t[i].real == p && i != 0) return &g_t[i];
    return nullptr;
}

} // namespace sim

using namespace sim;

extern "C" {

void sim_pause(void) { sim::pause(); }

// return addresses of the callers, outermost last
static const char* frames(char* b, size_t n, uintptr_t bp) {
    size_t o = 0;
    b[0] = 0;
    char probe;
    auto lo = reinterpret_cast<uintptr_t>(&probe);
    for (int i = 0; i < 12 && o + 20 < n; ++i) {
        if ((bp & 7) != 0 || bp < lo || bp > lo + STACK_SZ) break;
        auto* f = reinterpret_cast<uintptr_t*>(bp);
        o += static_cast<size_t>(snprintf(b + o, n - o, " %#lx", (unsigned long)f[1]));
        if (f[0] <= bp) break;
        bp = f[0];
    }
    return b;
}

void sim_bad_free(void* p, int twice) {
    char b[300];
    die(EXIT_MEM, "%s of %p in thread t%d, called from%s", twice ? "double free" : "free of a non-heap pointer", p, self(),
        frames(b, sizeof(b), reinterpret_cast<uintptr_t>(__builtin_frame_address(0))));
}

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!g_active) return real_create()(out, attr, fn, arg);
    Thread* t = new_thread();
    t->fn = fn;
    t->arg = arg;
    pthread_attr_t a;
    pthread_attr_init(&a);
    void* stk = mmap(reinterpret_cast<void*>(STACKS + static_cast<uintptr_t>(t->id) * STACK_SZ), STACK_SZ, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (stk == MAP_FAILED) die(EXIT_HARNESS, "cannot map a stack");
    pthread_attr_setstack(&a, stk, STACK_SZ);
    int rc = real_create()(&t->real, &a, trampoline, t);
    if (rc != 0) die(EXIT_HARNESS, "pthread_create failed: %d", rc);
    pthread_attr_destroy(&a);
    *out = t->real;
    ev(8);
    return 0;
}

int pthread_join(pthread_t p, void** ret) {
    Thread* t = g_active ? by_real(p) : nullptr;
    if (!t) return real_join()(p, ret);
    ev(4);
    while (t->st != DONE) block_on(t);
    int rc = real_join()(p, ret);
    t->real = 0;
    return rc;
}
int pthread_detach(pthread_t p) {
    Thread* t = g_active ? by_real(p) : nullptr;
    if (t) t->detached = true;
    return 0;
}

int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) {
    Thread* t = t_self;
    if (t && t->ndt < 32) t->dt[t->ndt++] = {fn, arg};
    return 0;
}

// ------------------------------------------------------------ mutex

struct SMutex {
    int owner; // id+1
    int count;
    int a, b;
    int kind;
};
static int myid() { return t_self ? t_self->id + 1 : 1; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
    memset(m, 0, sizeof(*m));
    if (at) {
        int k = 0;
        pthread_mutexattr_gettype(at, &k);
        reinterpret_cast<SMutex*>(m)->kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    auto* s = reinterpret_cast<SMutex*>(m);
    ev(8);
    if (s->owner == myid() && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        ++s->count;
        return 0;
    }
    while (s->owner != 0) {
        if (!g_active) break;
        block_on(m);
    }
    s->owner = myid();
    s->count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    auto* s = reinterpret_cast<SMutex*>(m);
    ev(8);
    if (s->owner == myid() && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        ++s->count;
        return 0;
    }
    if (s->owner != 0) return EBUSY;
    s->owner = myid();
    s->count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    auto* s = reinterpret_cast<SMutex*>(m);
    if ((s->kind & 3) == PTHREAD_MUTEX_RECURSIVE && --s->count > 0) return 0;
    s->owner = 0;
    s->count = 0;
    if (g_active && t_self) {
        wake_all(m);
        ev(8);
    }
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }

// ------------------------------------------------------------ rwlock

struct SRw {
    int readers;
    int writer;
};
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) {
    memset(m, 0, sizeof(*m));
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    auto* s = reinterpret_cast<SRw*>(m);
    ev(8);
    while (s->writer != 0 && g_active) block_on(m);
    ++s->readers;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    auto* s = reinterpret_cast<SRw*>(m);
    ev(8);
    if (s->writer != 0) return EBUSY;
    ++s->readers;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    auto* s = reinterpret_cast<SRw*>(m);
    ev(8);
    while ((s->writer != 0 || s->readers > 0) && g_active) block_on(m);
    s->writer = myid();
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    auto* s = reinterpret_cast<SRw*>(m);
    ev(8);
    if (s->writer != 0 || s->readers > 0) return EBUSY;
    s->writer = myid();
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    auto* s = reinterpret_cast<SRw*>(m);
    if (s->writer != 0) s->writer = 0;
    else if (s->readers > 0) --s->readers;
    if (g_active && t_self) {
        wake_all(m);
        ev(8);
    }
    return 0;
}

// ------------------------------------------------------------ condition variables

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof(*c));
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static void drop(pthread_mutex_t* m) {
    auto* s = reinterpret_cast<SMutex*>(m);
    s->owner = 0;
    s->count = 0;
    wake_all(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!g_active) return 0;
    ev(8);
    drop(m);
    block_on(c);
    return pthread_mutex_lock(m);
}
static int cond_until(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!g_active) return ETIMEDOUT;
    ev(8);
    drop(m);
    uint64_t w = static_cast<uint64_t>(ts->tv_sec) * 1000000000ULL + static_cast<uint64_t>(ts->tv_nsec);
    bool to = block_on_until(c, w);
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_until(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    return cond_until(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (g_active && t_self) {
        wake_one(c);
        ev(8);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (g_active && t_self) {
        wake_all(c);
        ev(8);
    }
    return 0;
}

// ------------------------------------------------------------ once and static guards

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    int* s = reinterpret_cast<int*>(o);
    while (*s == 1 && g_active) block_on(o);
    if (*s == 2) return 0;
    *s = 1;
    fn();
    *s = 2;
    if (g_active) wake_all(o);
    return 0;
}
int __cxa_guard_acquire(uint8_t* g) {
    while (g[1] && g_active && !g[0]) block_on(g);
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
}
void __cxa_guard_release(uint8_t* g) {
    g[0] = 1;
    g[1] = 0;
    if (g_active) wake_all(g);
}
void __cxa_guard_abort(uint8_t* g) {
    g[1] = 0;
    if (g_active) wake_all(g);
}

// ------------------------------------------------------------ time

int nanosleep(const struct timespec* r, struct timespec*) {
    if (g_active && t_self) sim::sleep_ns(static_cast<uint64_t>(r->tv_sec) * 1000000000ULL + static_cast<uint64_t>(r->tv_nsec));
    else syscall(SYS_nanosleep, r, nullptr);
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec*) {
    uint64_t ns = static_cast<uint64_t>(r->tv_sec) * 1000000000ULL + static_cast<uint64_t>(r->tv_nsec);
    if (flags == TIMER_ABSTIME) ns = ns > now_ns() ? ns - now_ns() : 0;
    sim::sleep_ns(ns);
    return 0;
}
int usleep(useconds_t us) {
    sim::sleep_ns(static_cast<uint64_t>(us) * 1000ULL);
    return 0;
}
unsigned sleep(unsigned s) {
    sim::sleep_ns(static_cast<uint64_t>(s) * 1000000000ULL);
    return 0;
}
int sched_yield(void) {
    sim::pause();
    return 0;
}
static constexpr uint64_t EPOCH0 = 1700000000ULL;
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!g_active) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    uint64_t n = now_ns();
    ts->tv_sec = static_cast<time_t>(n / 1000000000ULL);
    ts->tv_nsec = static_cast<long>(n % 1000000000ULL);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ts->tv_sec += EPOCH0;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
int get_nprocs(void) { return 2; }
int get_nprocs_conf(void) { return 2; }
int rand(void) { return static_cast<int>(mix(g_c.seed, ++g_seq) & 0x7fffffff); }

// ------------------------------------------------------------ compiler callbacks

__attribute__((noinline, cold)) static void bad_access(uintptr_t a, size_t n, int wr, void* pc) {
    uint8_t s = g_shadow[(a - ARENA) >> 4];
    char b[300];
    char fr[200] = "";
    if (s == SH_FREED) {
        uintptr_t q = (a - ARENA) >> 4;
        while (q > 0 && g_shadow[q - 1] == SH_FREED) --q;
        auto* blk = reinterpret_cast<uintptr_t*>(ARENA + (q << 4));
        size_t sz = *reinterpret_cast<size_t*>(ARENA + (q << 4) - 16);
        size_t o = 0;
        for (size_t i = 0; i < 6 && (i + 1) * 8 <= sz && blk[i] < 0x100000000ULL && blk[i] != 0; ++i)
            o += static_cast<size_t>(snprintf(fr + o, sizeof(fr) - o, " %#lx", (unsigned long)blk[i]));
    }
    die(EXIT_MEM, "%s of %zu bytes at %p: %s, thread t%d, pc %p called from%s released by%s", wr ? "write" : "read", n,
        reinterpret_cast<void*>(a), s == SH_FREED ? "released memory" : "outside of any allocation", self(), pc,
        frames(b, sizeof(b), reinterpret_cast<uintptr_t>(__builtin_frame_address(0))), fr);
}
static inline void chk(const void* p, size_t n, int wr, void* pc) {
    auto a = reinterpret_cast<uintptr_t>(p);
    uintptr_t o = a - ARENA;
    if (o < ARENA_SZ) {
        uint8_t s = g_shadow[o >> 4];
        size_t need = (o & 15) + n;
        if (need <= 16) {
            if (__builtin_expect(s > 16 || need > s, 0) && g_active) bad_access(a, n, wr, pc);
        } else {
            if (__builtin_expect(s != 16, 0) && g_active) bad_access(a, n, wr, pc);
            uintptr_t last = o + n - 1;
            for (uintptr_t q = (o >> 4) + 1; q <= (last >> 4); ++q) {
                uint8_t x = g_shadow[q];
                size_t nd = q == (last >> 4) ? (last & 15) + 1 : 16;
                if (__builtin_expect(x > 16 || nd > x, 0) && g_active) bad_access(a, n, wr, pc);
            }
        }
    }
}
static inline bool own_stack(const void* p) {
    auto sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    return reinterpret_cast<uintptr_t>(p) - (sp - 4096) < (1U << 19);
}
static inline void plain(const void* p, size_t n, int wr, void* pc) {
    chk(p, n, wr, pc);
    if (!own_stack(p)) ev(1);
}
static inline void plain16(void* q, int wr, void* pc) {
    plain(q, 16, wr, pc);
    Thread* t = t_self;
    if (!g_active || t == nullptr || t->nopreempt || t->tear || own_stack(q) || (reinterpret_cast<uintptr_t>(q) & 15) != 0) return;
    uint64_t h = mix(g_c.seed ^ 0x7ea2, t->local * MAX_THREADS + static_cast<uint64_t>(t->id));
    if (h % 4 != 0) return;
    auto* p = static_cast<uint64_t*>(q);
    if (wr) {
        t->half = p + (h >> 8) % 2;
        t->keep = *t->half;
        t->tear = 1;
        t->next_preempt = t->local;
        return;
    }
    uint64_t* first = p + (h >> 8) % 2;
    uint64_t v = *first;
    t->local += 1;
    g_events += 1;
    reschedule(false);
    chk(q, 16, 0, pc);
    if (*first == v) return;
    ++g_tears;
    t->half = first;
    t->keep = *first;
    *first = v;
    t->tear = 2;
    t->next_preempt = t->local;
}
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n)                                                                  \
    void __tsan_read##n(void* p) { plain(p, n, 0, PC); }                       \
    void __tsan_write##n(void* p) { plain(p, n, 1, PC); }                      \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, 0, PC); }             \
    void __tsan_unaligned_write##n(void* p) { plain(p, n, 1, PC); }            \
    void __tsan_read_write##n(void* p) { plain(p, n, 1, PC); }                 \
    void __tsan_unaligned_read_write##n(void* p) { plain(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void* p) { plain16(p, 0, PC); }
void __tsan_write16(void* p) { plain16(p, 1, PC); }
void __tsan_unaligned_read16(void* p) { plain16(p, 0, PC); }
void __tsan_unaligned_write16(void* p) { plain16(p, 1, PC); }
void __tsan_read_write16(void* p) { plain16(p, 1, PC); }
void __tsan_unaligned_read_write16(void* p) { plain16(p, 1, PC); }
void __tsan_vptr_update(void* p, void*) { plain(p, 8, 1, PC); }
void __tsan_vptr_read(void* p) { plain(p, 8, 0, PC); }
void __tsan_read_range(void* p, size_t n) {
    if (n) plain(p, n, 0, PC);
}
void __tsan_write_range(void* p, size_t n) {
    if (n) plain(p, n, 1, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) {
        plain(s, n, 0, PC);
        plain(d, n, 1, PC);
    }
    if (n > 16 && n <= 4096 && (!own_stack(s) || !own_stack(d))) {
        // in pieces
        size_t w = ((n / 4) + 15) / 16 * 16;
        for (size_t o = 0; o < n; o += w) {
            size_t m = n - o < w ? n - o : w;
            if (o) {
                ev(1);
                chk(static_cast<const char*>(s) + o, m, 0, PC);
                chk(static_cast<char*>(d) + o, m, 1, PC);
            }
            memcpy(static_cast<char*>(d) + o, static_cast<const char*>(s) + o, m);
        }
        return d;
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) {
        plain(s, n, 0, PC);
        plain(d, n, 1, PC);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
    if (n) plain(d, n, 1, PC);
    return memset(d, v, n);
}

typedef unsigned __int128 u128;
#define AT(bits, T)                                                                                          \
    T __tsan_atomic##bits##_load(const volatile T* p, int) {                                                 \
        chk((const void*)p, sizeof(T), 0, PC);                                                               \
        ev(4);                                                                                               \
        return *p;                                                                                           \
    }                                                                                                        \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) {                                              \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        *p = v;                                                                                              \
        ev(2);                                                                                               \
    }                                                                                                        \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) {                                              \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = v;                                                                                              \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) {                                             \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = o + v;                                                                                          \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) {                                             \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = o - v;                                                                                          \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) {                                             \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = o & v;                                                                                          \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) {                                              \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = o | v;                                                                                          \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) {                                             \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = o ^ v;                                                                                          \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) {                                            \
        chk((const void*)p, sizeof(T), 1, PC);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        *p = ~(o & v);                                                                                       \
        ev(2);                                                                                               \
        return o;                                                                                            \
    }                                                                                                        \
    static int cas##bits(volatile T* p, T* c, T v, void* pc) {                                               \
        chk((const void*)p, sizeof(T), 1, pc);                                                               \
        ev(4);                                                                                               \
        T o = *p;                                                                                            \
        if (o == *c) {                                                                                       \
            *p = v;                                                                                          \
            ev(2);                                                                                           \
            return 1;                                                                                        \
        }                                                                                                    \
        *c = o;                                                                                              \
        return 0;                                                                                            \
    }                                                                                                        \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) {                  \
        return cas##bits(p, c, v, PC);                                                                       \
    }                                                                                                        \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) {                    \
        return cas##bits(p, c, v, PC);                                                                       \
    }                                                                                                        \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) {                        \
        cas##bits(p, &c, v, PC);                                                                             \
        return c;                                                                                            \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
AT(128, u128)
void __tsan_atomic_thread_fence(int) { ev(2); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// annotation symbols some library headers refer to under thread-sanitizer codegen
extern "C" {
void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {}
void AnnotateHappensBefore(const char*, int, const volatile void*) {}
void AnnotateHappensAfter(const char*, int, const volatile void*) {}
void AnnotateIgnoreReadsBegin(const char*, int) {}
void AnnotateIgnoreReadsEnd(const char*, int) {}
void AnnotateIgnoreWritesBegin(const char*, int) {}
void AnnotateIgnoreWritesEnd(const char*, int) {}
void AnnotateRWLockCreate(const char*, int, const volatile void*) {}
void AnnotateRWLockDestroy(const char*, int, const volatile void*) {}
void AnnotateRWLockAcquired(const char*, int, const volatile void*, long) {}
void AnnotateRWLockReleased(const char*, int, const volatile void*, long) {}
}
