// Bump allocator at a fixed address. Memory is never reused within a process, so
// every access to released memory is recognisable, and addresses are repeatable.
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include <malloc.h>

#include "mem.h"

namespace sim {

uint8_t* g_shadow = nullptr;
static uintptr_t g_top = 0;
static volatile char g_lk = 0;
static uint64_t g_live_bytes = 0;
static uint64_t g_live_objs = 0;

static void init_arena() {
    void* p = mmap(reinterpret_cast<void*>(ARENA), ARENA_SZ, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap(reinterpret_cast<void*>(SHADOW), ARENA_SZ >> 4, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(ARENA) || s != reinterpret_cast<void*>(SHADOW)) {
        static const char m[] = "sim: cannot map the arena\n";
        (void)!write(2, m, sizeof(m) - 1);
        _exit(99);
    }
    g_shadow = static_cast<uint8_t*>(s);
    g_top = ARENA + 4096;
}

struct Hdr {
    uint64_t size;
    uint64_t magic;
};
static constexpr uint64_t M_LIVE = 0x51aab1e0c0ffee01ULL;
static constexpr uint64_t M_ASIDE = 0x51aab1e0c0ffee02ULL; // live, but not counted
int g_aside = 0;
static constexpr uint64_t M_DEAD = 0xdeaddeaddeaddeadULL;

uint64_t heap_live_bytes() { return g_live_bytes; }
uint64_t heap_live_objects() { return g_live_objs; }

// SIM_LEAKS=1: keep the callers of every allocation, to print those of the blocks that stay
struct Origin {
    void* p;
    uintptr_t f[8];
};
static Origin* g_org = nullptr;
static size_t g_norg = 0;
static constexpr size_t MAX_ORG = 4000000;

static void note_origin(void* p) {
    if (g_norg >= MAX_ORG) return;
    Origin& o = g_org[g_norg++];
    o.p = p;
    auto bp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    auto lo = bp;
    for (size_t i = 0; i < 8; ++i) {
        if ((bp & 7) != 0 || bp < lo || bp > lo + (1U << 20)) break;
        auto* f = reinterpret_cast<uintptr_t*>(bp);
        if (f[1] < 0x100000000ULL) o.f[i] = f[1];
        if (f[0] <= bp) break;
        bp = f[0];
    }
}

void heap_watch(bool on) {
    if (on && g_org == nullptr) {
        g_org = static_cast<Origin*>(mmap(nullptr, MAX_ORG * sizeof(Origin), PROT_READ | PROT_WRITE,
                                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
}

// prints the live blocks with the round of their allocation and their callers
void heap_dump(int round) {
    if (g_org == nullptr) return;
    static size_t end[64];
    end[round] = g_norg;
    int r = 0;
    dprintf(2, "LEAKS\n");
    for (size_t i = 0; i < g_norg; ++i) {
        while (r < round && i >= end[r]) ++r;
        auto* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(g_org[i].p) - sizeof(Hdr));
        if (h->magic != M_LIVE) continue;
        dprintf(2, "LEAK %d %lu", r, h->size);
        for (auto f : g_org[i].f) {
            if (f != 0) dprintf(2, " %lx", f);
        }
        dprintf(2, "\n");
    }
}

static void* arena_alloc(size_t n, size_t align) {
    while (__atomic_test_and_set(&g_lk, __ATOMIC_ACQUIRE)) {}
    if (g_shadow == nullptr) init_arena();
    if (align < 16) align = 16;
    uintptr_t u = (g_top + sizeof(Hdr) + align - 1) & ~(align - 1);
    size_t rounded = (n + 15) & ~size_t(15);
    if (rounded == 0) rounded = 16;
    if (n > ARENA_SZ || u + rounded + 16 > ARENA + ARENA_SZ) {
        __atomic_clear(&g_lk, __ATOMIC_RELEASE);
        errno = ENOMEM;
        return nullptr;
    }
    auto* h = reinterpret_cast<Hdr*>(u - sizeof(Hdr));
    h->size = n;
    h->magic = g_aside > 0 ? M_ASIDE : M_LIVE;
    g_top = u + rounded;
    size_t o = (u - ARENA) >> 4;
    size_t full = n >> 4;
    memset(g_shadow + o, 16, full);
    if (n & 15) g_shadow[o + full] = n & 15;
    if (g_aside == 0) {
        g_live_bytes += n;
        ++g_live_objs;
    }
    if (g_org != nullptr) note_origin(reinterpret_cast<void*>(u));
    __atomic_clear(&g_lk, __ATOMIC_RELEASE);
    return reinterpret_cast<void*>(u);
}

static bool in_arena(const void* p) {
    return reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SZ;
}

extern "C" void sim_bad_free(void* p, int twice);

static void arena_free(void* p) {
    if (p == nullptr || !in_arena(p)) return;
    auto u = reinterpret_cast<uintptr_t>(p);
    auto* h = reinterpret_cast<Hdr*>(u - sizeof(Hdr));
    if (h->magic != M_LIVE && h->magic != M_ASIDE) {
        sim_bad_free(p, h->magic == M_DEAD);
        return;
    }
    while (__atomic_test_and_set(&g_lk, __ATOMIC_ACQUIRE)) {}
    bool counted = h->magic == M_LIVE;
    h->magic = M_DEAD;
    size_t n = h->size;
    size_t g = (n + 15) >> 4;
    memset(g_shadow + ((u - ARENA) >> 4), SH_FREED, g);
    memset(p, 0xDB, n);
    // leave the callers in the released block, for the report of a later access to it
    char probe;
    auto lo = reinterpret_cast<uintptr_t>(&probe);
    auto bp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    auto* w = static_cast<uintptr_t*>(p);
    for (size_t i = 0; i < 6 && (i + 1) * 8 <= n; ++i) {
        if ((bp & 7) != 0 || bp < lo || bp > lo + (1U << 20)) break;
        auto* f = reinterpret_cast<uintptr_t*>(bp);
        if (f[1] > 0x100000000ULL) break;
        w[i] = f[1];
        if (f[0] <= bp) break;
        bp = f[0];
    }
    if (counted) {
        g_live_bytes -= n;
        --g_live_objs;
    }
    __atomic_clear(&g_lk, __ATOMIC_RELEASE);
}

// from here on addresses do not depend on what was allocated before
void canonical_heap() {
    if (g_shadow == nullptr) init_arena();
    uintptr_t u = ARENA + ARENA_SZ / 2;
    if (g_top < u) g_top = u;
    g_live_bytes = g_live_objs = 1U << 20;
}

size_t block_size(void* p) {
    auto* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(Hdr));
    return h->size;
}

} // namespace sim

extern "C" {
void* malloc(size_t n) { return sim::arena_alloc(n, 16); }
void free(void* p) { sim::arena_free(p); }
void* calloc(size_t a, size_t b) {
    size_t n = a * b;
    void* p = sim::arena_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (p == nullptr) return malloc(n);
    void* q = sim::arena_alloc(n, 16);
    if (q == nullptr) return nullptr;
    size_t o = sim::block_size(p);
    memcpy(q, p, o < n ? o : n);
    sim::arena_free(p);
    return q;
}
void* memalign(size_t a, size_t n) { return sim::arena_alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return sim::arena_alloc(n, a); }
int posix_memalign(void** out, size_t a, size_t n) {
    *out = sim::arena_alloc(n, a);
    return *out ? 0 : ENOMEM;
}
void* valloc(size_t n) { return sim::arena_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? sim::block_size(p) : 0; }
}
