// version stamps and the lock inside them
#include <tuple>

#include "concurrency_control/include/tid.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

constexpr const char* ORDER = "P01+P02+P03+P04+P05+P06+P08+P09+P13+P15+P16+P19";
constexpr const char* LOCK = "P01+P02+P03+P04+P05+P06+P08+P09+P13+P15+P16+P19";
constexpr uint64_t M52 = (1ULL << 52) - 1;

uint64_t some(uint64_t x) {
    static const uint64_t v[] = {0, 1, 2, 3, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, M52 - 1, M52};
    return x % 3 == 0 ? v[x / 3 % 12] : x % 3 == 1 ? x / 3 % 4 : (x >> 7) & M52;
}

struct Model {
    uint64_t epoch{0}, tid{0};
    bool lock{false}, gc{false}, latest{false}, absent{false}, by_short{false};
    auto key() const { return std::make_tuple(epoch, by_short, tid); }
    auto all() const { return std::make_tuple(epoch, by_short, tid, absent, latest, gc, lock); }
};

void same(const tid_word& t, const Model& m, const char* when) {
    if (t.get_epoch() != m.epoch || t.get_tid() != m.tid || t.get_lock() != m.lock || t.get_lock_by_gc() != m.gc || t.get_latest() != m.latest ||
        t.get_absent() != m.absent || t.get_by_short() != m.by_short)
        fail("P01+P02+P03+P04+P05+P06+P08+P09+P13+P15+P16+P19", "a version stamp holds epoch %llu tid %llu lock %d gc %d latest %d absent %d short %d after %s, not %llu %llu %d %d %d %d %d",
             (unsigned long long)t.get_epoch(), (unsigned long long)t.get_tid(), t.get_lock(), t.get_lock_by_gc(), t.get_latest(), t.get_absent(), t.get_by_short(), when,
             (unsigned long long)m.epoch, (unsigned long long)m.tid, m.lock, m.gc, m.latest, m.absent, m.by_short);
}

void step(tid_word& t, Model& m, uint64_t r) {
    uint64_t v = some(r >> 8);
    bool b = ((r >> 4) & 1) != 0;
    switch (r % 9) {
        case 0: t.set_epoch(v); m.epoch = v; break;
        case 1: t.set_tid(v); m.tid = v; break;
        case 2: t.set_lock(b); m.lock = b; break;
        case 3: t.set_lock_by_gc(b); m.gc = b; break;
        case 4: t.set_latest(b); m.latest = b; break;
        case 5: t.set_absent(b); m.absent = b; break;
        case 6: t.set_by_short(b); m.by_short = b; break;
        case 7: t.inc_tid(); m.tid = (m.tid + 1) & M52; break;
        case 8: if (r % 5 == 0) { t.reset(); m = {}; } else { t.set_epoch(v); m.epoch = v; } break;
    }
    same(t, m, "a change");
}

void alone(const part::Ctx& c) {
    tid_word t[3];
    Model m[3];
    for (int i = 0; i < 3; ++i) same(t[i], m[i], "its construction");
    for (int cl = 0; cl < c.clients(); ++cl)
        c.each(cl, [&](const part::Op& o) {
            int i = o.key % 3, j = o.key2 % 3;
            for (uint64_t k = 0; k < 4; ++k) step(t[i], m[i], part::rnd(o, k));
            if (o.lend == 1) { t[j] = t[i]; m[j] = m[i]; same(t[j], m[j], "an assignment"); }
            if (o.lend == 2) { tid_word x(t[i]); tid_word y(x.get_obj()); same(x, m[i], "a copy"); same(y, m[i], "a copy of its bits"); t[j].set_obj(y.get_obj()); m[j] = m[i]; same(t[j], m[j], "set_obj"); }
            // close neighbours
            if (o.rend == 1) { t[j] = t[i]; m[j] = m[i]; step(t[j], m[j], part::rnd(o, 9)); }
            bool eq = m[i].all() == m[j].all();
            if ((t[i] == t[j]) != eq || (t[i] != t[j]) == eq) fail(ORDER, "version stamps compare %s", eq ? "unequal though they are equal" : "equal though they differ");
            if (m[i].key() < m[j].key() && (!(t[i] < t[j]) || t[i] > t[j])) fail(ORDER, "an earlier version stamp does not compare as smaller");
            if (m[i].key() > m[j].key() && (t[i] < t[j] || !(t[i] > t[j]))) fail(ORDER, "a later version stamp does not compare as greater");
            if (eq && (t[i] < t[j] || t[i] > t[j])) fail(ORDER, "equal version stamps compare as different");
            if (t[i].empty() != (m[i].all() == Model{}.all())) fail(ORDER, "empty() of a version stamp is wrong");
        });
}

void locking(const part::Ctx& c) {
    tid_word t;
    Model m; // protected by the lock
    t.set_latest(true);
    m.latest = true;
    int inside = 0;
    uint64_t entered = 0, planned = 0;
    for (int cl = 0; cl < c.clients(); ++cl) c.each(cl, [&](const part::Op&) { ++planned; });
    c.threads([&](int cl) {
        c.each(cl, [&](const part::Op& o) {
            bool gc = o.lend == 1;
            if (gc) t.lock(true);
            else if (o.lend == 0) t.lock(false);
            else t.lock();
            if (++inside != 1) fail(LOCK, "two threads hold the lock of a version stamp");
            ++entered;
            m.lock = true;
            m.gc = gc;
            tid_word seen(t.get_obj());
            same(seen, m, "locking it");
            sim::point();
            // the owner changes what it wants while it holds the lock
            uint64_t r = part::rnd(o, 1);
            if (r % 4 == 0) { t.set_tid(some(r >> 8)); m.tid = some(r >> 8); }
            if (r % 4 == 1) { t.set_epoch(some(r >> 8)); m.epoch = some(r >> 8); }
            if (r % 4 == 2) { bool b = ((r >> 9) & 1) != 0; t.set_absent(b); m.absent = b; t.set_by_short(!b); m.by_short = !b; }
            sim::point();
            tid_word again(t.get_obj());
            same(again, m, "changing it under its lock");
            if (--inside != 0) fail(LOCK, "two threads hold the lock of a version stamp");
            m.lock = m.gc = false;
            t.unlock();
            part::progress();
        });
    });
    same(t, m, "unlocking it");
    if (entered != planned) fail(LOCK, "%llu of %llu locks were given", (unsigned long long)entered, (unsigned long long)planned);
}

void run(const part::Ctx& c) {
    if (c.p.seed % 2 == 0) alone(c);
    else locking(c);
}

part::Reg reg("tid", run);

} // namespace
#pragma clang attribute pop
