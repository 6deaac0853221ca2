// the lock with a version count which protects the reservations of a table
#include <set>

#include "concurrency_control/include/wp_lock.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

constexpr const char* PR = "P01+P02+P06+P13+P14+P15";

void run(const part::Ctx& c) {
    wp::wp_lock l;
    int inside = 0;
    uint64_t a = 0, b = 0; // always changed together
    std::set<uint64_t> free_values;
    uint64_t v0 = l.load_obj();
    if (wp::wp_lock::is_locked(v0)) fail(PR, "a new lock is locked");
    free_values.insert(v0);
    c.threads([&](int cl) {
        c.each(cl, [&](const part::Op& o) {
            if (o.kind % 2 == 0) {
                l.lock();
                if (++inside != 1) fail(PR, "two threads hold the lock of the reservations");
                if (!wp::wp_lock::is_locked(l.load_obj())) fail(PR, "the lock of the reservations is held and does not say so");
                ++a;
                sim::point();
                ++b;
                sim::point();
                --inside;
                l.unlock();
            } else {
                // what a reader does who does not lock
                for (int i = 0; i < 20; ++i) {
                    uint64_t x = l.load_obj();
                    if (wp::wp_lock::is_locked(x)) { sim::pause(); continue; }
                    sim::point();
                    uint64_t ra = a;
                    sim::point();
                    uint64_t rb = b;
                    sim::point();
                    if (l.load_obj() != x) continue;
                    if (ra != rb) fail(PR, "a reader saw a half done change (%llu, %llu) between two equal versions of the lock", (unsigned long long)ra, (unsigned long long)rb);
                    break;
                }
            }
            part::progress();
        });
    });
    // one after the other
    for (int i = 0; i < 5; ++i) {
        uint64_t x = l.load_obj();
        if (wp::wp_lock::is_locked(x)) fail(PR, "the lock of the reservations stays locked");
        free_values.insert(x);
        std::size_t n = free_values.size();
        l.lock();
        if (!wp::wp_lock::is_locked(l.load_obj())) fail(PR, "the lock of the reservations is held and does not say so");
        l.unlock();
        free_values.insert(l.load_obj());
        if (free_values.size() != n + 1) fail(PR, "the version of the lock does not change when it is taken and released");
    }
}

part::Reg reg("wplock", run);

} // namespace
#pragma clang attribute pop
