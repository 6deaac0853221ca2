// who read a record or a range, as far as later writers have to know
#include <map>
#include <mutex>
#include <string>
#include <tuple>
#include <vector>

#include "concurrency_control/include/read_by.h"
#include "concurrency_control/include/session.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

constexpr const char* PR = "P01+P02+P03+P13+P16";

// short transactions: the newest epoch in which one read
template<class T>
void by_short(const part::Ctx& c) {
    T x;
    if (x.get_max_epoch() != 0) fail(PR, "something was read before anything was");
    struct P { uint64_t ep, inv, ret; };
    std::vector<P> pushed;
    struct F { uint64_t ep, inv, ret; };
    std::vector<F> seen;
    c.threads([&](int cl) {
        c.each(cl, [&](const part::Op& o) {
            if (o.kind % 3 != 0) {
                uint64_t ep = 1 + o.arg % 12;
                std::size_t at;
                { sim::NoPreempt np; at = pushed.size(); pushed.push_back({ep, sim::seq(), UINT64_MAX}); }
                x.push(ep);
                sim::NoPreempt np;
                pushed[at].ret = sim::seq();
            } else {
                uint64_t inv = sim::seq();
                uint64_t e = x.get_max_epoch();
                uint64_t ret = sim::seq();
                sim::NoPreempt np;
                seen.push_back({e, inv, ret});
            }
            part::progress();
        });
    });
    uint64_t last = 0;
    for (auto&& p : pushed) last = std::max(last, p.ep);
    if (x.get_max_epoch() != last) fail(PR, "reads up to epoch %llu were noted, %llu is remembered", (unsigned long long)last, (unsigned long long)x.get_max_epoch());
    for (uint64_t e = 0; e < 15; ++e)
        if (x.find(e) != (e == last)) fail(PR, "looking for a read of epoch %llu answers wrong (the newest is %llu)", (unsigned long long)e, (unsigned long long)last);
    for (auto&& s : seen) {
        bool from = s.ep == 0;
        for (auto&& p : pushed) {
            if (p.ep == s.ep && p.inv < s.ret) from = true;
            if (p.ret < s.inv && p.ep > s.ep) fail(PR, "a read of epoch %llu was forgotten", (unsigned long long)p.ep);
        }
        if (!from) fail(PR, "a read of epoch %llu was noted which never was", (unsigned long long)s.ep);
    }
}

struct Elem {
    uint64_t ep, id;
    std::string l, r;
    scan_endpoint le, re;
    uint64_t inv, ret;
    bool holds(const std::string& k) const {
        bool a = le == scan_endpoint::INF || l < k || (l == k && le == scan_endpoint::INCLUSIVE);
        bool b = re == scan_endpoint::INF || k < r || (k == r && re == scan_endpoint::INCLUSIVE);
        return a && b;
    }
};
struct Ask {
    uint64_t ep, id, inv, ret;
    std::string key;
    bool yes;
};

// long transactions: which later writers of an older epoch would be overtaken
void by_long(const part::Ctx& c, bool range) {
    range_read_by_long rr;
    point_read_by_long pr;
    std::vector<Elem> all;
    std::vector<Ask> asks;
    // nothing before this epoch is asked for any more
    uint64_t threshold = c.p.seed % 3 == 0 ? 0 : 1 + c.p.seed / 3 % 12;
    epoch::set_global_epoch(40);
    epoch::set_cc_safe_ss_epoch(threshold == 0 ? 1 : threshold);
    uint64_t next = 1;
    const uint64_t mask = c.p.seed / 4 % 8;
    c.threads([&](int cl) {
        auto* ti = new session();
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 4);
            if (o.kind % 2 == 0) {
                Elem e;
                std::size_t at;
                {
                    sim::NoPreempt np;
                    e.ep = 1 + r % 16;
                    e.id = 2 * (1 + (next++ ^ mask)); // the younger ones may come first
                    e.l = part::key_of(r >> 8);
                    e.r = part::key_of(r >> 16);
                    e.le = static_cast<scan_endpoint>(o.lend % 3);
                    e.re = static_cast<scan_endpoint>(o.rend % 3);
                    if (!range) { e.l = e.r = ""; e.le = e.re = scan_endpoint::INF; }
                    e.inv = sim::seq();
                    e.ret = UINT64_MAX;
                    at = all.size();
                    all.push_back(e);
                }
                if (range) rr.push(std::make_tuple(static_cast<epoch::epoch_t>(e.ep), static_cast<std::size_t>(e.id), e.l, e.le, e.r, e.re));
                else pr.push({static_cast<epoch::epoch_t>(e.ep), static_cast<std::size_t>(e.id)});
                sim::NoPreempt np;
                all[at].ret = sim::seq();
            } else {
                Ask a;
                {
                    sim::NoPreempt np;
                    a.ep = (threshold == 0 ? 1 : threshold) + (r >> 3) % 14;
                    a.id = 1 + 2 * ((r >> 8) % (next + 9));
                    a.key = part::key_of(r >> 16);
                    a.inv = sim::seq();
                }
                if (range) a.yes = rr.is_exist(a.ep, a.id, a.key);
                else {
                    ti->set_valid_epoch(a.ep);
                    ti->set_long_tx_id(a.id);
                    a.yes = pr.is_exist(ti);
                }
                sim::NoPreempt np;
                a.ret = sim::seq();
                asks.push_back(a);
            }
            part::progress();
        });
        delete ti;
    });
    for (auto&& a : asks) {
        bool must = false, may = false;
        for (auto&& e : all) {
            if (e.id >= a.id || e.ep < a.ep || (range && !e.holds(a.key))) continue;
            if (e.inv < a.ret) may = true;
            if (e.ret < a.inv) must = true;
        }
        if (a.yes && !may) fail(PR, "transaction %llu of epoch %llu is told that an older one read what it writes, but none did", (unsigned long long)a.id, (unsigned long long)a.ep);
        if (!a.yes && must) fail(PR, "transaction %llu of epoch %llu is not told that an older one read what it writes", (unsigned long long)a.id, (unsigned long long)a.ep);
    }
}

void run(const part::Ctx& c) {
    switch (c.p.seed % 4) {
        case 0: by_short<point_read_by_short>(c); break;
        case 1: by_short<range_read_by_short>(c); break;
        case 2: by_long(c, false); break;
        default: by_long(c, true); break;
    }
}

part::Reg reg("readby", run);

} // namespace
#pragma clang attribute pop
