// the reservations of one table
#include <map>
#include <set>
#include <vector>

#include "concurrency_control/include/wp_meta.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

constexpr const char* PR = "P01+P02+P03+P04+P06+P13+P14+P15+P16+P18";
using Meta = wp::wp_meta;

struct Life {
    uint64_t reg_inv{0}, reg_ret{UINT64_MAX}, rem_inv{UINT64_MAX}, rem_ret{UINT64_MAX};
    bool refused{false};
    bool no_result{false}; // released without a result
};
struct Snap {
    uint64_t inv, ret;
    std::vector<std::pair<uint64_t, uint64_t>> got; // epoch, id
};

uint64_t epoch_of(uint64_t id) { return 10 + id * 7919 % 50; }

// a point inside the call at which exactly these reservations may have been in force
bool explained(const Snap& s, const std::map<uint64_t, Life>& lives) {
    std::set<uint64_t> at{s.inv, s.ret};
    for (auto&& e : lives)
        for (uint64_t x : {e.second.reg_inv, e.second.reg_ret, e.second.rem_inv, e.second.rem_ret})
            if (x > s.inv && x < s.ret) at.insert(x);
    std::set<uint64_t> in;
    for (auto&& g : s.got) in.insert(g.second);
    for (uint64_t t : at) {
        bool ok = true;
        for (auto&& e : lives) {
            const Life& l = e.second;
            bool may_in = !l.refused && t >= l.reg_inv && t <= l.rem_ret;
            bool may_out = l.refused || t <= l.reg_ret || t >= l.rem_inv;
            if (in.count(e.first) ? !may_in : !may_out) { ok = false; break; }
        }
        if (ok) return true;
    }
    return false;
}

void concurrent(const part::Ctx& c) {
    auto* m = new Meta();
    std::map<uint64_t, Life> lives;
    std::vector<Snap> snaps;
    std::map<uint64_t, std::pair<std::string, std::string>> ranges; // of transactions that are not settled
    std::map<uint64_t, std::set<std::pair<std::string, std::string>>> given; // that ever were
    std::set<uint64_t> results;
    uint64_t next_id = 1;
    bool churn = c.p.seed % 4 == 1;
    auto snap = [&] {
        Snap s;
        s.inv = sim::seq();
        auto w = m->get_wped();
        s.ret = sim::seq();
        // who looks at the reservations first and at the results then misses no transaction
        std::set<uint64_t> over;
        {
            std::shared_lock<std::shared_mutex> lk{m->get_mtx_wp_result_set()};
            for (auto&& e : m->get_wp_result_set()) over.insert(Meta::wp_result_elem_extract_id(e));
        }
        sim::NoPreempt np;
        std::set<uint64_t> seen;
        for (auto&& e : w) over.insert(e.second);
        for (auto&& e : lives)
            if (e.second.reg_ret < s.inv && !e.second.refused && !e.second.no_result && over.count(e.first) == 0)
                fail(PR, "a long transaction has neither a reservation nor a result");
        for (auto&& e : w) {
            if (e.first == 0 && e.second == 0) continue;
            if (lives.count(e.second) == 0 || e.first != epoch_of(e.second) || !seen.insert(e.second).second)
                fail(PR, "the reservations of a table contain epoch %llu of transaction %llu, which nobody registered", (unsigned long long)e.first, (unsigned long long)e.second);
            s.got.emplace_back(e.first, e.second);
        }
        snaps.push_back(s);
        // what is derived from a snapshot
        uint64_t me = 0, mi = 0, mie = 0;
        for (auto&& g : s.got) {
            if (me == 0 || g.first < me) me = g.first;
            if (mi == 0 || g.second < mi) { mi = g.second; mie = g.first; }
        }
        if (Meta::empty(w) != s.got.empty()) fail(PR, "a table with %d reservations is called %s", static_cast<int>(s.got.size()), s.got.empty() ? "reserved" : "not reserved");
        if (Meta::find_min_ep(w) != me) fail(PR, "the oldest reservation is of epoch %llu, not %llu", (unsigned long long)me, (unsigned long long)Meta::find_min_ep(w));
        if (Meta::find_min_id(w) != mi) fail(PR, "the oldest reservation is of transaction %llu, not %llu", (unsigned long long)mi, (unsigned long long)Meta::find_min_id(w));
        auto p = Meta::find_min_ep_id(w);
        if (p.first != mie || p.second != mi) fail(PR, "the oldest reservation is epoch %llu of transaction %llu, not %llu of %llu", (unsigned long long)mie, (unsigned long long)mi, (unsigned long long)p.first, (unsigned long long)p.second);
    };
    c.threads([&](int cl) {
        std::vector<uint64_t> mine;
        auto settle = [&](std::size_t at, bool with_result, const part::Op& o) {
            uint64_t id = mine[at];
            mine.erase(mine.begin() + static_cast<long>(at));
            {
                sim::NoPreempt np;
                lives[id].rem_inv = sim::seq();
                lives[id].no_result = !with_result;
                if (with_result) ranges.erase(id);
            }
            Status s;
            if (with_result) {
                std::string l = part::key_of(o.key), r = part::key_of(o.key2);
                bool com = o.lend == 0;
                s = m->register_wp_result_and_remove_wp(std::make_tuple(static_cast<epoch::epoch_t>(epoch_of(id)), static_cast<std::size_t>(id), com, std::make_tuple(com, l, r)));
                sim::NoPreempt np;
                results.insert(id);
                std::string a, b;
                if (m->read_write_range(id, a, b)) fail(PR, "the write range of a settled transaction is kept");
                std::shared_lock<std::shared_mutex> lk{m->get_mtx_wp_result_set()};
                int n = 0;
                for (auto&& e : m->get_wp_result_set())
                    if (Meta::wp_result_elem_extract_id(e) == id) {
                        ++n;
                        auto& w = Meta::wp_result_elem_extract_write_result(e);
                        if (Meta::wp_result_elem_extract_epoch(e) != epoch_of(id) || Meta::wp_result_elem_extract_was_committed(e) != com || std::get<0>(w) != com || std::get<1>(w) != l || std::get<2>(w) != r)
                            fail(PR, "the result of a long transaction on a table is not what was registered");
                    }
                if (n != 1) fail(PR, "the result of a long transaction is registered %d times", n);
            } else {
                s = m->remove_wp(id);
            }
            sim::NoPreempt np;
            lives[id].rem_ret = sim::seq();
            if (s != Status::OK) fail(PR, "releasing a reservation returned %d", static_cast<int>(s));
        };
        c.each(cl, [&](const part::Op& o) {
            unsigned k = o.kind % 8;
            // reservations come and go without pause
            if (churn && k != 7) k = mine.size() <= o.lend % 2 ? 0 : 3 + (k & 1);
            if (k <= 2) {
                uint64_t id;
                {
                    sim::NoPreempt np;
                    id = next_id++;
                    lives[id].reg_inv = sim::seq();
                }
                Status s = m->register_wp(epoch_of(id), id);
                sim::NoPreempt np;
                Life& l = lives[id];
                l.reg_ret = sim::seq();
                if (s == Status::OK) mine.push_back(id);
                else if (s == Status::ERR_CC) {
                    l.refused = true;
                    // only if so many were in force at some time
                    int could = 0;
                    for (auto&& e : lives)
                        if (e.first != id && !e.second.refused && e.second.reg_inv < l.reg_ret && e.second.rem_ret > l.reg_inv) ++could;
                    if (could < KVS_MAX_PARALLEL_THREADS) fail(PR, "a reservation was refused though only %d are in force", could);
                } else fail(PR, "a reservation returned %d", static_cast<int>(s));
            } else if (k == 3 && !mine.empty()) {
                settle(o.key % mine.size(), true, o);
            } else if (k == 4 && !mine.empty()) {
                uint64_t id = mine[o.key % mine.size()];
                bool has;
                { sim::NoPreempt np; has = ranges.count(id) != 0; }
                if (!has) settle(o.key % mine.size(), false, o);
            } else if (k == 5 && !mine.empty()) {
                uint64_t id = mine[o.key % mine.size()];
                bool has;
                std::string l = part::key_of(o.key2), r = part::key_of(o.vlen);
                { sim::NoPreempt np; has = ranges.count(id) != 0; }
                if (!has) {
                    { sim::NoPreempt np; given[id].insert({l, r}); }
                    m->push_write_range(id, l, r);
                    std::string a, b;
                    bool there = m->read_write_range(id, a, b);
                    if (!there || a != l || b != r) fail(PR, "the write range of a long transaction is not what was registered");
                    sim::NoPreempt np;
                    ranges[id] = {l, r};
                } else if (o.lend == 1) {
                    m->remove_write_range(id);
                    std::string a, b;
                    if (m->read_write_range(id, a, b)) fail(PR, "a removed write range is still there");
                    sim::NoPreempt np;
                    ranges.erase(id);
                } else {
                    std::string a, b;
                    bool there = m->read_write_range(id, a, b);
                    sim::NoPreempt np;
                    if (!there || a != ranges[id].first || b != ranges[id].second) fail(PR, "the write range of a long transaction was lost or changed");
                }
            } else if (k == 6 && next_id > 1) {
                // the range of somebody else, which may come or go meanwhile
                uint64_t id = next_id - 1 - o.key % std::min<uint64_t>(next_id - 1, 4);
                std::string a, b;
                if (m->read_write_range(id, a, b)) {
                    sim::NoPreempt np;
                    if (given[id].count({a, b}) == 0) fail(PR, "the write range of a long transaction is not one that was registered");
                }
            } else if (k == 7 && o.lend == 1 && o.key % 4 == 0) {
                // a transaction that has no reservation (any more): refused, and nothing is held afterwards
                uint64_t id;
                {
                    sim::NoPreempt np;
                    id = 1000000 + next_id++;
                }
                Status s = m->register_wp_result_and_remove_wp(std::make_tuple(static_cast<epoch::epoch_t>(1), static_cast<std::size_t>(id), false, std::make_tuple(false, std::string(), std::string())));
                if (s != Status::WARN_NOT_FOUND) fail(PR, "releasing a reservation that does not exist returned %d", static_cast<int>(s));
                sim::NoPreempt np;
                results.insert(id);
            } else {
                snap();
            }
            part::progress();
        });
    });
    snap();
    for (auto&& s : snaps)
        if (!explained(s, lives)) fail(PR, "a snapshot of %d reservations shows no state that ever was", static_cast<int>(s.got.size()));
    std::size_t in_force = 0;
    for (auto&& e : lives)
        if (!e.second.refused && e.second.rem_ret == UINT64_MAX) ++in_force;
    if (m->get_wped_used().count() != in_force) fail(PR, "%d slots are taken by %d reservations", static_cast<int>(m->get_wped_used().count()), static_cast<int>(in_force));
    if (m->get_wp_result_set().size() != results.size()) fail(PR, "%d results were registered, %d are kept", static_cast<int>(results.size()), static_cast<int>(m->get_wp_result_set().size()));
    std::size_t at = 99;
    Status s = m->find_slot(at);
    if (in_force < KVS_MAX_PARALLEL_THREADS ? (s != Status::OK || at >= KVS_MAX_PARALLEL_THREADS || m->get_wped_used().test(at)) : s == Status::OK)
        fail(PR, "looking for a free slot among %d reservations answers %d, %d", static_cast<int>(in_force), static_cast<int>(s), static_cast<int>(at));
    m->init();
    if (!Meta::empty(m->get_wped()) || m->get_wped_used().any()) fail(PR, "reservations survive the initialisation");
    delete m;
}

// what is derived from arbitrary contents
void derived(const part::Ctx& c) {
    for (int cl = 0; cl < c.clients(); ++cl)
        c.each(cl, [&](const part::Op& o) {
            Meta::wped_type w{};
            for (auto&& e : w) e = {0, 0};
            uint64_t r = part::rnd(o, 3);
            int n = static_cast<int>(r % (KVS_MAX_PARALLEL_THREADS + 1));
            std::set<uint64_t> ids;
            uint64_t me = 0, mi = 0, mie = 0;
            for (int i = 0; i < n; ++i) {
                std::size_t slot = sim::mix(r, static_cast<uint64_t>(i)) % w.size();
                if (w.at(slot).first != 0) continue;
                uint64_t span = o.lend == 0 ? 4 : o.lend == 1 ? 1000 : 1ULL << 40;
                uint64_t ep = 1 + sim::mix(r, 100 + static_cast<uint64_t>(i)) % span;
                uint64_t id = 1 + sim::mix(r, 200 + static_cast<uint64_t>(i)) % (span * 8);
                if (!ids.insert(id).second) continue;
                w.at(slot) = {static_cast<epoch::epoch_t>(ep), static_cast<std::size_t>(id)};
                if (me == 0 || ep < me) me = ep;
                if (mi == 0 || id < mi) { mi = id; mie = ep; }
            }
            if (Meta::empty(w) != ids.empty()) fail(PR, "a table with %d reservations is called %s", static_cast<int>(ids.size()), ids.empty() ? "reserved" : "not reserved");
            if (Meta::find_min_ep(w) != me) fail(PR, "the oldest reservation is of epoch %llu, not %llu", (unsigned long long)me, (unsigned long long)Meta::find_min_ep(w));
            if (Meta::find_min_id(w) != mi) fail(PR, "the oldest reservation is of transaction %llu, not %llu", (unsigned long long)mi, (unsigned long long)Meta::find_min_id(w));
            auto p = Meta::find_min_ep_id(w);
            if (p.first != mie || p.second != mi) fail(PR, "the oldest reservation is epoch %llu of transaction %llu, not %llu of %llu", (unsigned long long)mie, (unsigned long long)mi, (unsigned long long)p.first, (unsigned long long)p.second);
        });
}

void run(const part::Ctx& c) {
    if (c.p.seed % 4 == 0) derived(c);
    else concurrent(c);
}

part::Reg reg("wpmeta", run);

} // namespace
#pragma clang attribute pop
