// records, their versions and who read them
#include <map>
#include <set>
#include <vector>

#include "concurrency_control/include/record.h"
#include "concurrency_control/include/version.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

constexpr const char* PR = "P01+P02+P03+P04+P05+P06+P16+P19";

void built(Record& r, const std::string& k, const std::string& v, bool locked, const char* what) {
    std::string s;
    r.get_key(s);
    if (s != k || r.get_key_view() != k || *r.get_key_ptr() != k) fail(PR, "a %s record has another key", what);
    r.get_value(s);
    if (s != v) fail(PR, "a %s record has another value", what);
    tid_word t = r.get_tidw();
    if (t.get_lock() != locked || !t.get_latest() || !t.get_absent() || t.get_epoch() != 0 || t.get_tid() != 0 || t.get_lock_by_gc()) fail(PR, "a %s record does not start as one which is not there yet", what);
    if (r.get_latest() == nullptr || r.get_latest()->get_next() != nullptr) fail(PR, "a %s record does not have exactly one version", what);
    if (r.get_shared_tombstone_count() != 0) fail(PR, "a %s record is being deleted", what);
    if (r.get_read_by().get_max_epoch() != 0) fail(PR, "a %s record was read", what);
}

// one thread: constructors, chains, and nothing left behind
void alone(const part::Ctx& c) {
    for (int cl = 0; cl < c.clients(); ++cl)
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 1);
            std::string k = part::key_of(r >> 8), v = part::key_of(r >> 16);
            uint64_t before = 0, after = 0, bytes = 0;
            {
                before = sim::heap_live_objects();
                bytes = sim::heap_live_bytes();
                Record* rec = nullptr;
                std::string first;
                if (o.lend == 0) { rec = new Record(k); built(*rec, k, "", false, "placeholder"); }
                else if (o.lend == 1) { rec = new Record(k, v); built(*rec, k, v, true, "new"); first = v; rec->unlock(); }
                else {
                    tid_word t;
                    t.set_epoch(r % 1000);
                    t.set_tid(r % 77);
                    t.set_latest(true);
                    rec = new Record(t, v);
                    first = v;
                    if (!(rec->get_tidw() == t)) fail(PR, "a recovered record has another version stamp");
                }
                // versions on top of it
                int n = static_cast<int>(o.key % 5);
                std::vector<std::pair<tid_word, std::string>> m{{tid_word(), first}};
                for (int i = 0; i < n; ++i) {
                    tid_word t;
                    t.set_epoch(static_cast<epoch::epoch_t>(i) + 1);
                    t.set_tid(sim::mix(r, static_cast<uint64_t>(i)) & 0xffffff);
                    std::string w = part::key_of(sim::mix(r, static_cast<uint64_t>(i) + 50));
                    version* ver = i % 3 == 0 ? new version(t, w, rec->get_latest()) : new version(w, rec->get_latest());
                    if (i % 3 != 0) ver->set_tid(t);
                    rec->set_latest(ver);
                    rec->set_tid(t);
                    m.emplace_back(t, w);
                    if (!(rec->get_tidw() == t) || !(rec->get_stable_tidw() == t)) fail(PR, "the version stamp of a record is not the one set");
                }
                if (o.rend == 1) {
                    m.back().second = part::key_of(r >> 24);
                    rec->set_value(m.back().second);
                }
                int at = n;
                for (version* p = rec->get_latest(); p != nullptr; p = p->get_next(), --at) {
                    std::string s = "?";
                    p->get_value(s);
                    if (at < 0 || s != m[static_cast<std::size_t>(at)].second || (at > 0 && !(p->get_tid() == m[static_cast<std::size_t>(at)].first))) fail(PR, "version %d of a record is not what was written", at);
                }
                if (at != -1) fail(PR, "a record has %d versions, not %d", n - at, n + 1);
                std::string s;
                rec->get_value(s);
                if (s != m.back().second) fail(PR, "the newest value of a record is not the one read");
                for (int i = 0; i < 3; ++i) {
                    rec->lock();
                    if (!rec->get_tidw().get_lock()) fail(PR, "a locked record does not say so");
                    rec->unlock();
                    if (rec->get_tidw().get_lock()) fail(PR, "an unlocked record stays locked");
                }
                if (o.rend == 2) {
                    rec->reset_ts();
                    if (!rec->get_tidw().empty()) fail(PR, "a reset version stamp is not empty");
                }
                delete rec;
            }
            after = sim::heap_live_objects();
            if (after != before || sim::heap_live_bytes() != bytes) fail("P16", "deleting a record leaves %lld objects, %lld bytes behind", (long long)(after - before), (long long)(sim::heap_live_bytes() - bytes));
        });
    Record d;
    if (d.get_latest() != nullptr || !d.get_tidw().empty() || !d.get_key_view().empty()) fail(PR, "a default record is not empty");
}

// one writer at a time under the record lock, readers without it
void values(const part::Ctx& c) {
    Record r("k", "0");
    r.get_tidw_ref().set_absent(false);
    r.unlock();
    // history of values: each write is visible in full or not at all
    struct W { uint64_t inv, ret; };
    std::map<std::string, W> writes{{"0", {0, 0}}};
    struct R { uint64_t inv, ret; std::string v; };
    std::vector<R> reads;
    struct S { uint64_t inv, ret; };
    std::vector<S> held, stable;
    std::set<std::pair<uint64_t, bool>> stamps{{0, false}};
    uint64_t ctr = 0;
    c.threads([&](int cl) {
        c.each(cl, [&](const part::Op& o) {
            if (o.kind % 4 == 0) {
                r.lock();
                uint64_t got = sim::seq();
                std::string v;
                {
                    sim::NoPreempt np;
                    v = std::string(o.key % 3 == 0 ? 40 : 3, static_cast<char>('a' + ctr % 26)) + std::to_string(++ctr);
                    writes[v] = {sim::seq(), UINT64_MAX};
                }
                tid_word t = r.get_tidw();
                if (!t.get_lock()) fail(PR, "a locked record does not say so");
                if (o.lend == 0) r.set_value(v);
                else if (o.lend == 1) r.get_latest()->set_value(v);
                else r.set_latest(new version(v, r.get_latest()));
                { sim::NoPreempt np; writes[v].ret = sim::seq(); }
                t.set_tid(t.get_tid() + 1);
                t.set_epoch(t.get_tid() * 3);
                t.set_absent(o.key2 % 3 == 0);
                { sim::NoPreempt np; stamps.insert({t.get_tid(), t.get_absent()}); held.push_back({got, sim::seq()}); }
                t.set_lock(false);
                r.set_tid(t);
            } else if (o.kind % 4 <= 2) {
                uint64_t inv = sim::seq();
                std::string v;
                if (o.kind % 4 == 1) r.get_value(v);
                else r.get_latest()->get_value(v);
                uint64_t ret = sim::seq();
                sim::NoPreempt np;
                reads.push_back({inv, ret, v});
            } else {
                uint64_t inv = sim::seq();
                tid_word a = r.get_stable_tidw();
                {
                    sim::NoPreempt np;
                    stable.push_back({inv, sim::seq()});
                    if (a.get_lock()) fail(PR, "a locked version stamp was taken for a stable one");
                    if (!a.get_latest() || stamps.count({a.get_tid(), a.get_absent()}) == 0 || a.get_epoch() != a.get_tid() * 3) fail(PR, "a version stamp was read which was never set");
                }
                sim::point();
                tid_word b = r.get_stable_tidw();
                if (b.get_tid() < a.get_tid()) fail(PR, "the version stamp of a record went back");
            }
            part::progress();
        });
    });
    for (auto&& x : reads) {
        auto it = writes.find(x.v);
        if (it == writes.end()) fail(PR, "a value was read which was never written: '%.60s'", x.v.c_str());
        if (it->second.inv > x.ret) fail(PR, "a value was read before it was written");
        for (auto&& w : writes)
            if (w.second.inv > it->second.ret && w.second.ret < x.inv) fail(PR, "an overwritten value was read");
    }
    for (auto&& s : stable)
        for (auto&& h : held)
            if (s.inv > h.inv && s.ret < h.ret) fail(PR, "a version stamp was called stable while its record was locked all the time");
    if (r.get_tidw().get_tid() != ctr) fail(PR, "%llu writers changed the version stamp %llu times", (unsigned long long)ctr, (unsigned long long)r.get_tidw().get_tid());
}

void run(const part::Ctx& c) {
    if (c.p.seed % 2 == 0) alone(c);
    else values(c);
}

part::Reg reg("record", run);

} // namespace
#pragma clang attribute pop
