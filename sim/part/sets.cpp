// what a transaction keeps about its own writes and what others announced to read
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

#include "concurrency_control/include/local_set.h"
#include "concurrency_control/include/read_plan.h"
#include "concurrency_control/include/session.h"
#include "database/include/thread_pool.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

constexpr const char* PR = "P01+P04+P05+P07+P19";
constexpr const char* PLAN = "P01+P02+P03+P13";
using tx_type = transaction_options::transaction_type;

struct W {
    Storage st;
    OP_TYPE op;
    std::string val;
    bool inc;
    std::vector<blob_id_type> lobs;
};

void same(local_write_set& ws, const std::map<Record*, W>& m, const std::vector<std::unique_ptr<Record>>& recs) {
    for (auto&& r : recs) {
        auto it = m.find(r.get());
        write_set_obj* o = ws.search(r.get());
        if ((o != nullptr) != (it != m.end())) fail(PR, "a write is %s among the writes of its transaction", o != nullptr ? "still" : "not");
        if (o == nullptr) continue;
        std::string v;
        o->get_value(v);
        if (o->get_rec_ptr() != r.get() || o->get_storage() != it->second.st || o->get_op() != it->second.op || v != it->second.val || o->get_lobs() != it->second.lobs || o->get_inc_tombstone() != it->second.inc)
            fail(PR, "a write of a transaction is not what was written");
    }
    std::size_t n = ws.get_for_batch() ? ws.get_ref_cont_for_bt().size() : ws.get_ref_cont_for_occ().size();
    if (n != m.size()) fail(PR, "a transaction with %zu writes keeps %zu", m.size(), n);
    if (ws.empty() != m.empty()) fail(PR, "whether there are writes is told wrongly");
}

// writes of one transaction, of any number
void writes(const part::Ctx& c) {
    for (int cl = 0; cl < c.clients(); ++cl) {
        auto s = std::make_unique<session>();
        bool lng = (c.p.seed + static_cast<uint64_t>(cl)) % 3 == 0;
        auto begin = [&] {
            s->set_tx_type(lng ? tx_type::LONG : tx_type::SHORT);
            s->get_write_set().set_for_batch(lng);
        };
        begin();
        std::vector<std::unique_ptr<Record>> recs;
        std::size_t want = 3 + sim::mix(c.p.seed, 5 + static_cast<uint64_t>(cl)) % (cl == 0 ? 160 : 12);
        for (std::size_t i = 0; i < want; ++i) recs.push_back(std::make_unique<Record>(part::key_of(sim::mix(c.p.seed, i + 77)) + std::to_string(i)));
        local_write_set& ws = s->get_write_set();
        std::map<Record*, W> m;
        std::map<Storage, std::pair<std::string, std::string>> area;
        auto push = [&](uint64_t r) {
            Record* rec = recs[r % recs.size()].get();
            W w{1 + r / 1000 % 3, OP_TYPE::UPDATE, part::key_of(r >> 20), r / 64 % 2 == 0, {}};
            auto it = m.find(rec);
            if (it != m.end()) {
                // written before: the write is changed in place
                write_set_obj* o = ws.search(rec);
                if (o == nullptr) fail(PR, "a write is lost");
                if (r / 128 % 4 == 0) {
                    if (ws.erase(o) != Status::OK) fail(PR, "a write cannot be withdrawn");
                    m.erase(it);
                } else {
                    o->set_val(w.val);
                    o->set_op(OP_TYPE::UPSERT);
                    it->second.val = w.val;
                    it->second.op = OP_TYPE::UPSERT;
                    if (r / 128 % 4 == 1) {
                        o->set_lobs({r, r + 1});
                        it->second.lobs = {r, r + 1};
                    }
                }
                return;
            }
            switch (r / 256 % 4) {
                case 0:
                    w.op = OP_TYPE::DELETE;
                    w.val.clear();
                    w.inc = false;
                    s->push_to_write_set({w.st, OP_TYPE::DELETE, rec});
                    break;
                case 1: w.op = OP_TYPE::INSERT; break;
                case 2: w.op = OP_TYPE::UPSERT; break;
                default: break;
            }
            if (w.op != OP_TYPE::DELETE) {
                if (r / 4096 % 3 == 0) w.lobs = {r % 9, r % 7 + 10, r % 5};
                auto l = w.lobs;
                s->push_to_write_set({w.st, w.op, rec, w.val, w.inc, std::move(l)});
            }
            std::string k(rec->get_key_view());
            auto a = area.emplace(w.st, std::make_pair(k, k)).first;
            if (k < a->second.first) a->second.first = k;
            if (a->second.second < k) a->second.second = k;
            m[rec] = w;
        };
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 1);
            int burst = o.lend == 1 ? static_cast<int>(r % 90) : 1;
            for (int i = 0; i < burst; ++i) push(sim::mix(r, static_cast<uint64_t>(i)));
            if (o.rend == 1) ws.sort_if_ol();
            same(ws, m, recs);
            if (o.rend == 1 && !ws.get_for_batch()) {
                Record* last = nullptr;
                for (auto&& e : ws.get_ref_cont_for_occ()) {
                    if (last != nullptr && !(last < e.get_rec_ptr())) fail("P15+P01", "the writes are not in the order in which they have to be locked");
                    last = e.get_rec_ptr();
                }
            }
            if (lng) {
                // what may be written lies within the area told to others; a withdrawn write may stay in it
                auto& sm = ws.get_storage_map();
                for (auto&& a : area) {
                    auto it = sm.find(a.first);
                    if (it == sm.end()) fail(PLAN, "a table written by a long transaction is not among its tables");
                    if (std::get<0>(it->second) > a.second.first || std::get<1>(it->second) < a.second.second) fail(PLAN, "a key written by a long transaction is outside of its range");
                    if (std::get<0>(it->second) < a.second.first || std::get<1>(it->second) > a.second.second) fail("P13+P15", "the range written by a long transaction is too large");
                }
                if (sm.size() != area.size()) fail("P13", "a long transaction has tables which it did not write");
            }
            if (o.kind % 16 == 0) {
                ws.clear();
                m.clear();
                area.clear();
                begin();
                same(ws, m, recs);
            }
            part::progress();
        });
    }
    // sequences: the newest version of each wins
    local_sequence_set q;
    std::map<SequenceId, std::pair<SequenceVersion, SequenceValue>> m;
    c.each(0, [&](const part::Op& o) {
        uint64_t r = part::rnd(o, 3);
        SequenceId id = static_cast<SequenceId>(r % 4);
        SequenceVersion ver = r / 8 % 9;
        SequenceValue val = static_cast<SequenceValue>(r / 128);
        auto it = m.find(id);
        bool takes = it == m.end() || it->second.first < ver;
        if (q.push(id, ver, val) != (takes ? Status::OK : Status::WARN_ALREADY_EXISTS)) fail("P12+P05", "a new value of a sequence is answered wrongly");
        if (takes) m[id] = {ver, val};
        if (q.set().size() != m.size()) fail("P12", "a transaction keeps the wrong number of sequences");
        for (auto&& e : m) {
            auto f = q.set().find(e.first);
            if (f == q.set().end() || std::get<0>(f->second) != e.second.first || std::get<1>(f->second) != e.second.second) fail("P12", "a transaction keeps an older value of a sequence");
        }
    });
}

bool within(const std::string& k, const std::string& l, scan_endpoint le, const std::string& r, scan_endpoint re) {
    if (le == scan_endpoint::INCLUSIVE && k < l) return false;
    if (le == scan_endpoint::EXCLUSIVE && k <= l) return false;
    if (re == scan_endpoint::INCLUSIVE && k > r) return false;
    if (re == scan_endpoint::EXCLUSIVE && k >= r) return false;
    return true;
}

constexpr scan_endpoint ENDS[] = {scan_endpoint::INCLUSIVE, scan_endpoint::EXCLUSIVE, scan_endpoint::INF};

// a range that is read and one that is written
void ranges(const part::Ctx& c) {
    const std::vector<std::string> ks{"", std::string(1, '\0'), "a", std::string("a\0", 2), "ab", "b", "b\xff", "c"};
    for (int cl = 0; cl < c.clients(); ++cl)
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 2);
            std::string wl = ks[r % 8], wr = ks[r / 8 % 8], rl = ks[r / 64 % 8], rr = ks[r / 512 % 8];
            if (wr < wl) std::swap(wl, wr);
            scan_endpoint le = ENDS[r / 4096 % 3], re = ENDS[r / 16384 % 3];
            bool hit = read_plan::check_range_overlap(wl, wr, rl, le, rr, re);
            for (auto&& k : ks)
                if (k >= wl && k <= wr && within(k, rl, le, rr, re) && !hit) fail(PLAN, "a range read by one transaction and one written by another overlap but this is not seen");
            // nothing in between: the ranges are apart
            bool apart = (le != scan_endpoint::INF && (wr < rl || (wr == rl && le == scan_endpoint::EXCLUSIVE))) || (re != scan_endpoint::INF && (wl > rr || (wl == rr && re == scan_endpoint::EXCLUSIVE)));
            if (apart && hit) fail("P13+P15", "ranges that lie apart are taken as overlapping");
        });
}

// who may read what a long transaction writes
void plans(const part::Ctx& c) {
    read_plan::init();
    std::vector<std::unique_ptr<Record>> recs;
    const std::vector<std::string> ks{"", "a", "b", "c", "d", "e"};
    for (auto&& k : ks) recs.push_back(std::make_unique<Record>(k));
    struct P {
        bool sub{};
        std::set<Storage> pos, neg;
        std::vector<std::tuple<Storage, std::string, scan_endpoint, std::string, scan_endpoint>> rg;
    };
    std::map<std::size_t, P> m;
    for (int cl = 0; cl < c.clients(); ++cl)
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 4);
            std::size_t id = 1 + r % 6;
            P p;
            auto draw = [&](uint64_t x) {
                std::set<Storage> s;
                for (Storage st = 1; st <= 3; ++st)
                    if ((x >> st) % 2 == 1) s.insert(st);
                return s;
            };
            switch (r / 8 % 4) {
                case 0: {
                    transaction_options::read_area ra;
                    if (r / 32 % 3 != 0) p.pos = draw(r / 128);
                    if (r / 32 % 3 != 1) p.neg = draw(r / 4096);
                    for (auto s : p.pos) ra.insert_to_positive_list(s);
                    for (auto s : p.neg) ra.insert_to_negative_list(s);
                    read_plan::add_elem(id, ra);
                    m[id] = p;
                    break;
                }
                case 1: {
                    read_plan::plist_type pl;
                    read_plan::nlist_type nl;
                    p.sub = true;
                    for (uint64_t i = 0; i < 1 + r / 64 % 3; ++i) {
                        uint64_t x = sim::mix(r, i);
                        auto t = std::make_tuple(1 + x % 3, ks[x / 8 % 6], ENDS[x / 64 % 3], ks[x / 256 % 6], ENDS[x / 2048 % 3]);
                        p.rg.push_back(t);
                        pl.insert(std::make_tuple(std::get<0>(t), true, std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t)));
                    }
                    read_plan::add_elem(id, pl, nl);
                    m[id] = p;
                    break;
                }
                case 2:
                    read_plan::remove_elem(id);
                    m.erase(id);
                    break;
                default: {
                    // a transaction with these writes asks
                    if (m.find(id) == m.end()) {
                        read_plan::add_elem(id, transaction_options::read_area{});
                        m[id] = P{};
                    }
                    auto s = std::make_unique<session>();
                    s->set_tx_type(tx_type::LONG);
                    s->get_write_set().set_for_batch(true);
                    std::map<Storage, std::pair<std::size_t, std::size_t>> wr;
                    for (uint64_t i = 0; i < 1 + r / 64 % 3; ++i) {
                        uint64_t x = sim::mix(r, i + 9);
                        Storage st = 1 + x % 3;
                        std::size_t k = x / 8 % 6;
                        s->push_to_write_set({st, OP_TYPE::UPSERT, recs[k].get(), "", false, {}});
                        auto a = wr.emplace(st, std::make_pair(k, k)).first;
                        a->second.first = std::min(a->second.first, k);
                        a->second.second = std::max(a->second.second, k);
                    }
                    bool must = false;
                    for (auto&& e : m) {
                        if (e.first >= id) break;
                        const P& q = e.second;
                        for (auto&& w : wr) {
                            if (q.sub) {
                                for (auto&& g : q.rg) {
                                    if (std::get<0>(g) != w.first) continue;
                                    const std::string &l = std::get<1>(g), &rk = std::get<3>(g), &wl = ks[w.second.first], &wr2 = ks[w.second.second];
                                    scan_endpoint le = std::get<2>(g), re = std::get<4>(g);
                                    bool apart = (le != scan_endpoint::INF && (wr2 < l || (wr2 == l && le == scan_endpoint::EXCLUSIVE))) || (re != scan_endpoint::INF && (wl > rk || (wl == rk && re == scan_endpoint::EXCLUSIVE)));
                                    if (!apart) must = true;
                                }
                            } else if (q.pos.empty() ? q.neg.count(w.first) == 0 : q.pos.count(w.first) != 0) {
                                must = true;
                            }
                        }
                        if (!q.sub && q.pos.empty() && q.neg.empty()) must = true;
                    }
                    bool hit = read_plan::check_potential_read_anti(id, s.get());
                    if (must && !hit) fail(PLAN, "a transaction of higher priority may read what is written, and this is not seen");
                    if (!must && hit) fail("P13+P15", "a long transaction has to wait for one that cannot read what it writes");
                    break;
                }
            }
            part::progress();
        });
    read_plan::fin();
    if (!read_plan::get_cont().empty()) fail("P10+P13", "announced reads survive the shutdown");
}

// workers end when told to, and leave no task behind
void pool(const part::Ctx& c) {
    for (int round = 0; round < 2; ++round) {
        std::size_t n = 1 + (c.p.seed + static_cast<uint64_t>(round)) % 3;
        thread_pool::init(n);
        if (!thread_pool::get_running()) fail("P15+P10", "the workers do not run after the start");
        std::vector<std::vector<thread_task>> tasks(static_cast<std::size_t>(c.clients()));
        for (auto&& t : tasks) t = std::vector<thread_task>(3);
        c.threads([&](int cl) {
            for (auto&& t : tasks[static_cast<std::size_t>(cl)]) thread_pool::push_task_queue(&t);
        });
        thread_pool::fin();
        for (std::size_t i = 0; i < n; ++i)
            if (thread_pool::get_threads()[i].joinable()) fail("P15+P10", "a worker runs on after the shutdown");
        if (!thread_pool::get_task_queue().empty()) fail("P15+P10", "a task is left behind by the workers");
    }
}

part::Reg reg("sets", [](const part::Ctx& c) {
    switch (c.p.seed % 8) {
        case 0: case 1: case 2: writes(c); break;
        case 3: ranges(c); break;
        case 4: if (c.p.seed % 64 == 4) { pool(c); break; } [[fallthrough]];
        default: plans(c); break;
    }
});

} // namespace

#pragma clang attribute pop
