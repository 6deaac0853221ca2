// The whole engine used by one client at a time, against an exact model: unusual keys and values,
// every kind of transaction, tables coming and going, restarts inside the process.
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "sim/part/part.h"
#include "sim/stub/ctl.h"

#include "shirakami/interface.h"
#include "limestone/api/datastore.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
namespace {
using namespace shirakami;
using part::fail;
using part::Op;

using Table = std::map<std::string, std::string>;
struct Tab {
    Storage h{};
    uint64_t id{};
    std::string payload;
    Table rows;
};
struct Seq {
    SequenceVersion ver{};
    SequenceValue val{};
};
using Mode = transaction_options::transaction_type;

constexpr std::size_t LONGEST = 30 * 1024;

struct One {
    const part::Ctx& c;
    std::map<std::string, Tab> tabs;
    std::vector<std::string> keys;
    std::vector<Storage> gone; // handles of deleted tables
    std::map<SequenceId, Seq> seqs;
    std::set<SequenceId> dead; // sequences that were deleted
    Token tk{};
    durability_marker_type marker{}, announced{};
    int lives{0};
    int failed{0};
    bool short_on_space{false};

    bool talk{getenv("SIM_TALK") != nullptr};
    void say(const char* f, ...) {
        if (!talk) return;
        sim::NoPreempt np;
        va_list ap;
        va_start(ap, f);
        vfprintf(stderr, f, ap);
        va_end(ap);
    }
    static const char* yes(Status s) {
        static thread_local std::string t;
        t = std::string(to_string_view(s));
        return t.c_str();
    }
    void nap(uint64_t epochs) { sim::sleep_ns(c.in.epoch_us * 1000 * epochs + 1); }

    void boot() {
        database_options o;
        o.set_open_mode(lives == 0 ? database_options::open_mode::CREATE : lives % 2 == 0 ? database_options::open_mode::RESTORE : database_options::open_mode::CREATE_OR_RESTORE);
        o.set_epoch_time(c.in.epoch_us);
        o.set_waiting_resolver_threads(1 + c.p.seed % 2);
        o.set_index_restore_threads(c.p.seed / 2 % 3);
        o.set_iterator_based_scan((c.p.seed / 8) % 2 == 0);
        stubctl::log.incarnation = static_cast<uint16_t>(lives);
        announced = 0;
        Status s = init(o, new limestone::api::datastore());
        if (s != Status::OK) fail("P10+P15", "start-up number %d failed: %s", lives, yes(s));
        s = init(o, nullptr);
        if (s != Status::WARN_ALREADY_INIT) fail("P10", "a second start-up answers %s", yes(s));
        register_durability_callback([this](durability_marker_type m) { announced = m; });
        ++lives;
        if (enter(tk) != Status::OK) fail("P18", "no session after the start");
    }
    void down() {
        for (int i = 0; announced < marker; ++i) {
            nap(1);
            if (i > 2000) fail("P20", "durability of the last commit is not announced");
        }
        if (leave(tk) != Status::OK) fail("P18", "leaving fails");
        marker = 0;
        if (lives % 2 == 0) nap(20); // what was not logged yet may be lost
        say("fin\n");
        fin(lives % 2 == 0);
        // sessions and tables are closed now
        part::progress();
    }
    std::string value(const Op& o, uint64_t salt) {
        uint64_t r = part::rnd(o, salt);
        std::string v;
        switch (r % 8) {
            case 0: break;
            case 1: v = std::string(1, '\0'); break;
            case 2: v = std::string(r / 8 % 40, static_cast<char>(r >> 40)); break;
            case 3: if (!short_on_space) v = std::string(5000 + r / 8 % 20000, static_cast<char>(r >> 40)); break;
            default: v = std::to_string(r); break;
        }
        return v;
    }

    // one answer per operation; retried while the engine asks for patience
    template<class F>
    Status ask(F&& f) {
        for (int i = 0;; ++i) {
            Status s = f();
            part::progress();
            if (s != Status::WARN_PREMATURE && s != Status::WARN_CONCURRENT_INSERT && s != Status::WARN_CONCURRENT_UPDATE) return s;
            if (i == 0) say("  (%s)\n", yes(s));
            if (i > 3000) fail("P15+P13+P04", "a lone transaction is told %s for ever", yes(s));
            nap(1);
        }
    }

    std::vector<std::pair<std::string, std::string>> wanted(const Table& t, const std::string& l, scan_endpoint le, const std::string& r, scan_endpoint re) {
        std::vector<std::pair<std::string, std::string>> v;
        for (auto&& e : t) {
            if (le == scan_endpoint::INCLUSIVE && e.first < l) continue;
            if (le == scan_endpoint::EXCLUSIVE && e.first <= l) continue;
            if (re == scan_endpoint::INCLUSIVE && e.first > r) continue;
            if (re == scan_endpoint::EXCLUSIVE && e.first >= r) continue;
            v.push_back(e);
        }
        return v;
    }

    // returns false when the engine ended the transaction
    bool scan(Mode m, Tab& t, const Table& now, const Op& o, const char* props) {
        static const scan_endpoint ends[] = {scan_endpoint::INF, scan_endpoint::INCLUSIVE, scan_endpoint::EXCLUSIVE};
        uint64_t r = part::rnd(o, 5);
        scan_endpoint le = ends[r % 3], re = ends[r / 3 % 3];
        const std::string lk = le == scan_endpoint::INF ? std::string() : keys[o.key % keys.size()];
        std::string rk = re == scan_endpoint::INF ? std::string() : keys[o.key2 % keys.size()];
        std::size_t max = r / 9 % 3 == 0 ? 1 + r / 27 % 4 : 0;
        bool back = r / 1000 % 5 == 0;
        if (back) { re = scan_endpoint::INF; rk.clear(); max = 1; }
        ScanHandle h{};
        Status s = ask([&] { return open_scan(tk, t.h, lk, le, rk, re, h, max, back); });
        auto want = wanted(now, lk, le, rk, re);
        say("  scan table %zx -> %s\n", static_cast<std::size_t>(t.h), yes(s));
        if (s == Status::WARN_INVALID_KEY_LENGTH) {
            if ((le == scan_endpoint::INF || lk.size() <= LONGEST) && (re == scan_endpoint::INF || rk.size() <= LONGEST)) fail("P03+P05", "a scan within proper keys is refused for their length");
            return true;
        }
        if (s == Status::ERR_CC && m == Mode::SHORT) return false;
        if (s != Status::OK && s != Status::WARN_NOT_FOUND) fail("P03+P05", "opening a scan answers %s", yes(s));
        std::vector<std::pair<std::string, std::string>> got;
        if (s == Status::OK) {
            std::size_t size = 0;
            for (;;) {
                std::string k, v;
                bool vfirst = r / 5000 % 2 == 0;
                Status b = Status::OK;
                if (vfirst) b = ask([&] { return read_value_from_scan(tk, h, v); });
                Status a = ask([&] { return read_key_from_scan(tk, h, k); });
                if (!vfirst) b = ask([&] { return read_value_from_scan(tk, h, v); });
                if (m == Mode::SHORT && (a == Status::ERR_CC || b == Status::ERR_CC)) return false;
                if (a != b) fail("P03+P05", "the key of a scanned record answers %s, its value %s", yes(a), std::string(to_string_view(b)).c_str());
                if (a == Status::OK) got.emplace_back(k, v);
                else if (a != Status::WARN_NOT_FOUND && a != Status::WARN_SCAN_LIMIT) fail("P03+P05", "reading from a scan answers %s", yes(a));
                Status n = ask([&] { return next(tk, h); });
                if (n == Status::WARN_SCAN_LIMIT) break;
                if (n == Status::ERR_CC && m == Mode::SHORT) return false;
                if (n != Status::OK) fail("P03+P05", "advancing a scan answers %s", yes(n));
                if (++size > 1000) fail("P03+P15", "a scan does not end");
            }
            s = close_scan(tk, h);
            if (s != Status::OK) fail("P03+P05", "closing a scan answers %s", yes(s));
        }
        if (back) std::reverse(want.begin(), want.end());
        if (max != 0) {
            if (got.size() > max) fail("P03", "a scan of at most %zu records returned %zu", max, got.size());
            if (want.size() > got.size()) want.resize(got.size());
        }
        if (got != want) {
            std::size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            fail(props, "a scan returned %zu records instead of %zu, the first difference at %zu", got.size(), want.size(), i);
        }
        return true;
    }

    // one transaction of a few operations; true when it committed
    void transaction(const std::vector<const Op*>& ops) {
        const Op& f = *ops[0];
        uint64_t r = part::rnd(f, 1);
        Mode m = r % 4 == 0 ? Mode::LONG : r % 4 == 1 ? Mode::READ_ONLY : Mode::SHORT;
        if (tabs.empty()) return;
        std::vector<Tab*> ts;
        for (auto&& e : tabs) ts.push_back(&e.second);
        std::map<Tab*, Table> now;
        for (auto* t : ts) now[t] = t->rows;
        const char* props = m == Mode::READ_ONLY ? "P01+P03+P04+P05+P06" : "P01+P02+P03+P04+P05";
        if (m == Mode::READ_ONLY) nap(12); // the snapshot includes everything before
        transaction_options opt(tk);
        opt.set_transaction_type(m);
        std::set<Storage> reserved;
        if (m == Mode::LONG) {
            std::vector<Storage> wp;
            for (auto* t : ts) if (part::rnd(f, t->h) % 4 != 0) { wp.push_back(t->h); reserved.insert(t->h); }
            if (r / 64 % 4 == 0 && !wp.empty()) wp.push_back(wp[0]); // named twice
            opt.set_write_preserve(wp);
        }
        Status s = Status::OK;
        if (m == Mode::LONG && r / 1024 % 8 == 0) {
            transaction_options other(opt);
            auto wp = opt.get_write_preserve();
            wp.push_back(r / 8192 % 2 == 0 ? Storage{0x7ffffff1ULL << 32} : Storage{0x7ffffff1ULL});
            other.set_write_preserve(wp);
            s = tx_begin(other);
            if (s != Status::WARN_INVALID_ARGS) fail("P14+P11", "reserving a table that does not exist answers %s", yes(s));
            if (r / 16384 % 2 == 0) return;
        }
        s = tx_begin(opt);
        if (s != Status::OK) fail("P18+P05", "begin answers %s", yes(s));
        bool over = false;
        int seen = 0;
        std::map<SequenceId, Seq> asked;
        say("begin kind %d\n", static_cast<int>(m));
        for (auto* po : ops) {
            const Op& o = *po;
            uint64_t q = part::rnd(o, 2);
            Tab& t = *ts[o.st % ts.size()];
            Table& w = now[&t];
            const std::string& k = keys[o.key % keys.size()];
            auto it = w.find(k);
            bool there = it != w.end();
            bool proper = k.size() <= LONGEST;
            std::string v = value(o, 3);
            Status a = Status::OK, want = Status::OK;
            if (!gone.empty() && q % 16 == 0) {
                // a table that was deleted
                Storage x = gone[q / 16 % gone.size()];
                std::string out;
                a = ask([&] { return search_key(tk, x, "a", out); });
                if (a != Status::WARN_STORAGE_NOT_FOUND) fail("P11", "reading a deleted table answers %s", yes(a));
                continue;
            }
            if (m != Mode::READ_ONLY && (!seqs.empty() || !dead.empty()) && q % 16 <= 2) {
                sequence_update(o, asked);
                continue;
            }
            int kind = static_cast<int>(q / 16 % 7);
            if (kind == 6) {
                if (!scan(m, t, w, o, props)) { over = true; break; }
                ++seen;
                continue;
            }
            std::string out;
            switch (kind) {
                case 0:
                    a = ask([&] { return search_key(tk, t.h, k, out); });
                    want = there ? Status::OK : Status::WARN_NOT_FOUND;
                    if (a == Status::OK && there && out != it->second) fail(props, "a value of %zu bytes was read as one of %zu bytes", it->second.size(), out.size());
                    break;
                case 1:
                    a = ask([&] { return exist_key(tk, t.h, k); });
                    want = there ? Status::OK : Status::WARN_NOT_FOUND;
                    break;
                case 2:
                    a = ask([&] { return insert(tk, t.h, k, v); });
                    want = there ? Status::WARN_ALREADY_EXISTS : Status::OK;
                    break;
                case 3:
                    a = ask([&] { return update(tk, t.h, k, v); });
                    want = there ? Status::OK : Status::WARN_NOT_FOUND;
                    break;
                case 4: a = ask([&] { return upsert(tk, t.h, k, v); }); break;
                default:
                    a = ask([&] { return delete_record(tk, t.h, k); });
                    want = there ? Status::OK : Status::WARN_NOT_FOUND;
                    break;
            }
            say("  op %d table %zx key %zu -> %s\n", kind, static_cast<std::size_t>(t.h), o.key % keys.size(), yes(a));
            if (kind >= 2) {
                if (m == Mode::READ_ONLY) want = Status::WARN_ILLEGAL_OPERATION;
                else if (m == Mode::LONG && reserved.count(t.h) == 0) want = Status::WARN_WRITE_WITHOUT_WP;
            }
            if (!proper) {
                bool no = (kind >= 2 && want == Status::WARN_ILLEGAL_OPERATION && a == want) || (want == Status::WARN_WRITE_WITHOUT_WP && a == want);
                if (a != Status::WARN_INVALID_KEY_LENGTH && !no) fail("P05", "operation %d with a key of %zu bytes answers %s", kind, k.size(), yes(a));
                continue;
            }
            if (a == Status::ERR_CC && m == Mode::SHORT) { over = true; break; }
            if (kind == 5 && want == Status::OK && a == Status::WARN_CANCEL_PREVIOUS_INSERT && t.rows.count(k) == 0) {
                w.erase(k);
                continue;
            }
            if (kind == 5 && want == Status::OK && a == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
                // what was there before the upsert, or nothing: the documentation allows both
                auto b = t.rows.find(k);
                a = ask([&] { return search_key(tk, t.h, k, out); });
                if (a == Status::ERR_CC && m == Mode::SHORT) { over = true; break; }
                if (a == Status::OK && b != t.rows.end() && out == b->second) w[k] = out;
                else if (a == Status::WARN_NOT_FOUND) w.erase(k);
                else fail(props, "after an upsert was cancelled by a delete the record answers %s", yes(a));
                continue;
            }
            if (a != want) fail(want == Status::WARN_WRITE_WITHOUT_WP ? "P14+P05" : want == Status::WARN_ILLEGAL_OPERATION ? "P06+P05" : props, "operation %d of a lone transaction of kind %d answers %s, not %s", kind, static_cast<int>(m), std::string(to_string_view(a)).c_str(), yes(want));
            if (a == Status::OK && kind >= 2) {
                if (kind == 5) w.erase(k);
                else w[k] = v;
            }
            ++seen;
        }
        if (over) {
            if (commit(tk) != Status::WARN_NOT_BEGIN) fail("P05", "a transaction ended by an error can still be committed");
            lost();
            return;
        }
        if (r / 4 % 6 == 0) {
            s = abort(tk);
            say("abort\n");
            if (s != Status::OK) fail("P04", "abort answers %s", yes(s));
            return;
        }
        int calls = 0;
        Status got{};
        int early = 0;
    again:
        calls = 0;
        bool before = commit(tk, [&](Status x, reason_code rc, durability_marker_type d) {
            ++calls;
            got = x;
            say("commit %s\n", yes(x));
            if (x == Status::OK) {
                if (d < marker) fail("P20+P08", "the marker of a later commit is smaller");
                marker = d;
            } else if (rc == reason_code::UNKNOWN && x != Status::WARN_PREMATURE) {
                fail("P07", "a failed commit has no reason");
            }
        });
        for (int i = 0; calls == 0; ++i) {
            if (before) fail("P07", "the commit was said to be answered but was not");
            nap(1);
            if (i > 3000) fail("P15+P07", "the commit of a lone transaction is not answered");
        }
        nap(r / 512 % 3);
        if (calls != 1) fail("P07", "one commit was answered %d times", calls);
        if (got == Status::WARN_PREMATURE && m == Mode::LONG) {
            if (++early > 3000) fail("P15+P13", "the commit of a lone transaction is premature for ever");
            nap(1);
            goto again;
        }
        if (got == Status::OK) {
            for (auto* t : ts) t->rows = now[t];
            for (auto&& e : asked) {
                auto it = seqs.find(e.first);
                if (it != seqs.end() && it->second.ver < e.second.ver) it->second = e.second;
            }
            for (auto&& e : asked) sequence_look(e.first, "P12");
            failed = 0;
        } else if (m == Mode::SHORT) {
            lost();
        } else {
            fail(m == Mode::LONG ? "P13+P07" : "P06+P07", "the commit of a lone transaction of kind %d answers %s", static_cast<int>(m), yes(got));
        }
    }
    void sequence_update(const Op& o, std::map<SequenceId, Seq>& asked) {
        uint64_t r = part::rnd(o, 13);
        SequenceId id{};
        SequenceVersion have{};
        if (!seqs.empty() && (dead.empty() || r % 8 != 0)) {
            auto it = seqs.begin();
            std::advance(it, static_cast<long>(r / 8 % seqs.size()));
            id = it->first;
            have = it->second.ver;
        } else {
            id = *dead.begin();
        }
        // the version a sequence has already is never used again
        SequenceVersion v = have + 1 + r / 4096 % 3;
        if (r / 64 % 4 == 0 && have > 1) v = 1 + r / 4096 % (have - 1);
        if (r / 64 % 32 == 1) v = have + (1ULL << 33);
        auto val = static_cast<SequenceValue>(r / 64 % 5 == 2 ? -static_cast<int64_t>(r >> 20) : static_cast<int64_t>(r >> (r % 60)));
        auto a = asked.find(id);
        bool refused = a != asked.end() && v <= a->second.ver;
        Status s = update_sequence(tk, id, v, val);
        say("  sequence %llu version %llu -> %s\n", static_cast<unsigned long long>(id), static_cast<unsigned long long>(v), yes(s));
        if (s != (refused ? Status::WARN_ALREADY_EXISTS : Status::OK)) fail("P12", "updating a sequence to version %llu answers %s", static_cast<unsigned long long>(v), yes(s));
        if (!refused) asked[id] = Seq{v, val};
        sequence_look(id, "P12"); // nothing shows before the commit
    }
    void sequence_look(SequenceId id, const char* props) {
        SequenceVersion v{};
        SequenceValue x{};
        Status s = read_sequence(id, &v, &x);
        auto it = seqs.find(id);
        if (it == seqs.end()) {
            if (s != Status::WARN_NOT_FOUND) fail(props, "reading a deleted sequence answers %s", yes(s));
            return;
        }
        if (s != Status::OK) fail(props, "reading sequence %llu answers %s", static_cast<unsigned long long>(id), yes(s));
        if (v != it->second.ver || x != it->second.val)
            fail(props, "sequence %llu has version %llu and value %lld instead of version %llu and value %lld", static_cast<unsigned long long>(id), static_cast<unsigned long long>(v), static_cast<long long>(x),
                 static_cast<unsigned long long>(it->second.ver), static_cast<long long>(it->second.val));
    }
    void sequence_create() {
        SequenceId id{};
        Status s = create_sequence(&id);
        if (s != Status::OK) fail("P12", "creating a sequence answers %s", yes(s));
        if (seqs.count(id) != 0) fail("P12", "a new sequence got the number of an existing one");
        dead.erase(id);
        seqs[id] = Seq{};
        sequence_look(id, "P12");
        part::progress();
    }
    void sequences(const Op& o) {
        uint64_t r = part::rnd(o, 15);
        if (r % 4 == 3 && (!seqs.empty() || !dead.empty())) {
            bool again = seqs.empty() || (!dead.empty() && r / 4 % 4 == 0);
            SequenceId id{};
            if (again) {
                id = *dead.begin();
            } else {
                auto it = seqs.begin();
                std::advance(it, static_cast<long>(r / 16 % seqs.size()));
                id = it->first;
            }
            Status s = delete_sequence(id);
            say("delete sequence %llu -> %s\n", static_cast<unsigned long long>(id), yes(s));
            if (s != (again ? Status::WARN_NOT_FOUND : Status::OK)) fail("P12", "deleting a sequence answers %s", yes(s));
            seqs.erase(id);
            dead.insert(id);
            sequence_look(id, "P12");
            return;
        }
        // their keys in the log are in another order than their numbers once there are many
        int n = r / 16 % 24 == 0 && seqs.size() < 100 ? 300 : 1;
        say("create %d sequences\n", n);
        for (int i = 0; i < n; ++i) sequence_create();
    }
    // a short transaction may lose against the collector
    void lost() {
        if (++failed > 30) fail("P15+P14+P04", "lone short transactions fail again and again");
        nap(1);
    }

    void tables(const Op& o) {
        uint64_t r = part::rnd(o, 7);
        static const std::string names[] = {"t", "t2", std::string("t\0t", 3), "a much longer name of a table than the others have, longer than one slice", ""};
        const std::string& n = names[r % (r / 100 % 6 == 0 ? 5 : 4)];
        auto it = tabs.find(n);
        switch (r / 8 % 9) {
            case 6:
            case 7: sequences(o); return;
            case 0:
            case 1: {
                Storage h{};
                storage_option op;
                std::string pay = value(o, 9).substr(0, 300);
                uint64_t id = r / 64 % 3 == 0 ? 1 + r / 512 % 3 : storage_id_undefined;
                op.payload(pay);
                op.id(id);
                bool taken = false;
                for (auto&& e : tabs) taken = taken || (id != storage_id_undefined && e.second.id == id);
                Status s = create_storage(n, h, op);
                say("create %zu %zx -> %s\n", n.size(), static_cast<std::size_t>(h), yes(s));
                if (it != tabs.end()) {
                    if (s != Status::WARN_ALREADY_EXISTS) fail("P11", "creating a table whose name is taken answers %s", yes(s));
                    return;
                }
                if (s == Status::OK) {
                    for (auto&& e : tabs) if (e.second.h == h) fail("P11", "two tables have the same handle");
                    gone.erase(std::remove(gone.begin(), gone.end(), h), gone.end());
                    tabs[n] = Tab{h, id, pay, {}};
                } else if (!taken) {
                    fail("P11", "creating a table answers %s", yes(s));
                }
                (void)taken;
                return;
            }
            case 2: {
                if (it == tabs.end()) {
                    Status s = gone.empty() ? Status::WARN_STORAGE_NOT_FOUND : delete_storage(gone[0]);
                    if (s == Status::OK) fail("P11", "a deleted table was deleted again");
                    return;
                }
                Status s = delete_storage(it->second.h);
                say("delete %zu %zx -> %s\n", n.size(), static_cast<std::size_t>(it->second.h), yes(s));
                if (s != Status::OK) fail("P11", "deleting a table answers %s", yes(s));
                gone.push_back(it->second.h);
                tabs.erase(it);
                return;
            }
            case 3: {
                if (it == tabs.end()) return;
                storage_option op;
                op.payload(value(o, 11).substr(0, 300));
                op.id(it->second.id);
                Status s = storage_set_options(it->second.h, op);
                say("options %zx %zu bytes -> %s\n", static_cast<std::size_t>(it->second.h), op.payload().size(), yes(s));
                if (s != Status::OK) fail("P11", "setting options answers %s", yes(s));
                it->second.payload = op.payload();
                return;
            }
            default: look(false); return;
        }
    }

    void look(bool all) {
        std::vector<std::string> l;
        if (list_storage(l) != Status::OK) fail("P11", "listing tables fails");
        std::sort(l.begin(), l.end());
        std::vector<std::string> want;
        for (auto&& e : tabs) want.push_back(e.first);
        if (l != want) fail(all ? "P10+P11" : "P11", "%zu tables are listed instead of %zu", l.size(), want.size());
        for (auto&& e : tabs) {
            Storage h{};
            if (get_storage(e.first, h) != Status::OK || h != e.second.h) fail(all ? "P10+P11" : "P11", "a table is not found by its name");
            storage_option op;
            if (storage_get_options(h, op) != Status::OK) fail(all ? "P10+P11" : "P11", "a table has no options");
            if (op.payload() != e.second.payload) fail(all ? "P10+P11" : "P11", "the payload of a table changed from %zu to %zu bytes", e.second.payload.size(), op.payload().size());
            if (e.second.id != storage_id_undefined && op.id() != e.second.id) fail(all ? "P10+P11" : "P11", "the id of a table changed");
        }
        if (!all) return;
        for (auto&& e : seqs) sequence_look(e.first, "P12+P10");
        for (auto&& e : dead) sequence_look(e, "P12+P10");
        for (auto&& e : tabs) {
            for (int tries = 0;; ++tries) {
                if (tries > 30) fail("P15", "reading alone never commits");
                Status s = tx_begin({tk});
                if (s != Status::OK) fail("P18", "begin answers %s", yes(s));
                Op o{};
                bool ok = true;
                ScanHandle h{};
                Table got;
                s = ask([&] { return open_scan(tk, e.second.h, "", scan_endpoint::INF, "", scan_endpoint::INF, h); });
                if (s == Status::OK) {
                    do {
                        std::string k, v;
                        Status a = ask([&] { return read_key_from_scan(tk, h, k); });
                        if (a == Status::OK) a = ask([&] { return read_value_from_scan(tk, h, v); });
                        if (a == Status::ERR_CC) { ok = false; break; }
                        if (a == Status::OK) got[k] = v;
                    } while (next(tk, h) == Status::OK);
                } else if (s != Status::WARN_NOT_FOUND) {
                    ok = false;
                }
                if (!ok) { abort(tk); nap(1); continue; }
                if (commit(tk) != Status::OK) { nap(1); continue; }
                if (got != e.second.rows) fail("P10+P08+P09+P19+P01", "a table of %zu records has %zu, or other ones, after the restart", e.second.rows.size(), got.size());
                break;
            }
        }
    }
};

void run(const part::Ctx& c) {
    One e{c};
    uint64_t s = c.p.seed;
    sim::Rng r(sim::mix(s, 4242));
    std::set<std::string> ks;
    static const std::string odd[] = {"", std::string(1, '\0'), std::string(2, '\0'), "a", std::string("a\0", 2), "12345678", "123456781", std::string("12345678\0", 9), std::string(8, '\xff'), "\xff", "b", "ba"};
    for (int i = static_cast<int>(r.range(2, 7)); i > 0; --i) ks.insert(odd[r.below(12)]);
    for (int i = static_cast<int>(r.range(0, 4)); i > 0; --i) ks.insert(std::string(r.range(1, 300), static_cast<char>('a' + r.below(2))));
    if (r.chance(20, 100)) { ks.insert(std::string(LONGEST, 'z')); e.short_on_space = true; }
    if (r.chance(20, 100)) ks.insert(std::string(LONGEST + 1, 'z'));
    e.keys.assign(ks.begin(), ks.end());
    std::vector<const Op*> ops;
    for (int i = 0; i < c.clients(); ++i) c.each(i, [&](const Op& o) { ops.push_back(&o); });
    if (ops.empty()) return;
    e.boot();
    Storage h{};
    if (create_storage("t", h) != Status::OK) fail("P11", "the first table cannot be created");
    e.tabs["t"] = Tab{h, storage_id_undefined, "", {}};
    for (std::size_t i = 0; i < ops.size();) {
        uint64_t q = part::rnd(*ops[i], 21);
        if (q % 7 == 0) {
            e.tables(*ops[i]);
            ++i;
        } else if (q % 41 == 1 && e.lives < 4) {
            e.down();
            e.boot();
            e.look(true);
            ++i;
        } else {
            std::vector<const Op*> t;
            for (std::size_t n = 1 + q / 41 % 6; n > 0 && i < ops.size(); --n) t.push_back(ops[i++]);
            e.transaction(t);
        }
        part::progress();
    }
    e.down();
    e.boot();
    e.look(true);
    e.sequence_create();
    e.down();
}

part::Reg reg("one", run);

} // namespace
#pragma clang attribute pop
