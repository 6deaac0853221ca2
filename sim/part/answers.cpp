// what a finished transaction tells about itself: reasons, states, log records, options
#include <map>
#include <set>
#include <sstream>
#include <vector>

#include "shirakami/database_options.h"
#include "shirakami/log_record.h"
#include "shirakami/result_info.h"
#include "shirakami/storage_options.h"
#include "shirakami/transaction_options.h"
#include "shirakami/transaction_state.h"
#include "sim/part/part.h"
#include "storage.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

// reasons of an abort
void reasons(const part::Ctx& c) {
    constexpr const char* PR = "P04+P05+P07+P17+P18";
    constexpr int N = 4;
    storage::key_handle_map_clear();
    for (int i = 0; i < N; ++i)
        if (storage::key_handle_map_push_storage("table" + std::to_string(i), 100 + static_cast<Storage>(i)) != Status::OK) fail("P11", "a new table name is refused");
    static const reason_code rcs[] = {reason_code::UNKNOWN, reason_code::KVS_DELETE, reason_code::KVS_INSERT, reason_code::KVS_UPDATE, reason_code::CC_LTX_PHANTOM_AVOIDANCE,
                                      reason_code::CC_LTX_READ_AREA_VIOLATION, reason_code::CC_LTX_READ_UPPER_BOUND_VIOLATION, reason_code::CC_LTX_WRITE_COMMITTED_READ_PROTECTION,
                                      reason_code::CC_OCC_WP_VERIFY, reason_code::CC_OCC_READ_VERIFY, reason_code::CC_OCC_PHANTOM_AVOIDANCE, reason_code::USER_ABORT};
    static const char* names[] = {"UNKNOWN", "KVS_DELETE", "KVS_INSERT", "KVS_UPDATE", "CC_LTX_PHANTOM_AVOIDANCE", "CC_LTX_READ_AREA_VIOLATION", "CC_LTX_READ_UPPER_BOUND_VIOLATION",
                                  "CC_LTX_WRITE_COMMITTED_READ_PROTECTION", "CC_OCC_WP_VERIFY", "CC_OCC_READ_VERIFY", "CC_OCC_PHANTOM_AVOIDANCE", "USER_ABORT"};
    for (int i = 0; i < 12; ++i)
        if (to_string_view(rcs[i]) != names[i]) fail(PR, "reason %s is called %s", names[i], std::string(to_string_view(rcs[i])).c_str());
    c.threads([&](int cl) {
        result_info x;
        reason_code rc{};
        std::string key, name;
        bool has_key = false, has_name = false;
        auto same = [&](const char* when) {
            if (x.get_reason_code() != rc) fail(PR, "the reason is %s, not %s after %s", std::string(to_string_view(x.get_reason_code())).c_str(), std::string(to_string_view(rc)).c_str(), when);
            if (has_key != x.get_has_key_info() || (has_key && x.get_key() != key)) fail(PR, "the key of the failed operation is wrong after %s", when);
            if (has_name != x.get_has_storage_name_info() || (has_name && x.get_storage_name() != name)) fail(PR, "the table of the failed operation is wrong after %s", when);
        };
        same("its construction");
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 2);
            std::string k = part::key_of(r >> 8);
            Storage st = 100 + (r >> 16) % (N + 1);
            bool known = st < 100 + N;
            std::string n = "table" + std::to_string(st - 100);
            switch (o.kind % 7) {
                case 0: {
                    reason_code q = rcs[1 + (r >> 20) % 11];
                    x.set_reason_code(q); rc = q; same("setting the reason"); break;
                }
                case 1: x.set_key(k); key = k; has_key = true; same("setting the key"); break;
                case 2: x.set_storage_name(n); name = n; has_name = true; same("setting the table"); break;
                case 3: x.set_storage_name(st); if (known) { name = n; has_name = true; } same("setting the table by its handle"); break;
                case 4: x.set_key_storage_name(k, st); key = k; has_key = true; if (known) { name = n; has_name = true; } same("setting key and table"); break;
                case 5: x.clear(); rc = reason_code::UNKNOWN; has_key = has_name = false; key.clear(); name.clear(); same("clearing it");
                    if (!x.get_key().empty() || !x.get_storage_name().empty()) fail(PR, "a cleared result keeps its texts");
                    break;
                case 6: {
                    result_info y(rcs[(r >> 20) % 12]);
                    if (y.get_reason_code() != rcs[(r >> 20) % 12] || y.get_has_key_info() || y.get_has_storage_name_info()) fail(PR, "a fresh result is not empty");
                    result_info z = x;
                    x = y;
                    x = z;
                    same("copying it");
                    break;
                }
            }
            part::progress();
        });
    });
}

// handles of transaction states
void states(const part::Ctx& c) {
    constexpr const char* PR = "P17+P07+P18";
    static const char* names[] = {"UNKNOWN", "WAITING_START", "STARTED", "WAITING_CC_COMMIT", "ABORTED", "WAITING_DURABLE", "DURABLE"};
    for (int i = 0; i < 7; ++i)
        if (to_string_view(static_cast<TxState::StateKind>(i)) != names[i]) fail(PR, "state %s has another name", names[i]);
    TxState::init();
    std::set<TxStateHandle> live;
    c.threads([&](int cl) {
        struct M { TxState::StateKind k{TxState::StateKind::UNKNOWN}; uint64_t se{0}, de{0}; Token t{}; };
        std::map<TxStateHandle, M> mine;
        auto pick = [&](const part::Op& o) { auto it = mine.begin(); std::advance(it, static_cast<long>(o.key % mine.size())); return it; };
        auto same = [&](TxState& s, const M& m, const char* when) {
            if (s.state_kind() != m.k || s.get_serial_epoch() != m.se || s.get_durable_epoch() != m.de || s.get_token() != m.t) fail(PR, "a transaction state is not what was recorded (%s)", when);
        };
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 7);
            switch (o.kind % 5) {
                case 0:
                case 1: {
                    TxStateHandle h = TxState::get_new_handle_ctr();
                    {
                        sim::NoPreempt np;
                        if (h == undefined_handle) fail(PR, "a handle is the undefined one");
                        if (!live.insert(h).second) fail(PR, "a handle in use was given out again");
                    }
                    TxState out;
                    if (TxState::find_and_get_tx_state(h, out) != Status::WARN_INVALID_HANDLE) fail(PR, "a handle is valid before its transaction is entered");
                    TxState::insert_tx_state(h);
                    M m;
                    same(TxState::get_tx_state(h), m, "new");
                    mine[h] = m;
                    break;
                }
                case 2:
                    if (!mine.empty()) {
                        auto it = pick(o);
                        TxState& s = TxState::get_tx_state(it->first);
                        M& m = it->second;
                        if (r % 5 == 0) { m.k = static_cast<TxState::StateKind>((r >> 8) % 7); s.set_kind(m.k); }
                        if (r % 5 == 1) { m.se = (r >> 8) % 100; s.set_serial_epoch(m.se); }
                        if (r % 5 == 2) { m.de = (r >> 8) % 100; s.set_durable_epoch(m.de); }
                        if (r % 5 == 3) { m.t = reinterpret_cast<Token>((r >> 8) % 100); s.set_token(m.t); }
                        if (r % 5 == 4) { m.k = TxState::StateKind::UNKNOWN; m.se = m.de = 0; s.clear(); }
                    }
                    break;
                case 3:
                    if (!mine.empty()) {
                        auto it = pick(o);
                        TxState out(TxState::StateKind::ABORTED);
                        if (TxState::find_and_get_tx_state(it->first, out) != Status::OK) fail(PR, "a valid handle is not found");
                        same(out, it->second, "found");
                    }
                    break;
                case 4:
                    if (!mine.empty()) {
                        auto it = pick(o);
                        Token t{};
                        { sim::NoPreempt np; live.erase(it->first); }
                        if (TxState::find_and_erase_tx_state(it->first, t) != Status::OK || t != it->second.t) fail(PR, "releasing a valid handle fails");
                        mine.erase(it);
                    }
                    break;
            }
            for (auto&& e : mine) {
                TxState out;
                if (TxState::find_and_get_tx_state(e.first, out) != Status::OK) fail(PR, "a valid handle is lost");
                same(out, e.second, "kept");
            }
            part::progress();
        });
        for (auto&& e : mine) {
            { sim::NoPreempt np; live.erase(e.first); }
            Token t{};
            TxState::find_and_erase_tx_state(e.first, t);
        }
    });
    TxState out;
    Token t{};
    for (TxStateHandle h = 0; h < 30; ++h)
        if (TxState::find_and_get_tx_state(h, out) == Status::OK || TxState::find_and_erase_tx_state(h, t) == Status::OK) fail(PR, "a released handle is still valid");
}

// names of tables
void names(const part::Ctx& c) {
    constexpr const char* PR = "P11+P10+P07";
    storage::key_handle_map_clear();
    constexpr int PER = 3;
    c.threads([&](int cl) {
        std::map<std::string, Storage> mine;
        uint64_t ctr = 0;
        auto name = [](int who, uint64_t i) { return std::to_string(who) + std::string(1, '\0') + std::to_string(i % PER); };
        c.each(cl, [&](const part::Op& o) {
            std::string n = name(cl, o.key);
            bool there = mine.count(n) != 0;
            switch (o.kind % 6) {
                case 0:
                case 1: {
                    Storage st = 1000 * (static_cast<Storage>(cl) + 1) + ++ctr;
                    Status s = storage::key_handle_map_push_storage(n, st);
                    if (s != (there ? Status::WARN_ALREADY_EXISTS : Status::OK)) fail(PR, "naming a table answers %d", static_cast<int>(s));
                    if (!there) mine[n] = st;
                    break;
                }
                case 2: {
                    Storage st = 1;
                    Status s = storage::key_handle_map_get_storage(n, st);
                    if (s != (there ? Status::OK : Status::WARN_NOT_FOUND) || (there && st != mine[n])) fail(PR, "looking up a table name answers %d, %llu", static_cast<int>(s), (unsigned long long)st);
                    break;
                }
                case 3: {
                    if (there) {
                        std::string k;
                        Status s = storage::key_handle_map_get_key(mine[n], k);
                        if (s != Status::OK || k != n) fail(PR, "the name of a table is not found");
                    }
                    std::string k;
                    if (storage::key_handle_map_get_key(7, k) != Status::WARN_NOT_FOUND) fail(PR, "a table which is not there has a name");
                    break;
                }
                case 4: {
                    Status s = there && o.lend == 1 ? storage::key_handle_map_erase(mine[n]) : storage::key_handle_map_erase_storage(n);
                    if (s != (there ? Status::OK : Status::WARN_NOT_FOUND)) fail(PR, "forgetting a table name answers %d", static_cast<int>(s));
                    mine.erase(n);
                    break;
                }
                case 5: {
                    // somebody else's
                    int who = o.key2 % c.clients();
                    Storage st = 1;
                    Status s = storage::key_handle_map_get_storage(name(who, o.key), st);
                    if (s == Status::OK && st / 1000 != static_cast<Storage>(who) + 1) fail(PR, "a table name leads to the table of another name");
                    break;
                }
            }
            part::progress();
        });
        for (uint64_t i = 0; i < PER; ++i) {
            Storage st = 1;
            std::string n = name(cl, i);
            Status s = storage::key_handle_map_get_storage(n, st);
            if ((s == Status::OK) != (mine.count(n) != 0) || (s == Status::OK && st != mine[n])) fail(PR, "a table name was lost or kept");
        }
    });
    storage::key_handle_map_clear();
}

// plain values
void plain(const part::Ctx& c) {
    using TO = transaction_options;
    using TT = TO::transaction_type;
    for (int cl = 0; cl < c.clients(); ++cl)
        c.each(cl, [&](const part::Op& o) {
            uint64_t r = part::rnd(o, 5);
            auto list = [&](uint64_t x) { std::vector<Storage> v; for (uint64_t i = 0; i < x % 4; ++i) v.push_back(sim::mix(x, i) % 6); return v; };
            auto wp = list(r >> 4), pl = list(r >> 12), nl = list(r >> 20);
            std::set<Storage> ps(pl.begin(), pl.end()), ns(nl.begin(), nl.end());
            TO::read_area ra(ps, ns);
            auto area = [&](const TO::read_area& a, const char* when) {
                if (a.get_positive_list() != ps || a.get_negative_list() != ns || a.empty() != (ps.empty() && ns.empty())) fail("P14+P13", "a read area is not what was given (%s)", when);
            };
            area(ra, "constructed");
            for (uint64_t i = 0; i < 3; ++i) {
                Storage st = sim::mix(r, i) % 6;
                uint64_t w = sim::mix(r, i + 20) % 3;
                if (w == 0) { ra.insert_to_positive_list(st); ps.insert(st); }
                if (w == 1) { ra.insert_to_negative_list(st); ns.insert(st); }
                if (w == 2) { ra.erase_from_positive_list(st); ps.erase(st); }
                area(ra, "changed");
            }
            Token tk = reinterpret_cast<Token>(r & 0xfff0);
            TT tt = static_cast<TT>(r % 3);
            auto whole = [&](const TO& x, TT t, bool w, bool a, const char* when) {
                if (x.get_token() != tk) fail("P14+P18", "transaction options lose the session (%s)", when);
                if (x.get_transaction_type() != t) fail("P14+P05+P06", "transaction options lose the kind of transaction (%s)", when);
                if (x.get_write_preserve() != (w ? wp : std::vector<Storage>{})) fail("P14+P13", "transaction options lose the reservations (%s)", when);
                if (a) area(x.get_read_area(), when);
                else if (!x.get_read_area().empty()) fail("P14+P13", "transaction options have a read area nobody gave (%s)", when);
            };
            whole(TO{tk}, TT::SHORT, false, false, "session only");
            whole(TO{tk, tt}, tt, false, false, "kind");
            whole(TO{tk, tt, wp}, tt, true, false, "reservations");
            TO x{tk, tt, wp, ra};
            whole(x, tt, true, true, "read area");
            TO y;
            if (y.get_token() != nullptr || y.get_transaction_type() != TT::SHORT) fail("P14+P05", "default transaction options are not those of a short transaction");
            y.set_token(tk);
            y.set_transaction_type(tt);
            y.set_write_preserve(wp);
            y.set_read_area(ra);
            whole(y, tt, true, true, "set one by one");
            if (to_string_view(TT::LONG) != "LONG" || to_string_view(TT::SHORT) != "SHORT" || to_string_view(TT::READ_ONLY) != "READ_ONLY") fail("P14", "kinds of transactions have other names");
            std::string text = to_string(wp);
            std::string want;
            for (auto&& e : wp) want += (want.empty() ? "" : " ") + std::to_string(e);
            if (text != want) fail("P14", "reservations are printed as '%s', not '%s'", text.c_str(), want.c_str());

            // log records
            std::string k = part::key_of(r >> 8), v = part::key_of(r >> 30);
            log_record lr(static_cast<log_operation>(r % 7), k, v, r >> 1, ~r, r % 1000);
            if (lr.get_operation() != static_cast<log_operation>(r % 7) || lr.get_key() != k || lr.get_value() != v || lr.get_major_version() != r >> 1 || lr.get_minor_version() != ~r ||
                lr.get_storage_id() != r % 1000)
                fail("P19", "a log record is not what was logged");
            static const char* lops[] = {"UNKNOWN", "INSERT", "UPDATE", "DELETE", "UPSERT", "ADD_STORAGE", "REMOVE_STORAGE"};
            if (to_string_view(static_cast<log_operation>(r % 7)) != lops[r % 7]) fail("P19", "a log operation has another name");

            // options of tables and of the database
            storage_option so;
            if (so.id() != storage_id_undefined || !so.payload().empty()) fail("P11", "default table options are not empty");
            so.id(r % 1000);
            so.payload(v);
            storage_option sp(r % 1000, v), sq(r % 1000);
            if (so.id() != r % 1000 || so.payload() != v || sp.id() != so.id() || sp.payload() != v || sq.id() != so.id() || !sq.payload().empty()) fail("P11", "table options are not what was given");
            using DB = database_options;
            static const DB::open_mode oms[] = {DB::open_mode::CREATE, DB::open_mode::RESTORE, DB::open_mode::CREATE_OR_RESTORE};
            DB::open_mode om = oms[r % 3];
            DB d(om, std::filesystem::path("/x/" + std::to_string(r % 9)), 1000 + r % 9, (r & 1) != 0, 1 + r % 5);
            if (d.get_open_mode() != om || d.get_log_directory_path() != "/x/" + std::to_string(r % 9) || d.get_epoch_time() != 1000 + r % 9 || d.get_enable_logging_detail_info() != ((r & 1) != 0) ||
                d.get_waiting_resolver_threads() != 1 + r % 5)
                fail("P10+P15", "database options are not what was given");
            DB e(om);
            e.set_epoch_time(r % 77);
            e.set_recover_max_parallelism(static_cast<int>(r % 5));
            e.set_waiting_resolver_threads(r % 6);
            e.set_index_restore_threads(r % 7);
            e.set_enable_logging_detail_info((r & 2) != 0);
            if (e.get_open_mode() != om || e.get_epoch_time() != r % 77 || e.get_recover_max_parallelism() != static_cast<int>(r % 5) || e.get_waiting_resolver_threads() != r % 6 ||
                e.get_index_restore_threads() != r % 7 || e.get_enable_logging_detail_info() != ((r & 2) != 0))
                fail("P10+P15", "database options are not what was set");
            DB f;
            if (f.get_open_mode() != DB::open_mode::CREATE) fail("P10", "the default start does not create a database");
        });
}

void run(const part::Ctx& c) {
    switch (c.p.seed % 4) {
        case 0: reasons(c); break;
        case 1: states(c); break;
        case 2: names(c); break;
        default: plain(c); break;
    }
}

part::Reg reg("answers", run);

} // namespace
#pragma clang attribute pop
