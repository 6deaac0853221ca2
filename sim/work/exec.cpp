// Executes a plan against the real engine inside the simulator and records the history.
#include "exec.h"
#include "sim/part/part.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include <glog/logging.h>

#include "limestone/api/datastore.h"
#include "shirakami/interface.h"

namespace shirakami {
// not part of the public header, and so not relied on
__attribute__((weak)) Status check_commit(Token token); // NOLINT
}

namespace work {

using namespace shirakami;

namespace {

Shared* g_sh = nullptr;
const Plan* g_p = nullptr;
int g_inc = 0;
uint64_t g_epoch_ns = 0;
uint64_t g_max_marker = 0;

Rec* put(const Rec& r) {
    Hist& h = g_sh->h;
    if (h.n >= Hist::CAP) {
        h.overflow = 1;
        sim::die(sim::EXIT_HARNESS, "history buffer full");
    }
    h.r[h.n] = r;
    if (r.kind != R_STATE && r.kind != R_DUR) h.progress = sim::events();
    return &h.r[h.n++];
}

[[noreturn]] void bad(const char* prop, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_sh->h.bad, sizeof(g_sh->h.bad), fmt, ap);
    va_end(ap);
    snprintf(g_sh->h.bad_prop, sizeof(g_sh->h.bad_prop), "%s", prop);
    sim::die(sim::EXIT_ORACLE, "%s: %s", prop, g_sh->h.bad);
}

void phase(uint8_t ph, uint64_t x = 0) {
    Rec r{};
    r.kind = R_PHASE;
    r.inc = static_cast<uint8_t>(g_inc);
    r.aux = ph;
    r.x = x;
    r.inv = r.ret = sim::seq();
    put(r);
}

class Sink : public google::LogSink {
public:
    void send(google::LogSeverity sev, const char* full, const char* base, int line, const struct ::tm*, const char* msg,
              size_t len) override {
        (void)full;
        Hist& h = g_sh->h;
        if (sev >= google::GLOG_ERROR) {
            ++h.probes[0];
            if (sev >= google::GLOG_FATAL && h.bad[0] == 0) {
                snprintf(h.bad, sizeof(h.bad), "fatal log at %s:%d: %.*s", base, line, static_cast<int>(len), msg);
            }
        }
    }
};

// --- harness side of a transaction whose commit is answered by a callback
struct Answer {
    uint8_t client;
    uint16_t tx;
    int calls{0};
    Status st{};
    bool done{false};
};

struct Watch { // shared between clients and the state monitor
    TxStateHandle h;
    uint8_t client;
    uint16_t tx;
    bool live;
    int users;
};

Watch g_watch[64];
int g_running_clients = 0;
Storage g_tab[8];

int key_index(const std::string& k) {
    auto it = std::lower_bound(g_p->keys.begin(), g_p->keys.end(), k);
    if (it == g_p->keys.end() || *it != k) return KEY_NONE;
    return static_cast<int>(it - g_p->keys.begin());
}

// values of sequences use the whole range, negative ones included
int64_t seq_value(uint32_t id) { return id & 1 ? -static_cast<int64_t>(id) * 1000003 : static_cast<int64_t>(id) << 30; }
uint32_t seq_id_of(int64_t v) {
    if (v == 0) return 0;
    uint32_t id = v < 0 ? static_cast<uint32_t>(-v / 1000003) : static_cast<uint32_t>(v >> 30);
    return seq_value(id) == v ? id : VAL_BAD;
}

scan_endpoint endpoint(uint8_t e) {
    return e == 0 ? scan_endpoint::EXCLUSIVE : e == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::INF;
}

// an answer that takes longer than this many events, in a fair schedule, never comes
constexpr uint64_t PATIENCE = 4000000;

struct ClientRun {
    uint8_t id;
    const Client* plan{nullptr};
    Token token{nullptr};
    bool entered{false};
    std::vector<std::unique_ptr<Answer>> answers;
    uint16_t tx_base{0};
    const Tx* cur{nullptr};
    std::size_t nested_to{0}; // operations before this one have run inside a scan
    uint32_t padded{0};       // what the current transaction wrote to the padding records

    Rec rec(uint8_t kind, uint16_t tx) {
        Rec r{};
        r.kind = kind;
        r.inc = static_cast<uint8_t>(g_inc);
        r.client = id;
        r.tx = tx;
        r.key = KEY_NONE;
        r.inv = sim::seq();
        return r;
    }
    void done(Rec& r, Status s) {
        r.status = static_cast<int16_t>(s);
        r.ret = sim::seq();
        put(r);
    }

    bool do_enter() {
        if (entered) return true;
        uint64_t from = sim::events();
        for (int i = 0; i < 400 || sim::events() < from + PATIENCE; ++i) {
            Rec r = rec(R_ENTER, 0);
            Status s = enter(token);
            r.x = reinterpret_cast<uint64_t>(token);
            done(r, s);
            if (s == Status::OK) {
                entered = true;
                return true;
            }
            if (s != Status::ERR_SESSION_LIMIT) bad("P18", "enter returned %d", static_cast<int>(s));
            sim::sleep_ns(g_epoch_ns);
        }
        bad("P15", "no session became free");
    }
    void do_leave(uint16_t tx) {
        if (!entered) return;
        Rec r = rec(R_LEAVE, tx);
        r.x = reinterpret_cast<uint64_t>(token);
        Status s = leave(token);
        done(r, s);
        if (s != Status::OK) bad("P18", "leave returned %d", static_cast<int>(s));
        entered = false;
    }

    void pace(uint16_t eighths) {
        if (eighths > 0) sim::sleep_ns(g_epoch_ns * eighths / 8);
    }

    // executes an operation, waiting while the transaction may not start yet
    template<class F>
    Status patiently(F&& f, uint32_t& prematures, uint64_t* pre = nullptr) {
        uint64_t from = sim::events();
        for (;;) {
            uint64_t at = sim::seq();
            Status s = f();
            if (s != Status::WARN_PREMATURE) return s;
            if (pre) *pre = at;
            ++prematures;
            if (prematures > 4000 && sim::events() > from + PATIENCE) bad("P15", "client %d: transaction never becomes operable", id);
            sim::sleep_ns(g_epoch_ns / 4 + 1);
        }
    }

    void observe_state(uint16_t tx, TxStateHandle h) {
        Rec r = rec(R_STATE, tx);
        TxState st;
        Status s = check_tx_state(h, st);
        r.aux = static_cast<uint8_t>(st.state_kind());
        done(r, s);
    }

    static bool is_err(Status s) { return static_cast<int>(s) > 0; }

    // returns false when the transaction is over
    bool do_scan(Token tk, const Op& o, uint16_t tx, uint8_t opi) {
        Rec r = rec(R_OP, tx);
        r.op = opi;
        r.opkind = O_SCAN;
        r.st = o.st;
        ScanHandle h{};
        uint32_t pm = 0;
        std::string lk = o.lend == 2 ? std::string() : g_p->keys[o.key];
        std::string rk = o.rend == 2 ? std::string() : g_p->keys[o.key2];
        Status s = patiently(
                [&] {
                    r.inv = sim::seq();
                    return open_scan(tk, g_tab[o.st], lk, endpoint(o.lend), rk, endpoint(o.rend), h, o.limit, o.reverse);
                },
                pm, &r.pre);
        r.x = pm;
        // aux: 0 complete, 1 stopped by the client, 2 error, 4 not complete because of a warning
        if (s != Status::OK) {
            r.aux = is_err(s) ? 2 : (s == Status::WARN_NOT_FOUND ? 0 : 4);
            done(r, s);
            return !is_err(s) && s != Status::WARN_NOT_BEGIN;
        }
        int rows = 0;
        bool fuzzy = false;
        bool alone = true; // no other thread uses the transaction
        if (cur)
            for (auto&& q : cur->ops) alone = alone && !(q.strand && !q.drop);
        std::size_t size = SIZE_MAX;
        if (alone && opi % 2 == 0) {
            Status z = scannable_total_index_size(tk, h, size);
            if (z != Status::OK) bad("P05", "asking for the size of an open scan returned %d", static_cast<int>(z));
            if (g_p->inc[g_inc].iscan) size = SIZE_MAX;
        }
        for (;;) {
            std::string k, v;
            bool want_k = true, want_v = o.rmode != 2;
            Rec w = rec(R_ROW, tx);
            w.op = opi;
            w.opkind = O_SCAN;
            w.st = o.st;
            Status a = Status::OK, b = Status::OK;
            if (o.rmode == 1) {
                b = read_value_from_scan(tk, h, v);
                if (!is_err(b) && b != Status::WARN_NOT_BEGIN) a = read_key_from_scan(tk, h, k);
            } else {
                if (want_k) a = read_key_from_scan(tk, h, k);
                if (want_v && !is_err(a) && a != Status::WARN_NOT_BEGIN) b = read_value_from_scan(tk, h, v);
            }
            Status x = is_err(a) || a == Status::WARN_NOT_BEGIN ? a : (is_err(b) || b == Status::WARN_NOT_BEGIN) ? b : a;
            if (is_err(x) || x == Status::WARN_NOT_BEGIN) {
                w.aux = 2;
                done(w, x);
                r.aux = 2;
                done(r, x);
                return false;
            }
            if (a == Status::OK) {
                w.key = static_cast<uint8_t>(key_index(k));
                if (b == Status::OK && want_v) {
                    uint32_t id = value_parse(v);
                    w.val = id == 0 ? VAL_BAD : id;
                } else if (b == Status::OK) {
                    w.val = 0; // value not read
                } else {
                    // the record vanished or changed between the two reads
                    w.val = 0;
                    w.aux = 3;
                    fuzzy = true;
                }
                done(w, a);
                ++rows;
            } else if (a == Status::WARN_NOT_FOUND) {
                if (b == Status::OK && o.rmode == 1) fuzzy = true; // value read, then deleted
                // skipped
            } else if (a == Status::WARN_SCAN_LIMIT) {
                break;
            } else {
                w.aux = 4;
                done(w, a);
                fuzzy = true;
            }
            for (std::size_t j = 0; o.nest > 0 && rows == 1 && a == Status::OK && j < o.nest; ++j) {
                nested_to = opi + 2U + j;
                if (cur->ops[opi + 1U + j].drop) continue;
                if (!do_op(tk, cur->ops[opi + 1U + j], tx, static_cast<uint8_t>(opi + 1U + j))) {
                    r.aux = 2;
                    done(r, Status::WARN_NOT_BEGIN);
                    return false;
                }
            }
            if (rows > 200) bad("P03", "scan delivers more rows than keys exist");
            if (o.stop > 0 && rows >= o.stop) {
                r.aux = 1;
                break;
            }
            Status n = next(tk, h);
            if (n == Status::WARN_SCAN_LIMIT) break;
            if (n == Status::OK) continue;
            if (is_err(n) || n == Status::WARN_NOT_BEGIN) {
                r.aux = 2;
                done(r, n);
                return false;
            }
            fuzzy = true;
            break;
        }
        if (fuzzy) r.aux |= 4;
        Status c = close_scan(tk, h);
        r.val = static_cast<uint32_t>(static_cast<int>(c));
        done(r, Status::OK);
        if (c == Status::WARN_NOT_BEGIN) return false;
        if (c != Status::OK) bad("P05", "close_scan of an open scan returned %d", static_cast<int>(c));
        if (static_cast<std::size_t>(rows) > size) bad("P03", "a scan of %zu entries delivered %d rows", size, rows);
        return true;
    }

    static std::string pad_key(int c, int j) {
        char b[32];
        snprintf(b, sizeof(b), "pad-%02d-%03d", c, j);
        return b;
    }
    // many writes in one transaction, to records that no other client touches
    bool do_pad(Token tk, uint16_t tx, uint8_t opi) {
        Rec r = rec(R_OP, tx);
        r.op = opi;
        r.opkind = O_PAD;
        r.val = value_id(g_inc, id, tx, opi);
        std::string v = value_string(r.val, 2);
        Status s = Status::OK;
        for (int j = 0; j < g_p->npad && s == Status::OK; ++j) {
            s = upsert(tk, g_sh->h.pad_table, pad_key(id, j), v);
            g_sh->h.progress = sim::events();
        }
        for (int j = 0; j < g_p->npad && s == Status::OK; ++j) {
            std::string got;
            s = search_key(tk, g_sh->h.pad_table, pad_key(id, j), got);
            g_sh->h.progress = sim::events();
            if (s == Status::WARN_NOT_FOUND || (s == Status::OK && got != v))
                bad("P05", "client %d tx %d does not see its own write number %d of %d (%d)", id, tx, j, g_p->npad, static_cast<int>(s));
        }
        done(r, s);
        if (s == Status::OK) padded = r.val;
        return !is_err(s) && s != Status::WARN_NOT_BEGIN;
    }
    // what the padding records of a client hold: all of them the same
    uint32_t read_pads(int c, const char* prop, const char* when) {
        do_enter();
        for (int tries = 0; tries < 30; ++tries) {
            Status s = tx_begin({token});
            if (s != Status::OK) bad("P05", "begin in an idle session returned %d", static_cast<int>(s));
            uint32_t one = 0;
            int other = -1;
            uint32_t what = 0;
            s = Status::OK;
            for (int j = 0; j < g_p->npad && !is_err(s); ++j) {
                std::string got;
                s = search_key(token, g_sh->h.pad_table, pad_key(c, j), got);
                g_sh->h.progress = sim::events();
                // only the client itself inserts here, and it is done
                if (s == Status::WARN_CONCURRENT_INSERT) bad(prop, "%s: record %d of %d of client %d is said to be just being inserted", when, j, g_p->npad, c);
                uint32_t x = s == Status::OK ? value_parse(got) : 0;
                if (s == Status::OK && x == 0) x = VAL_BAD;
                if (j == 0) one = x;
                else if (x != one) { other = j; what = x; }
            }
            if (!is_err(s)) s = commit(token);
            if (s == Status::OK) {
                if (other >= 0) bad(prop, "%s: one transaction of client %d wrote %d records, record 0 holds %u, record %d holds %u", when, c, g_p->npad, one, other, what);
                return one;
            }
            sim::sleep_ns(g_epoch_ns);
        }
        // others may keep inserting next to records which are not there
        if (id != AUDITOR) return UINT32_MAX - 1;
        bad("P15", "reading untouched records never commits");
    }

    bool do_op(Token tk, const Op& o, uint16_t tx, uint8_t opi) {
        if (o.kind == O_SCAN) return do_scan(tk, o, tx, opi);
        Rec r = rec(R_OP, tx);
        r.op = opi;
        r.opkind = o.kind;
        r.st = o.st;
        r.key = o.key;
        uint32_t pm = 0;
        Status s{};
        const std::string& k = g_p->keys[o.key < g_p->nkey ? o.key : 0];
        Storage st = g_tab[o.st];
        switch (o.kind) {
            case O_SEARCH: {
                std::string v;
                s = patiently([&] { r.inv = sim::seq(); return search_key(tk, st, k, v); }, pm, &r.pre);
                if (s == Status::OK) {
                    uint32_t id = value_parse(v);
                    r.val = id == 0 ? VAL_BAD : id;
                }
                break;
            }
            case O_EXIST: s = patiently([&] { r.inv = sim::seq(); return exist_key(tk, st, k); }, pm, &r.pre); break;
            case O_INSERT:
            case O_UPDATE:
            case O_UPSERT: {
                uint32_t id = value_id(g_inc, this->id, tx, opi);
                std::string v = value_string(id, o.vlen);
                r.val = id;
                blob_id_type bl[4];
                for (int i = 0; i < o.nblob; ++i) bl[i] = static_cast<uint64_t>(id) * 4 + static_cast<uint64_t>(i);
                r.aux = o.nblob;
                auto f = o.kind == O_INSERT ? insert : o.kind == O_UPDATE ? update : upsert;
                s = patiently([&] { r.inv = sim::seq(); return f(tk, st, k, v, o.nblob ? bl : nullptr, o.nblob); }, pm, &r.pre);
                break;
            }
            case O_DELETE: s = patiently([&] { r.inv = sim::seq(); return delete_record(tk, st, k); }, pm, &r.pre); break;
            case O_SLEEP: sim::sleep_ns(g_epoch_ns); return true;
            case O_SEQ_UPDATE: {
                Hist& h = g_sh->h;
                int q = o.key < g_p->nseq ? o.key : OWN_SEQ + this->id;
                if (!h.seq_live[q]) return true;
                uint64_t base = h.seq_base[q];
                if (o.arg >= 6 && base > 3) base -= 3; // an outdated version
                else h.seq_base[q] = ++base;
                // each version is used once (repeating one is undefined)
                r.kind = R_SEQ;
                r.key = static_cast<uint8_t>(q);
                r.x = base * 8192 + ++h.seq_ctr;
                r.val = value_id(g_inc, this->id, tx, opi);
                r.inv = sim::seq();
                s = update_sequence(tk, h.seq_id[q], r.x, seq_value(r.val));
                done(r, s);
                return !is_err(s);
            }
            case O_PAD: return do_pad(tk, tx, opi);
            case O_BEGIN_AGAIN: s = tx_begin({tk}); break;
            case O_HIPRI: {
                bool out = false;
                s = check_ltx_is_highest_priority(tk, out);
                r.aux = out ? 1 : 0;
                break;
            }
            case O_TXID: {
                std::string t;
                s = get_tx_id(tk, t);
                uint64_t hh = 14695981039346656037ULL;
                for (char c : t) hh = (hh ^ static_cast<uint8_t>(c)) * 1099511628211ULL;
                r.x = hh;
                done(r, s);
                return true;
            }
            case O_BADHANDLE: {
                std::string v;
                Status a = next(tk, nullptr);
                Status b = read_key_from_scan(tk, nullptr, v);
                if (a != b) bad("P05", "next and read on an unknown handle disagree: %d %d", static_cast<int>(a), static_cast<int>(b));
                s = a;
                break;
            }
            case O_SCAN_OPEN_LEAK: {
                ScanHandle h{};
                s = patiently([&] { r.inv = sim::seq(); return open_scan(tk, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h); }, pm);
                break;
            }
            case O_UNKNOWN_ST: {
                std::string v;
                Storage u = 0x7777777777ULL;
                s = patiently([&] { r.inv = sim::seq(); return o.vlen & 1 ? upsert(tk, u, k, "x") : search_key(tk, u, k, v); }, pm);
                r.aux = o.vlen & 1;
                break;
            }
            case O_BADKEY: {
                std::string v, lk(36 * 1024, 'k');
                s = o.key & 1 ? upsert(tk, st, lk, "x") : search_key(tk, st, lk, v);
                break;
            }
            default: return true;
        }
        r.x = pm;
        done(r, s);
        return !is_err(s) && s != Status::WARN_NOT_BEGIN;
    }

    // ---- one transaction. returns 1 committed, 0 not committed
    int run_tx(const Tx& x, uint16_t tx) {
        if (x.drop) return 0;
        pace(x.think);
        if (x.mode == M_DDL) {
            run_ddl(x, tx);
            return 0;
        }
        if (x.new_session) do_leave(tx);
        do_enter();
        transaction_options opt(token);
        opt.set_transaction_type(x.mode == M_STX   ? transaction_options::transaction_type::SHORT
                                 : x.mode == M_LTX ? transaction_options::transaction_type::LONG
                                                   : transaction_options::transaction_type::READ_ONLY);
        if (x.mode == M_LTX) {
            transaction_options::write_preserve_type wp;
            for (int i = 0; i < g_p->nst; ++i)
                if ((x.wp >> i) & 1) wp.push_back(g_tab[i]);
            opt.set_write_preserve(wp);
            if (x.use_ra) {
                std::set<Storage> pos, neg;
                for (int i = 0; i < g_p->nst; ++i) {
                    if ((x.ra_pos >> i) & 1) pos.insert(g_tab[i]);
                    if ((x.ra_neg >> i) & 1) neg.insert(g_tab[i]);
                }
                opt.set_read_area({pos, neg});
            }
        }
        Rec b = rec(R_BEGIN, tx);
        b.aux = x.mode;
        // a reservation of a table that does not exist is refused as a whole
        if (uint64_t w = sim::mix(g_p->seed, static_cast<uint64_t>(tx) * 64 + id + 19); w % 8 == 0 && !opt.get_write_preserve().empty()) {
            transaction_options other(opt);
            auto wp = opt.get_write_preserve();
            wp.push_back(w / 8 % 2 == 0 ? Storage{0x7ffffff1ULL << 32} : Storage{0x7ffffff1ULL});
            other.set_write_preserve(wp);
            Status n = tx_begin(other);
            if (n != Status::WARN_INVALID_ARGS) bad("P14+P11", "reserving a table that does not exist returned %d", static_cast<int>(n));
        }
        Status s = tx_begin(opt);
        done(b, s);
        if (s != Status::OK) bad("P05", "begin of a transaction (mode %d) in an idle session returned %d", x.mode, static_cast<int>(s));
        if (sim::mix(g_p->seed, tx + 77) % 4 == 0) {
            auto ri = transaction_result_info(token);
            if (ri && (ri->get_reason_code() != reason_code::UNKNOWN || ri->get_has_key_info() || ri->get_has_storage_name_info())) bad("P18", "client %d tx %d: a transaction that just began has the result of an earlier one", id, tx);
        }
        TxStateHandle sh = 0;
        int wslot = -1;
        if (x.state_handle) {
            // the first question may come when the epoch of the transaction has come already
            uint64_t late = sim::mix(g_p->seed, static_cast<uint64_t>(tx) * 32 + id + 5) % 8;
            if (late < 4) sim::sleep_ns(g_epoch_ns * (late + 1) / 2);
            Status a = acquire_tx_state_handle(token, sh);
            if (a != Status::OK) bad("P17", "acquire_tx_state_handle returned %d", static_cast<int>(a));
            observe_state(tx, sh);
            for (int i = 0; i < 64; ++i)
                if (!g_watch[i].live && g_watch[i].users == 0) {
                    g_watch[i] = {sh, id, tx, true, 0};
                    wslot = i;
                    break;
                }
        }
        bool alive = true;
        cur = &x;
        nested_to = 0;
        padded = 0;
        bool has_strand = false;
        for (auto&& o : x.ops) has_strand |= o.strand && !o.drop;
        std::thread strand;
        bool s_alive = true;
        if (has_strand) {
            strand = std::thread([&] {
                for (std::size_t i = 0; i < x.ops.size() && s_alive; ++i) {
                    if (!x.ops[i].strand || x.ops[i].drop) continue;
                    s_alive = do_op(token, x.ops[i], tx, static_cast<uint8_t>(i));
                }
            });
        }
        for (std::size_t i = 0; i < x.ops.size() && alive; ++i) {
            if (x.ops[i].strand || x.ops[i].drop || i < nested_to) continue;
            pace(x.pace);
            alive = do_op(token, x.ops[i], tx, static_cast<uint8_t>(i));
            if (sh != 0) observe_state(tx, sh);
        }
        if (has_strand) {
            strand.join();
            alive = alive && s_alive;
        }
        int committed = 0;
        bool left = false;
        pace(x.pace);
        if (!alive) {
            // over by an error: nothing to end
            Rec r = rec(R_RESINFO, tx);
            auto ri = transaction_result_info(token);
            r.aux = ri ? static_cast<uint8_t>(ri->get_reason_code()) : 255;
            done(r, Status::OK);
            if (ri) look_at_result(x, tx, *ri);
            if (x.end == E_ABORT || x.end == E_COMMIT_SYNC) {
                Rec c = rec(R_ABORT, tx);
                c.aux = 1; // expected to be refused
                Status a = x.end == E_ABORT ? abort(token) : commit(token);
                done(c, a);
                if (a != Status::WARN_NOT_BEGIN) bad("P05", "ending a transaction that is already over returned %d", static_cast<int>(a));
            }
        } else if (x.end == E_ABORT) {
            Rec r = rec(R_ABORT, tx);
            Status a = abort(token);
            done(r, a);
            if (a != Status::OK) bad("P04", "abort of an active transaction returned %d", static_cast<int>(a));
        } else if (x.end == E_LEAVE) {
            Rec r = rec(R_ABORT, tx);
            r.aux = 2;
            do_leave(tx);
            done(r, Status::OK);
            left = true;
        } else if (x.end == E_COMMIT_SYNC && (x.mode != M_LTX || check_commit != nullptr)) {
            uint32_t pm = 0;
            Rec r = rec(R_COMMIT, tx);
            r.aux = 1; // answered by the return value
            r.ret = UINT64_MAX;
            Rec* pr = put(r);
            Status c = patiently([&] { return commit(token); }, pm);
            if (c == Status::WARN_WAITING_FOR_OTHER_TX && x.mode == M_LTX) {
                uint64_t waited = 0;
                uint64_t from = sim::events();
                while ((c = check_commit(token)) == Status::WARN_WAITING_FOR_OTHER_TX) {
                    sim::sleep_ns(g_epoch_ns / 2 + 1);
                    if (++waited > 4000 && sim::events() > from + PATIENCE) bad("P15", "commit of client %d tx %d never decided", id, tx);
                }
            }
            pr->status = static_cast<int16_t>(c);
            pr->ret = sim::seq();
            committed = c == Status::OK;
        } else {
            committed = commit_cb(x, tx, left);
        }
        if (padded != 0 || (g_p->npad > 0 && committed)) {
            if (committed && padded != 0) g_sh->h.pad_val[id] = padded;
            uint32_t x2 = read_pads(id, committed ? "P07" : "P04", committed ? "after its commit" : "after its abort");
            if (x2 != UINT32_MAX - 1 && x2 != g_sh->h.pad_val[id]) bad(committed ? "P07" : "P04", "client %d tx %d: %s the records hold %u, not %u", id, tx, committed ? "after its commit" : "after its abort", x2, g_sh->h.pad_val[id]);
        }
        if (sh != 0) {
            observe_state(tx, sh);
            int polls = static_cast<int>(sim::mix(g_p->seed, static_cast<uint64_t>(tx) * 16 + id) % 5);
            for (int i = 0; i < polls; ++i) {
                sim::sleep_ns(g_epoch_ns);
                observe_state(tx, sh);
            }
            if (wslot >= 0) {
                g_watch[wslot].live = false;
                while (g_watch[wslot].users > 0) sim::sleep_ns(g_epoch_ns / 4 + 1);
            }
            Status a = release_tx_state_handle(sh);
            if (a != Status::OK) bad("P17", "release_tx_state_handle returned %d", static_cast<int>(a));
        }
        if (!left && !committed && g_p->npad == 0 && sim::mix(g_p->seed, tx) % 3 == 0) {
            Rec r = rec(R_RESINFO, tx);
            auto ri = transaction_result_info(token);
            r.aux = ri ? static_cast<uint8_t>(ri->get_reason_code()) : 255;
            done(r, Status::OK);
            if (ri) look_at_result(x, tx, *ri);
        }
        return committed;
    }

    // what a failed transaction says about where it failed
    void look_at_result(const Tx& x, uint16_t tx, result_info& ri) {
        reason_code rc = ri.get_reason_code();
        bool hk = ri.get_has_key_info(), hs = ri.get_has_storage_name_info();
        if (rc == reason_code::USER_ABORT && (hk || hs)) bad("P18+P07", "client %d tx %d: a transaction that was aborted by its user names a record", id, tx);
        bool must = rc == reason_code::KVS_INSERT || rc == reason_code::KVS_UPDATE || rc == reason_code::KVS_DELETE || rc == reason_code::CC_OCC_READ_VERIFY || rc == reason_code::CC_LTX_WRITE_COMMITTED_READ_PROTECTION;
        if (must && (!hk || !hs)) bad("P07", "client %d tx %d failed for reason %d without naming the record", id, tx, static_cast<int>(rc));
        if (g_p->npad > 0) return;
        int st = -1;
        if (hs) {
            std::string_view n = ri.get_storage_name();
            for (int i = 0; i < g_p->nst; ++i)
                if (n == "st" + std::to_string(i)) st = i;
            bool used = false;
            for (auto&& o : x.ops) used |= !o.drop && (o.st == st || o.kind == O_UNKNOWN_ST);
            if (st < 0 || !used) bad("P07+P18", "client %d tx %d failed for reason %d and names a table which it did not use", id, tx, static_cast<int>(rc));
        }
        if (hk) {
            int ki = key_index(std::string(ri.get_key()));
            bool reads = rc == reason_code::CC_OCC_READ_VERIFY;
            bool used = false;
            for (auto&& o : x.ops) {
                if (o.drop || o.st != st) continue;
                bool w = o.kind == O_INSERT || o.kind == O_UPDATE || o.kind == O_UPSERT || o.kind == O_DELETE;
                if (w && o.key == ki) used = true;
                if (reads && ((o.kind == O_SEARCH || o.kind == O_EXIST) && o.key == ki)) used = true;
                if (reads && (o.kind == O_SCAN || o.kind == O_SCAN_OPEN_LEAK)) used = true;
            }
            if (!used) bad("P07+P18", "client %d tx %d failed for reason %d and names a record which it did not use", id, tx, static_cast<int>(rc));
        }
    }

    int commit_cb(const Tx& x, uint16_t tx, bool& left) {
        for (uint32_t tries = 0;; ++tries) {
            answers.push_back(std::make_unique<Answer>());
            Answer* a = answers.back().get();
            a->client = id;
            a->tx = tx;
            uint8_t cid = id;
            Rec r = rec(R_COMMIT, tx);
            auto cb = [a, cid, tx](Status s, reason_code rc, durability_marker_type m) {
                Rec c{};
                c.kind = R_CB;
                c.inc = static_cast<uint8_t>(g_inc);
                c.client = cid;
                c.tx = tx;
                c.key = KEY_NONE;
                c.inv = c.ret = sim::seq();
                c.status = static_cast<int16_t>(s);
                c.aux = static_cast<uint8_t>(rc);
                c.x = m;
                put(c);
                ++a->calls;
                if (s != Status::OK && rc == reason_code::USER_ABORT) bad("P07+P18", "client %d tx %d failed in its commit, and the reason is an abort by its user", cid, tx);
                if (a->calls > 1) bad("P07", "commit result of client %d tx %d delivered %d times", cid, tx, a->calls);
                a->st = s;
                a->done = true;
                if (s == Status::OK && m > g_max_marker) g_max_marker = m;
            };
            // the decision is in flight from here on, as far as a crash is concerned
            r.ret = UINT64_MAX;
            Rec* pr = put(r);
            bool now = commit(token, cb);
            pr->ret = sim::seq();
            pr->aux = now ? 2 : 3;
            if (now && !a->done) bad("P07", "commit of client %d tx %d reported completion without calling back", id, tx);
            if (!now && x.end == E_COMMIT_LEAVE) {
                do_leave(tx);
                left = true;
            }
            if (!now && !left && sim::mix(g_p->seed, static_cast<uint64_t>(tx) * 32 + id + 7) % 4 == 0) {
                // too late to abort it
                Status b = abort(token);
                if (b != Status::WARN_ILLEGAL_OPERATION && b != Status::WARN_NOT_BEGIN) bad("P07+P04", "abort of client %d tx %d after its commit was requested returned %d", id, tx, static_cast<int>(b));
            }
            uint64_t waited = 0;
            uint64_t from = sim::events();
            while (!a->done) {
                sim::sleep_ns(g_epoch_ns / 2 + 1);
                if (++waited > 4000 && sim::events() > from + PATIENCE) bad("P15", "commit of client %d tx %d never answered", id, tx);
            }
            if (a->st == Status::WARN_PREMATURE) {
                if (tries > 4000 && sim::events() > from + PATIENCE) bad("P15", "client %d: transaction never becomes operable", id);
                sim::sleep_ns(g_epoch_ns / 4 + 1);
                continue;
            }
            return a->st == Status::OK ? 1 : 0;
        }
    }

    // ---- operations on tables and sequences, outside of transactions
    void run_ddl(const Tx& x, uint16_t tx);
    void ddl_op(const Op& o, uint16_t tx, uint8_t opi, uint8_t c);

    void run() {
        for (std::size_t t = 0; t < plan->tx.size(); ++t) run_tx(plan->tx[t], static_cast<uint16_t>(tx_base + t));
    }
    void run_monitor() {
        uint64_t n = 0;
        while (g_running_clients > 0) {
            for (int i = 0; i < 64; ++i) {
                if (!g_watch[i].live) continue;
                ++g_watch[i].users;
                ClientRun as{};
                as.id = g_watch[i].client;
                Rec r = as.rec(R_STATE, g_watch[i].tx);
                TxState st;
                Status s = check_tx_state(g_watch[i].h, st);
                r.aux = static_cast<uint8_t>(st.state_kind());
                r.op = 1;
                as.done(r, s);
                --g_watch[i].users;
            }
            if (++n > 3000) break;
            sim::sleep_ns(g_epoch_ns / 8 + 1);
        }
    }
};

std::string ddl_name(int client, int t) { return "ddl-" + std::to_string(client) + "-" + std::to_string(t); }

std::string ddl_payload(uint32_t n) {
    switch (n) {
        case 0: return {};
        case 1: return std::string("a\0b\0", 4);
        case 2: return std::string(3000, 'x');
        case 3: return std::string(16, '\xff');
        default: return "payload" + std::to_string(n);
    }
}
constexpr uint32_t PAYLOADS = 9;
uint32_t ddl_payload_no(std::string_view s) {
    for (uint32_t i = 0; i < PAYLOADS; ++i)
        if (ddl_payload(i) == s) return i;
    return 99;
}

void ClientRun::run_ddl(const Tx& x, uint16_t tx) {
    for (std::size_t i = 0; i < x.ops.size(); ++i)
        if (!x.ops[i].drop) ddl_op(x.ops[i], tx, static_cast<uint8_t>(i), id);
}

// an operation on tables or sequences, on behalf of client c
void ClientRun::ddl_op(const Op& o, uint16_t tx, uint8_t opi, uint8_t c) {
    Hist& hist = g_sh->h;
    Rec r = rec(R_DDL, tx);
    r.client = c;
    r.op = opi;
    r.opkind = o.kind;
    r.st = o.st;
    r.key = o.key;
    r.ret = UINT64_MAX;
    Status s{};
    Rec* pr = nullptr;
    std::string name = ddl_name(c, o.st);
    uint64_t& h = hist.ddl_handle[c & 15][o.st & 3];
    uint8_t& live = hist.ddl_live[c & 15][o.st & 3];
    uint32_t pay = o.arg % PAYLOADS;
    switch (o.kind) {
        case O_ST_CREATE: {
            storage_option op;
            bool user_id = (o.arg >> 8) % 2 == 0;
            if (user_id) op.id(100 + static_cast<uint64_t>(c) * 16 + (o.arg >> 12) % 3);
            op.payload(ddl_payload(pay));
            r.val = pay;
            r.aux = user_id ? 1 + (o.arg >> 12) % 3 : 0;
            pr = put(r);
            Storage hh{};
            s = create_storage(name, hh, op);
            if (s == Status::OK) {
                h = hh;
                live = 1;
                pr->x = hh;
                if (user_id && hh != op.id()) bad("P11", "create_storage with id %llu returned handle %llu", (unsigned long long)op.id(), (unsigned long long)hh);
            }
            break;
        }
        case O_ST_DELETE:
            pr = put(r);
            s = delete_storage(h);
            if (s == Status::OK)
                for (auto&& q : hist.ddl_handle[c & 15])
                    if (q == h) hist.ddl_live[c & 15][&q - hist.ddl_handle[c & 15]] = 0;
            break;
        case O_ST_GET: {
            Storage hh{};
            pr = put(r);
            s = get_storage(name, hh);
            if (s == Status::OK) pr->x = hh;
            if (tx == TX_AUDIT_START) {
                h = s == Status::OK ? hh : NO_HANDLE;
                live = s == Status::OK;
            }
            break;
        }
        case O_ST_LIST: {
            std::vector<std::string> l;
            pr = put(r);
            s = list_storage(l);
            uint32_t mask = 0;
            int dup = 0, unknown = 0;
            std::sort(l.begin(), l.end());
            for (std::size_t k = 0; k < l.size(); ++k) {
                if (k > 0 && l[k] == l[k - 1]) ++dup;
                for (int t = 0; t < 4; ++t)
                    if (l[k] == ddl_name(c, t)) mask |= 1U << t;
                if (l[k].size() == 3 && l[k].rfind("st", 0) == 0) mask |= 16U << (l[k][2] - '0');
                else if (l[k].rfind("ddl-", 0) != 0 && l[k] != "pad") ++unknown;
            }
            pr->val = mask;
            pr->aux = static_cast<uint8_t>((dup ? 1 : 0) | (unknown ? 2 : 0));
            break;
        }
        case O_ST_SETOPT: {
            storage_option op;
            op.payload(ddl_payload(pay));
            op.id(7 + (o.arg >> 12) % 3);
            r.val = pay;
            r.x = op.id();
            pr = put(r);
            s = storage_set_options(h, op);
            break;
        }
        case O_ST_GETOPT: {
            storage_option op;
            pr = put(r);
            s = storage_get_options(h, op);
            if (s == Status::OK) {
                pr->val = ddl_payload_no(op.payload());
                pr->x = op.id();
            }
            break;
        }
        case O_SEARCH:
        case O_INSERT:
        case O_UPDATE:
        case O_UPSERT:
        case O_DELETE:
        case O_SCAN: {
            // a transaction on a table of this client
            do_enter();
            bool ltx = live && (o.arg >> 16) % 8 == 0 && o.kind == O_UPSERT;
            pr = put(r);
            transaction_options opt(token);
            if (ltx) {
                opt.set_transaction_type(transaction_options::transaction_type::LONG);
                opt.set_write_preserve({h});
            }
            Status bs = tx_begin(opt);
            if (bs != Status::OK) bad("P05", "begin in an idle session returned %d", static_cast<int>(bs));
            const std::string& k = g_p->keys[o.key];
            std::string v;
            uint32_t pm = 0;
            uint32_t vid = value_id(g_inc, c, tx, opi);
            std::string vs = value_string(vid, 3);
            if (o.kind >= O_INSERT && o.kind <= O_UPSERT) pr->val = vid;
            switch (o.kind) {
                case O_INSERT: s = insert(token, h, k, vs); break;
                case O_UPDATE: s = update(token, h, k, vs); break;
                case O_UPSERT: s = patiently([&] { return upsert(token, h, k, vs); }, pm); break;
                case O_DELETE: s = delete_record(token, h, k); break;
                case O_SEARCH:
                    s = search_key(token, h, k, v);
                    if (s == Status::OK) pr->val = value_parse(v) == 0 ? VAL_BAD : value_parse(v);
                    break;
                default: {
                    ScanHandle sc{};
                    s = open_scan(token, h, "", scan_endpoint::INF, "", scan_endpoint::INF, sc);
                    uint32_t mask = 0;
                    if (s == Status::OK) {
                        do {
                            std::string kk;
                            Status rs = read_key_from_scan(token, sc, kk);
                            if (rs == Status::OK) {
                                int ki = key_index(kk);
                                mask |= ki == KEY_NONE ? 1U << 31 : 1U << ki;
                            } else if (is_err(rs)) {
                                s = rs;
                                break;
                            }
                        } while (next(token, sc) == Status::OK);
                    }
                    pr->val = mask;
                }
            }
            if (is_err(s)) {
                pr->aux = 1; // aborted
            } else {
                // aux: 2 committed, 3 not
                auto* a = new Answer();
                auto cb = [a, pr](Status cs, reason_code, durability_marker_type m) {
                    ++a->calls;
                    a->st = cs;
                    a->done = true;
                    if (cs == Status::OK) {
                        pr->x = m;
                        if (m > g_max_marker) g_max_marker = m;
                    }
                };
                commit(token, cb);
                uint64_t from = sim::events();
                while (!a->done) {
                    sim::sleep_ns(g_epoch_ns / 2 + 1);
                    if (sim::events() > from + PATIENCE) bad("P15", "commit of client %d tx %d never answered", c, tx);
                }
                pr->aux = a->st == Status::OK ? 2 : 3;
            }
            break;
        }
        case O_SEQ_CREATE: {
            int q = OWN_SEQ + c;
            if (c == AUDITOR) q = o.key;
            r.kind = R_SEQ;
            r.key = static_cast<uint8_t>(q);
            if (hist.seq_live[q]) return; // one at a time
            pr = put(r);
            SequenceId sid{};
            s = create_sequence(&sid);
            if (s != Status::OK) bad("P12", "create_sequence returned %d", static_cast<int>(s));
            pr->x = sid;
            hist.seq_id[q] = sid;
            hist.seq_live[q] = 1;
            hist.seq_base[q] = 0;
            break;
        }
        case O_SEQ_DELETE: {
            int q = OWN_SEQ + c;
            if (hist.seq_id[q] == 0) return;
            r.kind = R_SEQ;
            r.key = static_cast<uint8_t>(q);
            pr = put(r);
            pr->x = hist.seq_id[q];
            s = delete_sequence(hist.seq_id[q]);
            if (s == Status::OK) hist.seq_live[q] = 0;
            break;
        }
        case O_SEQ_READ: {
            int q = o.key < g_p->nseq || c == AUDITOR ? o.key : OWN_SEQ + c;
            if (hist.seq_id[q] == 0) return;
            r.kind = R_SEQ;
            r.key = static_cast<uint8_t>(q);
            r.aux = 255;
            pr = put(r);
            SequenceVersion ver{};
            SequenceValue val{};
            s = read_sequence(hist.seq_id[q], &ver, &val);
            if (s == Status::OK) {
                pr->x = ver;
                pr->val = seq_id_of(val);
            }
            pr->pre = hist.seq_id[q];
            if (tx == TX_AUDIT_START) {
                hist.seq_live[q] = s == Status::OK;
                if (s != Status::OK) hist.seq_id[q] = 0; // the id may be given to another one
            }
            break;
        }
        default: return;
    }
    pr->status = static_cast<int16_t>(s);
    pr->ret = sim::seq();
    hist.progress = sim::events();
}

// what the tables and sequences of the clients look like, seen by the main thread
void look_at_ddl(ClientRun& aud, uint16_t tx) {
    const Plan& p = *g_p;
    Op o;
    if (p.ddl_tables > 0) {
        for (int c = 0; c < 10; ++c) {
            uint8_t n = 0;
            for (int t = 0; t < 4; ++t) {
                o = Op{};
                o.st = static_cast<uint8_t>(t);
                o.kind = O_ST_GET;
                aud.ddl_op(o, tx, n++, static_cast<uint8_t>(c));
                if (!g_sh->h.ddl_live[c][t] && tx == TX_AUDIT_START) continue;
                if (g_sh->h.ddl_handle[c][t] == NO_HANDLE) continue;
                o.kind = O_ST_GETOPT;
                aud.ddl_op(o, tx, n++, static_cast<uint8_t>(c));
                o.kind = O_SCAN;
                aud.ddl_op(o, tx, n++, static_cast<uint8_t>(c));
                for (int k = 0; k < p.nkey; ++k) {
                    o.kind = O_SEARCH;
                    o.key = static_cast<uint8_t>(k);
                    aud.ddl_op(o, tx, n++, static_cast<uint8_t>(c));
                }
            }
            o = Op{};
            o.kind = O_ST_LIST;
            aud.ddl_op(o, tx, n++, static_cast<uint8_t>(c));
        }
        aud.do_leave(tx);
    }
    if (p.nseq > 0) {
        for (int q = 0; q < OWN_SEQ + 10; ++q) {
            if (q >= p.nseq && q < OWN_SEQ) continue;
            o = Op{};
            o.kind = O_SEQ_READ;
            o.key = static_cast<uint8_t>(q);
            aud.ddl_op(o, tx, static_cast<uint8_t>(q), AUDITOR);
        }
    }
}

Tx audit_tx(const Plan& p, bool rtx) {
    Tx x;
    x.mode = rtx ? M_RTX : M_STX;
    x.end = E_COMMIT;
    for (int s = 0; s < p.nst; ++s) {
        Op o;
        o.kind = O_SCAN;
        o.st = static_cast<uint8_t>(s);
        o.lend = o.rend = 2;
        x.ops.push_back(o);
        for (int k = 0; k < p.nkey; ++k) {
            Op q;
            q.kind = O_SEARCH;
            q.st = static_cast<uint8_t>(s);
            q.key = static_cast<uint8_t>(k);
            x.ops.push_back(q);
        }
    }
    return x;
}

void set_flag(const char* n, bool v) { setenv(n, v ? "1" : "0", 1); }

} // namespace

void inline_bad(const char* prop, const char* msg) { bad(prop, "%s", msg); }
void inline_progress() { g_sh->h.progress = sim::events(); }

void run_incarnation(const Plan& p, int inc, Shared* sh, bool replay, const sim::Decision* dec, uint32_t ndec,
                     uint64_t crash_event_override) {
    g_sh = sh;
    g_p = &p;
    g_inc = inc;
    const Inc& in = p.inc[static_cast<std::size_t>(inc)];
    g_epoch_ns = in.epoch_us * 1000;
    sh->h.announced = 0;
    sh->h.progress = 0;

    static Sink sink;
    google::AddLogSink(&sink);
    FLAGS_minloglevel = 2;
    FLAGS_stderrthreshold = 4;

    set_flag("SHIRAKAMI_REDUCE_GC", in.env_reduce_gc);
    set_flag("SHIRAKAMI_ENABLE_WAITING_BYPASS", in.env_bypass);
    set_flag("SHIRAKAMI_WAITING_BYPASS_TO_ROOT", in.env_bypass_root);
    set_flag("SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING", in.env_logbuf);
    set_flag("SHIRAKAMI_RTX_DA_TERM_MUTEX", in.env_rtx_mutex);
    set_flag("TSURUGI_FAST_SHUTDOWN", in.env_fast_shutdown);

    stubctl::index = {};
    stubctl::index.leaf_cap = p.leaf_cap;
    auto& lg = stubctl::log;
    lg = {};
    lg.disk = &sh->disk;
    lg.seed = sim::mix(in.sched.seed, 99);
    lg.slow_permille = in.slow_permille;
    lg.slow_ns = in.slow_ns;
    lg.incarnation = static_cast<uint16_t>(inc);
    if (in.end == IE_CRASH && crash_event_override == 0) {
        lg.crash_site = in.crash_site;
        lg.crash_nth = in.crash_nth;
    }

    sim::Config c = in.sched;
    c.trace = &sh->trace;
    c.out = &sh->out;
    if (in.end == IE_CRASH) c.crash_event = in.crash_event;
    if (crash_event_override != 0) c.crash_event = crash_event_override;
    c.replay_mode = replay;
    c.replay = dec;
    c.replay_n = ndec;
    sim::canonical_heap();
    sim::start(c);

    if (!p.part.empty()) {
        if (part::Fn f = part::find(p.part)) {
            ++sh->h.probes[1]; // component runs
            f(part::Ctx{p, in});
        }
        sim::die(sim::EXIT_OK, "ok");
    }
    phase(PH_INIT_BEGIN);
    auto* ds = new limestone::api::datastore();
    database_options o;
    o.set_open_mode(inc == 0          ? database_options::open_mode::CREATE
                    : in.restore_mode ? database_options::open_mode::RESTORE
                                      : database_options::open_mode::CREATE_OR_RESTORE);
    o.set_epoch_time(in.epoch_us);
    o.set_waiting_resolver_threads(static_cast<std::size_t>(in.resolver_threads));
    o.set_index_restore_threads(static_cast<std::size_t>(in.restore_threads));
    o.set_iterator_based_scan(in.iscan);
    Status s = init(o, ds);
    if (s != Status::OK) bad("P10", "start-up failed with %d", static_cast<int>(s));
    s = register_durability_callback([](durability_marker_type m) {
        Rec r{};
        r.kind = R_DUR;
        r.inc = static_cast<uint8_t>(g_inc);
        r.inv = r.ret = sim::seq();
        r.x = m;
        put(r);
        if (m < g_sh->h.announced) bad("P08", "announced durability went back from %llu to %llu", (unsigned long long)g_sh->h.announced, (unsigned long long)m);
        g_sh->h.announced = m;
    });
    if (s != Status::OK) bad("P08", "register_durability_callback returned %d", static_cast<int>(s));
    phase(PH_INIT_DONE);

    for (int i = 0; i < p.nst; ++i) {
        std::string name = "st" + std::to_string(i);
        Rec r{};
        r.kind = R_PHASE;
        r.inc = static_cast<uint8_t>(inc);
        r.aux = 100; // table present?
        r.st = static_cast<uint8_t>(i);
        Status g = inc == 0 ? Status::WARN_NOT_FOUND : get_storage(name, g_tab[i]);
        r.status = static_cast<int16_t>(g);
        if (g == Status::WARN_NOT_FOUND) {
            s = create_storage(name, g_tab[i]);
            if (s != Status::OK) bad("P11", "create_storage of a new table returned %d", static_cast<int>(s));
        } else if (g != Status::OK) {
            bad("P11", "get_storage returned %d", static_cast<int>(g));
        }
        r.x = g_tab[i];
        sh->h.table_handle[i] = g_tab[i];
        r.inv = r.ret = sim::seq();
        put(r);
    }
    if (p.npad > 0) {
        s = inc == 0 ? Status::WARN_NOT_FOUND : get_storage("pad", sh->h.pad_table);
        if (s == Status::WARN_NOT_FOUND) s = create_storage("pad", sh->h.pad_table);
        if (s != Status::OK) bad("P11", "no table for the padding records: %d", static_cast<int>(s));
    }
    ClientRun aud;
    aud.id = AUDITOR;
    uint16_t atx = 0;
    if (inc > 0) {
        // what was recovered
        Tx x = audit_tx(p, false);
        int ok = 0;
        for (int i = 0; i < 20 && !ok; ++i) {
            ok = aud.run_tx(x, atx++);
            if (!ok) sim::sleep_ns(g_epoch_ns);
        }
        if (!ok) bad("P15", "a lone short transaction does not commit after the restart");
        if (p.npad > 0)
            for (int c2 = 0; c2 < 10; ++c2) sh->h.pad_val[c2] = aud.read_pads(c2, "P09", "after the restart");
        aud.do_leave(atx);
        look_at_ddl(aud, TX_AUDIT_START);
    } else {
        for (auto&& e : sh->h.ddl_handle)
            for (auto&& f : e) f = NO_HANDLE;
    }
    phase(PH_START_AUDIT_DONE);
    for (int q = 0; q < p.nseq; ++q) {
        if (sh->h.seq_live[q]) continue;
        Op co;
        co.kind = O_SEQ_CREATE;
        co.key = static_cast<uint8_t>(q);
        aud.ddl_op(co, TX_AUDIT_START, static_cast<uint8_t>(q), AUDITOR);
    }

    int rounds = p.gc_rounds ? 6 : 1;
    sim::heap_watch(p.gc_rounds && getenv("SIM_LEAKS") != nullptr);
    for (int round = 0; round < rounds; ++round) {
        std::vector<std::unique_ptr<ClientRun>> cls;
        std::vector<std::thread> th;
        g_running_clients = 0;
        for (std::size_t i = 0; i < in.cl.size(); ++i) {
            cls.push_back(std::make_unique<ClientRun>());
            ClientRun* c2 = cls.back().get();
            c2->id = static_cast<uint8_t>(i);
            c2->plan = &in.cl[i];
            c2->tx_base = static_cast<uint16_t>(static_cast<std::size_t>(round) * in.cl[i].tx.size());
            if (!in.cl[i].monitor) ++g_running_clients;
        }
        for (auto&& c2 : cls) {
            ClientRun* q = c2.get();
            th.emplace_back([q] {
                if (q->plan->monitor) {
                    q->run_monitor();
                } else {
                    q->run();
                    q->do_leave(999);
                    --g_running_clients;
                }
            });
        }
        for (auto&& t : th) t.join();
        cls.clear();
        if (p.gc_rounds) {
            sim::sleep_ns(g_epoch_ns * in.settle_epochs);
            Rec r{};
            r.kind = R_MEM;
            sim::heap_dump(round);
            r.inc = static_cast<uint8_t>(inc);
            r.tx = static_cast<uint16_t>(round);
            r.x = sim::heap_live_objects();
            r.inv = r.ret = sim::seq();
            put(r);
        }
    }
    phase(PH_WORK_DONE);
    if (!(in.end == IE_CRASH)) sim::stop_faults();
    lg.slow_permille = 0;

    // durability must be announced without further activity
    {
        uint64_t n = 0;
        uint64_t from = sim::events();
        while (g_sh->h.announced < g_max_marker) {
            sim::sleep_ns(g_epoch_ns);
            if (++n > 400 && sim::events() > from + PATIENCE / 2) bad("P20", "durability of marker %llu is not announced (announced %llu)", (unsigned long long)g_max_marker, (unsigned long long)g_sh->h.announced);
        }
    }
    sim::sleep_ns(g_epoch_ns * in.settle_epochs);
    phase(PH_QUIET);
    {
        Tx x = audit_tx(p, false);
        int ok = 0;
        for (int i = 0; i < 30 && !ok; ++i) {
            ok = aud.run_tx(x, atx++);
            if (!ok) sim::sleep_ns(g_epoch_ns * 2);
        }
        if (!ok) bad("P15", "a lone short transaction does not commit after everything has ended");
        // read-only view of the same state, once the safe snapshot has caught up
        Tx y = audit_tx(p, true);
        ok = aud.run_tx(y, atx++);
        if (!ok) bad("P06", "a read-only transaction failed to commit");
        aud.do_leave(atx);
        look_at_ddl(aud, TX_AUDIT_END);
    }
    phase(PH_AUDIT_DONE);
    if (in.end == IE_CRASH) sim::die(sim::EXIT_CRASH, "crash after the workload");

    phase(PH_FIN_BEGIN);
    fin(in.end == IE_FIN_FORCE);
    phase(PH_FIN_DONE);
    sim::die(sim::EXIT_OK, "ok");
}

} // namespace work
