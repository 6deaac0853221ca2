// Judges a recorded history against the properties. Knows nothing of the engine but its API.
#include "oracle.h"

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>

#include "shirakami/interface.h"

namespace work {

using shirakami::Status;

namespace {

std::string fmt(const char* f, ...) {
    char b[1200];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    return b;
}

int SI(Status s) { return static_cast<int>(s); }
bool is_err(int s) { return s > 0; }
std::string sn(int s) { return std::string(shirakami::to_string_view(static_cast<Status>(s))); }

enum Outcome2 { COMMITTED, ABORTED, INFLIGHT, OPEN };
constexpr uint32_t ANY = 0xfffffffeU; // present, value unknown

struct Cond {
    int k;        // table * nkey + key
    uint32_t v;   // 0 absent, ANY present, else the value
};

struct TxI {
    int inc, client, tx;
    int mode{0};
    const Tx* plan{nullptr};
    uint64_t begin_inv{0}, begin_ret{0};
    uint64_t commit_inv{0}, end{UINT64_MAX}; // end: when the outcome was reported
    uint64_t started{0};                     // first operation that was let through
    uint64_t quit{UINT64_MAX};               // until then it was surely running
    Outcome2 o{OPEN};
    int status{0};
    int reason{-1};
    uint64_t marker{0};
    bool has_marker{false};
    bool seen_durable{false};
    bool user_abort{false};
    int cbs{0};
    std::vector<const Rec*> recs;            // operations and rows in order of completion
    std::vector<const Rec*> states;
    std::vector<const Rec*> resinfo;
    std::vector<uint64_t> txids;
    std::vector<Cond> pre;
    std::vector<std::pair<int, uint32_t>> eff; // final writes: value or 0
    struct Told { int k; uint32_t v; const Rec* r; };
    std::vector<Told> told;                    // existence without protection (known findings)
    std::vector<int> vague;                    // keys written on the strength of such an answer
    std::vector<int> soft;                     // keys whose delete may or may not take effect
    bool contradictory{false};
    std::string name() const { return fmt("i%d.c%d.t%d(%s)", inc, client, tx, mode == M_STX ? "stx" : mode == M_LTX ? "ltx" : "rtx"); }
};

struct Writer {
    TxI* t;
    int k;
    int op;
    bool ok;
    bool final;
};

constexpr int MAXT = 512;
struct Bits {
    uint64_t w[MAXT / 64]{};
    void set(int i) { w[i >> 6] |= 1ULL << (i & 63); }
    void clr(int i) { w[i >> 6] &= ~(1ULL << (i & 63)); }
    bool get(int i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    bool any_and(const Bits& b) const {
        for (int i = 0; i < MAXT / 64; ++i)
            if (w[i] & b.w[i]) return true;
        return false;
    }
    bool subset_of(const Bits& b) const {
        for (int i = 0; i < MAXT / 64; ++i)
            if (w[i] & ~b.w[i]) return false;
        return true;
    }
};

// looks for a serial order
struct Search {
    int n{0};
    int nk{0};
    std::vector<TxI*> t;
    std::vector<bool> must;
    Bits skip;               // left out
    std::vector<Bits> pred;  // must be executed before (only those that are must)
    std::vector<Bits> succ;  // must not have been executed before
    std::vector<std::vector<Cond>> pre;
    std::vector<std::vector<std::pair<int, uint32_t>>> eff;
    std::vector<std::vector<int>> soft;
    std::vector<std::vector<int>> vague; // writes that may be left out
    std::vector<int> order;  // writers in the hinted order
    std::map<uint32_t, int> writer_of; // value -> index, -1: initial state
    std::vector<uint32_t> init;
    bool want_final{false};
    std::vector<uint32_t> fin;
    uint64_t budget{200000};
    uint64_t nodes{0};
    bool exhausted{false};
    std::unordered_set<uint64_t> memo;
    // best effort for the report
    int best{-1};
    Bits best_done;
    std::vector<uint32_t> best_state;

    bool ok_pre(int i, const std::vector<uint32_t>& s) const {
        for (auto&& c : pre[i]) {
            uint32_t x = s[c.k];
            if (c.v == 0) { if (x != 0) return false; }
            else if (c.v == ANY) { if (x == 0) return false; }
            else if (x != c.v) return false;
        }
        return true;
    }
    bool allowed(int i, const Bits& done) const { return pred[i].subset_of(done) && !succ[i].any_and(done); }
    bool dead(const Bits& done, const std::vector<uint32_t>& s) const {
        for (int i = 0; i < n; ++i) {
            if (!must[i] || done.get(i)) continue;
            for (auto&& c : pre[i]) {
                if (c.v == 0 || c.v == ANY || s[c.k] == c.v) continue;
                auto it = writer_of.find(c.v);
                if (it == writer_of.end()) return true;
                if (it->second < 0 || done.get(it->second)) return true; // overwritten for good
            }
        }
        if (want_final) {
            for (int k = 0; k < nk; ++k) {
                uint32_t v = fin[k];
                if (v == 0 || s[k] == v) continue;
                auto it = writer_of.find(v);
                if (it == writer_of.end()) return true;
                if (it->second < 0 || done.get(it->second)) return true;
            }
        }
        return false;
    }
    bool go(Bits done, std::vector<uint32_t> s) {
        // transactions without effect run as early as possible
        bool again = true;
        while (again) {
            again = false;
            for (int i = 0; i < n; ++i) {
                if (done.get(i) || skip.get(i) || !eff[i].empty() || !soft[i].empty()) continue;
                if (allowed(i, done) && ok_pre(i, s)) {
                    done.set(i);
                    again = true;
                }
            }
        }
        int cnt = 0;
        bool all = true;
        for (int i = 0; i < n; ++i) {
            if (done.get(i)) ++cnt;
            else if (must[i]) all = false;
        }
        if (cnt > best) {
            best = cnt;
            best_done = done;
            best_state = s;
        }
        if (all && (!want_final || s == fin)) return true;
        if (dead(done, s)) return false;
        if (++nodes > budget) {
            exhausted = true;
            return false;
        }
        uint64_t h = 1469598103934665603ULL;
        for (uint64_t w : done.w) h = sim::mix(h, w);
        for (uint32_t v : s) h = sim::mix(h, v);
        if (!memo.insert(h).second) return false;
        for (int i : order) {
            if (done.get(i)) continue;
            if (!allowed(i, done) || !ok_pre(i, s)) continue;
            Bits d2 = done;
            d2.set(i);
            std::vector<uint32_t> s2 = s;
            for (unsigned g = 0; g < (1U << vague[i].size()); ++g) {
            s2 = s;
            for (auto&& e : eff[i]) {
                bool drop = false;
                for (std::size_t q = 0; q < vague[i].size(); ++q) drop |= ((g >> q) & 1) && vague[i][q] == e.first;
                if (!drop) s2[e.first] = e.second;
            }
            for (unsigned m = 0; m < (1U << soft[i].size()); ++m) {
                std::vector<uint32_t> s3 = s2;
                bool useless = false;
                for (std::size_t q = 0; q < soft[i].size(); ++q)
                    if ((m >> q) & 1) {
                        if (s3[soft[i][q]] == 0) useless = true;
                        s3[soft[i][q]] = 0;
                    }
                if (useless) continue;
                if (go(d2, s3)) return true;
                if (exhausted) return false;
            }
            }
        }
        return false;
    }
    bool solve() {
        memo.clear();
        nodes = 0;
        exhausted = false;
        best = -1;
        return go(Bits{}, init);
    }
};

struct Eval {
    const Plan& p;
    const Shared& sh;
    const std::vector<IncResult>& ends;
    EvalStats& st;
    std::vector<Violation> out;
    std::vector<std::unique_ptr<TxI>> all;
    std::map<std::tuple<int, int, int>, TxI*> idx;
    std::map<uint32_t, Writer> writers;
    int nk;
    std::set<int> crashed; // incarnations that ended abruptly
    std::map<int, uint64_t> announced;
    // per table and incarnation: present after the restart?
    std::map<std::pair<int, int>, bool> table_there;
    std::map<std::tuple<int, uint64_t>, int> table_of; // (inc, handle) -> table
    std::map<int, std::map<int, uint64_t>> phases;

    Eval(const Plan& pp, const Shared& s, const std::vector<IncResult>& e, EvalStats& x)
        : p(pp), sh(s), ends(e), st(x), nk(pp.nst * pp.nkey) {}

    void v(const char* prop, const char* cls, const std::string& m) {
        if (out.size() < 20) out.push_back({prop, cls, m});
    }
    std::string kn(int k) const { return fmt("st%d/key%d", k / p.nkey, k % p.nkey); }
    std::string vn(uint32_t x) const {
        if (x == 0) return "absent";
        if (x == ANY) return "present";
        if (x == VAL_BAD) return "garbage";
        uint32_t y = x - 1;
        return fmt("i%u.c%u.t%u.o%u", (y >> 21) & 7, (y >> 17) & 15, (y >> 7) & 1023, y & 127);
    }

    void collect();
    void programs();
    void provenance();
    void existence();
    void serial();
    void discipline();
    void commits();
    void states();
    void sessions();
    void memory();
    void log_content();
    void tables();
    void sequences();
    uint64_t earliest(const TxI& t) const;
    // relax: 1 answers of a long transaction's write operations, 2 absence told to a short
    // transaction's update or delete, are not conditions (known findings)
    void build_search(Search& s, int inc, bool rt, bool logedges, bool recovered, const std::vector<TxI*>& txs,
                      const std::vector<uint32_t>& init, int relax = 3);
    void run();
};

// A long transaction may be ordered before those that committed after an older concurrent long
// transaction began, and so on.
uint64_t Eval::earliest(const TxI& t) const {
    uint64_t since = t.begin_inv;
    if (t.mode != M_LTX) return since;
    for (bool more = true; more;) {
        more = false;
        for (auto&& o : all)
            if (o->inc == t.inc && o->mode == M_LTX && o->begin_inv < since && (o->end > since || o->end == 0)) {
                since = o->begin_inv;
                more = true;
            }
    }
    return since;
}

void Eval::collect() {
    const Hist& h = sh.h;
    for (uint32_t i = 0; i < h.n; ++i) {
        const Rec& r = h.r[i];
        if (r.kind == R_PHASE) {
            if (r.aux == 100) {
                table_there[{r.inc, r.st}] = r.status == 0;
                table_of[{r.inc, r.x}] = r.st;
            } else {
                phases[r.inc][r.aux] = r.inv;
            }
            continue;
        }
        if (r.kind == R_DUR) {
            announced[r.inc] = std::max(announced[r.inc], r.x);
            continue;
        }
        if (r.kind == R_ENTER || r.kind == R_LEAVE || r.kind == R_MEM || r.kind == R_DDL) continue;
        auto key = std::make_tuple<int, int, int>(r.inc, r.client, r.tx);
        if (r.kind == R_BEGIN) {
            auto t = std::make_unique<TxI>();
            t->inc = r.inc;
            t->client = r.client;
            t->tx = r.tx;
            t->mode = r.aux;
            t->begin_inv = r.inv;
            t->begin_ret = r.ret;
            if (r.client != AUDITOR) {
                const auto& c = p.inc[r.inc].cl[r.client];
                t->plan = &c.tx[r.tx % c.tx.size()];
            }
            idx[key] = t.get();
            all.push_back(std::move(t));
            continue;
        }
        auto it = idx.find(key);
        if (it == idx.end()) continue;
        TxI* t = it->second;
        if (r.kind == R_COMMIT || r.kind == R_ABORT || (r.kind == R_OP && is_err(r.status))) t->quit = std::min(t->quit, r.inv);
        switch (r.kind) {
            case R_OP:
            case R_ROW:
                t->recs.push_back(&r);
                if (r.kind == R_OP) {
                    st.premature += r.x;
                    if (t->started == 0 && r.opkind <= O_SCAN && (r.status == SI(Status::OK) || r.status == SI(Status::WARN_NOT_FOUND) || r.status == SI(Status::WARN_ALREADY_EXISTS)))
                        t->started = r.ret;
                    if (is_err(r.status)) {
                        t->o = ABORTED;
                        t->status = r.status;
                        t->end = r.ret;
                    }
                }
                break;
            case R_SEQ: t->recs.push_back(&r); break;
            case R_COMMIT:
                if (t->commit_inv == 0) t->commit_inv = r.inv;
                if (r.ret == UINT64_MAX) {
                    if (t->o == OPEN) t->o = INFLIGHT;
                } else if (r.aux == 1) {
                    t->o = r.status == 0 ? COMMITTED : is_err(r.status) ? ABORTED : OPEN;
                    t->status = r.status;
                    t->end = r.ret;
                } else {
                    if (t->o == OPEN) t->o = INFLIGHT;
                    if (r.aux == 3) ++st.waits;
                }
                break;
            case R_CB:
                if (r.status == SI(Status::WARN_PREMATURE)) {
                    t->o = OPEN;
                    t->commit_inv = 0;
                    break;
                }
                ++t->cbs;
                t->o = r.status == 0 ? COMMITTED : ABORTED;
                t->status = r.status;
                t->reason = r.aux;
                t->end = r.ret;
                if (r.status == 0) {
                    t->marker = r.x;
                    t->has_marker = true;
                }
                break;
            case R_ABORT:
                if (r.aux != 1) {
                    t->o = ABORTED;
                    t->user_abort = true;
                    t->end = r.ret;
                }
                break;
            case R_STATE: t->states.push_back(&r); break;
            case R_RESINFO: t->resinfo.push_back(&r); break;
            default: break;
        }
    }
    for (auto&& e : ends) (void)e;
    for (std::size_t i = 0; i < ends.size(); ++i)
        if ((ends[i].code == sim::EXIT_CRASH || ends[i].code == sim::EXIT_STEPS)) crashed.insert(static_cast<int>(i));
    uint64_t shape = 7;
    for (auto&& t : all) {
        switch (t->o) {
            case COMMITTED: ++st.committed; ++st.c_mode[t->mode & 3]; break;
            case ABORTED: ++st.aborted; break;
            case INFLIGHT: ++st.inflight; break;
            case OPEN: ++st.open; break;
        }
        shape = sim::mix(shape, static_cast<uint64_t>(t->client) << 24 | static_cast<uint64_t>(t->tx) << 8 | t->o);
        for (auto* r : t->recs) shape = sim::mix(shape, static_cast<uint64_t>(r->val) << 16 ^ static_cast<uint64_t>(static_cast<uint16_t>(r->status)));
        if (t->o == ABORTED && is_err(t->status)) ++st.err[t->status & 15];
    }
    st.shape = shape;
}

// turn the operations of each transaction into conditions on the serial state and effects,
// checking the results against the transaction's own earlier writes on the way
void Eval::programs() {
    std::map<int, std::vector<TxI*>> touching; // key -> transactions that wrote it
    for (auto&& tp : all)
        for (const Rec* r : tp->recs)
            if (r->kind == R_OP && r->opkind >= O_INSERT && r->opkind <= O_DELETE && r->status == 0) {
                auto& q = touching[r->st * p.nkey + r->key];
                if (q.empty() || q.back() != tp.get()) q.push_back(tp.get());
            }
    for (auto&& tp : all) {
        TxI& t = *tp;
        std::map<int, uint32_t> own;   // own state: 0 deleted, else value
        std::map<int, uint32_t> seen;  // external observation
        std::set<int> seen_insert; // absence known from an insert only
        std::set<int> amb;         // a delete cancelled an upsert: erased, or as before
        bool strand = false;
        if (t.plan)
            for (auto&& o : t.plan->ops) strand |= o.strand && !o.drop;
        auto observe = [&](int k, uint32_t val, const Rec* r) {
            if (amb.count(k)) return;
            auto it = seen.find(k);
            if (it == seen.end()) {
                seen[k] = val;
                return;
            }
            uint32_t& c = it->second;
            if (c == val) return;
            if (c == ANY && val != 0) { c = val; return; }
            if (val == ANY && c != 0) return;
            if (t.o == COMMITTED || t.mode == M_RTX) {
                v(t.mode == M_RTX ? "P06" : "P01", "unrepeatable-read",
                  fmt("%s %s: %s was %s at first and %s later (%s)", t.name().c_str(), t.o == COMMITTED ? "committed" : "not committed",
                      kn(k).c_str(), vn(c).c_str(), vn(val).c_str(), op_name(r->opkind)));
                t.contradictory = true;
            }
        };
        // what a write operation says about the record; a long transaction is told about the newest
        // version even if that is not its own snapshot (known finding); it may be ordered before those
        // that committed after an older concurrent long transaction began
        uint64_t since = t.mode == M_LTX ? earliest(t) : t.begin_inv;
        auto observe_w = [&](int k, uint32_t val, const Rec* r) {
            if (t.mode == M_LTX) {
                for (TxI* w : touching[k]) {
                    if (w == &t || w->inc != t.inc || w->o == ABORTED || w->commit_inv == 0) continue;
                    if ((w->commit_inv < r->ret || w->mode == M_LTX) && w->end > since) {
                        if (amb.count(k)) return;
                        t.told.push_back({k, val, r});
                        if (r->status == 0) t.vague.push_back(k);
                        return;
                    }
                }
            }
            observe(k, val, r);
        };
        // a transaction that does not commit may be let down by what others do meanwhile
        auto counts = [&](int k) {
            if (t.o == COMMITTED) return true;
            for (TxI* w : touching[k])
                if (w != &t && w->inc == t.inc && w->end > t.begin_inv) return false;
            return true;
        };
        // an update of a long transaction that was told that the key exists, although it is deleted at its
        // position: the record may be gone (known finding)
        auto gone = [&](int k) {
            if (t.mode != M_LTX) return false;
            bool updated = false;
            for (const Rec* r : t.recs) updated |= r->kind == R_OP && r->opkind == O_UPDATE && r->status == 0 && r->st * p.nkey + r->key == k;
            if (!updated) return false;
            for (TxI* w : touching[k]) {
                if (w == &t || w->inc != t.inc || w->o == ABORTED || w->commit_inv == 0 || w->end <= since) continue;
                for (const Rec* r : w->recs)
                    if (r->kind == R_OP && r->opkind == O_DELETE && r->status == 0 && r->st * p.nkey + r->key == k) return true;
            }
            return false;
        };
        // somebody must be about to insert the record
        auto inserting = [&](const Rec* r, int k) {
            ++st.inserting;
            for (auto&& w : all) {
                if (w->inc != t.inc || w->end <= r->inv) continue;
                if (w->end == UINT64_MAX && w.get() != &t) return; // the operation which a crash cut off is not recorded
                for (const Rec* q : w->recs)
                    if (q->kind == R_OP && (q->opkind == O_INSERT || q->opkind == O_UPSERT) && q->inv < r->ret && q->st * p.nkey + q->key == k) return;
            }
            v("P04", "nobody-inserts", fmt("%s %s on %s was told that the record is just being inserted, but nobody did that", t.name().c_str(), op_name(r->opkind), kn(k).c_str()));
        };
        auto wrong = [&](const Rec* r, int k, const std::string& exp) {
            if (r->status == SI(Status::WARN_NOT_FOUND) && gone(k)) v("P01", "long-tx-existence", fmt("%s was told that %s exists, but its own write is not there", t.name().c_str(), kn(k).c_str()));
            else if (counts(k)) v("P05", "own-write", fmt("%s %s on %s returned %s %s although its own earlier operations make it %s", t.name().c_str(),
                                      op_name(r->opkind), kn(k).c_str(), sn(r->status).c_str(), vn(r->val).c_str(), exp.c_str()));
            t.contradictory = true;
        };
        std::vector<const Rec*> rows;
        for (const Rec* r : t.recs) {
            if (r->kind == R_ROW) {
                rows.push_back(r);
                continue;
            }
            if (r->kind == R_SEQ) continue;
            int s = r->status;
            if (r->opkind == O_SCAN) {
                std::vector<const Rec*> mine;
                for (auto* w : rows)
                    if (w->op == r->op) mine.push_back(w);
                rows.erase(std::remove_if(rows.begin(), rows.end(), [&](const Rec* w) { return w->op == r->op; }), rows.end());
                Op q;
                q.lend = q.rend = 2;
                if (t.plan) q = t.plan->ops[r->op];
                int lo = q.lend == 2 ? 0 : q.lend == 1 ? q.key : q.key + 1;
                int hi = q.rend == 2 ? p.nkey - 1 : q.rend == 1 ? q.key2 : q.key2 - 1;
                std::set<int> got;
                int last = -1;
                int nrow = 0;
                for (auto* w : mine) {
                    if (w->status != 0) continue;
                    ++nrow;
                    ++st.rows;
                    if (w->key == KEY_NONE) {
                        v("P03", "scan-unknown-key", fmt("%s scan of st%d delivered a key that was never written", t.name().c_str(), r->st));
                        continue;
                    }
                    if (w->val == VAL_BAD) {
                        v("P01", "garbage-value", fmt("%s scan of st%d delivered a value that nobody wrote at key%d", t.name().c_str(), r->st, w->key));
                        continue;
                    }
                    if (w->key < lo || w->key > hi)
                        v("P03", "scan-out-of-range", fmt("%s scan of st%d [%d..%d] delivered key%d", t.name().c_str(), r->st, lo, hi, w->key));
                    if (last >= 0 && (q.reverse ? w->key >= last : w->key <= last))
                        v("P03", got.count(w->key) ? "scan-duplicate" : "scan-order",
                          fmt("%s scan of st%d delivered key%d after key%d", t.name().c_str(), r->st, w->key, last));
                    last = w->key;
                    got.insert(w->key);
                    int k = r->st * p.nkey + w->key;
                    uint32_t val = w->val == 0 ? ANY : w->val;
                    auto it = own.find(k);
                    if (it != own.end()) {
                        if (!strand && (it->second == 0 || (val != ANY && it->second != val))) {
                            if (counts(k)) v("P05", "own-write-scan", fmt("%s scan delivered %s = %s although its own writes make it %s", t.name().c_str(), kn(k).c_str(), vn(val).c_str(), vn(it->second).c_str()));
                            t.contradictory = true;
                        }
                    } else if (w->aux != 3) {
                        observe(k, val, r);
                    }
                }
                if (q.limit > 0 && nrow > q.limit)
                    v("P03", "scan-limit", fmt("%s scan of st%d with limit %d delivered %d rows", t.name().c_str(), r->st, q.limit, nrow));
                if (s == SI(Status::WARN_NOT_FOUND) && !mine.empty()) v("P03", "scan-notfound-rows", t.name());
                // keys that were not delivered are absent, as far as the scan got
                bool full = (s == 0 && r->aux == 0 && q.limit == 0) || (s == SI(Status::WARN_NOT_FOUND) && q.limit == 0);
                bool part = s == 0 && (r->aux == 1 || (r->aux == 0 && q.limit > 0)) && last >= 0;
                int a = lo, b = hi;
                if (part) {
                    if (q.reverse) a = last;
                    else b = last;
                }
                if (full || part) {
                    for (int kk = a; kk <= b; ++kk) {
                        if (got.count(kk)) continue;
                        int k = r->st * p.nkey + kk;
                        auto it = own.find(k);
                        ++st.absents;
                        if (it != own.end()) {
                            if (it->second != 0 && !strand) {
                                if (gone(k)) v("P01", "long-tx-existence", fmt("%s was told that %s exists, but its own write is not there", t.name().c_str(), kn(k).c_str()));
                                else if (counts(k)) v("P05", "own-write-scan", fmt("%s scan did not deliver %s although its own writes make it %s", t.name().c_str(), kn(k).c_str(), vn(it->second).c_str()));
                                t.contradictory = true;
                            }
                        } else {
                            observe(k, 0, r);
                        }
                    }
                }
                continue;
            }
            if (r->opkind > O_DELETE) continue;
            int k = r->st * p.nkey + r->key;
            auto it = own.find(k);
            bool known = it != own.end();
            uint32_t ov = known ? it->second : 0;
            if (is_err(s) || s == SI(Status::WARN_NOT_BEGIN)) continue;
            bool write = r->opkind >= O_INSERT;
            if (t.mode == M_RTX && write) {
                if (s != SI(Status::WARN_ILLEGAL_OPERATION))
                    v("P06", "rtx-write", fmt("%s %s returned %s", t.name().c_str(), op_name(r->opkind), sn(s).c_str()));
                continue;
            }
            if (t.mode == M_LTX && write && t.plan) {
                bool wp = (t.plan->wp >> r->st) & 1;
                if (!wp) {
                    if (s != SI(Status::WARN_WRITE_WITHOUT_WP))
                        v("P14", "write-without-reservation", fmt("%s %s on unreserved st%d returned %s", t.name().c_str(), op_name(r->opkind), r->st, sn(s).c_str()));
                    continue;
                }
                if (s == SI(Status::WARN_WRITE_WITHOUT_WP))
                    v("P14", "reservation-not-honoured", fmt("%s %s on reserved st%d returned %s", t.name().c_str(), op_name(r->opkind), r->st, sn(s).c_str()));
            }
            switch (r->opkind) {
                case O_SEARCH:
                case O_EXIST: {
                    bool ex = r->opkind == O_EXIST;
                    if (s == 0 && r->val == VAL_BAD) {
                        v("P01", "garbage-value", fmt("%s search of %s returned a value that nobody wrote", t.name().c_str(), kn(k).c_str()));
                        break;
                    }
                    if (s == 0) {
                        ++st.reads;
                        if (known) {
                            if (ov == 0 || (!ex && ov != r->val)) wrong(r, k, vn(ov));
                        } else {
                            observe(k, ex ? ANY : r->val, r);
                        }
                    } else if (s == SI(Status::WARN_NOT_FOUND)) {
                        ++st.absents;
                        if (known) {
                            if (ov != 0) wrong(r, k, vn(ov));
                        } else {
                            observe(k, 0, r);
                        }
                    } else if (s == SI(Status::WARN_CONCURRENT_INSERT) || s == SI(Status::WARN_CONCURRENT_UPDATE)) {
                        if (known && ov != 0) wrong(r, k, vn(ov));
                        if (s == SI(Status::WARN_CONCURRENT_INSERT)) inserting(r, k);
                    } else {
                        v("P05", "status", fmt("%s %s on %s returned %s", t.name().c_str(), op_name(r->opkind), kn(k).c_str(), sn(s).c_str()));
                    }
                    break;
                }
                case O_INSERT:
                    if (s == 0) {
                        if (known) {
                            if (ov != 0) wrong(r, k, vn(ov));
                        } else {
                            bool before = seen.count(k) != 0;
                            observe_w(k, 0, r);
                            if (!before) seen_insert.insert(k);
                        }
                        own[k] = r->val;
                    } else if (s == SI(Status::WARN_ALREADY_EXISTS)) {
                        if (known) {
                            if (ov == 0) wrong(r, k, vn(ov));
                        } else {
                            observe_w(k, ANY, r);
                        }
                    } else if (s == SI(Status::WARN_CONCURRENT_INSERT) || s == SI(Status::WARN_CONFLICT_ON_WRITE_PRESERVE)) {
                        if (s == SI(Status::WARN_CONCURRENT_INSERT)) inserting(r, k);
                    } else {
                        v("P05", "status", fmt("%s insert on %s returned %s", t.name().c_str(), kn(k).c_str(), sn(s).c_str()));
                    }
                    break;
                case O_UPDATE:
                    if (s == 0) {
                        if (known) {
                            if (ov == 0) wrong(r, k, vn(ov));
                        } else {
                            observe_w(k, ANY, r);
                        }
                        own[k] = r->val;
                    } else if (s == SI(Status::WARN_NOT_FOUND)) {
                        if (known && ov != 0) wrong(r, k, vn(ov));
                        if (!known && !amb.count(k)) t.told.push_back({k, 0, r});
                    } else if (s == SI(Status::WARN_CONFLICT_ON_WRITE_PRESERVE) || s == SI(Status::WARN_CONCURRENT_INSERT)) {
                        if (s == SI(Status::WARN_CONCURRENT_INSERT)) inserting(r, k);
                    } else {
                        v("P05", "status", fmt("%s update on %s returned %s", t.name().c_str(), kn(k).c_str(), sn(s).c_str()));
                    }
                    break;
                case O_UPSERT:
                    if (s == 0) {
                        own[k] = r->val;
                    } else if (s == SI(Status::WARN_CONFLICT_ON_WRITE_PRESERVE)) {
                    } else {
                        v("P05", "status", fmt("%s upsert on %s returned %s", t.name().c_str(), kn(k).c_str(), sn(s).c_str()));
                    }
                    break;
                case O_DELETE:
                    if (s == 0) {
                        if (known) {
                            if (ov == 0) wrong(r, k, vn(ov));
                        } else {
                            observe_w(k, ANY, r);
                        }
                        own[k] = 0;
                    } else if (s == SI(Status::WARN_CANCEL_PREVIOUS_INSERT) || s == SI(Status::WARN_CANCEL_PREVIOUS_UPSERT)) {
                        if (!known || ov == 0) wrong(r, k, "not written by it");
                        own.erase(k);
                        if (s == SI(Status::WARN_CANCEL_PREVIOUS_INSERT)) {
                            // as if the insert had never been
                            if (seen_insert.count(k)) seen.erase(k);
                        } else {
                            amb.insert(k);
                        }
                    } else if (s == SI(Status::WARN_NOT_FOUND)) {
                        if (known && ov != 0) wrong(r, k, vn(ov));
                        if (!known && !amb.count(k)) t.told.push_back({k, 0, r});
                    } else if (s == SI(Status::WARN_CONFLICT_ON_WRITE_PRESERVE) || s == SI(Status::WARN_CONCURRENT_INSERT)) {
                        if (s == SI(Status::WARN_CONCURRENT_INSERT)) inserting(r, k);
                    } else {
                        v("P05", "status", fmt("%s delete on %s returned %s", t.name().c_str(), kn(k).c_str(), sn(s).c_str()));
                    }
                    break;
                default: break;
            }
        }
        for (int k : amb)
            if (!own.count(k)) t.soft.push_back(k);
        for (auto&& e : seen) t.pre.push_back({e.first, e.second});
        for (auto&& e : own) t.eff.emplace_back(e.first, e.second);
    }
    for (auto&& tp : all) {
        std::map<int, uint32_t> last;
        for (auto&& e : tp->eff) last[e.first] = e.second;
        for (const Rec* r : tp->recs) {
            if (r->kind != R_OP || r->opkind < O_INSERT || r->opkind > O_UPSERT) continue;
            int k = r->st * p.nkey + r->key;
            writers[r->val] = {tp.get(), k, r->op, r->status == 0, r->status == 0 && last.count(k) != 0 && last[k] == r->val};
        }
    }
}

// answers of write operations that are not validated must at least have been true at some time
void Eval::existence() {
    std::map<int, std::vector<std::pair<TxI*, int>>> w; // key -> writer, 0 deletes, 1 stores, 2 either
    for (auto&& tp : all) {
        if (tp->o == ABORTED || tp->o == OPEN) continue;
        for (auto&& e : tp->eff) w[e.first].push_back({tp.get(), e.second == 0 ? 0 : 1});
        for (int k : tp->soft) w[k].push_back({tp.get(), 2});
    }
    for (auto&& tp : all) {
        TxI& t = *tp;
        for (auto&& q : t.told) {
            if (q.v != 0) {
                bool possible = false;
                for (auto&& x : w[q.k])
                    if (x.second != 0 && (x.first->inc < t.inc || (x.first->inc == t.inc && x.first->commit_inv < q.r->ret))) possible = true;
                if (!possible)
                    v("P05", "present-without-writer", fmt("%s %s on %s returned %s although nothing was stored there", t.name().c_str(), op_name(q.r->opkind), kn(q.k).c_str(), sn(q.r->status).c_str()));
                // wrong as well if it was deleted before the transaction began and nobody may have stored it since
                for (auto&& x : w[q.k]) {
                    if (!possible || x.second != 0 || x.first->o != COMMITTED || x.first->inc != t.inc || x.first->end >= t.begin_inv) continue;
                    bool stored = false;
                    for (auto&& y : w[q.k])
                        if (y.second != 0 && y.first->inc == t.inc && y.first != &t && y.first->commit_inv < q.r->ret && y.first->end > earliest(*x.first)) stored = true;
                    if (!stored) {
                        v("P05", "present-after-delete", fmt("%s %s on %s returned %s although %s deleted it before and nobody stored it since", t.name().c_str(), op_name(q.r->opkind), kn(q.k).c_str(), sn(q.r->status).c_str(), x.first->name().c_str()));
                        break;
                    }
                }
                continue;
            }
            // absent: wrong if it was stored before the transaction began and nobody may have deleted it since
            for (auto&& x : w[q.k]) {
                if (x.second != 1 || x.first->o != COMMITTED || x.first->inc != t.inc || x.first->end >= t.begin_inv) continue;
                bool deleted = false;
                for (auto&& y : w[q.k])
                    if (y.second != 1 && y.first->inc == t.inc && y.first != &t && y.first->commit_inv < q.r->ret && y.first->end > earliest(*x.first)) deleted = true;
                if (!deleted) {
                    v("P05", "absent-without-delete", fmt("%s %s on %s returned %s although %s stored it before and nobody deleted it", t.name().c_str(), op_name(q.r->opkind), kn(q.k).c_str(), sn(q.r->status).c_str(), x.first->name().c_str()));
                    break;
                }
            }
        }
    }
}

void Eval::provenance() {
    for (auto&& tp : all) {
        TxI& t = *tp;
        for (const Rec* r : t.recs) {
            if (r->status != 0 || r->val == 0 || r->val == VAL_BAD) continue;
            bool row = r->kind == R_ROW;
            if (!row && !(r->kind == R_OP && r->opkind == O_SEARCH)) continue;
            int k = r->st * p.nkey + r->key;
            auto it = writers.find(r->val);
            if (it == writers.end()) {
                v("P01", "value-from-nowhere", fmt("%s read %s at %s, which was never written", t.name().c_str(), vn(r->val).c_str(), kn(k).c_str()));
                continue;
            }
            Writer& w = it->second;
            if (w.k != k) {
                v("P01", "wrong-record", fmt("%s read at %s the value %s, which was written to %s", t.name().c_str(), kn(k).c_str(), vn(r->val).c_str(), kn(w.k).c_str()));
                continue;
            }
            if (w.t == &t) continue;
            if (!w.ok)
                v("P05", "refused-write-visible", fmt("%s read %s at %s, whose write was refused", t.name().c_str(), vn(r->val).c_str(), kn(k).c_str()));
            else if (w.t->o == ABORTED || w.t->o == OPEN)
                v("P04", "aborted-write-visible", fmt("%s read %s at %s, written by %s, which %s", t.name().c_str(), vn(r->val).c_str(), kn(k).c_str(), w.t->name().c_str(), w.t->o == ABORTED ? "aborted" : "never asked to commit"));
            else if (t.inc == w.t->inc && r->ret < w.t->commit_inv)
                v("P04", "uncommitted-write-visible", fmt("%s read %s at %s before %s asked to commit", t.name().c_str(), vn(r->val).c_str(), kn(k).c_str(), w.t->name().c_str()));
            else if (!w.final)
                v("P01", "intermediate-write-visible", fmt("%s read %s at %s, which %s had overwritten itself", t.name().c_str(), vn(r->val).c_str(), kn(k).c_str(), w.t->name().c_str()));
        }
    }
}

void Eval::build_search(Search& s, int inc, bool rt, bool logedges, bool recovered, const std::vector<TxI*>& txs,
                        const std::vector<uint32_t>& init, int relax) {
    s = Search{};
    s.t = txs;
    s.n = static_cast<int>(txs.size());
    s.nk = nk;
    s.init = init;
    s.must.assign(s.n, false);
    s.pred.assign(s.n, Bits{});
    s.succ.assign(s.n, Bits{});
    s.pre.resize(s.n);
    s.eff.resize(s.n);
    s.soft.resize(s.n);
    s.vague.resize(s.n);
    for (int k = 0; k < nk; ++k)
        if (init[k] != 0) s.writer_of[init[k]] = -1;
    std::map<TxI*, int> id;
    for (int i = 0; i < s.n; ++i) {
        TxI* t = txs[i];
        id[t] = i;
        s.pre[i] = t->pre;
        s.eff[i] = t->eff;
        s.soft[i] = t->soft;
        if (s.soft[i].size() > 6) s.soft[i].resize(6);
        if (t->mode == M_LTX ? (relax & 1) != 0 : (relax & 2) != 0) {
            s.vague[i] = t->vague;
            if (s.vague[i].size() > 4) s.vague[i].resize(4);
        } else {
            for (auto&& q : t->told) s.pre[i].push_back({q.k, q.v});
        }
        // an effect that equals "still absent" is no effect
        for (auto&& e : t->eff)
            if (e.second != 0) s.writer_of[e.second] = i;
        if (!recovered) {
            s.must[i] = t->o == COMMITTED;
        } else {
            bool dur = t->o == COMMITTED && t->has_marker && t->marker <= announced[inc];
            // committed before another one that was announced started to commit
            for (TxI* o : txs)
                if (t->o == COMMITTED && !t->has_marker && o->o == COMMITTED && o->has_marker && o->marker <= announced[inc] && o->commit_inv > t->end) dur = true;
            s.must[i] = dur || t->seen_durable;
            if (s.must[i]) ++st.must;
        }
    }
    auto reader = [&](int i) { return s.eff[i].empty() && s.soft[i].empty(); };
    if (recovered)
        for (int i = 0; i < s.n; ++i)
            if (reader(i) && !s.must[i]) s.skip.set(i); // leaves no trace
    auto edge = [&](int a, int b) {
        if (a == b) return;
        if (s.must[a]) s.pred[b].set(a);
        // what is optional may be missing, also before one that only reads
        if (s.must[a] || !recovered || !reader(b)) s.succ[a].set(b);
    };
    if (rt) {
        uint64_t quiet = UINT64_MAX;
        auto ph = phases.find(inc);
        if (ph != phases.end() && ph->second.count(PH_QUIET)) quiet = ph->second[PH_QUIET];
        for (int a = 0; a < s.n; ++a)
            for (int b = 0; b < s.n; ++b) {
                TxI *x = txs[a], *y = txs[b];
                if (x->o != COMMITTED || x->end >= y->begin_inv) continue;
                bool e = false;
                if (y->mode == M_STX && x->mode != M_RTX) e = true;
                if (y->mode == M_RTX && x->mode == M_RTX) e = true;
                if (y->mode == M_RTX && y->begin_inv > quiet && x->mode != M_RTX && x->client != AUDITOR) e = true;
                if (e) edge(a, b);
            }
    }
    // order of versions in the log
    std::map<int, std::vector<std::pair<std::pair<uint64_t, uint64_t>, int>>> per;
    std::vector<std::pair<uint64_t, uint64_t>> pos(s.n, {UINT64_MAX, 0});
    for (uint32_t i = 0; i < sh.disk.n; ++i) {
        const auto& e = sh.disk.e[i];
        if (e.incarnation != inc) continue;
        if (e.type != stubctl::L_ADD && e.type != stubctl::L_REMOVE) continue;
        auto tb = table_of.find({inc, e.st});
        if (tb == table_of.end()) continue;
        std::string key(sh.disk.data + e.koff, e.klen);
        auto ki = std::lower_bound(p.keys.begin(), p.keys.end(), key);
        if (ki == p.keys.end() || *ki != key) continue;
        int k = tb->second * p.nkey + static_cast<int>(ki - p.keys.begin());
        if (e.type == stubctl::L_ADD) {
            uint32_t val = value_parse(std::string(sh.disk.data + e.voff, e.vlen));
            auto w = writers.find(val);
            if (w == writers.end()) continue;
            auto f = id.find(w->second.t);
            if (f == id.end()) continue;
            pos[f->second] = {e.major, e.minor};
            per[k].push_back({{e.major, e.minor}, f->second});
        }
    }
    if (logedges) {
        for (auto&& q : per) {
            auto& vec = q.second;
            std::sort(vec.begin(), vec.end());
            for (std::size_t i = 0; i + 1 < vec.size(); ++i)
                for (std::size_t j = i + 1; j < vec.size(); ++j)
                    if (vec[i].first < vec[j].first) edge(vec[i].second, vec[j].second);
        }
    }
    for (int i = 0; i < s.n; ++i)
        if (!s.eff[i].empty() || !s.soft[i].empty()) s.order.push_back(i);
    std::stable_sort(s.order.begin(), s.order.end(), [&](int a, int b) {
        // by log position; those without one by time of the outcome
        bool la = pos[a].first != UINT64_MAX, lb = pos[b].first != UINT64_MAX;
        if (la && lb) return pos[a] < pos[b];
        return txs[a]->end < txs[b]->end;
    });
}

void Eval::serial() {
    std::vector<uint32_t> init(nk, 0);
    int ninc = static_cast<int>(ends.size());
    for (int inc = 0; inc < ninc; ++inc) {
        std::vector<TxI*> txs;
        TxI* start_audit = nullptr;
        for (auto&& t : all) {
            if (t->inc != inc) continue;
            for (auto* r : t->states)
                if (r->status == 0 && r->aux == 6) t->seen_durable = true; // DURABLE
            if (inc > 0 && t->client == AUDITOR && t->o == COMMITTED && !start_audit) {
                start_audit = t.get();
                continue;
            }
            if (t->o == COMMITTED || t->o == INFLIGHT) txs.push_back(t.get());
        }
        auto view = [&](TxI* a) {
            std::vector<uint32_t> s(nk, 0);
            for (auto&& c : a->pre) s[c.k] = c.v;
            return s;
        };
        if (inc > 0) {
            if (!start_audit) return; // never got that far
            if (start_audit->contradictory) return;
            init = view(start_audit);
        }
        if (txs.size() > MAXT) {
            ++st.inconclusive;
            return;
        }
        for (auto* t : txs)
            if (t->contradictory) return; // already reported
        auto explain = [&](Search& s) {
            std::string m = "serializable up to:";
            for (int i = 0; i < s.n; ++i)
                if (s.best_done.get(i)) m += " " + s.t[i]->name();
            m += "; stuck:";
            for (int i = 0; i < s.n; ++i) {
                if (s.best_done.get(i) || !s.must[i]) continue;
                m += " " + s.t[i]->name() + "{";
                for (auto&& c : s.pre[i])
                    if (!(c.v == s.best_state[c.k] || (c.v == ANY && s.best_state[c.k] != 0)))
                        m += kn(c.k) + " saw " + vn(c.v) + " state " + vn(s.best_state[c.k]) + "; ";
                m += "}";
                if (m.size() > 900) break;
            }
            return m;
        };
        // (a) all committed transactions of this incarnation
        bool clean_end = !crashed.count(inc);
        Search s;
        build_search(s, inc, true, true, false, txs, init, 0);
        ++st.searches;
        bool ok = s.solve();
        st.nodes += s.nodes;
        bool any_told = false;
        for (auto* t : txs) any_told |= !t->told.empty();
        if (!ok && any_told) {
            std::string m = explain(s);
            for (int relax : {1, 2, 3}) {
                build_search(s, inc, true, true, false, txs, init, relax);
                ok = s.solve();
                st.nodes += s.nodes;
                if (ok) {
                    if (relax == 2) v("P01", "short-tx-absence", "only without the absence told to update and delete: " + m);
                    else v("P01", "long-tx-existence", "only without the answers told to write operations of long transactions: " + m);
                    break;
                }
            }
        }
        if (!ok && s.exhausted) {
            // the log order may be too narrow a hint; try without before giving up
            build_search(s, inc, true, false, false, txs, init);
            ok = s.solve();
            st.nodes += s.nodes;
            if (!ok) {
                ++st.inconclusive;
                return;
            }
        } else if (!ok) {
            Search s2;
            build_search(s2, inc, true, false, false, txs, init);
            bool ok2 = s2.solve();
            st.nodes += s2.nodes;
            if (ok2) {
                v("P19", "log-order", "the order of versions in the log contradicts every serial order: " + explain(s));
            } else if (s2.exhausted) {
                ++st.inconclusive;
            } else {
                Search s3;
                build_search(s3, inc, false, false, false, txs, init);
                bool ok3 = s3.solve();
                st.nodes += s3.nodes;
                if (ok3) {
                    // which kind of reader is out of date?
                    bool rtx = false;
                    for (int i = 0; i < s2.n; ++i)
                        if (!s2.best_done.get(i) && s2.must[i] && s2.t[i]->mode == M_RTX) rtx = true;
                    bool stx = false;
                    for (int i = 0; i < s2.n; ++i)
                        if (!s2.best_done.get(i) && s2.must[i] && s2.t[i]->mode == M_STX) stx = true;
                    v(rtx && !stx ? "P06" : "P02", rtx && !stx ? "stale-snapshot" : "not-strict", explain(s2));
                } else if (s3.exhausted) {
                    ++st.inconclusive;
                } else {
                    v("P01", "not-serializable", explain(s3));
                }
            }
            return;
        }
        (void)clean_end;
        if (inc + 1 >= ninc) break;
        // (b) what the next incarnation found
        TxI* next_audit = nullptr;
        for (auto&& t : all)
            if (t->inc == inc + 1 && t->client == AUDITOR && t->o == COMMITTED) {
                next_audit = t.get();
                break;
            }
        if (!next_audit || next_audit->contradictory) {
            // the next incarnation crashed before it was looked at: it recovers from the same log,
            // so the one after that decides; give up on this history
            bool crashed_early = crashed.count(inc + 1) != 0;
            (void)crashed_early;
            // carry on only if a later audit exists: nothing was written in between
            int j = inc + 2;
            TxI* later = nullptr;
            for (; j < ninc && !later; ++j)
                for (auto&& t : all)
                    if (t->inc == j && t->client == AUDITOR && t->o == COMMITTED) {
                        later = t.get();
                        break;
                    }
            if (!later) break;
            next_audit = later;
            for (int q = inc + 1; q < later->inc; ++q)
                for (int tb = 0; tb < p.nst; ++tb) (void)q;
        }
        auto want = view(next_audit);
        int end_kind = p.inc[static_cast<std::size_t>(inc)].end;
        bool all_must = !crashed.count(inc) && end_kind == IE_FIN_FLUSH;
        auto attempt = [&](bool le) {
            Search b;
            build_search(b, inc, true, le, true, txs, init);
            b.want_final = true;
            b.fin = want;
            if (all_must) {
                for (int i = 0; i < b.n; ++i)
                    if (txs[i]->o == COMMITTED) b.must[i] = true;
                build_search(b, inc, true, le, false, txs, init);
                b.want_final = true;
                b.fin = want;
            }
            bool r = b.solve();
            st.nodes += b.nodes;
            return std::make_pair(r, b);
        };
        ++st.searches;
        auto r1 = attempt(true);
        if (!r1.first) {
            auto r2 = attempt(false);
            if (!r2.first && !r2.second.exhausted && !r1.second.exhausted) {
                std::string d;
                for (int k = 0; k < nk; ++k)
                    if (want[k] != r2.second.best_state[k]) d += kn(k) + " recovered " + vn(want[k]) + " expected e.g. " + vn(r2.second.best_state[k]) + "; ";
                // is it durability (a must transaction is missing) or consistency?
                Search c;
                build_search(c, inc, true, false, true, txs, init);
                for (int i = 0; i < c.n; ++i) c.must[i] = false;
                for (auto& q : c.pred) q = Bits{};
                c.want_final = true;
                c.fin = want;
                bool rc = c.solve();
                std::string mm;
                for (int i = 0; i < r2.second.n; ++i)
                    if (r2.second.must[i]) mm += " " + txs[i]->name();
                if (all_must)
                    v("P10", "lost-at-shutdown", fmt("after the orderly shutdown of incarnation %d: ", inc) + d);
                else if (rc)
                    v("P08", "durable-lost", fmt("incarnation %d announced %llu durable; ", inc, (unsigned long long)announced[inc]) + d + "announced durable:" + mm);
                else if (!c.exhausted)
                    v("P09", "inconsistent-recovery", fmt("incarnation %d: ", inc) + d);
                return;
            }
            if (!r2.first) {
                ++st.inconclusive;
                return;
            }
        }
        uint64_t lost = 0;
        for (auto* t : txs)
            if (!t->eff.empty()) ++lost;
        st.lost += lost;
        if (next_audit->inc != inc + 1) {
            // skip the incarnations in between: they did nothing that was seen
            bool wrote = false;
            for (auto&& t : all)
                if (t->inc > inc && t->inc < next_audit->inc) wrote = true;
            if (wrote) break;
            inc = next_audit->inc - 1;
        }
    }
}

// reservations, read areas and the rights of long transactions
void Eval::discipline() {
    for (auto&& tp : all) {
        TxI& t = *tp;
        if (t.mode == M_RTX) {
            if (t.o == ABORTED && !t.user_abort)
                v("P06", "rtx-aborted", fmt("%s failed with %s", t.name().c_str(), sn(t.status).c_str()));
        }
        if (t.mode == M_LTX && t.plan) {
            for (const Rec* r : t.recs) {
                if (r->kind != R_OP) continue;
                bool rd = r->opkind == O_SEARCH || r->opkind == O_EXIST || r->opkind == O_SCAN;
                if (!rd || r->status == SI(Status::WARN_NOT_BEGIN)) continue;
                // what is in both lists may not be read; nothing is said about the rest if no other remains
                bool unclear = t.plan->use_ra && t.plan->ra_pos != 0 && (t.plan->ra_pos & ~t.plan->ra_neg) == 0;
                if (unclear && !((t.plan->ra_neg >> r->st) & 1)) continue;
                bool forbidden = t.plan->use_ra && (((t.plan->ra_neg >> r->st) & 1) || (t.plan->ra_pos != 0 && !((t.plan->ra_pos >> r->st) & 1)));
                // the reservation implies nothing about reading
                if (forbidden && r->status != SI(Status::ERR_READ_AREA_VIOLATION) && !is_err(r->status))
                    v("P14", "read-area-ignored", fmt("%s %s on st%d outside its read area returned %s", t.name().c_str(), op_name(r->opkind), r->st, sn(r->status).c_str()));
                if (!forbidden && r->status == SI(Status::ERR_READ_AREA_VIOLATION))
                    v("P14", "read-area-wrong", fmt("%s %s on st%d inside its read area was refused", t.name().c_str(), op_name(r->opkind), r->st));
            }
        }
        // a long transaction that overlaps no other long transaction must not fail
        if (t.mode == M_LTX && t.o == ABORTED && !t.user_abort && t.status != SI(Status::ERR_READ_AREA_VIOLATION)) {
            bool other = false;
            for (auto&& q : all) {
                if (q.get() == &t || q->mode != M_LTX || q->inc != t.inc) continue;
                if (q->end > t.begin_inv && q->begin_inv < t.end) other = true;
            }
            if (!other)
                v("P13", "ltx-aborted-alone", fmt("%s failed with %s reason %d although no other long transaction was running", t.name().c_str(), sn(t.status).c_str(), t.reason));
        }
    }
    // short transactions against effective reservations
    for (auto&& lp : all) {
        TxI& l = *lp;
        if (l.mode != M_LTX || !l.plan || l.plan->wp == 0) continue;
        uint64_t a = l.started; // from here on the reservation is effective
        if (a == 0) continue;
        uint64_t b = l.commit_inv != 0 ? l.commit_inv : l.end;
        if (l.o == ABORTED && !l.user_abort && l.commit_inv == 0) {
            b = 0; // failed in an operation: effective until that operation was called
            for (const Rec* r : l.recs)
                if (r->kind == R_OP && is_err(r->status)) b = r->inv;
        }
        if (l.user_abort) {
            b = l.begin_ret;
            for (const Rec* r : l.recs)
                if (!is_err(r->status)) b = std::max(b, r->ret);
        }
        if (b == UINT64_MAX || b <= a) continue;
        for (auto&& sp : all) {
            TxI& s = *sp;
            if (s.mode != M_STX || s.inc != l.inc) continue;
            for (const Rec* r : s.recs) {
                if (r->kind != R_OP || r->inv <= a || r->ret >= b) continue;
                if (!((l.plan->wp >> r->st) & 1)) continue;
                if (r->opkind > O_SCAN || r->opkind == O_UPSERT) continue;
                bool rd = r->opkind == O_SEARCH || r->opkind == O_EXIST || r->opkind == O_SCAN;
                if (r->status == SI(Status::WARN_NOT_BEGIN)) continue;
                if (rd && !is_err(r->status))
                    v("P14", "reservation-read", fmt("%s %s on st%d returned %s while %s holds its reservation", s.name().c_str(), op_name(r->opkind), r->st, sn(r->status).c_str(), l.name().c_str()));
                if (!rd && r->status == 0)
                    v("P14", "reservation-write", fmt("%s %s on st%d succeeded while %s holds its reservation", s.name().c_str(), op_name(r->opkind), r->st, l.name().c_str()));
            }
        }
    }
    // refused although nothing is reserved
    for (auto&& sp : all) {
        TxI& s = *sp;
        // (a long transaction whose begin never returned is not on record)
        if (s.mode != M_STX || crashed.count(s.inc) != 0) continue;
        bool any_ltx = false;
        for (auto&& q : all)
            if (q->mode == M_LTX && q->inc == s.inc && q->end > s.begin_inv && q->begin_inv < s.end) any_ltx = true;
        for (const Rec* r : s.recs)
            if (r->kind == R_OP && r->status == SI(Status::WARN_CONFLICT_ON_WRITE_PRESERVE)) {
                bool l = false;
                for (auto&& q : all)
                    if (q->mode == M_LTX && q->inc == s.inc && q->end > r->inv && q->begin_inv < r->ret) l = true;
                if (!l) v("P14", "reservation-leak", fmt("%s %s on st%d refused for a reservation although no long transaction exists", s.name().c_str(), op_name(r->opkind), r->st));
            }
        if (!any_ltx && s.reason == 8)
            v("P14", "reservation-leak", fmt("%s failed for a reservation although no long transaction exists", s.name().c_str()));
    }
}

void Eval::commits() {
    for (auto&& tp : all) {
        TxI& t = *tp;
        if (t.cbs > 1) v("P07", "answered-twice", t.name());
        if (t.o == ABORTED && t.commit_inv != 0 && t.cbs == 1) {
            if (!is_err(t.status) ) v("P07", "odd-result", fmt("%s commit answered %s", t.name().c_str(), sn(t.status).c_str()));
            if (t.reason == 0) v("P07", "no-reason", fmt("%s commit failed with %s without a reason", t.name().c_str(), sn(t.status).c_str()));
            for (auto* r : t.resinfo)
                if (r->aux != t.reason) v("P07", "reason-changed", fmt("%s reason %d in the answer, %d afterwards", t.name().c_str(), t.reason, r->aux));
        }
        if (t.o == ABORTED && t.commit_inv == 0 && !t.user_abort) {
            for (auto* r : t.resinfo)
                if (r->aux == 0 || r->aux == 255) v("P07", "no-reason", fmt("%s aborted with %s without a reason", t.name().c_str(), sn(t.status).c_str()));
        }
        if (t.o == INFLIGHT && !crashed.count(t.inc) && t.inc < static_cast<int>(ends.size()) && ends[t.inc].code == 0)
            v("P07", "unanswered", t.name());
    }
    // identifiers of transactions
    std::map<uint64_t, TxI*> ids;
    for (auto&& tp : all) {
        uint64_t mine = 0;
        for (const Rec* r : tp->recs) {
            if (r->opkind != O_TXID || r->kind != R_OP) continue;
            if (r->status != 0) continue;
            if (mine != 0 && mine != r->x) v("P18", "txid-changed", tp->name());
            mine = r->x;
        }
        if (mine != 0) {
            auto it = ids.find(mine);
            if (it != ids.end() && it->second->inc == tp->inc) v("P18", "txid-reused", tp->name() + " and " + it->second->name());
            ids[mine] = tp.get();
        }
    }
}

void Eval::states() {
    std::map<int, std::vector<std::pair<uint64_t, uint64_t>>> dur;
    for (uint32_t i = 0; i < sh.h.n; ++i)
        if (sh.h.r[i].kind == R_DUR) dur[sh.h.r[i].inc].push_back({sh.h.r[i].ret, sh.h.r[i].x});
    auto dur_before = [&](int inc, uint64_t when) {
        uint64_t m = 0;
        for (auto&& e : dur[inc])
            if (e.first < when) m = std::max(m, e.second);
        return m;
    };
    auto rank = [](int s) { return s; };
    for (auto&& tp : all) {
        TxI& t = *tp;
        // a long transaction has the highest priority exactly when no older one is running
        for (auto* r : t.recs) {
            if (r->kind != R_OP || r->opkind != O_HIPRI || t.mode != M_LTX || r->status != 0) continue;
            const TxI* sure = nullptr;
            bool maybe = false;
            for (auto&& qp : all) {
                const TxI& q = *qp;
                if (&q == &t || q.inc != t.inc || q.mode != M_LTX) continue;
                if (q.begin_ret < t.begin_inv && q.quit > r->ret && q.quit != UINT64_MAX) sure = &q;
                if (q.begin_inv < t.begin_ret && (q.end > r->inv || q.end == 0)) maybe = true;
            }
            ++st.priority;
            if (r->aux == 1 && sure) v("P17", "priority-false", fmt("%s is told to have the highest priority while %s, which began earlier, is running", t.name().c_str(), sure->name().c_str()));
            if (r->aux == 0 && !maybe) v("P17", "priority-denied", fmt("%s is told not to have the highest priority although no older long transaction is running", t.name().c_str()));
        }
        for (std::size_t i = 0; i < t.states.size(); ++i) {
            const Rec* r = t.states[i];
            if (r->status != 0) {
                if (r->op == 0) v("P17", "state-unavailable", fmt("%s state query returned %s", t.name().c_str(), sn(r->status).c_str()));
                continue;
            }
            int s = r->aux;
            if (s == 0) v("P17", "state-unknown", fmt("%s has no state", t.name().c_str()));
            if (t.mode == M_STX && (s == 1 || s == 3)) v("P17", "state-impossible", fmt("%s is in state %d", t.name().c_str(), s));
            for (std::size_t j = 0; j < t.states.size(); ++j) {
                const Rec* q = t.states[j];
                if (q->status != 0 || q->inv <= r->ret) continue;
                bool okk = rank(q->aux) >= rank(s);
                if (s == 4) okk = q->aux == 4;
                if (!okk) v("P17", "state-went-back", fmt("%s went from state %d to %d", t.name().c_str(), s, q->aux));
            }
            if (r->inv > t.end && t.end != UINT64_MAX) {
                if (t.o == COMMITTED && s != 5 && s != 6) v("P17", "state-after-commit", fmt("%s committed but is in state %d", t.name().c_str(), s));
                if (t.o == ABORTED && s != 4 && !(t.plan && t.plan->end == E_LEAVE)) v("P17", "state-after-abort", fmt("%s aborted but is in state %d", t.name().c_str(), s));
            }
            if ((s == 5 || s == 6) && (t.o == ABORTED || t.o == OPEN)) v("P17", "state-false-commit", fmt("%s is in state %d but did not commit", t.name().c_str(), s));
            if (s == 4 && t.o == COMMITTED) v("P17", "state-false-abort", fmt("%s is in state aborted but committed", t.name().c_str()));
            if (t.commit_inv == 0 || r->ret < t.commit_inv) {
                if (s == 3 || s == 5 || s == 6) v("P17", "state-early", fmt("%s is in state %d before the commit was asked for", t.name().c_str(), s));
            }
            // (that nothing is called durable too early is checked against crashes by P08)
            if (s == 5 && t.has_marker && dur_before(t.inc, r->inv) >= t.marker)
                v("P17", "state-not-durable", fmt("%s is not called durable although marker %llu was announced", t.name().c_str(), (unsigned long long)t.marker));
            if (s == 1)
                for (const Rec* o : t.recs) // (writes are let through earlier)
                    if (o->kind == R_OP && (o->opkind == O_SEARCH || o->opkind == O_EXIST || o->opkind == O_SCAN) && o->ret < r->inv &&
                        (o->status == 0 || o->status == SI(Status::WARN_NOT_FOUND)))
                        v("P17", "state-late", fmt("%s is called waiting although %s was let through", t.name().c_str(), op_name(o->opkind)));
            if (s == 2 && t.mode != M_STX)
                for (const Rec* o : t.recs)
                    if (o->kind == R_OP && o->opkind <= O_SCAN && o->pre > r->ret)
                        v("P17", "state-too-early", fmt("%s was called started, then %s was refused as premature", t.name().c_str(), op_name(o->opkind)));
        }
    }
}

void Eval::sessions() {
    const Hist& h = sh.h;
    struct Hold { uint64_t a, b; int client; };
    std::map<std::pair<int, uint64_t>, std::vector<Hold>> m;
    for (uint32_t i = 0; i < h.n; ++i) {
        const Rec& r = h.r[i];
        if (r.kind == R_ENTER && r.status == 0) m[{r.inc, r.x}].push_back({r.ret, UINT64_MAX, r.client});
        if (r.kind == R_LEAVE) {
            auto& q = m[{r.inc, r.x}];
            for (auto it = q.rbegin(); it != q.rend(); ++it)
                if (it->client == r.client && it->b == UINT64_MAX) { it->b = r.inv; break; }
        }
    }
    for (auto&& e : m)
        for (std::size_t i = 0; i < e.second.size(); ++i)
            for (std::size_t j = i + 1; j < e.second.size(); ++j)
                if (e.second[i].a < e.second[j].b && e.second[j].a < e.second[i].b)
                    v("P18", "session-shared", fmt("clients %d and %d hold the same session", e.second[i].client, e.second[j].client));
}

void Eval::memory() {
    std::vector<uint64_t> m;
    for (uint32_t i = 0; i < sh.h.n; ++i)
        if (sh.h.r[i].kind == R_MEM) m.push_back(sh.h.r[i].x);
    if (m.size() < 6) return;
    // after the first rounds the number of live objects has to level off; every record may keep a few versions
    uint64_t slack = 60 + 6ULL * static_cast<uint64_t>(p.nst) * static_cast<uint64_t>(p.nkey);
    uint64_t lo = std::min(m[1], m[2]);
    uint64_t hi = std::min(m[4], m[5]);
    if (hi > lo + slack) v("P16", "memory-grows", fmt("live objects after rounds 1..6: %llu %llu %llu %llu %llu %llu", (unsigned long long)m[0], (unsigned long long)m[1], (unsigned long long)m[2], (unsigned long long)m[3], (unsigned long long)m[4], (unsigned long long)m[5]));
}

// the log against the outcomes
void Eval::log_content() {
    struct Ent { const stubctl::LogEnt* e; };
    std::map<uint32_t, std::vector<const stubctl::LogEnt*>> by_val;
    std::map<std::pair<int, int>, std::vector<const stubctl::LogEnt*>> by_key;
    for (uint32_t i = 0; i < sh.disk.n; ++i) {
        const auto& e = sh.disk.e[i];
        if (e.type != stubctl::L_ADD && e.type != stubctl::L_REMOVE) continue;
        auto tb = table_of.find({e.incarnation, e.st});
        if (tb == table_of.end()) continue;
        std::string key(sh.disk.data + e.koff, e.klen);
        auto ki = std::lower_bound(p.keys.begin(), p.keys.end(), key);
        if (ki == p.keys.end() || *ki != key) {
            v("P19", "log-unknown-key", fmt("the log received a key for st%d that nobody wrote", tb->second));
            continue;
        }
        by_key[{e.incarnation, tb->second * p.nkey + static_cast<int>(ki - p.keys.begin())}].push_back(&e);
    }
    for (uint32_t i = 0; i < sh.disk.n; ++i) {
        const auto& e = sh.disk.e[i];
        if (e.type != stubctl::L_ADD) continue;
        auto tb = table_of.find({e.incarnation, e.st});
        if (tb == table_of.end()) continue;
        std::string val(sh.disk.data + e.voff, e.vlen);
        uint32_t id = value_parse(val);
        if (id == 0) {
            v("P19", "log-garbage", fmt("the log received a value for st%d that nobody wrote", tb->second));
            continue;
        }
        auto w = writers.find(id);
        if (w == writers.end()) {
            // its operation had not returned when the process was killed
            if (!crashed.count(e.incarnation)) v("P19", "log-unknown", fmt("the log received %s, which no operation wrote", vn(id).c_str()));
            continue;
        }
        by_val[id].push_back(&e);
        TxI* t = w->second.t;
        std::string key(sh.disk.data + e.koff, e.klen);
        int k = w->second.k;
        if (key != p.keys[k % p.nkey] || tb->second != k / p.nkey)
            v("P19", "log-wrong-place", fmt("the log has %s at another key or table than it was written to", vn(id).c_str()));
        if (!w->second.ok || !w->second.final || t->o == ABORTED || t->o == OPEN)
            v("P19", "log-uncommitted", fmt("the log received %s of %s, which was not committed", vn(id).c_str(), t->name().c_str()));
        const Rec* wr = nullptr;
        for (auto* r : t->recs)
            if (r->kind == R_OP && r->val == id && r->opkind >= O_INSERT && r->opkind <= O_UPSERT) wr = r;
        if (wr) {
            bool okb = e.nblob == wr->aux;
            for (int b = 0; okb && b < e.nblob && b < 4; ++b) okb = e.blob[b] == static_cast<uint64_t>(id) * 4 + static_cast<uint64_t>(b);
            if (!okb) v("P19", "log-blobs", fmt("the log has %d references for %s, %d were given", e.nblob, vn(id).c_str(), wr->aux));
        }
    }
    for (auto&& e : by_val)
        if (e.second.size() > 1) v("P19", "log-duplicate", fmt("the log received %s %zu times", vn(e.first).c_str(), e.second.size()));
    // a transaction with many writes is one unit as well
    if (p.npad > 0) {
        std::map<uint32_t, std::pair<uint64_t, int>> unit;
        for (uint32_t i = 0; i < sh.disk.n; ++i) {
            const auto& e = sh.disk.e[i];
            if (e.type != stubctl::L_ADD || e.klen < 4 || memcmp(sh.disk.data + e.koff, "pad-", 4) != 0) continue;
            uint32_t id = value_parse(std::string(sh.disk.data + e.voff, e.vlen));
            auto f = unit.emplace(id, std::make_pair(e.session, 0)).first;
            ++f->second.second;
            if (f->second.first != e.session) v("P19", "log-split", fmt("the many writes %s are spread over several log sessions", vn(id).c_str()));
            if (e.ended && f->second.second > p.npad) v("P19", "log-duplicate", fmt("the log received the %d writes %s more than once", p.npad, vn(id).c_str()));
        }
    }
    // completeness, where the incarnation got to flush its log
    for (auto&& tp : all) {
        TxI& t = *tp;
        if (t.o != COMMITTED) continue;
        auto ph = phases.find(t.inc);
        if (ph == phases.end() || !ph->second.count(PH_QUIET)) continue;
        // a crash or a forced end may come before a buffered log is flushed
        bool orderly = !crashed.count(t.inc) && p.inc[static_cast<std::size_t>(t.inc)].end == IE_FIN_FLUSH;
        if (!orderly && !(t.has_marker && t.marker <= announced[t.inc])) continue;
        for (auto&& e : t.eff) {
            if (e.second == 0) continue;
            if (by_val.count(e.second)) continue;
            // a long transaction may find its write already superseded when it commits
            bool superseded = false;
            if (t.mode == M_LTX)
                for (auto&& up : all) {
                    TxI& u = *up;
                    if (&u == &t || u.inc != t.inc || u.o == ABORTED || u.commit_inv == 0 || u.commit_inv >= t.end || u.end <= earliest(t)) continue;
                    for (auto&& f : u.eff) superseded |= f.first == e.first;
                    for (int f : u.soft) superseded |= f == e.first;
                }
            if (!superseded) v("P19", "log-missing", fmt("%s committed %s at %s but the log never received it", t.name().c_str(), vn(e.second).c_str(), kn(e.first).c_str()));
        }
        // one unit
        uint64_t sess = UINT64_MAX;
        for (auto&& e : t.eff) {
            auto f = by_val.find(e.second);
            if (e.second == 0 || f == by_val.end()) continue;
            for (auto* x : f->second) {
                if (sess == UINT64_MAX) sess = x->session;
                if (sess != x->session) v("P19", "log-split", fmt("the writes of %s are spread over several log sessions", t.name().c_str()));
            }
        }
        // durability marker not below what the log says
        if (t.has_marker)
            for (auto&& e : t.eff) {
                auto f = by_val.find(e.second);
                if (e.second == 0 || f == by_val.end()) continue;
                for (auto* x : f->second)
                    if (x->epoch > t.marker)
                        v("P08", "marker-too-small", fmt("%s got durability marker %llu but its log belongs to epoch %llu", t.name().c_str(), (unsigned long long)t.marker, (unsigned long long)x->epoch));
            }
    }
}

// ---- tables: each client works on tables of its own, so the expected answers are exact
struct Table {
    int slot{-1};
    uint64_t id{UINT64_MAX};
    uint32_t payload{0};
    std::map<int, uint32_t> rec;
    bool operator==(const Table& o) const { return slot == o.slot && id == o.id && payload == o.payload && rec == o.rec; }
};
struct Catalog {
    std::map<uint64_t, Table> t; // by handle
    uint64_t held[4]{NO_HANDLE, NO_HANDLE, NO_HANDLE, NO_HANDLE};
    uint64_t by_slot(int s) const {
        for (auto&& e : t)
            if (e.second.slot == s) return e.first;
        return 0;
    }
    std::string str() const {
        std::string o;
        for (auto&& e : t) {
            o += fmt("[%d: handle %llx id %lld payload %u", e.second.slot, (unsigned long long)e.first, (long long)e.second.id, e.second.payload);
            for (auto&& r : e.second.rec) o += fmt(" %d=%u", r.first, r.second);
            o += "]";
        }
        return o.empty() ? "no tables" : o;
    }
};

void Eval::tables() {
    if (p.ddl_tables == 0) return;
    const Hist& h = sh.h;
    struct Live { uint64_t handle, a, b; int client, slot; };
    std::map<int, std::vector<Live>> handles; // by incarnation
    for (int c = 0; c < 10; ++c) {
        Catalog now;
        std::vector<Catalog> cand; // what the next restart may find, the latest last
        for (int inc = 0; inc < static_cast<int>(ends.size()); ++inc) {
            std::vector<const Rec*> rs, start;
            for (uint32_t i = 0; i < h.n; ++i) {
                const Rec& r = h.r[i];
                if (r.kind != R_DDL || r.inc != inc || r.client != c) continue;
                if (r.tx == TX_AUDIT_START) start.push_back(&r);
                else rs.push_back(&r);
            }
            if (inc > 0) {
                if (!phases[inc].count(PH_START_AUDIT_DONE)) continue; // not looked at: the log did not change
                Catalog got;
                bool bad = false;
                int slot = -1;
                for (const Rec* r : start) {
                    if (r->opkind == O_ST_GET) {
                        slot = r->st;
                        got.held[slot] = r->status == 0 ? r->x : NO_HANDLE;
                        if (r->status == 0) {
                            if (got.t.count(r->x)) {
                                v("P11", "handle-shared", fmt("after the restart two tables of client %d have handle %llx", c, (unsigned long long)r->x));
                                bad = true;
                            }
                            got.t[r->x].slot = slot;
                        }
                        continue;
                    }
                    if (r->opkind == O_ST_LIST) {
                        uint32_t want = 0;
                        for (auto&& e : got.t) want |= 1U << e.second.slot;
                        if (r->status != 0 || (r->val & 15U) != want || r->aux != 0)
                            v("P11", "list-wrong", fmt("after the restart the list of tables has %x of client %d, %x exist (flags %d)", r->val & 15U, c, want, r->aux));
                        continue;
                    }
                    if (slot < 0 || got.held[slot] == NO_HANDLE) continue;
                    Table& t = got.t[got.held[slot]];
                    if (r->opkind == O_ST_GETOPT) {
                        t.id = r->x;
                        t.payload = r->val;
                        if (r->status != 0) {
                            v("P11", "options-lost", fmt("after the restart the options of table %d of client %d return %s", slot, c, sn(r->status).c_str()));
                            bad = true;
                        }
                    } else if (r->opkind == O_SEARCH) {
                        if (r->status == 0) t.rec[r->key] = r->val;
                    }
                }
                if (bad) break;
                // does it match one of the states the client went through?
                bool ok = false;
                for (std::size_t i = cand.size(); i-- > 0 && !ok;) {
                    Catalog q = cand[i];
                    auto z = q.t.find(0); // its handle was never told
                    if (z != q.t.end() && got.by_slot(z->second.slot) != 0) {
                        Table tb = z->second;
                        q.t.erase(z);
                        q.t[got.by_slot(tb.slot)] = tb;
                    }
                    ok = q.t == got.t;
                }
                if (!ok) {
                    std::string m;
                    for (auto&& q : cand) m += q.str() + " or ";
                    v("P11", "tables-not-recovered", fmt("restart into incarnation %d, client %d: found ", inc, c) + got.str() + ", expected " + m.substr(0, 700));
                    break;
                }
                now = got;
                for (auto&& e : now.t) handles[inc].push_back({e.first, 0, UINT64_MAX, c, e.second.slot});
            }
            cand.clear();
            cand.push_back(now);
            std::size_t durable = 0; // cand[0..durable) are out of the question
            for (const Rec* r : rs) {
                bool fly = r->ret == UINT64_MAX;
                auto res = [&](int want, const char* what) {
                    if (fly || r->status == want) return;
                    v("P11", "answer", fmt("incarnation %d client %d tx %d op %d: %s of table %d returned %s, expected %s (%s); tables: ", inc, c, r->tx, r->op, op_name(r->opkind), r->st, sn(r->status).c_str(), sn(want).c_str(), what) + now.str());
                };
                uint64_t held = now.held[r->st & 3];
                auto it = now.t.find(held);
                bool there = it != now.t.end();
                Catalog next = now;
                bool changes = false;
                switch (r->opkind) {
                    case O_ST_CREATE: {
                        uint64_t id = r->aux ? 100 + static_cast<uint64_t>(c) * 16 + (r->aux - 1U) : UINT64_MAX;
                        bool exists = now.by_slot(r->st) != 0 || (r->aux && now.t.count(id));
                        res(exists ? SI(Status::WARN_ALREADY_EXISTS) : 0, exists ? "the name or id is in use" : "neither name nor id is in use");
                        if (!exists) {
                            uint64_t hd = fly ? (r->aux ? id : 0) : r->x;
                            if (!fly && r->status != 0) break;
                            next.t[hd].slot = r->st;
                            next.t[hd].id = id;
                            next.t[hd].payload = r->val;
                            next.held[r->st & 3] = hd;
                            changes = true;
                            if (!fly) handles[inc].push_back({hd, r->inv, UINT64_MAX, c, r->st});
                        }
                        break;
                    }
                    case O_ST_DELETE:
                        res(there ? 0 : SI(Status::WARN_INVALID_HANDLE), there ? "it exists" : "there is no such table");
                        if (there && (fly || r->status == 0)) {
                            next.t.erase(held);
                            changes = true;
                            for (auto&& l : handles[inc])
                                if (l.handle == held && l.client == c && l.b == UINT64_MAX) l.b = r->ret;
                        }
                        break;
                    case O_ST_GET: {
                        uint64_t hd = now.by_slot(r->st);
                        res(hd != 0 ? 0 : SI(Status::WARN_NOT_FOUND), hd != 0 ? "it exists" : "there is no such table");
                        if (!fly && hd != 0 && r->status == 0 && r->x != hd)
                            v("P11", "wrong-handle", fmt("incarnation %d client %d: name %d led to handle %llx, it was created as %llx", inc, c, r->st, (unsigned long long)r->x, (unsigned long long)hd));
                        break;
                    }
                    case O_ST_LIST: {
                        if (fly) break;
                        res(0, "");
                        uint32_t want = ((1U << p.nst) - 1) << 4;
                        for (auto&& e : now.t) want |= 1U << e.second.slot;
                        if (r->val != want || r->aux != 0)
                            v("P11", "list-wrong", fmt("incarnation %d client %d: the list of tables has %x, %x exist (flags %d)", inc, c, r->val, want, r->aux));
                        break;
                    }
                    case O_ST_SETOPT:
                        res(there ? 0 : SI(Status::WARN_NOT_FOUND), there ? "it exists" : "there is no such table");
                        if (there && (fly || r->status == 0)) {
                            next.t[held].id = r->x;
                            next.t[held].payload = r->val;
                            changes = true;
                        }
                        break;
                    case O_ST_GETOPT:
                        res(there ? 0 : SI(Status::WARN_NOT_FOUND), there ? "it exists" : "there is no such table");
                        if (!fly && there && r->status == 0 && (r->val != it->second.payload || r->x != it->second.id))
                            v("P11", "wrong-options", fmt("incarnation %d client %d: options of table %d are id %lld payload %u, expected id %lld payload %u", inc, c, r->st, (long long)r->x, r->val, (long long)it->second.id, it->second.payload));
                        break;
                    default: {
                        // data access
                        if (!fly && is_err(r->status)) {
                            if (r->status != SI(Status::ERR_CC)) res(0, "data access");
                            break; // no effect
                        }
                        if (!there) {
                            res(SI(Status::WARN_STORAGE_NOT_FOUND), "there is no such table");
                            break;
                        }
                        bool com = r->aux == 2;
                        if (!fly && r->aux == 3) break; // not validated
                        auto& rec = it->second.rec;
                        bool has = rec.count(r->key) != 0;
                        uint32_t mask = 0;
                        for (auto&& e : rec) mask |= 1U << e.first;
                        switch (r->opkind) {
                            case O_SEARCH:
                                res(has ? 0 : SI(Status::WARN_NOT_FOUND), "contents");
                                if (!fly && has && r->status == 0 && r->val != rec[r->key])
                                    v("P11", "wrong-contents", fmt("incarnation %d client %d: table %d key%d holds %s, expected %s", inc, c, r->st, r->key, vn(r->val).c_str(), vn(rec[r->key]).c_str()));
                                break;
                            case O_SCAN:
                                res(rec.empty() ? SI(Status::WARN_NOT_FOUND) : 0, "contents");
                                if (!fly && r->status == 0 && r->val != mask)
                                    v("P11", "wrong-contents", fmt("incarnation %d client %d: table %d has keys %x, expected %x", inc, c, r->st, r->val, mask));
                                break;
                            case O_INSERT: res(has ? SI(Status::WARN_ALREADY_EXISTS) : 0, "contents"); changes = !has; break;
                            case O_UPDATE: res(has ? 0 : SI(Status::WARN_NOT_FOUND), "contents"); changes = has; break;
                            case O_UPSERT: res(0, "contents"); changes = true; break;
                            case O_DELETE: res(has ? 0 : SI(Status::WARN_NOT_FOUND), "contents"); changes = has; break;
                            default: break;
                        }
                        if (changes) {
                            if (r->opkind == O_DELETE) next.t[held].rec.erase(r->key);
                            else next.t[held].rec[r->key] = r->val;
                        }
                        if (!fly && com && r->x <= announced[inc] && r->x != 0) durable = changes ? cand.size() : cand.size() - 1;
                        break;
                    }
                }
                ++st.ddl_ops;
                if (changes) cand.push_back(next);
                if (changes && !fly) now = next;
            }
            bool orderly = !crashed.count(inc) && p.inc[static_cast<std::size_t>(inc)].end == IE_FIN_FLUSH;
            if (orderly) cand.erase(cand.begin(), cand.end() - 1);
            else cand.erase(cand.begin(), cand.begin() + static_cast<std::ptrdiff_t>(durable));
        }
    }
    for (auto&& e : handles)
        for (std::size_t i = 0; i < e.second.size(); ++i)
            for (std::size_t j = i + 1; j < e.second.size(); ++j) {
                auto& a = e.second[i];
                auto& b = e.second[j];
                if (a.handle == b.handle && a.a < b.b && b.a < a.b && a.client != b.client)
                    v("P11", "handle-shared", fmt("incarnation %d: clients %d and %d have tables with the same handle %llx", e.first, a.client, b.client, (unsigned long long)a.handle));
            }
}

// ---- sequences
void Eval::sequences() {
    if (p.nseq == 0) return;
    const Hist& h = sh.h;
    struct Upd { TxI* t; uint64_t ver; uint32_t val; bool final; };
    struct Life {
        uint64_t id;
        int slot, inc;
        uint64_t born{UINT64_MAX}, dead{UINT64_MAX}, dead_inv{UINT64_MAX}; // stamps of return and of the call to delete
        int dead_inc{-1};
        std::vector<const Rec*> reads;
        std::map<uint64_t, Upd> upd;
        uint64_t floor{0};   // version a restart must at least find
        bool sure{false};    // known to be durable
    };
    std::vector<Life> lives;
    std::map<int, int> cur; // slot -> index of its latest life
    // updates of transactions
    std::map<const TxI*, std::map<int, uint64_t>> mine;
    auto last_marker = [&](int inc, uint64_t before) { // largest durability announced before a moment
        uint64_t m = 0;
        for (uint32_t i = 0; i < h.n; ++i)
            if (h.r[i].kind == R_DUR && h.r[i].inc == inc && h.r[i].ret < before) m = std::max(m, h.r[i].x);
        return m;
    };
    // a change made before `when` is durable if a transaction that began later is
    auto sure_durable = [&](int inc, uint64_t when) {
        bool orderly = !crashed.count(inc) && p.inc[static_cast<std::size_t>(inc)].end == IE_FIN_FLUSH;
        if (orderly) return true;
        for (auto&& t : all)
            if (t->inc == inc && t->begin_inv > when && t->o == COMMITTED && t->has_marker && t->marker <= announced[inc] && !t->eff.empty()) return true;
        return false;
    };
    int ninc = static_cast<int>(ends.size());
    for (int inc = 0; inc < ninc; ++inc) {
        bool audited = inc == 0 || phases[inc].count(PH_START_AUDIT_DONE) != 0;
        if (!audited) continue;
        std::vector<const Rec*> order; // what a read may have seen comes before it
        for (uint32_t i = 0; i < h.n; ++i)
            if (h.r[i].kind == R_SEQ && h.r[i].inc == inc) order.push_back(&h.r[i]);
        std::stable_sort(order.begin(), order.end(), [](const Rec* a, const Rec* b) {
            auto at = [](const Rec* r) { return r->opkind == O_SEQ_READ || r->opkind == O_SEQ_CREATE ? r->ret : r->inv; };
            return at(a) < at(b);
        });
        for (const Rec* rp : order) {
            const Rec& r = *rp;
            int slot = r.key;
            bool fly = r.ret == UINT64_MAX;
            if (r.opkind == O_SEQ_CREATE) {
                if (fly) continue;
                for (auto&& l : lives)
                    if (l.id == r.x && (l.dead_inc < 0 || l.dead_inc == inc)) {
                        bool gone = l.inc < inc && !l.sure; // its creation did not survive
                        if (!gone) v("P12", "sequence-id-reused", fmt("incarnation %d: new sequence got id %llu, which is in use", inc, (unsigned long long)r.x));
                    }
                Life l;
                l.id = r.x;
                l.slot = slot;
                l.inc = inc;
                l.born = r.ret;
                cur[slot] = static_cast<int>(lives.size());
                lives.push_back(l);
                continue;
            }
            if (!cur.count(slot)) continue;
            Life& l = lives[static_cast<std::size_t>(cur[slot])];
            if (r.opkind == O_SEQ_DELETE) {
                bool dead = l.dead_inc >= 0;
                if (!fly && r.status != (dead ? SI(Status::WARN_NOT_FOUND) : 0))
                    v("P12", "sequence-delete", fmt("incarnation %d: deleting sequence %llu, which %s, returned %s", inc, (unsigned long long)l.id, dead ? "is deleted" : "exists", sn(r.status).c_str()));
                if (!dead) {
                    l.dead_inc = inc;
                    l.dead_inv = r.inv;
                    l.dead = r.ret;
                }
                continue;
            }
            if (r.opkind == O_SEQ_UPDATE) {
                auto ti = idx.find(std::make_tuple<int, int, int>(r.inc, r.client, r.tx));
                if (ti == idx.end()) continue;
                TxI* t = ti->second;
                uint64_t& m = mine[t][slot];
                int want = r.x <= m ? SI(Status::WARN_ALREADY_EXISTS) : 0;
                if (r.status != want && r.status != SI(Status::WARN_NOT_BEGIN))
                    v("P12", "sequence-update-status", fmt("%s update_sequence with version %llu after %llu returned %s", t->name().c_str(), (unsigned long long)r.x, (unsigned long long)m, sn(r.status).c_str()));
                if (r.status != 0) {
                    l.upd[r.x] = {t, r.x, r.val, false};
                    continue;
                }
                if (m != 0) l.upd[m].final = false;
                m = r.x;
                l.upd[r.x] = {t, r.x, r.val, true};
                continue;
            }
            if (r.opkind != O_SEQ_READ || fly) continue;
            // after a restart: what must have survived
            bool start = r.tx == TX_AUDIT_START;
            l.reads.push_back(&r);
            bool dead_before = l.dead_inc >= 0 && (l.dead_inc < inc || l.dead < r.inv);
            bool dead_maybe = l.dead_inc >= 0 && (l.dead_inc < inc || l.dead_inv < r.ret);
            ++st.seq_reads;
            if (r.status == SI(Status::WARN_NOT_FOUND)) {
                if (dead_maybe) continue;
                if (l.inc < inc && !l.sure) {
                    // its creation was lost
                    l.dead_inc = inc;
                    l.dead = l.dead_inv = 0;
                    continue;
                }
                v("P12", "sequence-lost", fmt("incarnation %d: sequence %llu, created in incarnation %d, is not found", inc, (unsigned long long)l.id, l.inc));
                l.dead_inc = inc;
                continue;
            }
            if (r.status != 0) {
                v("P12", "sequence-read-status", fmt("incarnation %d: read_sequence returned %s", inc, sn(r.status).c_str()));
                continue;
            }
            if (start && l.dead_inc >= 0 && l.dead_inc < inc) {
                if (sure_durable(l.dead_inc, l.dead) && l.dead != UINT64_MAX)
                    v("P12", "sequence-not-deleted", fmt("incarnation %d: sequence %llu is found although its deletion was durable", inc, (unsigned long long)l.id));
                l.dead_inc = -1; // the deletion did not survive
                l.dead = l.dead_inv = UINT64_MAX;
            } else if (dead_before) {
                v("P12", "sequence-not-deleted", fmt("incarnation %d: sequence %llu is found although it was deleted", inc, (unsigned long long)l.id));
                continue;
            }
            if (start) l.sure = true;
            uint64_t floor = l.floor;
            if (r.x == 0) {
                if (r.val != 0) v("P12", "sequence-value", fmt("sequence %llu has a value at version 0", (unsigned long long)l.id));
            } else {
                auto u = l.upd.find(r.x);
                if (u == l.upd.end()) {
                    v("P12", "sequence-from-nowhere", fmt("incarnation %d: sequence %llu has version %llu, which was never written", inc, (unsigned long long)l.id, (unsigned long long)r.x));
                    continue;
                }
                Upd& q = u->second;
                if (q.val != r.val) v("P12", "sequence-value", fmt("incarnation %d: sequence %llu version %llu holds %s, written was %s", inc, (unsigned long long)l.id, (unsigned long long)r.x, vn(r.val).c_str(), vn(q.val).c_str()));
                if (!q.final) v("P12", "sequence-refused-visible", fmt("incarnation %d: sequence %llu has version %llu, refused or replaced by %s", inc, (unsigned long long)l.id, (unsigned long long)r.x, q.t->name().c_str()));
                if (q.t->o == ABORTED || q.t->o == OPEN) v("P12", "sequence-uncommitted", fmt("incarnation %d: sequence %llu has version %llu of %s, which did not commit", inc, (unsigned long long)l.id, (unsigned long long)r.x, q.t->name().c_str()));
                else if (q.t->inc == inc && q.t->commit_inv > r.ret) v("P12", "sequence-uncommitted", fmt("sequence %llu has version %llu before %s asked to commit", (unsigned long long)l.id, (unsigned long long)r.x, q.t->name().c_str()));
            }
            // lower bounds
            uint64_t dur = last_marker(inc, r.inv);
            for (auto&& u : l.upd) {
                Upd& q = u.second;
                if (!q.final || q.t->o != COMMITTED) continue;
                if (q.t->inc == inc && q.t->has_marker && q.t->marker <= dur && q.t->end < r.inv) floor = std::max(floor, q.ver);
            }
            for (auto* o : l.reads)
                if (o->inc == inc && o->ret < r.inv && o->status == 0 && o->x > floor && (o->tx != TX_AUDIT_START || true)) floor = o->x;
            if (r.x < floor)
                v("P12", start ? "sequence-not-recovered" : "sequence-went-back", fmt("incarnation %d: sequence %llu has version %llu, at least %llu was expected", inc, (unsigned long long)l.id, (unsigned long long)r.x, (unsigned long long)floor));
            if (start) l.floor = std::max(l.floor, r.x);
        }
        // what survives this incarnation for sure
        for (auto&& l : lives) {
            if (l.inc == inc && sure_durable(inc, l.born)) l.sure = true;
            bool orderly = !crashed.count(inc) && p.inc[static_cast<std::size_t>(inc)].end == IE_FIN_FLUSH;
            for (auto&& u : l.upd) {
                Upd& q = u.second;
                if (q.t->inc != inc || !q.final || q.t->o != COMMITTED) continue;
                if (orderly || (q.t->has_marker && q.t->marker <= announced[inc])) {
                    l.floor = std::max(l.floor, q.ver);
                    if (l.inc == inc) l.sure = true;
                }
            }
        }
    }
}

void Eval::run() {
    collect();
    programs();
    provenance();
    existence();
    discipline();
    commits();
    states();
    sessions();
    memory();
    log_content();
    tables();
    sequences();
    serial();
}

} // namespace

std::vector<Violation> evaluate(const Plan& p, const Shared& sh, const std::vector<IncResult>& ends, EvalStats& st) {
    if (!p.part.empty()) return {};
    Eval e(p, sh, ends, st);
    e.run();
    return e.out;
}

std::string dump_history(const Plan& p, const Shared& sh) {
    std::string o;
    static const char* kinds[] = {"?", "begin", "op", "row", "commit", "answer", "abort", "leave", "enter", "state", "durable", "phase", "seq", "ddl", "mem", "resinfo", "txid", "hipri"};
    for (uint32_t i = 0; i < sh.h.n; ++i) {
        const Rec& r = sh.h.r[i];
        uint32_t y = r.val - 1;
        std::string val = r.val == 0 ? "-" : r.val == VAL_BAD ? "BAD" : fmt("i%u.c%u.t%u.o%u", (y >> 21) & 7, (y >> 17) & 15, (y >> 7) & 1023, y & 127);
        o += fmt("%5llu-%-5lld i%d c%-2d t%-3d %-7s %-8s o%-2d st%d k%-3d %-30s val=%s aux=%d x=%llu\n", (unsigned long long)r.inv, (long long)r.ret, r.inc, r.client, r.tx,
                 kinds[r.kind], r.kind == R_OP || r.kind == R_ROW || r.kind == R_DDL || r.kind == R_SEQ ? op_name(r.opkind) : "", r.op, r.st, r.key, sn(r.status).c_str(), val.c_str(), r.aux, (unsigned long long)r.x);
    }
    (void)p;
    return o;
}

} // namespace work
