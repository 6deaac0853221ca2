#include "plan.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>

namespace work {

const char* op_name(int k) {
    static const char* n[] = {"search", "exist", "insert", "update", "upsert", "delete", "scan",
                              "sleep", "seq_update", "seq_read", "seq_create", "seq_delete",
                              "st_create", "st_delete", "st_get", "st_list", "st_setopt",
                              "st_getopt", "begin_again", "hipri", "txid", "badhandle", "state",
                              "open_leak", "unknown_st", "badkey", "pad"};
    return k >= 0 && k < O_NKIND ? n[k] : "?";
}

std::string value_string(uint32_t id, uint16_t vlen) {
    char b[32];
    snprintf(b, sizeof(b), "V%07x%03x", id, vlen);
    std::string s(b);
    for (unsigned i = 0; i < vlen; ++i) s += static_cast<char>(sim::mix(id, i) & 0xff);
    return s;
}

uint32_t value_parse(const std::string& s) {
    if (s.size() < 11 || s[0] != 'V') return 0;
    char b[8];
    memcpy(b, s.data() + 1, 7);
    b[7] = 0;
    char* e = nullptr;
    auto id = static_cast<uint32_t>(strtoul(b, &e, 16));
    if (*e != 0) return 0;
    char c[4];
    memcpy(c, s.data() + 8, 3);
    c[3] = 0;
    auto vl = static_cast<uint16_t>(strtoul(c, &e, 16));
    if (*e != 0) return 0;
    return value_string(id, vl) == s ? id : 0;
}

namespace {

struct Gen {
    int cl_min{2}, cl_max{4};
    int tx_min{2}, tx_max{6};
    int op_min{1}, op_max{4};
    int total_tx{34};
    int st_min{1}, st_max{2};
    int key_min{2}, key_max{5};
    int w_stx{6}, w_ltx{2}, w_rtx{2}, w_ddl{0};
    int w_search{8}, w_exist{1}, w_insert{3}, w_update{3}, w_upsert{5}, w_delete{3}, w_scan{3};
    int w_misc{0}, w_seq{0};
    int end_commit{20}, end_abort{2}, end_leave{1}, end_sync{6}, end_commit_leave{0};
    int inc_min{1}, inc_max{1};
    int ie_flush{1}, ie_force{0}, ie_crash{0};
    int ra_pct{15};        // long transactions with a declared read area
    int wp_all_pct{40};    // reserve every table
    int wp_miss_pct{8};    // write outside the reservation
    int iscan_pct{40};
    int bypass_pct{25};
    int logbuf_pct{25};
    int stall_pct{20}, late_pct{20}, slow_pct{25};
    int new_session_pct{10};
    int state_pct{10};
    int monitor_pct{0};
    int strand_pct{0};
    bool ltx_blind{false}; // long transactions write without asking whether the key exists
    int rtx_reverse_pct{25};
    int blob_pct{15};
    int par_restore_pct{50};
    int nseq{0};
    int ddl_tables{0};
    int settle{6};
    int fast_shutdown_pct{20};
    int pace_pct{40};
    bool gc_rounds{false};
    int rounds_tx{0};
    int pad_pct{0};        // short transactions with many writes
    int nest_pct{25};      // scans interleaved with other reads
    int scan_first_pct{0}; // transactions that look at everything before they write
    int ra_overlap_pct{0}; // tables both in the positive and in the negative list
};

int pick(sim::Rng& r, std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int v = static_cast<int>(r.below(static_cast<uint64_t>(t)));
    int i = 0;
    for (int x : w) {
        if (v < x) return i;
        v -= x;
        ++i;
    }
    return 0;
}

const std::map<std::string, std::function<void(Gen&)>>& table() {
    static const std::map<std::string, std::function<void(Gen&)>> t = {
            {"mix", [](Gen&) {}},
            {"occ", [](Gen& g) { g.w_ltx = 0; g.w_rtx = 1; g.cl_max = 5; g.tx_max = 8; g.key_max = 4; }},
            {"occtiny", [](Gen& g) { g.w_ltx = 0; g.w_rtx = 0; g.cl_min = 2; g.cl_max = 3; g.tx_max = 6; g.key_min = 1; g.key_max = 3; g.st_max = 1; g.op_max = 5; }},
            {"ltx", [](Gen& g) { g.w_stx = 3; g.w_ltx = 6; g.w_rtx = 1; g.st_max = 3; g.total_tx = 26; g.tx_max = 5; }},
            {"ltxup", [](Gen& g) { g.w_stx = 3; g.w_ltx = 6; g.w_rtx = 1; g.st_max = 3; g.total_tx = 26; g.tx_max = 5; g.ltx_blind = true; g.w_delete = 6; }},
            {"rtx", [](Gen& g) { g.w_stx = 6; g.w_ltx = 2; g.w_rtx = 6; g.op_max = 6; g.rtx_reverse_pct = 40; }},
            {"scan", [](Gen& g) { g.w_scan = 14; g.w_search = 3; g.w_insert = 6; g.w_delete = 6; g.key_min = 4; g.key_max = 10; g.iscan_pct = 50; g.st_max = 1; g.op_max = 5; }},
            {"phantom", [](Gen& g) { g.w_ltx = 0; g.w_rtx = 0; g.cl_min = 2; g.cl_max = 4; g.tx_max = 5; g.w_scan = 10; g.w_search = 1; g.w_exist = 0; g.w_update = 1; g.w_insert = 10; g.w_upsert = 8; g.w_delete = 3; g.key_min = 6; g.key_max = 13; g.st_max = 1; g.op_min = 1; g.op_max = 3; g.scan_first_pct = 85; g.end_abort = 1; }},
            {"abort", [](Gen& g) { g.end_commit = 6; g.end_abort = 8; g.end_leave = 4; g.w_insert = 6; g.w_upsert = 5; g.w_delete = 5; g.new_session_pct = 30; }},
            {"own", [](Gen& g) { g.cl_min = 1; g.cl_max = 2; g.key_min = 1; g.key_max = 3; g.op_min = 4; g.op_max = 12; g.st_max = 2; g.tx_max = 8; g.w_misc = 2; g.total_tx = 20; g.w_insert = 6; g.w_delete = 6; g.w_update = 5; }},
            {"commit", [](Gen& g) { g.w_stx = 2; g.w_ltx = 8; g.w_rtx = 1; g.total_tx = 28; g.st_max = 2; g.end_abort = 3; g.end_leave = 2; g.end_commit_leave = 3; g.bypass_pct = 40; g.state_pct = 30; }},
            {"crash", [](Gen& g) { g.inc_min = 2; g.inc_max = 4; g.ie_flush = 1; g.ie_force = 1; g.ie_crash = 8; g.tx_max = 5; g.total_tx = 20; g.slow_pct = 50; g.logbuf_pct = 40; g.w_rtx = 1; g.state_pct = 20; }},
            {"crashocc", [](Gen& g) { g.inc_min = 2; g.inc_max = 5; g.ie_flush = 1; g.ie_force = 1; g.ie_crash = 10; g.tx_max = 8; g.total_tx = 26; g.slow_pct = 50; g.logbuf_pct = 50; g.w_rtx = 0; g.w_ltx = 0; g.key_max = 4; g.state_pct = 20; }},
            {"restart", [](Gen& g) { g.inc_min = 2; g.inc_max = 5; g.ie_flush = 8; g.ie_force = 2; g.ie_crash = 1; g.tx_max = 5; g.total_tx = 16; g.key_max = 8; g.w_delete = 5; g.logbuf_pct = 40; }},
            {"ddl", [](Gen& g) { g.w_ddl = 6; g.w_stx = 4; g.w_ltx = 1; g.w_rtx = 1; g.ddl_tables = 4; g.inc_min = 1; g.inc_max = 4; g.ie_flush = 5; g.ie_force = 2; g.ie_crash = 4; g.tx_max = 6; g.total_tx = 24; }},
            {"seq", [](Gen& g) { g.w_seq = 14; g.nseq = 3; g.inc_min = 1; g.inc_max = 4; g.ie_flush = 4; g.ie_force = 2; g.ie_crash = 5; g.w_ddl = 2; g.end_abort = 6; g.tx_max = 6; g.total_tx = 24; g.logbuf_pct = 40; g.state_pct = 20; }},
            {"solo", [](Gen& g) { g.w_stx = 8; g.w_ltx = 2; g.w_rtx = 1; g.ra_pct = 10; g.wp_miss_pct = 0; g.tx_max = 8; g.end_abort = 1; g.end_leave = 0; }},
            {"wp", [](Gen& g) { g.ra_overlap_pct = 30; g.w_stx = 6; g.w_ltx = 5; g.w_rtx = 1; g.ra_pct = 50; g.wp_miss_pct = 25; g.st_min = 2; g.st_max = 4; g.wp_all_pct = 10; g.end_abort = 5; g.end_leave = 3; g.pace_pct = 70; g.state_pct = 60; }},
            {"progress", [](Gen& g) { g.stall_pct = 70; g.late_pct = 60; g.slow_pct = 60; g.w_ltx = 4; g.end_abort = 3; g.end_leave = 2; g.bypass_pct = 40; g.new_session_pct = 30; }},
            {"gc", [](Gen& g) { g.w_delete = 8; g.w_insert = 8; g.w_upsert = 8; g.w_scan = 5; g.settle = 20; g.key_min = 1; g.key_max = 4; g.st_max = 1; g.op_max = 5; g.tx_max = 8; g.w_rtx = 3; }},
            {"gcround", [](Gen& g) { g.gc_rounds = true; g.cl_min = 2; g.cl_max = 3; g.key_min = 2; g.key_max = 6; g.settle = 40; g.w_ltx = 1; g.w_rtx = 1; g.rounds_tx = 12; g.stall_pct = 0; g.late_pct = 0; g.slow_pct = 0; g.wp_miss_pct = 0; }},
            {"state", [](Gen& g) { g.state_pct = 100; g.monitor_pct = 100; g.w_stx = 4; g.w_ltx = 5; g.w_rtx = 3; g.end_abort = 5; g.end_leave = 2; g.w_misc = 8; g.pace_pct = 60; }},
            {"session", [](Gen& g) { g.new_session_pct = 80; g.cl_min = 4; g.cl_max = 10; g.tx_min = 1; g.tx_max = 4; g.op_max = 3; g.end_leave = 6; g.end_abort = 4; g.w_misc = 6; g.total_tx = 30; }},
            {"log", [](Gen& g) { g.blob_pct = 60; g.logbuf_pct = 50; g.w_upsert = 8; g.w_rtx = 1; g.w_ltx = 4; g.key_max = 3; g.inc_max = 2; g.slow_pct = 40; }},
            {"durable", [](Gen& g) { g.logbuf_pct = 50; g.slow_pct = 50; g.state_pct = 40; g.tx_max = 4; g.w_rtx = 1; }},
            {"bulk", [](Gen& g) { g.pad_pct = 45; g.w_ltx = 1; g.w_rtx = 1; g.tx_max = 4; g.total_tx = 12; g.op_max = 5; g.inc_max = 3; g.ie_flush = 4; g.ie_force = 1; g.ie_crash = 6; g.key_max = 4; g.end_abort = 4; g.stall_pct = 10; }},
            {"strand", [](Gen& g) { g.strand_pct = 60; g.op_min = 3; g.op_max = 8; g.cl_max = 3; g.tx_max = 4; g.key_min = 3; g.key_max = 6; g.end_leave = 0; }},
    };
    return t;
}

std::vector<std::string> make_keys(sim::Rng& r, int n) {
    std::set<std::string> s;
    int style = static_cast<int>(r.below(6));
    if (r.chance(15, 100)) s.insert("");
    while (static_cast<int>(s.size()) < n) {
        std::string k;
        switch (style) {
            case 0: k = std::string(1, static_cast<char>('a' + r.below(26))); break;
            case 1: for (uint64_t i = r.below(4); i > 0; --i) k += static_cast<char>('a' + r.below(2)); break;
            case 2: k = "12345678"; for (uint64_t i = r.below(12); i > 0; --i) k += static_cast<char>('0' + r.below(3)); break;
            case 3: { static const char c[] = {'\0', '\1', '\xff', 'a'}; for (uint64_t i = r.range(1, 4); i > 0; --i) k += c[r.below(4)]; break; }
            case 4: k = std::string(200 + r.below(3), 'p'); k += static_cast<char>('a' + r.below(20)); break;
            default: for (uint64_t i = r.range(1, 40); i > 0; --i) k += static_cast<char>(r.below(256)); break;
        }
        s.insert(k);
    }
    return {s.begin(), s.end()};
}

Op make_op(sim::Rng& r, const Gen& g, const Plan& p, uint8_t mode, uint8_t wp) {
    Op o;
    int nst = p.nst;
    o.st = static_cast<uint8_t>(r.below(nst));
    o.key = static_cast<uint8_t>(r.below(p.nkey));
    int w_scan = g.w_scan;
    int k;
    if (mode == M_RTX) {
        k = pick(r, {g.w_search, g.w_exist, g.w_misc > 0 ? 1 : 0, g.w_misc > 0 ? 1 : 0,
                     g.w_misc > 0 ? 1 : 0, g.w_misc > 0 ? 1 : 0, w_scan * 2});
    } else {
        k = pick(r, {g.w_search, g.w_exist, g.w_insert, g.w_update, g.w_upsert, g.w_delete, w_scan});
    }
    if (g.ltx_blind && mode == M_LTX && k >= O_INSERT && k <= O_DELETE) k = O_UPSERT;
    o.kind = static_cast<uint8_t>(k);
    bool write = k >= O_INSERT && k <= O_DELETE;
    if (write && mode == M_LTX && wp != 0 && !r.chance(static_cast<uint32_t>(g.wp_miss_pct), 100)) {
        do { o.st = static_cast<uint8_t>(r.below(nst)); } while (((wp >> o.st) & 1) == 0);
    }
    if (k == O_SCAN) {
        o.lend = static_cast<uint8_t>(r.below(3));
        o.rend = static_cast<uint8_t>(r.below(3));
        if (r.chance(30, 100)) { o.lend = 2; o.rend = 2; }
        o.key = static_cast<uint8_t>(r.below(p.nkey));
        o.key2 = static_cast<uint8_t>(r.below(p.nkey));
        if (o.key > o.key2 && !r.chance(10, 100)) std::swap(o.key, o.key2);
        if (r.chance(25, 100)) o.limit = static_cast<uint8_t>(r.range(1, 4));
        if (r.chance(20, 100)) o.stop = static_cast<uint8_t>(r.range(1, 3));
        o.rmode = static_cast<uint8_t>(r.below(3));
        if (mode == M_RTX && r.chance(static_cast<uint32_t>(g.rtx_reverse_pct), 100)) {
            o.reverse = true;
            o.rend = 2;
            o.limit = 1;
        }
    }
    if (k >= O_INSERT && k <= O_UPSERT) {
        static const uint16_t lens[] = {0, 1, 4, 5, 20, 90, 300};
        o.vlen = lens[r.below(7)];
        if (r.chance(static_cast<uint32_t>(g.blob_pct), 100)) o.nblob = static_cast<uint8_t>(r.range(1, 3));
    }
    if (g.w_misc > 0 && r.chance(static_cast<uint32_t>(g.w_misc), static_cast<uint32_t>(30 + g.w_misc))) {
        static const uint8_t m[] = {O_BEGIN_AGAIN, O_HIPRI, O_TXID, O_BADHANDLE, O_SCAN_OPEN_LEAK, O_UNKNOWN_ST, O_BADKEY};
        o.kind = mode == M_LTX && r.chance(1, 3) ? static_cast<uint8_t>(O_HIPRI) : m[r.below(7)];
    }
    if (g.w_seq > 0 && mode != M_RTX && r.chance(static_cast<uint32_t>(g.w_seq), static_cast<uint32_t>(20 + g.w_seq))) {
        o.kind = O_SEQ_UPDATE;
        o.key = static_cast<uint8_t>(r.below(static_cast<uint64_t>(g.nseq) + 1));
        o.arg = static_cast<uint32_t>(r.below(8)); // advance of the version, 0..7 with some going back
    }
    return o;
}

// scans during which the transaction reads something else
void nest(Tx& x) {
    for (std::size_t i = 0; i + 1 < x.ops.size(); ++i) {
        if (x.ops[i].kind != O_SCAN) continue;
        std::size_t n = 0;
        while (i + 1 + n < x.ops.size() && n < 2) {
            uint8_t k = x.ops[i + 1 + n].kind;
            if (k != O_SEARCH && k != O_EXIST && k != O_SCAN) break;
            ++n;
        }
        x.ops[i].nest = static_cast<uint8_t>(n);
        i += n;
    }
}

} // namespace

std::vector<std::string> profile_names() {
    std::vector<std::string> v;
    for (auto&& e : table()) v.push_back(e.first);
    for (auto&& e : {"tid", "wplock", "wpmeta", "record", "readby", "answers", "notify", "sets", "one"}) v.push_back(std::string("part_") + e);
    return v;
}

static Plan part_plan(const std::string& profile, uint64_t seed) {
    uint64_t h = seed;
    for (char c : profile) h = sim::mix(h, static_cast<uint64_t>(c));
    sim::Rng r(sim::mix(h, 11));
    sim::Rng rs(sim::mix(h, 22));
    Plan p;
    p.profile = profile;
    p.seed = seed;
    p.part = profile.substr(5);
    Inc in;
    int ncl = r.chance(10, 100) ? 1 : static_cast<int>(r.range(2, 4));
    int most = static_cast<int>(r.chance(35, 100) ? r.range(30, 150) : r.range(4, 24));
    for (int c = 0; c < ncl; ++c) {
        Client cl;
        Tx x;
        int n = static_cast<int>(r.range(2, static_cast<uint64_t>(most)));
        uint8_t favour = static_cast<uint8_t>(r.below(256));
        bool biased = r.chance(30, 100);
        for (int k = 0; k < n; ++k) {
            Op o;
            o.kind = biased && r.chance(50, 100) ? favour : static_cast<uint8_t>(r.below(256));
            o.key = static_cast<uint8_t>(r.below(256));
            o.key2 = static_cast<uint8_t>(r.below(256));
            o.lend = static_cast<uint8_t>(r.below(3));
            o.rend = static_cast<uint8_t>(r.below(3));
            o.vlen = static_cast<uint16_t>(r.below(1000));
            o.arg = static_cast<uint32_t>(r.next());
            x.ops.push_back(o);
        }
        cl.tx.push_back(x);
        in.cl.push_back(cl);
    }
    in.sched.ns_per_event = rs.logu(30, 500);
    in.epoch_us = 100;
    in.sched.seed = rs.next();
    in.sched.policy = rs.chance(30, 100) ? 1 : 0;
    in.sched.mean_interval = rs.logu(1, 40);
    in.sched.ff_permille = static_cast<uint32_t>(rs.logu(1, 60));
    in.sched.pct_changes = static_cast<uint32_t>(rs.range(1, 12));
    in.sched.pct_span = rs.logu(200, 8000);
    in.sched.max_events = 12000000;
    if (rs.chance(20, 100)) {
        in.sched.stall_permille = static_cast<uint32_t>(rs.logu(1, 60));
        in.sched.stall_ns = 1000 * rs.range(1, 100);
    }
    p.inc.push_back(in);
    return p;
}

Plan make_plan(const std::string& profile, uint64_t seed) {
    if (profile.compare(0, 5, "part_") == 0) return part_plan(profile, seed);
    auto it = table().find(profile);
    if (it == table().end()) {
        fprintf(stderr, "unknown profile %s\n", profile.c_str());
        exit(2);
    }
    Gen g;
    it->second(g);
    uint64_t h = seed;
    for (char c : profile) h = sim::mix(h, static_cast<uint64_t>(c));
    sim::Rng r(sim::mix(h, 11));  // workload
    sim::Rng rs(sim::mix(h, 22)); // schedule and configuration
    sim::Rng rf(sim::mix(h, 33)); // faults

    Plan p;
    p.profile = profile;
    p.seed = seed;
    p.nst = static_cast<int>(r.range(g.st_min, g.st_max));
    p.nkey = static_cast<int>(r.range(g.key_min, g.key_max));
    p.keys = make_keys(r, p.nkey);
    static const std::size_t caps[] = {1, 2, 3, 4, 8, 16};
    p.leaf_cap = caps[rs.below(6)];
    p.nseq = g.nseq;
    p.ddl_tables = g.ddl_tables;
    p.gc_rounds = g.gc_rounds;
    if (g.pad_pct > 0) p.npad = static_cast<int>(r.range(95, 125));
    int ninc = static_cast<int>(r.range(g.inc_min, g.inc_max));
    for (int i = 0; i < ninc; ++i) {
        Inc in;
        // swarm: each run uses a random subset of the operations
        Gen q = g;
        auto drop = [&](int& w) { if (r.chance(20, 100)) w = 0; };
        drop(q.w_exist); drop(q.w_insert); drop(q.w_update); drop(q.w_upsert); drop(q.w_delete);
        if (g.w_scan < 10) drop(q.w_scan);
        if (g.gc_rounds && r.chance(40, 100)) q.w_insert = q.w_delete = 0; // old versions only
        if (q.w_insert + q.w_upsert == 0) q.w_upsert = g.w_upsert;
        if (q.w_search + q.w_scan == 0) q.w_search = 4;
        if (r.chance(25, 100) && g.w_stx > 0 && g.w_ltx > 0 && profile != "solo") { if (r.chance(1, 2)) q.w_rtx = 0; else if (r.chance(1, 2)) q.w_stx = g.w_stx * 3; }
        int ncl = static_cast<int>(r.range(q.cl_min, q.cl_max));
        int budget = q.total_tx;
        int ddl_slots = static_cast<int>(r.range(1, 4));
        bool strand_run = r.chance(static_cast<uint32_t>(g.strand_pct), 100);
        if (strand_run && r.chance(30, 100)) q.w_ltx = 0;
        for (int c = 0; c < ncl; ++c) {
            Client cl;
            int ntx = static_cast<int>(r.range(q.tx_min, q.tx_max));
            if (g.rounds_tx > 0) ntx = g.rounds_tx;
            for (int t = 0; t < ntx && budget > 0; ++t, --budget) {
                Tx x;
                x.mode = static_cast<uint8_t>(pick(r, {q.w_stx, q.w_ltx, q.w_rtx, q.w_ddl}));
                if (profile == "solo" && x.mode == M_LTX && c != 0) x.mode = M_STX;
                if (profile == "solo" && c == 0 && r.chance(60, 100)) x.mode = M_LTX;
                if (x.mode == M_LTX) {
                    if (r.chance(static_cast<uint32_t>(q.wp_all_pct), 100)) x.wp = static_cast<uint8_t>((1U << p.nst) - 1);
                    else x.wp = static_cast<uint8_t>(r.below(1ULL << p.nst));
                    if (r.chance(static_cast<uint32_t>(q.ra_pct), 100)) {
                        x.use_ra = true;
                        if (r.chance(50, 100)) x.ra_pos = static_cast<uint8_t>(r.below(1ULL << p.nst));
                        if (r.chance(50, 100)) x.ra_neg = static_cast<uint8_t>(r.below(1ULL << p.nst));
                        if (!r.chance(static_cast<uint32_t>(q.ra_overlap_pct), 100)) x.ra_neg = static_cast<uint8_t>(x.ra_neg & ~x.ra_pos);
                        if (x.ra_pos == 0 && x.ra_neg == 0) x.use_ra = false;
                    }
                }
                x.end = static_cast<uint8_t>(pick(r, {q.end_commit, q.end_abort, q.end_leave, q.end_sync, q.end_commit_leave}));
                if (x.mode == M_LTX && x.end == E_COMMIT_SYNC && (c + t) % 2 == 0) x.end = E_COMMIT;
                if (x.mode != M_LTX && x.end == E_COMMIT_LEAVE) x.end = E_COMMIT;
                x.new_session = r.chance(static_cast<uint32_t>(q.new_session_pct), 100);
                x.state_handle = r.chance(static_cast<uint32_t>(q.state_pct), 100);
                if (r.chance(30, 100)) x.think = static_cast<uint16_t>(r.below(24));
                if (r.chance(static_cast<uint32_t>(q.pace_pct), 100)) x.pace = static_cast<uint16_t>(r.below(10));
                int nop = static_cast<int>(r.range(q.op_min, q.op_max));
                if (x.mode == M_DDL) {
                    for (int k = 0; k < nop; ++k) {
                        Op o;
                        static const uint8_t kinds[] = {O_ST_CREATE, O_ST_CREATE, O_ST_CREATE, O_ST_DELETE, O_ST_GET, O_ST_LIST, O_ST_SETOPT, O_ST_GETOPT,
                                                        O_UPSERT, O_UPSERT, O_UPSERT, O_INSERT, O_UPDATE, O_DELETE, O_SEARCH, O_SCAN};
                        static const uint8_t skinds[] = {O_SEQ_READ, O_SEQ_READ, O_SEQ_READ, O_SEQ_READ, O_SEQ_CREATE, O_SEQ_CREATE, O_SEQ_DELETE};
                        o.kind = g.nseq > 0 ? skinds[r.below(7)] : kinds[r.below(16)];
                        o.st = static_cast<uint8_t>(r.below(static_cast<uint64_t>(ddl_slots))); // own table of this client
                        o.key = static_cast<uint8_t>(r.below(p.nkey));
                        // the last one is the client's own
                        if (g.nseq > 0) o.key = static_cast<uint8_t>(r.below(static_cast<uint64_t>(g.nseq) + 2));
                        o.arg = static_cast<uint32_t>(r.next() & 0xffffff);
                        x.ops.push_back(o);
                    }
                } else {
                    for (int k = 0; k < nop; ++k) {
                        Op o = make_op(r, q, p, x.mode, x.wp);
                        if (q.pad_pct > 0 && x.mode == M_STX && r.chance(static_cast<uint32_t>(q.pad_pct), 200)) o.kind = O_PAD;
                        x.ops.push_back(o);
                    }
                    if (q.scan_first_pct > 0 && r.chance(static_cast<uint32_t>(q.scan_first_pct), 100)) {
                        Op o;
                        o.kind = O_SCAN;
                        o.lend = o.rend = 2;
                        if (r.chance(30, 100)) { o.lend = 0; o.key = static_cast<uint8_t>(r.below(p.nkey)); }
                        if (r.chance(30, 100)) { o.rend = 0; o.key2 = static_cast<uint8_t>(r.below(p.nkey)); }
                        o.rmode = static_cast<uint8_t>(r.below(3));
                        x.ops.insert(x.ops.begin(), o);
                    }
                    if (r.chance(static_cast<uint32_t>(q.nest_pct), 100)) nest(x);
                    // two threads share the transaction: they either only read, or (long transactions,
                    // the engine says writing short ones are not implemented) work on
                    // different keys
                    // (a call that ends the transaction while the other thread is inside one is a known
                    // finding, so the ones that cannot end it by themselves are used)
                    bool calm = x.mode == M_RTX || (x.mode == M_LTX && !x.use_ra) || (x.mode == M_STX && q.w_ltx == 0);
                    if (strand_run && calm && r.chance(85, 100)) {
                        bool writes = false;
                        for (auto&& o : x.ops) writes = writes || (o.kind >= O_INSERT && o.kind <= O_DELETE);
                        if (writes && x.mode == M_STX) x.ops.erase(std::remove_if(x.ops.begin(), x.ops.end(), [](const Op& o) { return o.kind >= O_INSERT && o.kind <= O_DELETE; }), x.ops.end()), writes = false;
                        if (x.mode == M_STX) {
                            // a second look at a changed node ends a short transaction: one read per thread
                            x.ops.erase(std::remove_if(x.ops.begin(), x.ops.end(), [](const Op& o) { return o.kind != O_SEARCH && o.kind != O_EXIST; }), x.ops.end());
                            if (x.ops.size() > 2) x.ops.resize(2);
                        }
                        for (auto&& o : x.ops) {
                            o.nest = 0;
                            if (writes && o.kind == O_SCAN) o.kind = O_SEARCH;
                            o.strand = writes ? (o.key & 1) != 0 : x.mode == M_STX ? &o != &x.ops.front() : r.chance(40, 100);
                        }
                    }
                }
                cl.tx.push_back(x);
            }
            in.cl.push_back(cl);
        }
        if (g.monitor_pct > 0 && r.chance(static_cast<uint32_t>(g.monitor_pct), 100)) {
            Client cl;
            cl.monitor = true;
            in.cl.push_back(cl);
        }
        // configuration
        in.restore_threads = rs.chance(static_cast<uint32_t>(g.par_restore_pct), 100) ? static_cast<int>(rs.range(1, 4)) : 0;
        in.resolver_threads = static_cast<int>(rs.range(1, 3));
        in.iscan = rs.chance(static_cast<uint32_t>(g.iscan_pct), 100);
        uint64_t epoch_events = rs.logu(400, 20000);
        in.sched.ns_per_event = rs.logu(30, 500);
        in.epoch_us = epoch_events * in.sched.ns_per_event / 1000;
        if (in.epoch_us < 2) in.epoch_us = 2;
        in.env_reduce_gc = rs.chance(50, 100);
        in.env_bypass = rs.chance(static_cast<uint32_t>(g.bypass_pct), 100);
        in.env_bypass_root = in.env_bypass && rs.chance(50, 100);
        in.env_logbuf = rs.chance(static_cast<uint32_t>(g.logbuf_pct), 100);
        in.env_rtx_mutex = rs.chance(50, 100);
        in.env_fast_shutdown = rs.chance(static_cast<uint32_t>(g.fast_shutdown_pct), 100);
        in.settle_epochs = static_cast<uint32_t>(g.settle);
        in.restore_mode = rs.chance(50, 100);
        // schedule
        in.sched.seed = rs.next();
        in.sched.policy = rs.chance(30, 100) ? 1 : 0;
        in.sched.mean_interval = rs.logu(2, 1500);
        in.sched.ff_permille = static_cast<uint32_t>(rs.logu(1, 60));
        in.sched.pct_changes = static_cast<uint32_t>(rs.range(1, 12));
        in.sched.pct_span = rs.logu(5000, 120000);
        in.sched.max_events = 12000000;
        // faults
        if (rf.chance(static_cast<uint32_t>(g.stall_pct), 100)) {
            in.sched.stall_permille = static_cast<uint32_t>(rf.logu(1, 60));
            in.sched.stall_ns = in.epoch_us * 1000 * rf.range(1, 12);
        }
        if (rf.chance(static_cast<uint32_t>(g.late_pct), 100)) {
            in.sched.late_timer_permille = static_cast<uint32_t>(rf.logu(10, 400));
            in.sched.late_timer_ns = in.epoch_us * 1000 * rf.range(1, 6);
        }
        if (rf.chance(static_cast<uint32_t>(g.slow_pct), 100)) {
            in.slow_permille = static_cast<uint32_t>(rf.logu(20, 800));
            in.slow_ns = in.epoch_us * 1000 * rf.range(1, 8) / 2;
        }
        in.end = static_cast<uint8_t>(pick(rf, {g.ie_flush, g.ie_force, g.ie_crash}));
        bool last = i + 1 == ninc;
        if (last && ninc > 1) in.end = rf.chance(70, 100) ? IE_FIN_FLUSH : IE_FIN_FORCE;
        if (in.end == IE_CRASH) {
            int how = static_cast<int>(rf.below(10));
            if (how < 4) in.crash_event = rf.logu(4000, 120000);
            else if (how < 9) { in.crash_site = static_cast<int>(rf.range(1, 9)); in.crash_nth = static_cast<uint32_t>(rf.logu(1, 60)); }
            else in.crash_late = true;
            if (i > 0 && rf.chance(20, 100)) { in.crash_event = rf.logu(50, 6000); in.crash_site = 0; } // during start-up
        }
        p.inc.push_back(in);
    }
    return p;
}

} // namespace work
