// A small frame for demonstrations: runs a scenario against the real engine on top of in-memory
// stand-ins of its two libraries, under a deterministic thread scheduler.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <thread>
#include <vector>

#include "glog/logging.h"
#include "limestone/api/datastore.h"
#include "shirakami/interface.h"
#include "sim/core/sim.h"
#include "sim/stub/ctl.h"

using namespace shirakami;

namespace demo {

inline constexpr uint64_t EPOCH_US = 3000;
struct Opt {
    uint64_t first{1};        // seeds: schedules to try
    int seeds{1};
    uint64_t interval{2000};  // mean number of events between preemptions
    int policy{0};
    int incarnations{1};
    bool force_end{false};    // end an incarnation by killing the process instead of fin()
    bool iscan{false};
    uint32_t stall_permille{0}; // a thread stops for a while, per scheduling decision
    uint64_t stall_ns{0};
    std::size_t resolver_threads{2};
    std::size_t restore_threads{2};
};

inline stubctl::Disk* g_disk;
inline uint64_t g_durable = 0;

#define CHECK_THAT(c) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); _exit(1); } } while (0)

inline void epochs(uint64_t n) { sim::sleep_ns(n * EPOCH_US * 1000); }

// until a long or read-only transaction may operate
inline void wait_start(Token t) {
    TxStateHandle h{};
    CHECK_THAT(acquire_tx_state_handle(t, h) == Status::OK);
    for (;;) {
        TxState s;
        CHECK_THAT(check_tx_state(h, s) == Status::OK);
        if (s.state_kind() != TxState::StateKind::WAITING_START) return;
        epochs(1);
    }
}

inline Token enter_() {
    Token t{};
    CHECK_THAT(enter(t) == Status::OK);
    return t;
}
inline void begin_short(Token t) { CHECK_THAT(tx_begin({t, transaction_options::transaction_type::SHORT}) == Status::OK); }
inline void begin_long(Token t, std::vector<Storage> wp, transaction_options::read_area ra = {}) {
    CHECK_THAT(tx_begin({t, transaction_options::transaction_type::LONG, wp, ra}) == Status::OK);
}
inline void begin_ro(Token t) { CHECK_THAT(tx_begin({t, transaction_options::transaction_type::READ_ONLY}) == Status::OK); }

struct Answer {
    bool done{false};
    Status st{};
    reason_code rc{};
    durability_marker_type dm{};
};
inline void wait_answer(Answer& a) {
    for (int i = 0; i < 2000 && !a.done; ++i) epochs(1);
    CHECK_THAT(a.done);
}
// commits and waits for the answer
inline Status commit_(Token t, Answer* out = nullptr) {
    auto* a = new Answer();
    commit(t, [a](Status s, reason_code r, durability_marker_type m) {
        a->st = s;
        a->rc = r;
        a->dm = m;
        a->done = true;
    });
    wait_answer(*a);
    if (out) *out = *a;
    return a->st;
}
inline std::string get_(Token t, Storage s, std::string_view k) { // short transaction of its own
    for (;;) {
        begin_short(t);
        std::string v;
        Status r = search_key(t, s, k, v);
        if (r == Status::WARN_NOT_FOUND) v = "(absent)";
        if (r != Status::OK && r != Status::WARN_NOT_FOUND) {
            abort(t);
            epochs(1);
            continue;
        }
        if (commit_(t) == Status::OK) return v;
        epochs(1);
    }
}
inline void put_(Token t, Storage s, std::string_view k, std::string_view v) {
    for (;;) {
        begin_short(t);
        if (upsert(t, s, k, v) == Status::OK && commit_(t) == Status::OK) return;
        abort(t);
        epochs(1);
    }
}
inline void del_(Token t, Storage s, std::string_view k) {
    begin_short(t);
    CHECK_THAT(delete_record(t, s, k) == Status::OK);
    CHECK_THAT(commit_(t) == Status::OK);
}
inline Storage table(const std::string& name) {
    Storage s{};
    if (get_storage(name, s) == Status::OK) return s;
    CHECK_THAT(create_storage(name, s) == Status::OK);
    return s;
}

// body(incarnation, seed)
inline int run(const Opt& o, const std::function<void(int, uint64_t)>& body) {
    g_disk = static_cast<stubctl::Disk*>(mmap(nullptr, sizeof(stubctl::Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto* out = static_cast<sim::Outcome*>(mmap(nullptr, sizeof(sim::Outcome), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (uint64_t seed = o.first; seed < o.first + static_cast<uint64_t>(o.seeds); ++seed) {
        memset(static_cast<void*>(g_disk), 0, offsetof(stubctl::Disk, e));
        for (int inc = 0; inc < o.incarnations; ++inc) {
            memset(static_cast<void*>(out), 0, sizeof(*out));
            pid_t c = fork();
            if (c == 0) {
                alarm(120);
                FLAGS_minloglevel = 2;
                FLAGS_stderrthreshold = 4;
                google::InitGoogleLogging("demo");
                stubctl::log.disk = g_disk;
                stubctl::log.seed = seed;
                stubctl::log.incarnation = static_cast<uint16_t>(inc);
                sim::Config cfg;
                cfg.seed = sim::mix(seed, 7) + static_cast<uint64_t>(inc);
                cfg.policy = o.policy;
                cfg.mean_interval = o.interval;
                cfg.stall_permille = o.stall_permille;
                cfg.stall_ns = o.stall_ns;
                cfg.out = out;
                sim::canonical_heap();
                sim::start(cfg);
                auto* ds = new limestone::api::datastore();
                database_options opt;
                opt.set_open_mode(inc == 0 ? database_options::open_mode::CREATE : database_options::open_mode::CREATE_OR_RESTORE);
                opt.set_epoch_time(EPOCH_US);
                opt.set_waiting_resolver_threads(o.resolver_threads);
                opt.set_index_restore_threads(o.restore_threads);
                opt.set_iterator_based_scan(o.iscan);
                CHECK_THAT(init(opt, ds) == Status::OK);
                g_durable = 0;
                register_durability_callback([](durability_marker_type m) { g_durable = m; });
                body(inc, seed);
                if (o.force_end) _exit(0);
                fin();
                _exit(0);
            }
            int st = 0;
            waitpid(c, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                fprintf(stderr, "seed %llu incarnation %d: status %x %s\n", (unsigned long long)seed, inc, st, out->msg);
                return 1;
            }
        }
    }
    return 0;
}

} // namespace demo
