// Runs seeds, campaigns, replays and reductions. Each seed is run by a process of its own, each
// incarnation of the simulated system by a child of that.
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
#include <vector>

#include "exec.h"
#include "hist.h"
#include "oracle.h"
#include "plan.h"

using namespace work;

namespace {

constexpr int MAXINC = 8;

struct VioText {
    char prop[96];
    char cls[96];
    char msg[1400];
};

struct Result {
    bool complete;
    uint64_t hash;       // over the whole history and all schedules
    uint64_t sched_hash;
    int ninc;
    int code[MAXINC];
    sim::Outcome out[MAXINC];
    int nv;
    VioText v[8];
    EvalStats st;
    uint64_t probes[64];
    uint64_t log_sessions, log_torn, log_lost, epoch_writes, log_entries;
    uint64_t recs;
    uint64_t index[8];
    uint32_t ndec[MAXINC];
    uint32_t dec_overflow;
    uint64_t faults[16]; // crash by event, crash by site.., see below
    uint64_t site[16];
};

struct DecStore {
    sim::Decision d[MAXINC][sim::TraceBuf::CAP];
};

struct Drop {
    int inc, client, tx, op; // -1: all of them
};

struct Spec {
    std::string profile;
    uint64_t seed{0};
    uint64_t alt{0};        // alternative schedule, used by the reduction
    int ninc{99};
    std::vector<Drop> drops;
    bool replay{false};
    std::vector<sim::Decision> dec[MAXINC];
};

Shared* g_shm = nullptr;
Result* g_res = nullptr;
DecStore* g_dec = nullptr;
bool g_keep_dec = false;

double now_s() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}

void on_fault(int sig, siginfo_t* si, void* uc) {
    // frame pointer walk; the process is about to die anyway
    auto* o = &g_shm->out;
    auto* c = static_cast<ucontext_t*>(uc);
    auto pc = static_cast<uintptr_t>(c->uc_mcontext.gregs[REG_RIP]);
    auto bp = static_cast<uintptr_t>(c->uc_mcontext.gregs[REG_RBP]);
    int n = snprintf(o->msg, sizeof(o->msg), "signal %d addr %p at %#lx", sig, si->si_addr, (unsigned long)pc);
    if (sig == SIGABRT) {
        void* b[24];
        int m = backtrace(b, 24);
        for (int i = 2; i < m && n < 1300; ++i) n += snprintf(o->msg + n, sizeof(o->msg) - static_cast<size_t>(n), " %p", b[i]);
    } else {
        for (int i = 0; i < 12 && bp > 4096; ++i) {
            auto* f = reinterpret_cast<uintptr_t*>(bp);
            if (bp & 7) break;
            n += snprintf(o->msg + n, sizeof(o->msg) - static_cast<size_t>(n), " %#lx", (unsigned long)f[1]);
            if (f[0] <= bp) break;
            bp = f[0];
        }
    }
    o->code = 1000 + sig;
    signal(sig, SIG_DFL);
    raise(sig);
}

Plan plan_of(const Spec& s) {
    Plan p = make_plan(s.profile, s.seed);
    if (s.ninc < static_cast<int>(p.inc.size())) p.inc.resize(static_cast<std::size_t>(s.ninc));
    if (s.alt != 0)
        for (auto&& i : p.inc) i.sched.seed = sim::mix(i.sched.seed, s.alt);
    for (auto&& d : s.drops) {
        if (d.inc >= static_cast<int>(p.inc.size())) continue;
        auto& in = p.inc[static_cast<std::size_t>(d.inc)];
        for (int c = 0; c < static_cast<int>(in.cl.size()); ++c) {
            if (d.client >= 0 && c != d.client) continue;
            auto& cl = in.cl[static_cast<std::size_t>(c)];
            for (int t = 0; t < static_cast<int>(cl.tx.size()); ++t) {
                if (d.tx >= 0 && t != d.tx) continue;
                auto& x = cl.tx[static_cast<std::size_t>(t)];
                if (d.op < 0) x.drop = true;
                else if (d.op < static_cast<int>(x.ops.size())) x.ops[static_cast<std::size_t>(d.op)].drop = true;
            }
        }
    }
    return p;
}

void add_v(const std::string& prop, const std::string& cls, const std::string& msg) {
    Result& r = *g_res;
    if (r.nv >= 8) return;
    snprintf(r.v[r.nv].prop, sizeof(r.v[0].prop), "%s", prop.c_str());
    snprintf(r.v[r.nv].cls, sizeof(r.v[0].cls), "%s", cls.c_str());
    snprintf(r.v[r.nv].msg, sizeof(r.v[0].msg), "%s", msg.c_str());
    ++r.nv;
}

// names of the code addresses in a message; also the innermost function of the engine
std::string symbolize(const std::string& msg, std::string& inner) {
    std::string cmd = "addr2line -f -C -s -i -e /proc/" + std::to_string(getpid()) + "/exe";
    std::string o;
    std::stringstream ss(msg);
    std::string w;
    inner.clear();
    std::vector<std::string> addrs;
    while (ss >> w) {
        if (w.rfind("0x", 0) != 0) continue;
        uint64_t a = strtoull(w.c_str(), nullptr, 16);
        if (a < 0x400000 || a > 0x10000000) continue;
        char b[32];
        snprintf(b, sizeof(b), "%#llx", (unsigned long long)a - 1);
        addrs.push_back(b);
    }
    if (addrs.empty()) return o;
    for (auto&& a : addrs) cmd += " " + a;
    FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
    if (!f) return o;
    char fn[2000], loc[600];
    while (fgets(fn, sizeof(fn), f) && fgets(loc, sizeof(loc), f)) {
        std::string n(fn), l(loc);
        n = n.substr(0, n.find_first_of("(<\n"));
        l = l.substr(0, l.find_first_of(" \n"));
        if (n.rfind("std::", 0) == 0 || n.rfind("__tsan", 0) == 0 || n.rfind("__gnu", 0) == 0 || n == "??" || n.rfind("sim::", 0) == 0 || n == "free") continue;
        if (inner.empty() && n.rfind("shirakami::", 0) == 0) inner = n;
        if (o.size() < 900) o += " < " + n + "@" + l;
    }
    pclose(f);
    return o;
}

// in a process of its own
void run_spec_inner(const Spec& s, bool dump) {
    Result& r = *g_res;
    Plan p = plan_of(s);
    Shared* sh = g_shm;
    memset(static_cast<void*>(&sh->h), 0, offsetof(Hist, r));
    sh->h.bad[0] = 0;
    sh->h.bad_prop[0] = 0;
    memset(sh->h.probes, 0, sizeof(sh->h.probes));
    memset(static_cast<void*>(&sh->disk), 0, offsetof(stubctl::Disk, e));
    std::vector<IncResult> ends;
    uint64_t hash = 1;
    uint64_t shash = 2;
    bool fatal = false;
    for (int i = 0; i < static_cast<int>(p.inc.size()) && i < MAXINC && !fatal; ++i) {
        sh->trace.n = 0;
        sh->trace.overflow = 0;
        memset(static_cast<void*>(&sh->out), 0, sizeof(sh->out));
        pid_t c = fork();
        if (c == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            struct sigaction sa{};
            sa.sa_sigaction = on_fault;
            sa.sa_flags = SA_SIGINFO | SA_NODEFER;
            for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(sg, &sa, nullptr);
            alarm(90);
            const auto& d = s.dec[i];
            run_incarnation(p, i, sh, s.replay, d.data(), static_cast<uint32_t>(d.size()), 0);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        IncResult e{code, sh->out};
        ends.push_back(e);
        r.code[i] = code;
        r.out[i] = sh->out;
        r.ninc = i + 1;
        r.ndec[i] = sh->trace.n;
        if (sh->trace.overflow) r.dec_overflow = 1;
        if (g_keep_dec) memcpy(static_cast<void*>(g_dec->d[i]), sh->trace.d, sh->trace.n * sizeof(sim::Decision));
        hash = sim::mix(hash, static_cast<uint64_t>(code));
        hash = sim::mix(hash, sh->out.sched_hash);
        hash = sim::mix(hash, sh->out.events);
        shash = sim::mix(shash, sh->out.sched_hash);
        const auto& in = p.inc[static_cast<std::size_t>(i)];
        if (code == sim::EXIT_CRASH) {
            if (in.crash_event != 0 && sh->out.crash_at_point != 0) ++r.faults[0];
            else if (in.crash_site != 0 && strstr(sh->out.msg, "workload") == nullptr) { ++r.faults[1]; ++r.site[in.crash_site & 15]; }
            else ++r.faults[2];
        } else if (code == 0) {
            ++r.faults[in.end == IE_FIN_FORCE ? 4 : 3];
        }
        if (in.slow_permille) ++r.faults[5];
        r.faults[6] += sh->out.stalls;
        r.faults[7] += sh->out.late_timers;
        r.faults[8] += sh->out.fast_forwards;
        r.faults[9] += sh->out.tears;
        if (code == sim::EXIT_HARNESS || code == 99) {
            add_v("HARNESS", "harness", sh->out.msg);
            fatal = true;
        } else if (code == sim::EXIT_ORACLE) {
            add_v(sh->h.bad_prop, "inline", sh->h.bad);
            fatal = true;
        } else if (code == sim::EXIT_DEADLOCK) {
            add_v("*", "deadlock", sh->out.msg);
            fatal = true;
        } else if (code == sim::EXIT_STEPS && sh->h.progress + 4000000 > sh->out.events) {
            ++r.st.inconclusive; // a long run, calls still return
            fatal = true;
        } else if (code == sim::EXIT_STEPS) {
            add_v("*", "no-progress", sh->out.msg);
            fatal = true;
        } else if (code == sim::EXIT_MEM) {
            std::string in2;
            std::string m = symbolize(sh->out.msg, in2);
            add_v("*", ("memory@" + in2).c_str(), std::string(sh->out.msg).substr(0, 90) + m);
            fatal = true;
        } else if (code == 1000 + SIGALRM) {
            add_v("*", "hang", "the simulated process did not come back");
            fatal = true;
        } else if (code != 0 && code != sim::EXIT_CRASH) {
            std::string in2;
            std::string m = symbolize(sh->out.msg, in2);
            add_v("*", ("died@" + in2).c_str(), std::string("the process died: code ") + std::to_string(code) + " " + std::string(sh->out.msg).substr(0, 60) + " " + std::string(sh->h.bad).substr(0, 300) + m);
            fatal = true;
        }
    }
    if (sh->disk.overflow) add_v("HARNESS", "harness", "simulated disk full");
    for (uint32_t i = 0; i < sh->h.n; ++i) {
        const Rec& q = sh->h.r[i];
        uint64_t a = static_cast<uint64_t>(q.kind) << 56 | static_cast<uint64_t>(q.inc) << 48 | static_cast<uint64_t>(q.client) << 40 |
                     static_cast<uint64_t>(q.tx) << 24 | static_cast<uint64_t>(q.op) << 16 | static_cast<uint64_t>(q.opkind) << 8 | q.st;
        uint64_t b = static_cast<uint64_t>(static_cast<uint16_t>(q.status)) << 48 | static_cast<uint64_t>(q.key) << 40 | static_cast<uint64_t>(q.aux) << 32 | q.val;
        hash = sim::mix(hash, a);
        hash = sim::mix(hash, b);
        hash = sim::mix(hash, q.inv);
        hash = sim::mix(hash, q.ret);
        if (q.kind != R_ENTER && q.kind != R_LEAVE) hash = sim::mix(hash, q.x);
    }
    for (uint32_t i = 0; i < sh->disk.n; ++i) hash = sim::mix(hash, sim::mix(sh->disk.e[i].major * 1000003 + sh->disk.e[i].minor, sh->disk.e[i].epoch));
    r.hash = hash;
    r.sched_hash = shash;
    r.recs = sh->h.n;
    r.log_sessions = sh->disk.sessions_begun;
    r.log_torn = sh->disk.torn_sessions;
    r.log_lost = sh->disk.lost_entries;
    r.epoch_writes = sh->disk.epoch_writes;
    r.log_entries = sh->disk.n;
    memcpy(r.probes, sh->h.probes, sizeof(r.probes));
    // even after a fatal outcome the history so far is judged
    auto vs = evaluate(p, *sh, ends, r.st);
    for (auto&& v : vs) add_v(v.prop, v.cls, v.msg);
    if (dump) {
        std::string d = dump_history(p, *sh);
        fwrite(d.data(), 1, d.size(), stdout);
        for (uint32_t i = 0; i < sh->disk.n; ++i) {
            const auto& e = sh->disk.e[i];
            uint32_t y = value_parse(std::string(sh->disk.data + e.voff, e.vlen));
            printf("log i%d type %d st %llx ended %d dead %d epoch %llu session %llu ver %llu.%llx val %x seq %llu\n", e.incarnation, e.type, (unsigned long long)e.st, e.ended, e.dead,
                   (unsigned long long)e.epoch, (unsigned long long)e.session, (unsigned long long)e.major, (unsigned long long)e.minor, y, (unsigned long long)e.seq);
        }
        fflush(stdout);
    }
    r.complete = true;
}

bool run_spec(const Spec& s, bool dump = false) {
    memset(static_cast<void*>(g_res), 0, sizeof(*g_res));
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        run_spec_inner(s, dump);
        _exit(0);
    }
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (!g_res->complete) {
        g_res->nv = 0;
        char b[100];
        snprintf(b, sizeof(b), "the supervisor died: status %x", st);
        add_v("HARNESS", "harness", b);
        return false;
    }
    return true;
}

std::string jesc(const char* s) {
    std::string o;
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') { o += '\\'; o += *s; }
        else if (static_cast<unsigned char>(*s) < 32 || static_cast<unsigned char>(*s) > 126) o += '?';
        else o += *s;
    }
    return o;
}

// the class of a violation, precise enough to recognise the same failure again
std::string klass(const VioText& v) {
    std::string c = std::string(v.prop) + ":" + v.cls;
    return c;
}

bool wanted(const VioText& v, const std::string& want) {
    // want: "" any; else list of "Pxx[:cls]" separated by commas; "*" matches fatal outcomes
    if (want.empty()) return true;
    std::stringstream ss(want);
    std::string w;
    while (std::getline(ss, w, ',')) {
        if (w == v.prop || w == std::string(v.prop) + ":" + v.cls) return true;
        std::stringstream ps(v.prop);
        std::string q;
        while (std::getline(ps, q, '+')) {
            if (w == q || w == q + ":" + v.cls) return true;
        }
    }
    return false;
}

int find_v(const std::string& want) {
    for (int i = 0; i < g_res->nv; ++i)
        if (wanted(g_res->v[i], want) || strcmp(g_res->v[i].prop, "HARNESS") == 0) return i;
    return -1;
}

void print_result(const Spec& s) {
    Result& r = *g_res;
    printf("{\"profile\":\"%s\",\"seed\":%llu,\"hash\":\"%016llx\",\"recs\":%llu,\"codes\":[", s.profile.c_str(), (unsigned long long)s.seed, (unsigned long long)r.hash, (unsigned long long)r.recs);
    for (int i = 0; i < r.ninc; ++i) printf("%s%d", i ? "," : "", r.code[i]);
    printf("],\"events\":[");
    for (int i = 0; i < r.ninc; ++i) printf("%s%llu", i ? "," : "", (unsigned long long)r.out[i].events);
    printf("],\"decisions\":[");
    for (int i = 0; i < r.ninc; ++i) printf("%s%u", i ? "," : "", r.ndec[i]);
    printf("],\"violations\":[");
    for (int i = 0; i < r.nv; ++i)
        printf("%s{\"prop\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", r.v[i].prop, r.v[i].cls, jesc(r.v[i].msg).c_str());
    printf("]}\n");
    fflush(stdout);
}

struct Totals {
    uint64_t runs{0}, incs{0}, events{0}, switches{0}, decisions{0}, recs{0};
    double sim_s{0};
    EvalStats st;
    uint64_t faults[16]{}, site[16]{}, probes[64]{};
    uint64_t log_sessions{0}, log_torn{0}, log_lost{0}, epoch_writes{0}, log_entries{0};
    uint64_t nontrivial{0};
    void add(const Result& r) {
        ++runs;
        incs += static_cast<uint64_t>(r.ninc);
        for (int i = 0; i < r.ninc; ++i) {
            events += r.out[i].events;
            switches += r.out[i].switches;
            decisions += r.out[i].decisions;
            sim_s += static_cast<double>(r.out[i].now_ns) / 1e9;
        }
        recs += r.recs;
        auto* a = reinterpret_cast<uint64_t*>(&st);
        auto* b = reinterpret_cast<const uint64_t*>(&r.st);
        for (std::size_t i = 0; i < sizeof(EvalStats) / 8; ++i) a[i] += b[i];
        for (int i = 0; i < 16; ++i) { faults[i] += r.faults[i]; site[i] += r.site[i]; }
        for (int i = 0; i < 64; ++i) probes[i] += r.probes[i];
        log_sessions += r.log_sessions;
        log_torn += r.log_torn;
        log_lost += r.log_lost;
        epoch_writes += r.epoch_writes;
        log_entries += r.log_entries;
    }
};

void print_arr(const char* n, const uint64_t* a, int k) {
    printf(",\"%s\":[", n);
    for (int i = 0; i < k; ++i) printf("%s%llu", i ? "," : "", (unsigned long long)a[i]);
    printf("]");
}

// simrun camp PROFILE FIRST STRIDE SECONDS WANT HASHFILE [MAXRUNS]
int camp(int argc, char** argv) {
    if (argc < 8) return 2;
    Spec s;
    s.profile = argv[2];
    uint64_t first = strtoull(argv[3], nullptr, 10);
    uint64_t stride = strtoull(argv[4], nullptr, 10);
    double secs = atof(argv[5]);
    std::string want = argv[6];
    FILE* hf = fopen(argv[7], "w");
    uint64_t maxruns = argc > 8 ? strtoull(argv[8], nullptr, 10) : UINT64_MAX;
    double t0 = now_s();
    Totals t;
    int nviol = 0;
    for (uint64_t k = 0; k < maxruns; ++k) {
        if (now_s() - t0 > secs) break;
        s.seed = first + k * stride;
        run_spec(s);
        t.add(*g_res);
        if (hf) fprintf(hf, "%llu %016llx %016llx %016llx %d\n", (unsigned long long)s.seed, (unsigned long long)g_res->hash, (unsigned long long)g_res->sched_hash, (unsigned long long)g_res->st.shape,
                        g_res->st.committed >= 2 ? 1 : 0);
        if (g_res->nv > 0) {
            for (int i = 0; i < g_res->nv; ++i) {
                auto& v = g_res->v[i];
                bool w = wanted(v, want) || strcmp(v.prop, "HARNESS") == 0;
                printf("{\"violation\":true,\"wanted\":%s,\"profile\":\"%s\",\"seed\":%llu,\"hash\":\"%016llx\",\"prop\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\"}\n", w ? "true" : "false", s.profile.c_str(),
                       (unsigned long long)s.seed, (unsigned long long)g_res->hash, v.prop, v.cls, jesc(v.msg).c_str());
                if (w) ++nviol;
            }
            fflush(stdout);
        }
    }
    if (hf) fclose(hf);
    printf("{\"summary\":true,\"profile\":\"%s\",\"runs\":%llu,\"incarnations\":%llu,\"events\":%llu,\"switches\":%llu,\"decisions\":%llu,\"records\":%llu,\"sim_s\":%.6f,\"wall_s\":%.3f", s.profile.c_str(), (unsigned long long)t.runs,
           (unsigned long long)t.incs, (unsigned long long)t.events, (unsigned long long)t.switches, (unsigned long long)t.decisions, (unsigned long long)t.recs, t.sim_s, now_s() - t0);
    printf(",\"committed\":%llu,\"aborted\":%llu,\"inflight\":%llu,\"open\":%llu,\"reads\":%llu,\"absents\":%llu,\"rows\":%llu,\"searches\":%llu,\"nodes\":%llu,\"inconclusive\":%llu,\"must\":%llu,\"waits\":%llu,\"premature\":%llu",
           (unsigned long long)t.st.committed, (unsigned long long)t.st.aborted, (unsigned long long)t.st.inflight, (unsigned long long)t.st.open, (unsigned long long)t.st.reads, (unsigned long long)t.st.absents, (unsigned long long)t.st.rows,
           (unsigned long long)t.st.searches, (unsigned long long)t.st.nodes, (unsigned long long)t.st.inconclusive, (unsigned long long)t.st.must, (unsigned long long)t.st.waits, (unsigned long long)t.st.premature);
    print_arr("committed_by_mode", t.st.c_mode, 4);
    print_arr("errors", t.st.err, 16);
    print_arr("faults", t.faults, 10);
    print_arr("crash_sites", t.site, 10);
    print_arr("probes", t.probes, 32);
    printf(",\"log_sessions\":%llu,\"log_entries\":%llu,\"torn_sessions\":%llu,\"lost_entries\":%llu,\"epoch_writes\":%llu}\n", (unsigned long long)t.log_sessions, (unsigned long long)t.log_entries, (unsigned long long)t.log_torn,
           (unsigned long long)t.log_lost, (unsigned long long)t.epoch_writes);
    fflush(stdout);
    return nviol ? 1 : 0;
}

void save(const Spec& s, const std::string& path, const VioText& v, uint64_t hash) {
    std::ofstream f(path);
    f << "simreplay 1\nprofile " << s.profile << "\nseed " << s.seed << "\nalt " << s.alt << "\nninc " << s.ninc << "\n";
    for (auto&& d : s.drops) f << "drop " << d.inc << " " << d.client << " " << d.tx << " " << d.op << "\n";
    f << "mode " << (s.replay ? "trace" : "seeded") << "\n";
    if (s.replay)
        for (int i = 0; i < MAXINC; ++i)
            for (auto&& d : s.dec[i]) f << "d " << i << " " << d.tid << " " << d.local << " " << d.target << "\n";
    char b[64];
    snprintf(b, sizeof(b), "%016llx", (unsigned long long)hash);
    f << "expect " << v.prop << " " << v.cls << "\nhash " << b << "\n# " << v.msg << "\n";
}

bool load(Spec& s, const std::string& path, std::string& prop, std::string& cls, std::string& hash) {
    std::ifstream f(path);
    if (!f) return false;
    std::string line;
    while (std::getline(f, line)) {
        std::stringstream ss(line);
        std::string w;
        ss >> w;
        if (w == "profile") ss >> s.profile;
        else if (w == "seed") ss >> s.seed;
        else if (w == "alt") ss >> s.alt;
        else if (w == "ninc") ss >> s.ninc;
        else if (w == "drop") { Drop d{}; ss >> d.inc >> d.client >> d.tx >> d.op; s.drops.push_back(d); }
        else if (w == "mode") { std::string m; ss >> m; s.replay = m == "trace"; }
        else if (w == "d") { int i = 0; sim::Decision d{}; ss >> i >> d.tid >> d.local >> d.target; if (i >= 0 && i < MAXINC) s.dec[i].push_back(d); }
        else if (w == "expect") ss >> prop >> cls;
        else if (w == "hash") ss >> hash;
    }
    return !s.profile.empty();
}

int replay(int argc, char** argv) {
    if (argc < 3) return 2;
    Spec s;
    std::string prop, cls, hash;
    if (!load(s, argv[2], prop, cls, hash)) {
        fprintf(stderr, "cannot read %s\n", argv[2]);
        return 2;
    }
    bool dump = argc > 3 && strcmp(argv[3], "-v") == 0;
    run_spec(s, dump);
    print_result(s);
    char b[64];
    snprintf(b, sizeof(b), "%016llx", (unsigned long long)g_res->hash);
    int i = find_v(prop + ":" + cls);
    if (prop.find('+') != std::string::npos) {
        i = -1;
        for (int k = 0; k < g_res->nv; ++k)
            if (prop == g_res->v[k].prop && cls == g_res->v[k].cls) i = k;
    }
    bool same = hash == b;
    printf("{\"replay\":true,\"reproduced\":%s,\"same_hash\":%s}\n", i >= 0 ? "true" : "false", same ? "true" : "false");
    return i >= 0 && same ? 1 : i < 0 && same ? 0 : 3;
}

bool same_failure(const std::string& k) {
    for (int i = 0; i < g_res->nv; ++i)
        if (klass(g_res->v[i]) == k) return true;
    return false;
}

// simrun shrink PROFILE SEED WANT SECONDS OUT
int shrink(int argc, char** argv) {
    if (argc < 7) return 2;
    Spec s;
    s.profile = argv[2];
    s.seed = strtoull(argv[3], nullptr, 10);
    std::string want = argv[4];
    double secs = atof(argv[5]);
    std::string out = argv[6];
    double t0 = now_s();
    auto left = [&] { return now_s() - t0 < secs; };
    run_spec(s);
    int i = find_v(want);
    if (i < 0) {
        fprintf(stderr, "seed does not fail\n");
        return 3;
    }
    std::string k = klass(g_res->v[i]);
    uint64_t tries = 0;
    auto fails = [&](const Spec& c) {
        ++tries;
        run_spec(c);
        return same_failure(k);
    };
    // a smaller number of incarnations
    for (int n = 1; n < 6 && left(); ++n) {
        Spec c = s;
        c.ninc = n;
        if (fails(c)) {
            s = c;
            break;
        }
    }
    // leave out clients, transactions, operations
    auto attempt = [&](const Drop& d, int alts) {
        for (int a = 0; a <= alts && left(); ++a) {
            Spec c = s;
            c.drops.push_back(d);
            if (a > 0) c.alt = s.alt * 31 + static_cast<uint64_t>(a);
            if (fails(c)) {
                s = c;
                return true;
            }
        }
        return false;
    };
    {
        bool progress = true;
        for (int pass = 0; pass < 3 && progress && left(); ++pass) {
            progress = false;
            Plan p = plan_of(s);
            for (int in = 0; in < static_cast<int>(p.inc.size()); ++in)
                for (int c = 0; c < static_cast<int>(p.inc[in].cl.size()) && left(); ++c) {
                    bool any = false;
                    for (auto&& x : p.inc[in].cl[c].tx) any |= !x.drop;
                    if (any && attempt({in, c, -1, -1}, pass == 0 ? 2 : 6)) progress = true;
                }
            p = plan_of(s);
            for (int in = 0; in < static_cast<int>(p.inc.size()); ++in)
                for (int c = 0; c < static_cast<int>(p.inc[in].cl.size()); ++c)
                    for (int t = static_cast<int>(p.inc[in].cl[c].tx.size()) - 1; t >= 0 && left(); --t)
                        if (!p.inc[in].cl[c].tx[t].drop && attempt({in, c, t, -1}, pass == 0 ? 2 : 6)) progress = true;
            p = plan_of(s);
            for (int in = 0; in < static_cast<int>(p.inc.size()); ++in)
                for (int c = 0; c < static_cast<int>(p.inc[in].cl.size()); ++c)
                    for (int t = 0; t < static_cast<int>(p.inc[in].cl[c].tx.size()); ++t) {
                        auto& x = p.inc[in].cl[c].tx[t];
                        if (x.drop) continue;
                        for (int o = static_cast<int>(x.ops.size()) - 1; o >= 0 && left(); --o)
                            if (!x.ops[o].drop && attempt({in, c, t, o}, pass == 0 ? 1 : 4)) progress = true;
                    }
        }
    }
    // record the schedule and reduce it
    g_keep_dec = true;
    run_spec(s);
    g_keep_dec = false;
    bool traced = false;
    uint64_t full = 0;
    if (same_failure(k) && !g_res->dec_overflow) {
        Spec c = s;
        c.replay = true;
        for (int n = 0; n < g_res->ninc; ++n) {
            c.dec[n].assign(g_dec->d[n], g_dec->d[n] + g_res->ndec[n]);
            full += c.dec[n].size();
        }
        if (fails(c)) {
            traced = true;
            s = c;
            double limit = now_s() + std::max(5.0, secs * 0.5);
            for (int n = 0; n < MAXINC; ++n) {
                std::size_t chunk = std::max<std::size_t>(1, s.dec[n].size() / 2);
                while (!s.dec[n].empty() && now_s() < limit) {
                    bool removed = false;
                    for (std::size_t a = 0; a < s.dec[n].size() && now_s() < limit;) {
                        Spec q = s;
                        auto& v = q.dec[n];
                        v.erase(v.begin() + static_cast<long>(a), v.begin() + static_cast<long>(std::min(a + chunk, v.size())));
                        if (fails(q)) {
                            s = q;
                            removed = true;
                        } else {
                            a += chunk;
                        }
                    }
                    if (chunk == 1 && !removed) break;
                    if (!removed || chunk > 1) chunk = std::max<std::size_t>(1, chunk / 2);
                    if (chunk == 1 && s.dec[n].size() > 3000) break;
                }
            }
        }
    }
    run_spec(s);
    int f = -1;
    for (int q = 0; q < g_res->nv; ++q)
        if (klass(g_res->v[q]) == k) f = q;
    if (f < 0) {
        printf("{\"shrink\":true,\"ok\":false}\n");
        return 3;
    }
    uint64_t left_dec = 0;
    for (auto&& d : s.dec) left_dec += d.size();
    save(s, out, g_res->v[f], g_res->hash);
    Plan p = plan_of(s);
    int ntx = 0, nop = 0;
    for (auto&& in : p.inc)
        for (auto&& c : in.cl)
            for (auto&& x : c.tx)
                if (!x.drop) {
                    ++ntx;
                    for (auto&& o : x.ops) nop += !o.drop;
                }
    printf("{\"shrink\":true,\"ok\":true,\"prop\":\"%s\",\"cls\":\"%s\",\"tries\":%llu,\"tx\":%d,\"ops\":%d,\"trace\":%s,\"decisions\":%llu,\"of\":%llu,\"wall_s\":%.1f,\"msg\":\"%s\"}\n", g_res->v[f].prop, g_res->v[f].cls,
           (unsigned long long)tries, ntx, nop, traced ? "true" : "false", (unsigned long long)left_dec, (unsigned long long)full, now_s() - t0, jesc(g_res->v[f].msg).c_str());
    return 1;
}

} // namespace

int main(int argc, char** argv) {
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && getenv("SIM_REEXEC") == nullptr) {
        if (personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    auto map = [](std::size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return p;
    };
    g_shm = static_cast<Shared*>(map(sizeof(Shared)));
    g_res = static_cast<Result*>(map(sizeof(Result)));
    g_dec = static_cast<DecStore*>(map(sizeof(DecStore)));
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "run" && argc >= 4) {
        Spec s;
        s.profile = argv[2];
        s.seed = strtoull(argv[3], nullptr, 10);
        bool dump = argc > 4 && strcmp(argv[4], "-v") == 0;
        run_spec(s, dump);
        print_result(s);
        return g_res->nv ? 1 : 0;
    }
    if (m == "camp") return camp(argc, argv);
    if (m == "replay") return replay(argc, argv);
    if (m == "shrink") return shrink(argc, argv);
    if (m == "profiles") {
        for (auto&& n : profile_names()) printf("%s\n", n.c_str());
        return 0;
    }
    fprintf(stderr, "usage: simrun run|camp|replay|shrink|profiles ...\n");
    return 2;
}
