// announcement of durability to several listeners, and the pool of worker threads
#include <map>
#include <vector>

#include "concurrency_control/include/epoch.h"
#include "database/include/thread_pool.h"
#include "database/include/thread_task.h"
#include "database/include/tx_state_notification.h"
#include "shirakami/interface.h"
#include "sim/part/part.h"

using namespace shirakami;
using part::fail;

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace {

void callbacks(const part::Ctx& c) {
    constexpr const char* PR = "P07+P08+P10+P17+P20";
    clear_durability_callbacks();
    struct L {
        uint64_t inv, ret{UINT64_MAX};
        std::vector<uint64_t> got;
    };
    std::vector<L*> ls;
    struct A { uint64_t m, inv, ret; };
    std::vector<A> announced;
    uint64_t base = 5, ctr = base;
    epoch::set_datastore_durable_epoch(base);
    int inside = 0;
    c.threads([&](int cl) {
        c.each(cl, [&](const part::Op& o) {
            if (o.kind % 3 == 0) {
                L* l;
                {
                    sim::NoPreempt np;
                    l = new L();
                    l->inv = sim::seq();
                    ls.push_back(l);
                }
                Status s = register_durability_callback([l, &inside](durability_marker_type m) {
                    if (++inside != 1) fail(PR, "two announcements run at the same time");
                    sim::point();
                    { sim::NoPreempt np; l->got.push_back(m); }
                    sim::point();
                    --inside;
                });
                sim::NoPreempt np;
                l->ret = sim::seq();
                if (s != Status::OK) fail(PR, "registering a listener returned %d", static_cast<int>(s));
            } else if (cl == 0) {
                // there is one announcer
                uint64_t m;
                std::size_t at;
                { sim::NoPreempt np; m = ++ctr; at = announced.size(); announced.push_back({m, sim::seq(), UINT64_MAX}); }
                if (c.p.seed / 4 % 2 == 0) epoch::set_datastore_durable_epoch(m);
                else call_durability_callbacks(m);
                sim::NoPreempt np;
                announced[at].ret = sim::seq();
            } else {
                sim::point();
            }
            part::progress();
        });
    });
    for (std::size_t i = 0; i < ls.size(); ++i) {
        std::map<uint64_t, int> n;
        uint64_t last = 0;
        for (uint64_t m : ls[i]->got) {
            ++n[m];
            if (m < last) fail(PR, "listener %d was told %llu after %llu", static_cast<int>(i), (unsigned long long)m, (unsigned long long)last);
            last = m;
            if (m < base || m > ctr) fail(PR, "listener %d was told %llu, which nobody announced", static_cast<int>(i), (unsigned long long)m);
        }
        for (auto&& a : announced) {
            if (a.inv > ls[i]->ret && n[a.m] != 1) fail(PR, "listener %d of %d was told %d times that %llu is durable", static_cast<int>(i), static_cast<int>(ls.size()), n[a.m], (unsigned long long)a.m);
            if (a.inv > ls[i]->ret) continue;
            if (n[a.m] > 2) fail(PR, "listener %d was told %d times that %llu is durable", static_cast<int>(i), n[a.m], (unsigned long long)a.m);
        }
    }
    clear_durability_callbacks();
    std::size_t sum = 0, now = 0;
    for (auto&& l : ls) sum += l->got.size();
    call_durability_callbacks(ctr + 10);
    for (auto&& l : ls) now += l->got.size();
    if (now != sum) fail(PR, "a listener was told something after all were removed");
    for (auto&& l : ls) delete l;
}

void pool(const part::Ctx& c) {
    constexpr const char* PR = "P07+P10+P15+P16";
    uint64_t objs = sim::heap_live_objects();
    for (int round = 0; round < 2; ++round) {
        thread_pool::init(1 + c.p.seed / 2 % 4);
        if (!thread_pool::get_running()) fail(PR, "the thread pool does not run after its start");
        std::vector<thread_task*> tasks;
        c.threads([&](int cl) {
            c.each(cl, [&](const part::Op& o) {
                auto* t = new thread_task();
                if (t->get_completed() || t->get_task_kind() != task_kind::UNKNOWN || t->get_token() != nullptr) fail(PR, "a new task is not empty");
                t->set_task_kind(task_kind::LTX_COMMIT_WHOLE);
                t->set_token(t);
                t->set_completed(o.lend == 1);
                if (t->get_completed() != (o.lend == 1) || t->get_task_kind() != task_kind::LTX_COMMIT_WHOLE || t->get_token() != t) fail(PR, "a task does not keep what is set");
                { sim::NoPreempt np; tasks.push_back(t); }
                thread_pool::push_task_queue(t);
                part::progress();
            });
        });
        if (c.p.seed / 8 % 2 == 0) sim::sleep_ns(1000000);
        thread_pool::fin();
        if (thread_pool::get_running()) fail(PR, "the thread pool runs after its end");
        thread_task* left = nullptr;
        if (!thread_pool::get_task_queue().empty() || thread_pool::get_task_queue().try_pop(left)) fail(PR, "the thread pool ended with tasks left");
        for (auto&& t : tasks) delete t;
        part::progress();
    }
    thread_pool::get_threads().reset();
}

void queue(const part::Ctx& c) {
    constexpr const char* PR = "P07+P10+P15+P16";
    concurrent_queue<uint64_t> q;
    if (!q.empty() || q.size() != 0) fail(PR, "a new queue is not empty");
    std::map<uint64_t, int> pushed, popped;
    std::vector<std::map<int, uint64_t>> last(static_cast<std::size_t>(c.clients()));
    c.threads([&](int cl) {
        uint64_t n = 0;
        c.each(cl, [&](const part::Op& o) {
            if (o.kind % 2 == 0) {
                uint64_t v = static_cast<uint64_t>(cl) << 32 | ++n;
                { sim::NoPreempt np; pushed[v] = 1; }
                q.push(v);
            } else {
                uint64_t v = 0;
                if (q.try_pop(v)) {
                    sim::NoPreempt np;
                    if (pushed.count(v) == 0) fail(PR, "a queue gave something that was not put in");
                    if (++popped[v] != 1) fail(PR, "a queue gave something twice");
                    auto& l = last[static_cast<std::size_t>(cl)][static_cast<int>(v >> 32)];
                    if (l >= v) fail(PR, "a queue changed the order of one producer");
                    l = v;
                }
            }
            part::progress();
        });
    });
    std::size_t left = pushed.size() - popped.size();
    if (q.size() != left || q.empty() != (left == 0)) fail(PR, "a queue of %d is said to hold %d", static_cast<int>(left), static_cast<int>(q.size()));
    uint64_t v = 0;
    if (c.p.seed / 3 % 2 == 0) {
        for (std::size_t i = 0; i < left; ++i)
            if (!q.try_pop(v) || ++popped[v] != 1) fail(PR, "a queue lost something");
    } else q.clear();
    if (!q.empty() || q.try_pop(v)) fail(PR, "a queue is not empty after everything was taken out");
}

void run(const part::Ctx& c) {
    switch (c.p.seed % 4) {
        case 0: pool(c); break;
        case 1: queue(c); break;
        default: callbacks(c); break;
    }
}

part::Reg reg("notify", run);

} // namespace
#pragma clang attribute pop
