// Components of the engine driven directly by simulated threads. Unlike the rest of the simulator
// these sources include the engine's own headers: where one of them no longer compiles because an
// interface was changed, the build leaves it out and its runs do nothing.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

#include "sim/core/sim.h"
#include "sim/work/plan.h"

namespace part {

using work::Op;

struct Ctx {
    const work::Plan& p;
    const work::Inc& in;
    int clients() const { return static_cast<int>(in.cl.size()); }
    // the operations of a client, one after the other
    template<class F>
    void each(int c, F&& f) const {
        for (auto&& t : in.cl[static_cast<std::size_t>(c)].tx) {
            if (t.drop) continue;
            for (auto&& o : t.ops)
                if (!o.drop) f(o);
        }
    }
    // one thread for every client
    void threads(const std::function<void(int)>& f) const;
};

using Fn = void (*)(const Ctx&);
struct Reg {
    Reg(const char* name, Fn f);
};
Fn find(const std::string& name);

// props: "P01+P02": the properties which the failed contract belongs to
[[noreturn]] void fail(const char* props, const char* fmt, ...);
void progress();

inline uint64_t rnd(const Op& o, uint64_t salt) { return sim::mix(o.arg * 2654435761ULL + o.kind, salt); }
std::string key_of(uint64_t x);

} // namespace part
