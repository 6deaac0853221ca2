#pragma once
#include <string>
#include <vector>

#include "hist.h"
#include "plan.h"

namespace work {

struct Violation {
    std::string prop;
    std::string cls; // short stable name of what went wrong
    std::string msg;
};

struct IncResult { // how an incarnation ended
    int code;      // sim::ExitCode, or 1000 + signal
    sim::Outcome out;
};

struct EvalStats {
    uint64_t committed{0}, aborted{0}, inflight{0}, open{0};
    uint64_t c_mode[4]{}, reads{0}, absents{0}, rows{0};
    uint64_t searches{0}, nodes{0}, inconclusive{0};
    uint64_t err[16]{};
    uint64_t lost{0}, must{0};
    uint64_t shape{0}; // hash over outcome structure
    uint64_t overlaps{0};
    uint64_t premature{0}, waits{0};
    uint64_t priority{0};
    uint64_t inserting{0};
    uint64_t forwarded{0};
    uint64_t ddl_ops{0}, seq_reads{0};
};

std::vector<Violation> evaluate(const Plan& p, const Shared& sh, const std::vector<IncResult>& ends, EvalStats& st);
std::string dump_history(const Plan& p, const Shared& sh);

} // namespace work
