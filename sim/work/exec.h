#pragma once
#include "hist.h"
#include "plan.h"
namespace work {
// runs one incarnation of the simulated system; never returns
[[noreturn]] void run_incarnation(const Plan& p, int inc, Shared* sh, bool replay, const sim::Decision* dec,
                                  uint32_t ndec, uint64_t crash_event_override);
[[noreturn]] void inline_bad(const char* prop, const char* msg);
void inline_progress();
}
