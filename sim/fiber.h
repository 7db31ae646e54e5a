// Simulated threads: real threads of which exactly one runs at a time. Who runs is decided by
// draws at control-flow edges and at accesses to static memory of the library.
#ifndef SIM_FIBER_H
#define SIM_FIBER_H
#include "core.h"
#include <functional>
#include <vector>
namespace sim {
struct SchedOpts {
    uint32_t meanEdges = 300;        // preemption distance, about
    uint32_t staticDen = 3;          // a preemption at 1 in staticDen accesses to static memory (0: none)
    uint32_t perAddress = 12;        // accesses of one address that are considered
    uint32_t maxSwitches = 1500;
};
// runs all bodies to their end under the seeded scheduler
void runThreads(const std::vector<std::function<void()> >& bodies, const SchedOpts& o);
int currentThread();                 // -1 outside
uint64_t threadSwitches();
} // namespace sim
#endif
