// C24: allocations that fail are reported, and nothing else goes wrong.
#include "stacks.h"
#include "client.h"
#include "simdisk.h"
#include "kernel.h"
#include <new>
#include <cstring>
using namespace Strigi;
namespace sim {
bool memoryFacadeSession(const MemPlan& plan);
static bool body24() {
    disk().reset();
    static const char* scenarios[] = {"C08", "C08", "C01", "C01", "C03", "C11", "C12", "C13", "C02", "facade", "facade", "facade", "facade", "C23", "C16", "C06", "C07"};
    const char* s = scenarios[draw(sizeof scenarios / sizeof *scenarios)];
    mem = MemPlan();
    static const uint32_t kinds[] = {15, 14, 1, 2, 4, 8};
    mem.kinds = kinds[draw(6)];
    mem.left = (int64_t)logsize(mem.kinds & 1 ? (draw(3) ? 60 : 600) : mem.kinds == 4 ? (draw(3) ? 6 : 200) : draw(3) ? 2 : 12);
    mem.burst = draw(3) == 2 ? 1 + (int64_t)logsize(1000) : 1;
    MemPlan plan = mem;
    ev("scenario %s, kinds %u, after %lld, %lld failures", s, mem.kinds, (long long)mem.left, (long long)mem.burst);
    if (!strcmp(s, "facade")) {
        mem = MemPlan();
        plan.left = (int64_t)logsize(plan.kinds & 1 ? (draw(3) ? 150 : 2000) : draw(3) ? 2 : 8);
        bool fired = memoryFacadeSession(plan);
        disk().reset();
        return fired;
    }
    // an unknown character set is no failure for a header value
    if (!strcmp(s, "C23")) mem.kinds &= ~8u;
    mem.on = true;
    try { runScenario(s); }
    catch (const Abandon&) {}
    catch (const std::bad_alloc&) { count("probe.reported_as_bad_alloc"); if (!mem.fired) fail("bad-alloc", "memory", "std::bad_alloc although no allocation failed"); }
    bool fired = mem.fired;
    kernel().active = false;
    kernel().reset();
    mem = MemPlan();
    if (!disk().lastProblem.empty()) fail("handle-misuse", "memory", "%s", disk().lastProblem.c_str());
    disk().reset();
    return fired;
}
// every run is a new process: what is set up once, when it is used first, allocates memory too
static void runC24() {
    ownProcess(body24);
}
static Registrar r24({"C24", runC24, 600000000ull, false, 80000, 2000000});
} // namespace sim
