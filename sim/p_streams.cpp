// C01-C03: stream contents, limits, rewinds.
#include "stacks.h"
#include "client.h"
using namespace Strigi;
namespace sim {

static void runStack(const BuildOpts& b, const ClientOpts& c) {
    disk().reset();
    std::string content = randomBytes(contentSize());
    Stack st;
    buildStack(st, content, b);
    if (!st.top) {
        if (st.errorInjected || st.damaged) return;
        fail("build-failed", "build", "stack %s could not be opened although nothing is wrong", st.desc.c_str());
    }
    if (st.levels.size() > 1) nontrivial();
    Client<char> cl(st.top, st.content, c, [&]() { return st.rep.errorFired; }, "top");
    if (st.passthrough) cl.mustFail = [&]() { return st.rep.errorFired; };
    cl.run();
    if (content.size() > 1) nontrivial();
}
void bigStreamRun(bool file);
static void runC01() {
    if (chance(1, 40)) { disk().reset(); bigStreamRun(false); return; }
    BuildOpts b; b.maxDepth = 4;
    ClientOpts c; c.bias = 0;
    runStack(b, c);
}
static void runC02() {
    BuildOpts b; b.maxDepth = 3; b.errors = chance(1, 4);
    ClientOpts c; c.maxOps = 40; c.segRate = 8;
    runStack(b, c);
}
static void runC03() {
    BuildOpts b; b.maxDepth = 4; b.forceUnseekable = chance(3, 4);
    ClientOpts c; c.maxOps = 20; c.segRate = 1; c.resets = flip(); c.skips = flip();
    runStack(b, c);
}
static Registrar r1({"C01", runC01, 300000000, false, 120000, 2000000});
static Registrar r2({"C02", runC02, 300000000, false, 150000, 2000000});
static Registrar r3({"C03", runC03, 300000000, false, 150000, 2000000});
} // namespace sim
