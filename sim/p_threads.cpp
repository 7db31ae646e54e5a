// C17: streams, listings and facades used by different threads at the same time.
#include "stacks.h"
#include "client.h"
#include "fiber.h"
#include "kernel.h"
#include <strigi/processinputstream.h>
#include <cerrno>
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace Strigi;
namespace sim {
void archiveSession();
void textSession();
void facadeSession(const std::string& tag);

static void streamSession(const std::string& who, uint32_t layers) {
    std::string content = randomBytes(logsize(4000));
    BuildOpts b;
    b.maxDepth = 3;
    if (layers) { b.layers = layers; b.maxDepth = 1; }
    b.layers &= ~(1u << LCustom);
    Stack st;
    buildStack(st, content, b);
    if (!st.top) fail("build-failed", "build", "%s: the stack could not be opened", who.c_str());
    ev("%s: %s", who.c_str(), st.desc.c_str());
    ClientOpts o; o.maxOps = 8;
    Client<char> c(st.top, st.content, o, []() { return false; }, who);
    c.run();
    if (c.failed) fail("unexpected-error", "thread", "%s failed", who.c_str());
    st.destroy();
}
static void processSession(const std::string& who) {
    Kernel& k = kernel();
    std::string path = "/sim/bin/" + who;
    std::shared_ptr<Program> p(new Program);
    p->argv.push_back(path);
    p->expand = 1;
    k.programs[path] = p;
    std::string input = randomBytes(logsize(3000));
    SimReport rep;
    SimConfig cfg = SimConfig::random();
    if (input.size() > 100) { cfg.chunkStyle = 0; }
    SimStream up(input, cfg, &rep);
    std::string truth = p->output(input);
    ProcessInputStream s(p->argv, &up);
    ClientOpts o; o.maxOps = 6; o.bulk = true; o.maxSkip = 500;
    Client<char> c(&s, truth, o, []() { return false; }, who);
    c.run();
}
static void body17() {
    disk().reset();
    Kernel& k = kernel();
    k.reset();
    static const uint32_t masks[] = {0, 0, 0, 1u << LBase64, 1u << LLzma, 1u << LGzip, 1u << LBz2, 1u << LEncode, 1u << LTerm, 1u << LZipStore};
    uint32_t n = 2 + draw(2);
    int mode = (int)draw(8);
    int same = mode < 4 ? (int)draw(12) : -1;        // all threads use the same facility: contention
    std::vector<std::function<void()> > bodies;
    bool procs = false;
    for (uint32_t i = 0; i < n; ++i) {
        int what = same >= 0 ? same : (int)draw(12);
        std::string who = strf("t%u", i);
        switch (what) {
        case 0: case 1: bodies.push_back([]() { archiveSession(); }); break;
        case 2: bodies.push_back([]() { textSession(); }); break;
        case 3: case 4: bodies.push_back([who]() { facadeSession("/" + who); }); break;
        case 5: procs = true; bodies.push_back([who]() { processSession(who); }); break;
        case 6: bodies.push_back([who]() { archiveSession(); streamSession(who, 0); }); break;
        default: { uint32_t m = masks[draw(10)]; bodies.push_back([who, m]() { streamSession(who, m); }); break; }
        }
    }
    if (procs) {
        for (int i = 0; i < 3; ++i) { Kernel::Fd f; f.e.reset(new Kernel::End(0, false, k.nextId++)); k.self[i] = f; }
        k.capacity = 4096;
        k.eagerness = (int)draw(4);
        k.active = true;
    }
    SchedOpts o;
    static const uint32_t means[] = {300, 4, 30, 2000};
    o.meanEdges = means[draw(4)];
    o.staticDen = draw(4) == 3 ? 0 : 2 + draw(4);
    runThreads(bodies, o);
    if (threadSwitches()) nontrivial();
    k.active = false;
    if (procs) {
        if (k.self.size() != 3) fail("descriptor-leak", "fd", "%zu descriptors are left", k.self.size() - 3);
        for (auto& c : k.children) if (!c->reaped) fail("child-left", "zombie", "child %d was not waited for", c->pid);
    }
    if (!disk().lastProblem.empty()) fail("handle-misuse", "threads", "%s", disk().lastProblem.c_str());
    if (disk().openHandles != 0) fail("handle-leak", "threads", "%lld of %lld handles are still open", (long long)disk().openHandles, (long long)disk().opened);
}
// every run is a new process, so that each facility is used for the first time
static void runC17() {
    ownProcess([]() { body17(); return threadSwitches() != 0; });
}
static Registrar r17({"C17", runC17, 600000000ull, false, 25000, 500000});
} // namespace sim
