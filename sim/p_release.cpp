// C19: whatever was created is released, wherever its user stops.
#include "stacks.h"
#include "client.h"
#include "simdisk.h"
#include "listing.h"
#include <memory>
using namespace Strigi;
namespace sim {
// a listing or a stream stack, possibly failing or damaged, left at any point; the input lives on
static void leaveHalfway() {
    std::string content = randomBytes(contentSize());
    BuildOpts b; b.maxDepth = 4; b.errors = chance(1, 3); b.truncate = chance(1, 5); b.corrupt = chance(1, 5);
    Stack st;
    buildStack(st, content, b);
    if (st.top && draw(5)) {
        LooseClient c(st.top, "top", 200000);
        c.run(logsize(12));
    }
    if (!st.top) count("probe.stack_not_opened");
    // all but the input
    if (!Stack::bottomFirst && !st.levels.empty()) {
        size_t keep = st.cleanup.size() > 1 && st.desc.find("file(") == std::string::npos && st.desc.find("mmap(") == std::string::npos ? 1 : 2;
        while (st.cleanup.size() > keep) { st.cleanup.back()(); st.cleanup.pop_back(); }
        InputStream* base = st.levels[0];
        const char* p;
        if (st.rep.destroyed) fail("input-deleted", "release", "a stream deleted its input");
        int32_t n = base->read(p, 1, 100);
        if (n > 0) evbytes(p, (size_t)n);
        ev("the input is at %lld, status %d", (long long)base->position(), (int)base->status());
        count("probe.input_used_afterwards");
    }
}
static void runC19() {
    disk().reset();
    static const struct { const char* id; bool leave; } scenarios[] = {
        {"", true}, {"", true}, {"C08", true}, {"C08", true}, {"C01", true}, {"C04", true}, {"C05", true}, {"C06", true}, {"C07", true}, {"C09", true},
        {"C10", true}, {"C10", true}, {"C11", true}, {"C12", true}, {"C13", true}, {"C14", false}, {"C15", false},
    };
    auto& s = scenarios[draw(sizeof scenarios / sizeof *scenarios)];
    Stack::bottomFirst = s.leave && chance(1, 4);
    abandonAfter = s.leave && draw(8) ? (int64_t)logsize(flip() ? 10 : 80) : -1;
    ev("scenario %s, leave after %lld calls%s", s.id[0] ? s.id : "stack", (long long)abandonAfter, Stack::bottomFirst ? ", input destroyed first" : "");
    try {
        if (s.id[0]) runScenario(s.id); else leaveHalfway();
    } catch (const Abandon&) { count("fault.abandoned"); nontrivial(); }
    if (Stack::bottomFirst) count("fault.input_destroyed_first");
    abandonAfter = -1;
    Stack::bottomFirst = false;
    if (!disk().lastProblem.empty()) fail("handle-misuse", "release", "%s", disk().lastProblem.c_str());
    if (disk().openHandles != 0) fail("handle-leak", "release", "%lld of %lld handles and mappings are still open", (long long)disk().openHandles, (long long)disk().opened);
    disk().reset();
}
static Registrar r19({"C19", runC19, 600000000ull, true, 150000, 2000000});
} // namespace sim
