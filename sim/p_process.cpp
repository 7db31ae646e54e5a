// C16: streams that run external commands, on a simulated kernel.
#include "stacks.h"
#include "client.h"
#include "simstream.h"
#include "kernel.h"
#include <strigi/processinputstream.h>
#include <cerrno>
using namespace Strigi;
namespace sim {

struct Filter {
    std::string name;
    std::shared_ptr<Program> prog;
    std::string input, truth;
    bool hasInput = false;
    SimReport rep;
    std::unique_ptr<SimStream> up;
    InputStream* feed = 0;           // where the input comes from
    int chainedTo = -1;
    std::unique_ptr<ProcessInputStream> s;
    std::unique_ptr<Client<char> > c;
    bool createFault = false, alive = false;
};

static std::shared_ptr<Program> randomProgram(size_t inSize) {
    std::shared_ptr<Program> p(new Program);
    uint32_t big = inSize > 20000 ? 2 : 4;
    switch (draw(8)) {
    case 0: break;                                                   // cat
    case 1: p->expand = 1 + draw(big); break;
    case 2: p->expand = 0; p->epilogue = 1; break;                   // sort: output after the whole input
    case 3: p->expand = 0; p->epilogue = 2; p->fixedEpilogue = randomBytes(logsize(30000)); break;
    case 4: p->readLimit = logsize((uint32_t)inSize + 10); p->closeIn = flip(); if (flip()) { p->epilogue = 2; p->fixedEpilogue = randomBytes(logsize(20000)); } break;   // head
    case 5: p->prologue = randomBytes(logsize(draw(8) == 0 ? 150000 : 9000)); break;       // output first
    case 6: p->readLimit = 0; p->closeIn = flip(); p->prologue = randomBytes(logsize(draw(8) == 0 ? 150000 : 9000)); break;     // echo
    default: p->expand = draw(big + 1); p->prologue = randomBytes(logsize(2000)); p->epilogue = (int)draw(3); p->fixedEpilogue = "the end\n"; break;
    }
    p->closeOut = chance(1, 4);
    p->ignoresTerm = chance(1, 8);
    p->linger = chance(1, 3) ? logsize(40) : 0;
    p->startDelay = chance(1, 3) ? logsize(60) : 0;
    if (chance(1, 3)) { p->stallEvery = 2 + draw(6); p->stallFor = 1 + logsize(20); }
    size_t total = inSize * (1 + p->expand + (p->epilogue == 1)) + p->prologue.size() + p->fixedEpilogue.size();
    uint32_t lo = (uint32_t)(total / 200) + 1;
    p->readChunk = flip() ? 65536 : lo + logsize(20000);
    p->writeChunk = flip() ? 65536 : lo + logsize(20000);
    if (chance(1, 10)) p->crashAt = logsize((uint32_t)total + 1);
    return p;
}

static void runC16() {
    Kernel& k = kernel();
    k.reset();
    static const size_t caps[] = {65536, 4096, 4096, 12288};
    k.capacity = caps[draw(4)];
    k.eagerness = (int)draw(4);
    k.eintrLeft = chance(1, 3) ? 1 + draw(8) : 0;
    k.shortWrites = chance(1, 4);
    k.sigpipeIgnored = chance(1, 4);
    if (chance(1, 6)) { k.blockedPipe = true; k.pendingPipe = flip(); count("sched.application_blocks_sigpipe"); }
    if (chance(1, 4)) k.appBuffered = "text the application has not flushed yet";
    // descriptors the application has
    uint32_t closedStdio = chance(1, 6) ? 1 + draw(7) : 0;
    if (closedStdio) count("fault.closed_stdio");
    for (int i = 0; i < 3; ++i) if (!(closedStdio & (1u << i))) { Kernel::Fd f; f.e.reset(new Kernel::End(0, false, k.nextId++)); k.self[i] = f; }
    uint32_t extra = draw(3);
    for (uint32_t i = 0; i < extra; ++i) { Kernel::Fd f; f.e.reset(new Kernel::End(0, false, k.nextId++)); k.self[3 + 2 * (int)i] = f; }
    Kernel::Table before = k.self;
    bool ignoredBefore = k.sigpipeIgnored, blockedBefore = k.blockedPipe, pendingBefore = k.pendingPipe;
    uint32_t n = 1 + (chance(1, 2) ? draw(3) : 0);
    if (chance(1, 10)) { k.pipeFailAt = (int)draw(2 * n + 2); }
    if (chance(1, 12)) { k.forkFailAt = (int)draw(n); }
    if (chance(1, 8)) k.ioFailIn = (int)logsize(40);
    if (chance(1, 16)) k.pollFailIn = (int)logsize(40);
    std::vector<std::unique_ptr<Filter> > fs;
    for (uint32_t i = 0; i < n; ++i) {
        std::unique_ptr<Filter> f(new Filter);
        f->name = strf("p%u", i);
        f->hasInput = !chance(1, 4);
        if (f->hasInput && i && chance(1, 3) && fs[i - 1]->prog->output(fs[i - 1]->input).size() < 3000) {
            f->chainedTo = (int)i - 1;
            // nobody else may read the stream that feeds this one
            for (auto& g : fs) if (g->chainedTo == f->chainedTo) f->chainedTo = -1;
        }
        if (f->chainedTo >= 0) f->input = fs[(size_t)f->chainedTo]->prog->output(fs[(size_t)f->chainedTo]->input);
        else if (f->hasInput) { uint32_t z = draw(12); f->input = randomBytes(z == 11 ? logsize(200000) : z > 7 ? 4000 + draw(20000) : logsize(9000)); }
        f->prog = randomProgram(f->input.size());
        if (chance(1, 14)) f->prog->execErrno = flip() ? ENOENT : EACCES;
        std::string path = strf("/sim/bin/%u", i);
        f->prog->argv.push_back(path);
        uint32_t na = draw(4);
        for (uint32_t j = 0; j < na; ++j) f->prog->argv.push_back(draw(4) == 0 ? std::string() : randomText(logsize(60)));
        for (auto& a : f->prog->argv) for (auto& ch : a) if (!ch) ch = '0';
        if (f->prog->execErrno != ENOENT) k.programs[path] = f->prog;
        if (f->hasInput && f->chainedTo < 0) {
            SimConfig c = SimConfig::random();
            if (f->input.size() > 600 && c.chunkStyle != 0) { if (flip()) c.chunkStyle = 0; else { c.chunkStyle = 4; c.chunkFixed = (uint32_t)f->input.size() / 120 + draw(5000); } }
            if (chance(1, 8)) c.errorAt = draw((uint32_t)f->input.size() + 1);
            f->up.reset(new SimStream(f->input, c, &f->rep));
            f->feed = f->up.get();
            // part of the input may have been used already
            if (chance(1, 6) && c.errorAt < 0) {
                const char* b; uint32_t skip = logsize((uint32_t)f->input.size());
                if (skip) { int32_t r = f->up->read(b, (int32_t)skip, (int32_t)skip); if (r > 0) f->input = f->input.substr((size_t)r); }
                if (flip() && f->input.empty()) f->up->read(b, 1, 0);
            }
        }
        if (f->chainedTo < 0) f->truth = f->prog->output(f->input);
        fs.push_back(std::move(f));
    }
    ClientOpts o;
    o.maxOps = 12;
    o.beyond = false;
    o.bulk = true;
    o.maxSkip = 1500;
    k.active = true;
    std::vector<int> order;
    for (uint32_t i = 0; i < n; ++i) order.push_back((int)i);
    size_t created = 0, guard = 0;
    bool abandon = chance(1, 3);
    for (;;) {
        // anything left to do?
        std::vector<int> can;
        if (created < n) can.push_back(-1);
        for (size_t i = 0; i < created; ++i) {
            bool used = false;
            for (size_t j = 0; j < n; ++j) if (fs[j]->chainedTo == (int)i && (j >= created || fs[j]->alive)) used = true;
            if (fs[i]->alive && !used) can.push_back((int)i);
        }
        if (can.empty()) break;
        if (++guard > 400) abandon = true;
        int w = can[draw((uint32_t)can.size())];
        if (w < 0) {
            Filter& f = *fs[created];
            if (f.chainedTo >= 0) {
                Filter& u = *fs[(size_t)f.chainedTo];
                f.feed = u.s.get();
                // the stream has what its first reader left
                f.input = u.truth.substr((size_t)u.c->pos);
                f.truth = f.prog->output(f.input);
                u.c->failed = true;
            }
            int faultsBefore = k.lastFault;
            ev("%s: create (input %d, %zu bytes, chained %d), output %zu", f.name.c_str(), (int)f.hasInput, f.input.size(), f.chainedTo, f.truth.size());
            k.owner = (int)created;
            f.s.reset(lib([&]() { return new ProcessInputStream(f.prog->argv, f.hasInput ? f.feed : 0); }));
            k.owner = -1;
            f.alive = true;
            f.createFault = k.lastFault > faultsBefore || f.prog->execErrno;
            if (f.prog->execErrno) count("fault.exec");
            std::vector<std::unique_ptr<Filter> >* all = &fs;
            Filter* me = &f;
            int self = (int)created;
            auto bad = [all, me, self]() {
                if (me->createFault || me->rep.errorFired || kernel().ioFailed.count(self)) return true;
                return me->chainedTo >= 0 && (*all)[(size_t)me->chainedTo]->s && (*all)[(size_t)me->chainedTo]->s->status() == Error;
            };
            // a poll that fails may be tried again
            auto may = [bad, self]() { return bad() || kernel().pollFailed.count(self); };
            f.c.reset(new Client<char>(f.s.get(), f.truth, o, may, f.name));
            f.c->mustFail = bad;
            ++created;
            continue;
        }
        Filter& f = *fs[(size_t)w];
        uint32_t what = draw(6);
        if (guard > 1000) what = 5;
        if (what == 5 && (abandon || f.c->ended || f.c->failed)) {
            ev("%s: destroyed at %lld", f.name.c_str(), (long long)f.c->pos);
            if (!f.c->ended && !f.c->failed) count("fault.abandoned");
            f.c.reset();
            f.s.reset();
            f.alive = false;
            continue;
        }
        if (what == 4 && !abandon && !f.c->failed) {
            f.c->drain();
            if (!f.c->failed) nontrivial();
            if (f.c->failed) nontrivial();
            if (!f.c->failed && f.createFault) fail("failure-reported-as-end", "create", "%s: the command could not be started but the stream ends normally", f.name.c_str());
            // the command must have been given everything
            auto ch = k.childOf(f.prog->argv[0]);
            if (!f.c->failed && ch) {
                if (ch->argv != f.prog->argv) fail("wrong-arguments", "exec", "%s: the command was started with other arguments", f.name.c_str());
                if (f.prog->readsAll() && f.hasInput && ch->in != f.input)
                    fail("input-lost", "feed", "%s: the command received %zu bytes, the input has %zu", f.name.c_str(), ch->in.size(), f.input.size());
            }
            f.c->failed = true;       // done
            f.c->ended = true;
            continue;
        }
        if (!f.c->failed) f.c->step();
        else if (what < 3) { const char* b; f.s->read(b, 1, 0); }
    }
    for (size_t i = fs.size(); i-- > 0;) { fs[i]->c.reset(); fs[i]->s.reset(); }
    k.active = false;
    for (auto& f : k.self) if (!before.count(f.first)) fail("descriptor-leak", "fd", "descriptor %d is still open after all streams were destroyed", f.first);
    for (auto& f : before) if (!k.self.count(f.first)) fail("foreign-descriptor", "fd", "descriptor %d of the application was closed", f.first);
    for (auto& c : k.children) if (!c->reaped) fail("child-left", c->dead ? "zombie" : "running", "child %d (%s) was not waited for", c->pid, c->dead ? "zombie" : "running");
    if (k.pendingPipe != pendingBefore) fail("signal-state", "pending", pendingBefore ? "a signal the application has not taken yet is gone" : "a signal is left for the application");
    if (k.blockedPipe != blockedBefore || k.sigpipeIgnored != ignoredBefore) fail("signal-state", "sigpipe", "the application's signal handling was changed");
    k.reset();
}
static Registrar rC16({"C16", runC16, 200000000ull, true, 40000, 400000});
} // namespace sim
