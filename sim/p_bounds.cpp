// C11: sub-stream boundaries.  C12: data events.
#include "stacks.h"
#include "client.h"
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
using namespace Strigi;
namespace sim {

static std::string terminator() {
    std::string t;
    uint32_t tl = 1 + logsize(12), ts = draw(5);
    Rng r(draw32());
    for (uint32_t i = 0; i < tl; ++i) t += ts == 0 ? (char)r.next() : ts == 1 ? 'a' : ts == 2 ? "ab"[r.below(2)] : ts == 3 ? "\n-"[i % 2] : (char)('a' + i);
    return t;
}
// the part of the content before the first occurrence of t
static std::string avoid(std::string c, const std::string& t) {
    std::string both = c + t;
    size_t p = both.find(t);
    if (p < c.size()) c.resize(p);
    return c;
}
static std::string nearTerm(uint32_t len, const std::string& t) {
    // content rich in prefixes of the terminator
    std::string s;
    Rng r(draw32());
    while (s.size() < len) {
        uint32_t k = r.below(3);
        if (k == 0) s += t.substr(0, r.below((uint32_t)t.size()));
        else if (k == 1) s += (char)r.next();
        else s += t.substr(r.below((uint32_t)t.size()));
        if (s.find(t) != std::string::npos) s.resize(s.find(t));
        if (r.below(40) == 0) break;
    }
    return s;
}
static uint32_t small() { return flip() ? logsize(60) : logsize(flip() ? 700 : 6000); }

static void consume(InputStream* parent, const std::string& all, int64_t& at, int depth);

static void useSub(InputStream* parent, const std::string& all, int64_t& at, int depth) {
    // the parent stands at 'at' of 'all'
    int64_t left = (int64_t)all.size() - at;
    bool term = flip();
    if (!term) {
        int64_t len;
        switch (draw(5)) { case 0: len = 0; break; case 1: len = left; break; case 2: len = -1; break; case 3: len = left + 1 + draw(20); break; default: len = left > 0 ? (int64_t)draw((uint32_t)left + 1) : 0; }
        SubInputStream sub(parent, len);
        ev("sub(%lld) at %lld of %zu", (long long)len, (long long)at, all.size());
        std::string body = all.substr((size_t)at, len < 0 ? std::string::npos : (size_t)std::min<int64_t>(len, left));
        if (sub.size() != len) fail("wrong-size", "sub", "size() is %lld, should be %lld", (long long)sub.size(), (long long)len);
        nontrivial();
        bool tooLong = len > left;
        if (depth > 0 && !tooLong && flip()) {
            int64_t sat = 0;
            consume(&sub, body, sat, depth - 1);
        }
        ClientOpts c; c.beyond = true; c.maxOps = 20;
        Client<char> cl(&sub, body, c, [&]() { return tooLong; }, "sub");
        cl.pos = sub.position();
        if (sub.status() == Error) { if (!tooLong) fail("unexpected-error", "sub", "%s", sub.error()); return; }
        if (tooLong) cl.mustFail = []() { return true; };
        cl.run();
        if (tooLong) { if (!cl.failed) fail("failure-reported-as-end", "sub", "a sub-stream of %lld bytes ended normally after %lld", (long long)len, (long long)cl.pos); at = -1; return; }
        at += (int64_t)body.size();
        if (parent->position() != at) fail("parent-position", "sub", "after the sub-stream the enclosing stream is at %lld, should be at %lld", (long long)parent->position(), (long long)at);
        count("probe.consumed_sub");
    } else {
        std::string t;
        if (left > 0 && flip()) { uint32_t p = (uint32_t)at + draw((uint32_t)left), l = 1 + logsize(8); t = all.substr(p, l); }
        else t = terminator();
        size_t f = all.find(t, (size_t)at);
        StringTerminatedSubStream sub(parent, t);
        std::string body = all.substr((size_t)at, f == std::string::npos ? std::string::npos : f - (size_t)at);
        ev("term('%s') at %lld of %zu: body %zu%s", hexs(t).c_str(), (long long)at, all.size(), body.size(), f == std::string::npos ? ", to the end" : "");
        if (sub.offset() != at) fail("wrong-offset", "term", "offset() is %lld, should be %lld", (long long)sub.offset(), (long long)at);
        nontrivial();
        if (depth > 0 && flip()) {
            int64_t sat = 0;
            consume(&sub, body, sat, depth - 1);
        }
        ClientOpts c; c.beyond = true; c.maxOps = 20;
        Client<char> cl(&sub, body, c, []() { return false; }, "term");
        cl.pos = sub.position();
        cl.run();
        at += (int64_t)body.size() + (f == std::string::npos ? 0 : (int64_t)t.size());
        if (parent->position() != at) fail("parent-position", "term", "after the terminated sub-stream the enclosing stream is at %lld, should be at %lld", (long long)parent->position(), (long long)at);
        count("probe.consumed_term");
    }
}
static void consume(InputStream* parent, const std::string& all, int64_t& at, int depth) {
    uint32_t n = 1 + draw(3);
    for (uint32_t i = 0; i < n && at >= 0; ++i) {
        if (flip()) {     // some bytes between
            const char* p;
            int32_t k = parent->read(p, 1, 1 + (int32_t)draw(20));
            if (k > 0) {
                if (memcmp(p, all.data() + at, (size_t)k)) fail("wrong-data", "parent", "the enclosing stream delivers wrong data at %lld", (long long)at);
                at += k;
            } else if (at != (int64_t)all.size()) fail(parent->status() == Strigi::Error ? "unexpected-error" : "early-end", "parent", "the enclosing stream ends at %lld of %zu", (long long)at, all.size());
        }
        useSub(parent, all, at, depth);
    }
    if (at >= 0 && flip()) {
        const char* p;
        int32_t k = parent->read(p, 1, 0);
        if (k <= 0 && at != (int64_t)all.size()) fail(parent->status() == Strigi::Error ? "unexpected-error" : "early-end", "parent", "the enclosing stream ends at %lld of %zu", (long long)at, all.size());
        if (k > 0) {
            if (at + k > (int64_t)all.size() || memcmp(p, all.data() + at, (size_t)k)) fail("wrong-data", "parent", "the enclosing stream delivers wrong data at %lld", (long long)at);
            parent->reset(at);
        }
    }
}
void bigStreamRun(bool file);
static void runC11() {
    disk().reset();
    if (chance(1, 30)) { bigStreamRun(false); return; }
    std::string t = terminator(), all;
    if (flip()) all = randomBytes(small());
    else { uint32_t n = 1 + draw(3); for (uint32_t i = 0; i < n; ++i) all += nearTerm(small(), t) + (chance(3, 4) ? t : ""); }
    BuildOpts b; b.maxDepth = 1; b.layers &= ~((1u << LSub) | (1u << LTerm));
    Stack st;
    buildStack(st, all, b);
    if (!st.top) fail("build-failed", "build", "stack %s could not be opened", st.desc.c_str());
    int64_t at = st.top->position();
    // layers on entries start at 0
    if (at != 0) { return; }
    consume(st.top, all, at, 2);
}

// ---------------------------------------------------------------- C12
struct Recorder : DataEventHandler {
    const std::string& truth; std::string name;
    int64_t seen = 0; int ends = 0; bool declined = false; int64_t declineAt = -1;
    Recorder(const std::string& t, const std::string& n) : truth(t), name(n) {}
    bool handleData(const char* data, uint32_t size) {
        ev("%s: data %u", name.c_str(), size);
        if (ends) fail("event-after-end", name, "%s: data event after the end notification", name.c_str());
        if (declined) fail("event-after-decline", name, "%s: data event after the handler declined", name.c_str());
        if (seen + size > truth.size()) fail("event-beyond-end", name, "%s: events for %lld bytes, the stream has %zu", name.c_str(), (long long)(seen + size), truth.size());
        if (memcmp(data, truth.data() + seen, size)) fail("wrong-event-data", name, "%s: the event at %lld has wrong data", name.c_str(), (long long)seen);
        seen += size;
        if (declineAt >= 0 && seen >= declineAt) { declined = true; count("probe.handler_declined"); return false; }
        return true;
    }
    void handleEnd() {
        ev("%s: end", name.c_str());
        if (++ends > 1) fail("end-twice", name, "%s: second end notification", name.c_str());
        if (!declined && seen != (int64_t)truth.size()) fail("end-before-data", name, "%s: end notification after %lld of %zu bytes", name.c_str(), (long long)seen, truth.size());
    }
};
static void runC12() {
    disk().reset();
    std::string content = randomBytes(contentSize());
    std::string truth = content;
    uint32_t nh = 1 + draw(3);
    bool odd = chance(1, 6);           // the announced size differs from what is there
    bool errors = !odd && chance(1, 4);
    Stack st;
    bool mustErr = false;
    if (odd) {
        SimConfig c = SimConfig::random(true);
        if (flip() && content.size() > 1) { c.announce = (int64_t)draw((uint32_t)content.size()); truth.resize((size_t)c.announce); count("fault.input_longer_than_announced"); }
        else { c.announce = (int64_t)content.size() + 1 + draw(50); mustErr = true; count("fault.input_shorter_than_announced"); }
        if (c.announce == 0) { c.announce = 1; truth = content.substr(0, 1); }
        InputStream* s = new SimStream(content, c, &st.rep);
        st.cleanup.push_back([s]() { delete s; });
        st.top = s;
        st.passthrough = false;
        ev("announced %lld content %zu", (long long)c.announce, content.size());
    } else {
        BuildOpts b; b.maxDepth = 2; b.layers &= ~(1u << LEvent); b.errors = errors;
        buildStack(st, content, b);
        if (!st.top) { if (errors) return; fail("build-failed", "build", "stack %s could not be opened", st.desc.c_str()); }
        if (st.top->position() != 0) return;
    }
    std::vector<Recorder*> rs;
    InputStream* top = st.top;
    std::vector<int> order;
    for (uint32_t i = 0; i < nh; ++i) {
        Recorder* r = new Recorder(truth, strf("h%u", i));
        if (chance(1, 3)) r->declineAt = flip() ? 1 : (int64_t)draw((uint32_t)truth.size() + 1);
        rs.push_back(r);
        st.cleanup.push_back([r]() { delete r; });
        DataEventInputStream* d = new DataEventInputStream(top, *r);
        st.cleanup.push_back([d]() { delete d; });
        top = d;
    }
    ClientOpts c; c.maxOps = 30; c.segRate = 2;
    if (odd) c.beyond = false;
    Client<char> cl(top, truth, c, [&]() { return st.rep.errorFired || mustErr; }, "top");
    if (mustErr) cl.mustFail = []() { return true; };
    else if (st.passthrough) cl.mustFail = [&]() { return st.rep.errorFired; };
    bool early = chance(1, 8);
    if (early) { uint32_t n = draw(6); for (uint32_t i = 0; i < n && !cl.failed; ++i) cl.step(); }
    else {
        uint32_t n = logsize(30);
        for (uint32_t i = 0; i < n && !cl.failed; ++i) {
            cl.step();
            // the client can tell that this is the end, so the handler has been told
            if (!cl.failed && top->status() == Strigi::Eof && rs.back()->ends != 1) fail("no-end-notification", "step", "the status is Eof, %s was not told", rs.back()->name.c_str());
        }
        if (!cl.failed) cl.drain();
    }
    for (auto r : rs) {
        if (!early && !cl.failed) {
            if (r->ends != 1) fail("no-end-notification", r->name, "%s: %d end notifications at the end of the stream", r->name.c_str(), r->ends);
            if (!r->declined && r->seen != (int64_t)truth.size()) fail("missing-events", r->name, "%s: events for %lld of %zu bytes", r->name.c_str(), (long long)r->seen, truth.size());
            count("probe.all_events_seen");
        }
        if (cl.failed && r->ends && r->seen != (int64_t)truth.size() && !r->declined) fail("end-after-error", r->name, "%s: end notification although the stream failed", r->name.c_str());
    }
    if (!truth.empty()) nontrivial();
    st.destroy();
}
static Registrar r11({"C11", runC11, 300000000, false, 400000, 3000000});
static Registrar r12({"C12", runC12, 300000000, false, 200000, 2000000});
} // namespace sim
