// C06: file-backed streams on a faulty disk.  C07: files that change size while being read.
#include "stacks.h"
#include "client.h"
#include <strigi/fileinputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/dataeventinputstream.h>
#include <cstdio>
using namespace Strigi;
namespace sim {

static const char* kindName[] = {"buffered", "skipping", "mmap", "FILE*"};
struct Ignore : DataEventHandler { bool handleData(const char*, uint32_t) { return true; } };

static InputStream* openKind(int kind, const char* path, int32_t bs) {
    switch (kind) {
    case 0: return flip() ? new FileInputStream(path, bs) : FileInputStream::open(path, FileInputStream::Buffered, bs);
    case 1: return FileInputStream::open(path, flip() ? FileInputStream::Unbuffered : FileInputStream::Automatic);
    case 2: return FileInputStream::open(path, FileInputStream::MMap);
    default: { FILE* f = fopen(path, "rb"); return new FileInputStream(f, path, bs); }
    }
}
static void checkReleased(const char* name) {
    if (!disk().lastProblem.empty()) fail("handle-misuse", name, "%s: %s", name, disk().lastProblem.c_str());
    if (disk().openHandles != 0) fail("handle-leak", name, "%s: %lld of %lld handles and mappings are still open after destruction", name, (long long)disk().openHandles, (long long)disk().opened);
}

void bigStreamRun(bool file);
static void runC06() {
    disk().reset();
    if (chance(1, 500)) { bigStreamRun(true); return; }
    int kind = (int)draw(4);
    std::string content = randomBytes(contentSize());
    std::string path = "/sim/file";
    auto f = disk().put(path, content);
    bool soft = false, hard = false, openFault = false, hopeless = false;
    f->onFault = [&](bool h) { if (h) hard = true; else soft = true; };
    uint32_t n = (uint32_t)content.size();
    f->shortReads = flip();
    if (kind != 2 && chance(1, 4)) f->unseekable = true;
    else if (kind != 2 && chance(1, 6)) f->reportZeroSize = true;
    uint32_t what = draw(9);
    switch (what) {
    case 1: f->openFails = true; openFault = true; break;
    case 2: disk().files.erase(path); count("fault.disk_missing_file"); openFault = true; break;
    case 3: f->dir = true; f->mmapFails = true; f->eioAt = -1 - (int64_t)draw(3); f->data = flip() ? "x" : ""; hopeless = true; break;
    case 4: if (kind == 2 && n) { f->fstatFails = true; openFault = true; break; }   // fall through
    case 5: if (kind == 2 && n) { f->mmapFails = true; openFault = true; break; }   // fall through
    case 6: if (kind != 2) f->seekFailAt = (int)draw(chance(1, 2) ? 3 : 8); break;
    case 7: case 8:
        if (kind != 2) switch (draw(4)) {
        case 0: f->eioAt = draw(n + 1); break;
        case 1: f->eioAt = n; break;
        case 2: f->eioAt = n - logsize(n); break;
        default: f->eioAt = n / 4096 * 4096; break;
        }
        if (kind != 2 && chance(1, 6)) { f->eintr = true; }
        break;
    default: break;
    }
    // without stat() the unbuffered stream meets files it would leave to the others
    if (kind == 1 && chance(1, 5)) f->statFails = f->quietStat = true;
    int32_t bs = flip() ? 1048576 : 1 + (int32_t)logsize(20000);
    bool nullPath = kind != 3 && chance(1, 60);
    if (nullPath) openFault = true;
    ev("%s file of %u, fault %u%s%s eio %lld seekfail %d bs %d", kindName[kind], n, what, f->unseekable ? " unseekable" : "", f->reportZeroSize ? " zero-size" : "", (long long)f->eioAt, f->seekFailAt, bs);
    InputStream* s = openKind(kind, nullPath ? 0 : path.c_str(), bs);
    nontrivial();
    if (openFault) {
        if (s->status() != Strigi::Error) fail("open-failure-hidden", kindName[kind], "%s: opening failed but the status is %d", kindName[kind], (int)s->status());
        if (!s->error() || !s->error()[0]) fail("error-without-message", "open", "%s: opening failed but error() is empty", kindName[kind]);
        count("probe.open_failure_reported");
    }
    Ignore h;
    Stack st;
    st.cleanup.push_back([s]() { delete s; });
    InputStream* top = s;
    uint32_t over = openFault || s->status() != Strigi::Ok ? 0 : draw(5);
    if (over == 3) { top = new SubInputStream(s); st.cleanup.push_back([top]() { delete top; }); }
    if (over == 4) { top = new DataEventInputStream(s, h); st.cleanup.push_back([top]() { delete top; }); }
    auto maybe = [&]() { return openFault || hard || soft; };
    ClientOpts c; c.maxOps = 16; c.segRate = 6; c.rewindMayFail = soft || f->seekFailAt >= 0;
    if (chance(1, 12)) count("probe.destroyed_unused");
    else if (hopeless) {
        const char* p;
        int32_t r = top->read(p, 1, (int32_t)draw(4));
        if (r > -2 || top->status() != Strigi::Error) fail("open-failure-hidden", kindName[kind], "%s: reading a directory returned %d, status %d", kindName[kind], r, (int)top->status());
        if (!top->error()[0]) fail("error-without-message", "read", "%s: reading a directory failed but error() is empty", kindName[kind]);
        count("probe.disk_fault_reported");
    }
    else {
        Client<char> cl(top, content, c, maybe, kindName[kind]);
        cl.mustFail = [&]() { return openFault || disk().readErrorTold; };
        cl.run();
        if (cl.failed) count("probe.disk_fault_reported");
    }
    st.destroy();
    checkReleased(kindName[kind]);
}

static void runC07() {
    disk().reset();
    int kind = (int)draw(2);
    std::string all = randomBytes(contentSize() + 1 + logsize(6000));
    uint32_t total = (uint32_t)all.size();
    uint32_t n0 = flip() ? total - logsize(total) : draw(total + 1);
    std::string path = "/sim/file";
    auto f = disk().put(path, all.substr(0, n0));
    f->shortReads = chance(1, 3);
    if (chance(1, 8)) f->unseekable = true;
    // the moments: disk operations or client calls
    uint32_t smallest = n0, changes = 0, budget = 1 + draw(3);
    auto change = [&](const char* when) {
        if (changes >= budget) return;
        ++changes;
        uint32_t now = (uint32_t)f->data.size(), to;
        switch (draw(5)) {
        case 0: to = total; break;
        case 1: to = now - logsize(now); break;
        case 2: to = now + logsize(total - now); break;
        case 3: to = 0; break;
        default: to = draw(total + 1); break;
        }
        if (to == now) return;
        f->data = all.substr(0, to);
        if (to < smallest) smallest = to;
        count(to > now ? "fault.file_grows" : "fault.file_shrinks");
        ev("disk: %s: size %u -> %u", when, now, to);
    };
    uint32_t opRate = chance(2, 3) ? 1 + draw(12) : 0, callRate = chance(2, 3) ? 1 + draw(8) : 0;
    f->onOp = [&]() { if (opRate && chance(1, opRate)) change("during I/O"); };
    int32_t bs = flip() ? 1048576 : 1 + (int32_t)logsize(20000);
    ev("%s file of %u (up to %u) bs %d%s", kindName[kind], n0, total, bs, f->unseekable ? " unseekable" : "");
    InputStream* s = openKind(kind, path.c_str(), bs);
    Ignore h;
    Stack st;
    st.cleanup.push_back([s]() { delete s; });
    if (s->status() == Strigi::Error) fail("unexpected-error", "open", "opening failed: %s", s->error());
    int64_t announced = s->size();
    if (announced > (int64_t)total) fail("wrong-size", "open", "size() is %lld, the file never had more than %u", (long long)announced, total);
    InputStream* top = s;
    switch (draw(4)) {
    case 1: top = new SubInputStream(s); st.cleanup.push_back([top]() { delete top; }); break;
    case 2: top = new DataEventInputStream(s, h); st.cleanup.push_back([top]() { delete top; }); break;
    case 3: if (announced > 0) { announced = draw((uint32_t)announced + 1); top = new SubInputStream(s, announced); st.cleanup.push_back([top]() { delete top; }); } break;
    default: break;
    }
    int64_t ann2 = top->size();
    if (announced >= 0 && ann2 >= 0 && ann2 != announced) fail("wrong-size", "open", "size() is %lld through the layer, %lld below", (long long)ann2, (long long)announced);
    uint32_t ops = logsize(20), guard = 0;
    int64_t pos = 0;
    bool failed = false, ended = false;
    bool draining = false;
    while (!failed && !(draining && ended)) {
        if (!ops) draining = true; else --ops;
        if (++guard > 3000) fail("no-progress", "read", "%lld after %u calls", (long long)pos, guard);
        clientCall();
        if (callRate && chance(1, callRate)) change("between calls");
        uint32_t k = draining ? 9 : draw(10);
        if (k < 2) {
            int64_t m = draw(3) ? (int64_t)logsize(total + 5) : announced > 0 ? announced - pos : 100, r = top->skip(m);
            ev("skip(%lld)=%lld st=%d", (long long)m, (long long)r, (int)top->status());
            if (top->status() == Strigi::Error) failed = true;
            else {
                if (r < -1 || (m >= 0 && r > m)) fail("skip-too-far", "skip", "skip(%lld)=%lld", (long long)m, (long long)r);
                if (r > 0) pos += r;
            }
        } else if (k < 4) {
            int64_t q = draw((uint32_t)pos + 1), r = top->reset(q);
            ev("reset(%lld)=%lld st=%d", (long long)q, (long long)r, (int)top->status());
            if (top->status() == Strigi::Error) failed = true;
            else { if (r != q && r != pos) fail("reset-elsewhere", "reset", "reset(%lld) from %lld gave %lld", (long long)q, (long long)pos, (long long)r); pos = r; }
        } else {
            int32_t min = 1 + (int32_t)logsize(flip() ? 5 : 3000), max = draw(3) ? min + (int32_t)logsize(2000) : 0;
            if (draining && guard > 200) { min = 1; max = 0; }
            const char* p; int32_t r = top->read(p, min, max);
            ev("read(%d,%d)=%d st=%d", min, max, r, (int)top->status());
            if (top->status() == Strigi::Error || r < -1) failed = true;
            else {
                if (r == 0) fail("no-data", "read", "read returned 0");
                if (max >= min && r > max) fail("more-than-max", "read", "read(%d,%d)=%d", min, max, r);
                for (int32_t i = 0; i < r; ++i)
                    if (pos + i >= (int64_t)total || p[i] != all[(size_t)(pos + i)]) fail("wrong-data", "read", "byte at %lld is not the file's", (long long)(pos + i));
                if (r > 0) pos += r;
                if (r < min && top->status() != Strigi::Eof) fail("end-without-status", "read", "read(%d,%d)=%d, status %d", min, max, r, (int)top->status());
                if (r < 0) ended = true;
            }
        }
        if (failed) {
            if (top->status() != Strigi::Error) fail("error-without-status", "read", "a failing call, status %d", (int)top->status());
            if (!top->error()[0]) fail("error-without-message", "read", "the call failed at %lld but error() is empty", (long long)pos);
            if (!changes) fail("unexpected-error", "read", "the file did not change but the stream failed at %lld: %s", (long long)pos, top->error());
            const char* p; int32_t r = top->read(p, 1, 0);
            if (r != -2) fail("error-not-sticky", "read", "after a failure read returned %d", r);
            count("probe.change_reported_as_error");
            break;
        }
        if (announced >= 0 && pos > announced) fail("beyond-announced-size", "read", "at %lld, announced were %lld", (long long)pos, (long long)announced);
        if (top->position() != pos) fail("wrong-position", "read", "position() is %lld, should be %lld", (long long)top->position(), (long long)pos);
        ended = top->status() == Strigi::Eof;
        if (ended) {
            if (announced >= 0 && pos != announced) fail("early-end", "read", "the end is at %lld, announced were %lld", (long long)pos, (long long)announced);
            if (top->size() != pos) fail("size-unknown-at-end", "read", "at the end (%lld) size() is %lld", (long long)pos, (long long)top->size());
        }
    }
    if (changes) nontrivial();
    st.destroy();
    checkReleased(kindName[kind]);
}
static Registrar r6({"C06", runC06, 300000000, false, 800000, 2000000});
static Registrar r7({"C07", runC07, 300000000, false, 1200000, 2000000});
} // namespace sim
