// Members and files of many gigabytes, below C01, C04, C06, C08, C09, C11 and C14.
#include "stacks.h"
#include "client.h"
#include "archives.h"
#include "listing.h"
#include "simdisk.h"
#include "simstream.h"
#include <strigi/fileinputstream.h>
#include <strigi/archivereader.h>
#include <strigi/subinputstream.h>
#include <cstdio>
#include <cstring>
using namespace Strigi;
namespace sim {
void arHeader(std::string& out, const std::string& name, int64_t mtime, int64_t size);
void cpioHeader(std::string& out, const std::string& name, int64_t size, int64_t mtime, unsigned mode, bool upper);

struct BigMember {
    std::string name; int64_t size, mtime, dataAt, packed;
    std::string block;           // deflated members: blocks that are stored
};

static int64_t bigSize(int64_t most) {
    int64_t n;
    switch (draw(7)) {
    case 0: n = (1ll << 31) - 10 + (int64_t)draw(20); break;
    case 1: n = (1ll << 32) - 10 + (int64_t)draw(20); break;
    case 2: n = (1ll << 33) - 10 + (int64_t)draw(20); break;
    case 3: n = logsize(5000); break;
    case 4: n = 0; break;
    default: n = (int64_t)(((uint64_t)draw32() << 32 | draw32()) % 20000000000ull); break;
    }
    return n > most ? most - (int64_t)draw(5) : n;
}
static std::shared_ptr<BigContent> bigArchive(int kind, std::vector<BigMember>& ms) {
    std::shared_ptr<BigContent> b(new BigContent);
    uint32_t n = 1 + draw(4);
    if (kind == KAr) b->text("!<arch>\n");
    for (uint32_t i = 0; i < n; ++i) {
        BigMember m;
        m.name = strf("big%u", i);
        m.mtime = (int64_t)(draw32() & 0x7fffffff);
        m.size = bigSize(kind == KAr ? 9999999999ll : kind == KTar ? 077777777777ll : 0xfffffff0ll);
        m.packed = m.size;
        if (kind == KZip && flip()) {
            uint32_t k = 1 + draw(65535);
            m.block = randomBytes(k);
            m.size = m.packed / (k + 5) * k;
            m.packed = m.size / k * (k + 5) + 5;
        }
        std::string h;
        switch (kind) {
        case KTar:
            tarHeader(h, m.name, m.size, m.mtime, '0', true, 0644, "", "", (int)draw(3));
            break;
        case KAr: arHeader(h, m.name + "/", m.mtime, m.size); break;
        case KCpio: cpioHeader(h, m.name, m.size, m.mtime, 0100644, flip()); break;
        default: {
            auto le = [&](uint32_t v, int w) { for (int k = 0; k < w; ++k) h += (char)(v >> (8 * k)); };
            h = "PK\3\4";
            le(20, 2); le(0, 2); le(m.block.size() ? 8 : 0, 2); le(dosTime(2001, 2, 3, 4, 5, 6), 4); le(0x12345678, 4);
            le((uint32_t)m.packed, 4); le((uint32_t)m.size, 4); le((uint32_t)m.name.size(), 2); le(0, 2);
            h += m.name;
            break; }
        }
        b->text(h);
        m.dataAt = b->size;
        if (m.block.size()) {
            uint32_t k = (uint32_t)m.block.size();
            std::string o; o += (char)0; o += (char)k; o += (char)(k >> 8); o += (char)~k; o += (char)(~k >> 8);
            b->repeat(o + m.block, m.size / k);
            b->text(std::string("\1\0\0\377\377", 5));
        } else b->bulk(m.size, draw32());
        if (kind == KTar) b->pad(512, 0);
        if (kind == KAr) b->pad(2, '\n');
        if (kind == KCpio) b->pad(4, 0);
        ms.push_back(m);
    }
    std::string end;
    if (kind == KTar) end = std::string(1024, 0);
    if (kind == KCpio) cpioHeader(end, "TRAILER!!!", 0, 0, 0, false);
    if (kind == KZip) end = std::string("PK\1\2") + std::string(60, 'c');
    b->text(end);
    return b;
}
static Client<char>* bigClient(InputStream* s, std::shared_ptr<BigContent> b, int64_t at, int64_t size, std::function<bool()> ea, const std::string& what) {
    static const std::string none;
    ClientOpts o; o.maxOps = 8;
    Client<char>* c = new Client<char>(s, none, o, ea, what);
    c->bigSize = size;
    c->bigAt = [b, at](int64_t p) { char ch; b->copy(at + p, 1, &ch); return ch; };
    c->bigLazy = [b, at](int64_t p) { b->lazyUntil = p > 0 ? at + p : 0; };
    return c;
}
// cut: the archive is cut off; error: the input fails
void bigArchiveRun(bool cut, bool error) {
    static const int kinds[] = {KTar, KAr, KCpio, KZip};
    int kind = kinds[draw(4)];
    const char* K = kindNames[kind];
    std::vector<BigMember> ms;
    std::shared_ptr<BigContent> b = bigArchive(kind, ms);
    int64_t n = b->size;
    auto somewhere = [&]() {
        const BigMember& m = ms[draw((uint32_t)ms.size())];
        int64_t p = m.dataAt;
        switch (draw(4)) {
        case 0: p += m.packed - (int64_t)logsize(1000); break;
        case 1: p += (int64_t)(((uint64_t)draw32() << 32 | draw32()) % (uint64_t)(m.packed + 1)); break;
        case 2: p -= (int64_t)logsize(100); break;
        default: p += (int64_t)logsize(2000000000); break;
        }
        return p < 0 ? 0 : p >= n ? n - 1 : p;
    };
    int64_t end = cut ? somewhere() : n;
    if (cut) count("fault.archive_cut");
    SimConfig c = SimConfig::random();
    if (error) c.errorAt = somewhere();
    SimReport rep;
    SimStream up(b, end, c, &rep);
    InputStream* in = &up;
    std::unique_ptr<SubInputStream> sub;
    if (chance(1, 3)) { sub.reset(new SubInputStream(in, flip() && !error ? end : -1)); in = sub.get(); }
    ev("%s of %lld bytes, %zu members, cut %lld error %lld", K, (long long)n, ms.size(), cut ? (long long)end : -1ll, (long long)c.errorAt);
    count("probe.archive_of_gigabytes");
    nontrivial();
    std::unique_ptr<SubStreamProvider> p(newProvider(kind, in));
    auto errOk = [&]() { return cut || rep.errorFired; };
    uint32_t i = 0;
    bool entryFailed = false;
    for (;; ++i) {
        clientCall();
        InputStream* e = lib([&]() { return p->nextEntry(); });
        ev("%s: nextEntry -> %s '%s'", K, e ? "entry" : "none", e ? p->entryInfo().filename.c_str() : "");
        if (!e) break;
        if (p->status() != Strigi::Ok) fail("entry-without-status", K, "%s: nextEntry() gave an entry, the status is %d", K, (int)p->status());
        if (i >= ms.size()) fail("extra-entry", K, "%s: entry %u '%s' is not in the archive of %zu", K, i, hexs(p->entryInfo().filename, 100).c_str(), ms.size());
        const BigMember& m = ms[i];
        if (p->entryInfo().filename != m.name) fail("wrong-name", K, "%s: entry %u is called '%s', should be '%s'", K, i, hexs(p->entryInfo().filename, 100).c_str(), m.name.c_str());
        if (p->entryInfo().size != m.size) fail("wrong-size", K, "%s: entry %u has announced size %lld, should be %lld", K, i, (long long)p->entryInfo().size, (long long)m.size);
        if (kind != KZip && p->entryInfo().mtime != (time_t)m.mtime) fail("wrong-time", K, "%s: entry %u has time %lld, should be %lld", K, i, (long long)p->entryInfo().mtime, (long long)m.mtime);
        if (draw(4)) {
            std::unique_ptr<Client<char> > cl(bigClient(e, b, m.dataAt, m.size, errOk, strf("%s[%u]", K, i)));
            if (m.block.size()) {
                cl->bigAt = [&m](int64_t p) { return m.block[(size_t)(p % (int64_t)m.block.size())]; };
                cl->o.maxSkip = 300000;
                cl->bigRun(m.size < 300000 && flip());
            } else cl->bigRun(flip());
            if (cl->failed) entryFailed = true;
        }
    }
    if (p->status() == Strigi::Ok) fail("end-without-status", K, "%s: nextEntry() gave nothing, the status is still Ok", K);
    if (p->status() == Strigi::Error) {
        if (!errOk()) fail("unexpected-error", K, "%s: the listing failed at entry %u of %zu without a fault: %s", K, i, ms.size(), p->error());
        if (!p->error()[0]) fail("error-without-message", K, "%s: the listing failed at entry %u but error() is empty", K, i);
        count(cut ? "probe.cut_reported" : "probe.error_reached_client");
    } else {
        if (rep.errorFired) fail("failure-reported-as-end", K, "%s: the input failed, the listing ends normally after %u of %zu entries", K, i, ms.size());
        if (!cut && i < ms.size()) fail("missing-entry", K, "%s: the listing ends after %u of %zu entries", K, i, ms.size());
    }
    if (cut) {
        uint32_t complete = 0; bool inData = false;
        for (auto& m : ms) { if (m.dataAt + m.packed <= end) ++complete; else if (m.dataAt <= end) inData = true; }
        if (i < complete && !entryFailed) fail("missing-entry", K, "%s cut at %lld: %u entries listed, %u are complete", K, (long long)end, i, complete);
        if (inData && p->status() != Strigi::Error) fail("cut-reported-as-end", K, "%s cut at %lld of %lld, inside the data of an entry: the listing ends normally after %u entries", K, (long long)end, (long long)n, i);
    }
    p.reset();
}
// sub-streams far behind the start of a large stream; a large file
void bigStreamRun(bool file) {
    std::shared_ptr<BigContent> b(new BigContent);
    b->bulk(bigSize(1ll << 50), draw32());
    int64_t n = b->size, at = 0;
    SimReport rep;
    Stack st;
    InputStream* s;
    if (file) {
        auto f = disk().put("/sim/big", "");
        f->big = b;
        bool buffered = !draw(3);
        f->shortReads = !buffered && chance(1, 4);
        s = FileInputStream::open("/sim/big", buffered ? FileInputStream::Buffered : flip() ? FileInputStream::Unbuffered : FileInputStream::Automatic);
        if (s->status() != Strigi::Ok && !(n == 0 && s->status() == Strigi::Eof)) fail("unexpected-error", "open", "opening a file of %lld bytes: status %d, %s", (long long)n, (int)s->status(), s->error());
        if (s->size() != n) fail("wrong-size", "open", "size() of a file of %lld bytes is %lld", (long long)n, (long long)s->size());
    } else s = new SimStream(b, n, SimConfig::random(), &rep);
    st.cleanup.push_back([s]() { delete s; });
    InputStream* top = s;
    int64_t size = n;
    uint32_t depth = draw(file ? 2 : 3);
    for (uint32_t i = 0; i < depth; ++i) {
        int64_t off = (int64_t)(((uint64_t)draw32() << 32 | draw32()) % (uint64_t)(size + 1));
        if (flip()) off = (int64_t)logsize(1000);
        if (off > size) off = size;
        if (off && top->skip(off) != off) fail("short-skip", "skip", "skip(%lld) in a stream of %lld", (long long)off, (long long)size);
        bool sized = flip();
        int64_t len = size - off;
        if (sized && len) len -= (int64_t)(flip() ? logsize((uint32_t)std::min<int64_t>(len, 1000)) : (int64_t)(((uint64_t)draw32() << 32 | draw32()) % (uint64_t)len));
        InputStream* t = new SubInputStream(top, sized ? len : -1);
        st.cleanup.push_back([t]() { delete t; });
        top = t; at += off; size = len;
    }
    ev("stream of %lld bytes at %lld of %lld", (long long)size, (long long)at, (long long)n);
    count("probe.stream_of_gigabytes");
    nontrivial();
    {
        std::unique_ptr<Client<char> > c(bigClient(top, b, at, size, []() { return false; }, file ? "file" : "big"));
        c->o.maxOps = 14;
        c->bigRun(flip());
    }
    st.destroy();
    if (disk().openHandles != 0) fail("handle-leak", "big", "%lld handles are still open", (long long)disk().openHandles);
}
// a large archive through the facade
struct BigOpener : StreamOpener {
    std::shared_ptr<BigContent> b;
    SimConfig c;
    int64_t mtime = 77;
    InputStream* openStream(const std::string& url) { return url == "big/file" ? new SimStream(b, b->size, c, 0) : 0; }
    int stat(const std::string& url, EntryInfo& e) {
        if (url != "big/file") return -1;
        e.type = EntryInfo::File; e.size = b->size; e.mtime = mtime; e.filename = "file";
        return 0;
    }
};
void bigFacadeRun() {
    static const int kinds[] = {KTar, KAr, KZip};
    int kind = kinds[draw(3)];
    std::vector<BigMember> ms;
    BigOpener mem;
    std::shared_ptr<BigContent> b = mem.b = bigArchive(kind, ms);
    FileStreamOpener fso;
    std::string root = "big/file";
    if (b->size < 5000000000ll && chance(1, 4)) {       // the buffered file stream reads everything
        root = "/sim/file";
        auto f = disk().put(root, "", mem.mtime);
        f->big = b;
    }
    ev("%s of %lld bytes, %zu members at %s", kindNames[kind], (long long)b->size, ms.size(), root.c_str());
    count("probe.facade_of_gigabytes");
    nontrivial();
    auto same = [&](const EntryInfo& e, const BigMember& m, const char* op) {
        if (e.filename != m.name) fail("wrong-name", op, "'%s' is called '%s'", m.name.c_str(), hexs(e.filename, 100).c_str());
        if (e.size != m.size) fail("wrong-size", op, "'%s' has size %lld, should be %lld", m.name.c_str(), (long long)e.size, (long long)m.size);
        if (e.type != EntryInfo::File) fail("wrong-type", op, "'%s' has type %d", m.name.c_str(), (int)e.type);
    };
    {
        ArchiveReader r;
        mem.c = SimConfig::random(true);
        r.addStreamOpener(&fso); r.addStreamOpener(&mem);
        std::vector<std::pair<InputStream*, std::unique_ptr<Client<char> > > > open;
        uint32_t n = 1 + logsize(8);
        for (uint32_t i = 0; i < n; ++i) {
            const BigMember& m = ms[draw((uint32_t)ms.size())];
            std::string p = root + "/" + m.name;
            switch (draw(4)) {
            case 0: {
                EntryInfo e;
                clientCall();
                if (r.stat(p, e) != 0) fail("stat-fails", "stat", "'%s' is not found", p.c_str());
                same(e, m, "stat");
                break; }
            case 1: {
                clientCall();
                ArchiveReader::DirLister l = r.dirEntries(root);
                EntryInfo e;
                size_t k = 0;
                for (; l.nextEntry(e); ++k) {
                    clientCall();
                    if (k >= ms.size()) fail("extra-entry", "list", "'%s' is listed", hexs(e.filename, 100).c_str());
                    same(e, ms[k], "list");
                }
                if (k != ms.size()) fail("missing-entry", "list", "%zu of %zu entries are listed", k, ms.size());
                break; }
            default: {
                clientCall();
                InputStream* s = r.openStream(p);
                ev("openStream %s: %d", p.c_str(), s != 0);
                if (!s) fail("open-fails", "openStream", "'%s' cannot be opened", p.c_str());
                std::unique_ptr<Client<char> > c(bigClient(s, b, m.dataAt, m.size, []() { return false; }, m.name));
                if (m.block.size()) {
                    std::string block = m.block;
                    c->bigAt = [block](int64_t q) { return block[(size_t)(q % (int64_t)block.size())]; };
                    c->o.maxSkip = 300000;
                } else if (root[0] == '/') c->o.maxSkip = 2000000000;
                c->bigRun(m.size < 300000 && flip());
                if (flip()) { c.reset(); r.closeStream(s); }
                else open.push_back(std::make_pair(s, std::move(c)));
                break; }
            }
        }
        for (auto& o : open) { o.second->bigRun(false); o.second.reset(); if (flip()) r.closeStream(o.first); }
    }
    if (disk().openHandles != 0) fail("handle-leak", "big", "%lld handles are still open", (long long)disk().openHandles);
}
} // namespace sim
