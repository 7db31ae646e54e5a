// C22: recognising a format under every delivery of the leading bytes.
#include "stacks.h"
#include "client.h"
#include "archives.h"
#include "listing.h"
#include <strigi/archivereader.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/subinputstream.h>
#include <cstring>
#include <memory>
using namespace Strigi;
namespace sim {

enum { FGzip = KindCount, FBz2, FLzma, FCount };
static const char* fmtName(int f) { static const char* n[] = {"gzip", "bzip2", "lzma"}; return f < KindCount ? kindNames[f] : n[f - KindCount]; }
static bool check(int f, const std::string& s, size_t n) {
    if (n > s.size()) n = s.size();
    std::unique_ptr<char[]> p(new char[n]);          // exactly the bytes announced
    memcpy(p.get(), s.data(), n);
    int32_t l = (int32_t)n;
    switch (f) {
    case KTar: return TarInputStream::checkHeader(p.get(), l);
    case KZip: return ZipInputStream::checkHeader(p.get(), l);
    case KCpio: return CpioInputStream::checkHeader(p.get(), l);
    case KAr: return ArInputStream::checkHeader(p.get(), l);
    case KRpm: return RpmInputStream::checkHeader(p.get(), l);
    case KMail: return MailInputStream::checkHeader(p.get(), l);
    case KSdf: return SdfInputStream::checkHeader(p.get(), l);
    case KOle: return OleInputStream::checkHeader(p.get(), l);
    case FGzip: return GZipInputStream::checkHeader(p.get(), l);
    case FBz2: return BZ2InputStream::checkHeader(p.get(), l);
    default: return LZMAInputStream::checkHeader(p.get(), l);
    }
}
// how many bytes decide the format
static size_t needed(int f) {
    switch (f) {
    case KTar: return 257; case KZip: return 9; case KCpio: return 6; case KAr: return 8; case KRpm: return 6; case KSdf: return 330; case KOle: return 9;
    case FGzip: return 3; case FBz2: return 10; case FLzma: return 13;
    default: return 1024;
    }
}
// formats with a signature; -1: the format has none
static int hasSignature(int f, const std::string& s) {
    auto is = [&](const char* m, size_t n, size_t at = 0) { return s.size() >= at + n && !memcmp(s.data() + at, m, n); };
    switch (f) {
    case KZip: return is("PK\3\4", 4);
    case KCpio: return is("070701", 6);
    case KAr: return is("!<arch>\n", 8);
    case KRpm: return is("\xed\xab\xee\xdb\3\0", 6);
    case KOle: return is("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8);
    case FGzip: return is("\x1f\x8b", 2);
    case FBz2: return (is("BZh", 3) || is("BZ0", 3)) && is("1AY&SY", 6, 4);
    default: return -1;
    }
}
// mails whose leading bytes are plain ASCII, the rest anything
static std::string asciiMail(std::vector<Member>& ms) {
    std::string nl = flip() ? "\r\n" : "\n", a = "From: one@example.org" + nl + "Subject: x" + nl;
    uint32_t n = draw(30);
    for (uint32_t i = 0; i < n; ++i) a += strf("X-Line-%u: ", i) + std::string(draw(70), 'v') + nl;
    a += nl;
    Member m;
    m.name = "body";
    uint32_t where = draw(4);
    std::string body;
    while (a.size() + body.size() < 1024 + (where == 3 ? draw(3) : 0)) body += flip() ? "text " : "more text" + nl;
    if (where == 1) { body.resize(body.size() > 0 && a.size() < 1024 ? 1024 - a.size() : body.size()); body += "\xe9"; }
    if (where >= 1) { body += randomBytes(logsize(3000)); if (flip()) body += "\xff\xfe"; }
    if (body.empty()) body = "b";
    m.data = body;
    m.headerAt = 0; m.dataAt = (int64_t)a.size(); m.dataEnd = m.dataAt + (int64_t)body.size();
    ms.assign(1, m);
    return a + body;
}
struct OneOpener : StreamOpener {
    const std::string& d; SimConfig c; bool err = false; SimReport rep;
    OneOpener(const std::string& data, const SimConfig& cfg) : d(data), c(cfg) {}
    InputStream* openStream(const std::string& u) { return u == "/one" ? new SimStream(d, c, &rep) : 0; }
    int stat(const std::string& u, EntryInfo& e) {
        if (u != "/one") return -1;
        e.type = EntryInfo::File; e.size = (int64_t)d.size(); e.mtime = 7; e.filename = "one";
        return 0;
    }
};
static void runC22() {
    disk().reset();
    std::string a;
    std::vector<Member> ms;
    int f = (int)draw(FCount + 2);
    bool listed = false;                     // the members of a are known
    if (f == KMail && draw(3)) { a = asciiMail(ms); listed = true; }
    else if (f < KindCount) { a = makeArchive(f, ms, 0); listed = true; }
    else if (f < FCount) {
        std::string c = randomBytes(1 + contentSize());
        a = f == FGzip ? zcompress(c, FmtGzip, (int)draw(10)) : f == FBz2 ? bzcompress(c, 1) : lzmaCompress(c, false);
    } else a = f == FCount ? randomText(logsize(3000)) : randomBytes(logsize(3000));
    std::string how;
    bool damaged = false;
    if (chance(1, 3) && a.size()) {          // nearly the format
        size_t at = draw((uint32_t)std::min<size_t>(a.size(), chance(1, 3) ? 300 : 16));
        a[at] = (char)(a[at] ^ (1 << draw(8)));
        damaged = true; listed = false;
        count("fault.stored_byte_changed");
    }
    nontrivial();
    // the checks themselves
    for (int g = 0; g < FCount; ++g) {
        size_t need = needed(g);
        if (a.size() < need && g != KMail) { (void)check(g, a, draw((uint32_t)a.size() + 1)); continue; }
        size_t l1 = need, l2 = need + logsize((uint32_t)(a.size() - std::min(need, a.size())));
        bool c1 = check(g, a, l1), c2 = check(g, a, l2);
        if (g == KMail ? c2 && !c1 : c1 != c2)
            fail("answer-depends-on-length", fmtName(g), "the %s check says %d for the first %zu bytes, %d for %zu", fmtName(g), (int)c1, l1, (int)c2, l2);
        int sig = hasSignature(g, a);
        if (sig >= 0 && c1 != (sig == 1))
            fail("wrong-answer", fmtName(g), "the %s check says %d, the signature is %s", fmtName(g), (int)c1, sig ? "there" : "not there");
        if (g == f && !damaged && !c1 && !(g == KMail && !check(g, a, 1024)) && !(g == KTar && ms.empty()) && !(g == KSdf && ms.empty()))
            fail("not-recognised", fmtName(g), "a %s of %zu bytes is not recognised from its first %zu bytes", fmtName(g), a.size(), l1);
    }
    ev("%s of %zu bytes%s", f < FCount ? fmtName(f) : "other", a.size(), damaged ? ", damaged" : "");
    // what the factories must say, whatever they are given
    std::string lead = a.substr(0, 1024);
    int want = lead.empty() ? -1 : check(KMail, lead, 1024) ? KMail : check(KZip, lead, 1024) ? KZip : check(KSdf, lead, 1024) ? KSdf : -1;
    {
        std::string pre = chance(1, 3) ? randomBytes(1 + draw(40)) : "";
        BuildOpts b; b.maxDepth = chance(1, 3) ? 2 : 0; b.layers &= ~(1u << LCustom);
        Stack st;
        buildStack(st, pre + a, b);
        if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
        InputStream* in = st.top;
        if (!pre.empty()) {                  // not at the start of the stream
            if (in->skip((int64_t)pre.size()) != (int64_t)pre.size()) fail("short-skip", "detect", "cannot skip %zu bytes", pre.size());
            InputStream* sub = new SubInputStream(in, flip() ? (int64_t)a.size() : -1);
            st.cleanup.push_back([sub]() { delete sub; });
            if (flip()) in = sub;            // else the factory starts at a position that is not 0
            else listed = false;
        }
        int64_t at = in->position();
        SubStreamProviderProvider pp;
        std::unique_ptr<SubStreamProvider> p(pp.subStreamProvider(in));
        int got = !p ? -1 : dynamic_cast<MailInputStream*>(p.get()) ? KMail : dynamic_cast<ZipInputStream*>(p.get()) ? KZip : dynamic_cast<SdfInputStream*>(p.get()) ? KSdf : -2;
        ev("factory: %d", got);
        if (got != want) fail("wrong-format", "factory", "recognised as %d, should be %d (%s)", got, want, st.desc.c_str());
        if (!p) {
            if (in->position() != at) fail("wrong-position", "factory", "after a stream that is not recognised the position is %lld, was %lld", (long long)in->position(), (long long)at);
            if (in == st.top && pre.empty()) {
                ClientOpts c; c.maxOps = 6;
                Client<char> cl(in, a, c, []() { return false; }, "unrecognised");
                for (uint32_t k = draw(5); k > 0; --k) cl.step();
                cl.drain();
            } else {
                // what follows from here is the content
                const char* d; int32_t n = in->read(d, (int32_t)a.size() + 1, 0);
                if (n < 0) n = 0;
                if ((size_t)n != a.size() || memcmp(d, a.data(), a.size())) fail("wrong-data", "factory", "after a stream that is not recognised %d bytes follow, should be %zu", n, a.size());
            }
            count("probe.not_recognised");
        } else if (listed && f == want) {
            ListOpts lo;
            listArchive(p.get(), f, ms, lo);
            count("probe.recognised_and_listed");
        }
        p.reset();
        st.destroy();
    }
    // the facade gives the same answers for two deliveries of the same bytes; how much of a damaged
    // compressed payload can be read before the error is noticed is open, though
    if (!(damaged && f == KRpm)) {
        int ans[2]; std::string names[2];
        for (int k = 0; k < 2; ++k) {
            OneOpener o(a, SimConfig::random(true));
            o.c.announce = -1;
            ArchiveReader r;
            r.addStreamOpener(&o);
            EntryInfo e;
            ans[k] = r.isArchive("/one") ? 1 : 0;
            if (r.stat("/one", e) == 0) ans[k] |= (int)e.type << 1;
            ArchiveReader::DirLister l = r.dirEntries("/one");
            while (l.nextEntry(e)) { names[k] += e.filename; names[k] += strf("\n%d %lld\n", (int)e.type, (long long)e.size); }
        }
        ev("facade: %d %d", ans[0], ans[1]);
        if (ans[0] != ans[1] || names[0] != names[1])
            fail("answer-depends-on-delivery", "facade", "two deliveries of the same %zu bytes give %d and %d, entries '%s' and '%s'", a.size(), ans[0], ans[1], hexs(names[0], 100).c_str(), hexs(names[1], 100).c_str());
        if (f < KindCount && f != KCpio && f != KOle && !damaged && !ms.empty() && !(ans[0] & 1) && !(f == KMail && want != KMail))
            fail("not-recognised", fmtName(f), "the facade does not see the %s of %zu members as an archive", fmtName(f), ms.size());
    }
}
static Registrar r22({"C22", runC22, 300000000, false, 120000, 2000000});
} // namespace sim
