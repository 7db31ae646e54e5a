// Archive listings: C08 (exactness), C09 (cut-off archives), C10 (arbitrary bytes), the archive part of C04.
#include "stacks.h"
#include "client.h"
#include "archives.h"
#include "listing.h"
#include <strigi/encodinginputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/subinputstream.h>
#include <strigi/stringstream.h>
#include <strigi/inputstreamreader.h>
#include "base64inputstream.h"
#include <strigi/mailinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/zipinputstream.h>
#include <cstring>
#include <memory>
using namespace Strigi;
namespace sim {

const char* kindNames[KindCount] = {"tar", "zip", "cpio", "ar", "rpm", "mail", "sdf", "ole"};

SubStreamProvider* newProvider(int kind, InputStream* in) {
    Armed armed;
    switch (kind) {
    case KTar: return new TarInputStream(in);
    case KZip: return new ZipInputStream(in);
    case KCpio: return new CpioInputStream(in);
    case KAr: return new ArInputStream(in);
    case KRpm: return new RpmInputStream(in);
    case KMail: return new MailInputStream(in);
    case KSdf: return new SdfInputStream(in);
    default: return new OleInputStream(in);
    }
}

static uint32_t memberSize() {
    switch (draw(8)) {
    case 0: return 0;
    case 1: return 1 + draw(6);
    case 2: return draw(4) * 64 + draw(3);
    case 3: return 500 + draw(30);
    case 4: return draw(5) * 512;
    case 5: return logsize(3000);
    case 6: return 4090 + draw(12);
    default: return chance(1, 4) ? logsize(60000) : logsize(600);
    }
}

std::string makeArchive(int kind, std::vector<Member>& ms, bool* namesKnown) {
    (void)namesKnown;
    ms.clear();
    uint32_t n = logsize(7);
    bool multipart = false;
    if (kind == KMail) { multipart = flip() || n > 1; if (!multipart) n = 1; }
    if ((kind == KRpm || kind == KZip) && n == 0) n = 1;   // an empty zip is not recognised as one
    for (uint32_t i = 0; i < n; ++i) {
        Member m;
        bool longName = chance(1, 6);
        std::string base = strf("%s%u", chance(1, 3) ? "file" : "m", i);
        if (kind == KTar || kind == KZip || kind == KCpio || kind == KRpm) {
            uint32_t depth = logsize(3);
            std::string p;
            for (uint32_t d = 0; d < depth; ++d) p += strf("d%u/", draw(3));
            base = p + base;
            if (longName) base += std::string(80 + logsize(300), (char)('a' + draw(26)));
            if (chance(1, 10)) base = base + " \xc3\xa9";
            if (longName && kind == KTar && flip()) base = std::string(20 + draw(70), 'p') + "/" + std::string(1 + draw(90), 'q') + "/" + base.substr(0, 60 + draw(60));
            m.dir = kind != KAr && chance(1, 6);
            m.link = kind == KTar && !m.dir && chance(1, 10);
        } else if (kind == KAr) {
            if (longName) base += std::string(6 + logsize(60), (char)('a' + draw(26)));
            if (chance(1, 8)) base.insert(chance(1, 3) ? 0 : 1, " ");
        } else if (kind == KMail) {
            if (!longName && flip()) base = ""; else base += ".txt";
        } else if (kind == KOle) {
            if (longName) base += std::string(1 + draw(20), 'x');
            if (chance(1, 5)) base = "\x05" + base;
        }
        m.name = base;
        m.mtime = (kind == KZip) ? (int64_t)dosTime(1980 + (int)draw(60), 1 + (int)draw(12), 1 + (int)draw(28), (int)draw(24), (int)draw(60), (int)draw(60)) : (int64_t)(draw32() & 0x7fffffff);
        if (!m.dir && !m.link) {
            m.data = randomBytes(memberSize());
            if (kind == KOle && m.data.empty()) m.data = "o";
            if (kind == KSdf) m.data = randomText((uint32_t)m.data.size());
            if (kind == KMail && !multipart && m.data.empty()) m.data = "b";
        }
        ms.push_back(m);
    }
    switch (kind) {
    case KTar: { TarOpts o = drawTarOpts(); o.extraBlocks = (int)logsize(18); return makeTar(ms, o); }
    case KZip: { ZipOpts o; uint32_t s = draw(4); o.deflate = s == 1 || s == 2; o.descriptor = s == 2; o.mix = s == 3; o.extra = flip(); o.level = (int)draw(10); o.descriptorSig = !chance(1, 3); return makeZip(ms, o); }
    case KCpio: return makeCpio(ms);
    case KAr: return makeAr(ms, drawArOpts());
    case KRpm: return makeRpm(ms, (int)draw(3));
    case KMail: return makeMail(ms, multipart);
    case KSdf: return makeSdf(ms);
    default: return makeOle(ms);
    }
}

void checkMemberInfo(const EntryInfo& info, const Member& m, int kind, uint32_t i) {
    if (info.filename != m.name)
        fail("wrong-name", kindNames[kind], "%s: entry %u is called '%s', should be '%s'", kindNames[kind], i, hexs(info.filename, 200).c_str(), hexs(m.name, 200).c_str());
    if (info.size != -1 && !m.dir && info.size != (int64_t)m.data.size())
        fail("wrong-size", kindNames[kind], "%s: entry %u '%s' has announced size %lld, should be %zu", kindNames[kind], i, m.name.c_str(), (long long)info.size, m.data.size());
    if (info.size == -1 && (kind == KTar || kind == KCpio || kind == KAr || kind == KRpm || kind == KSdf || kind == KOle))
        fail("wrong-size", kindNames[kind], "%s: entry %u '%s' has no size", kindNames[kind], i, m.name.c_str());
    if (kind <= KRpm && info.type != (m.dir ? EntryInfo::Dir : m.link ? EntryInfo::Unknown : EntryInfo::File))
        fail("wrong-type", kindNames[kind], "%s: entry %u '%s' has type %d, directory is %d", kindNames[kind], i, m.name.c_str(), (int)info.type, (int)m.dir);
}

// Lists the archive. cutAt < 0: intact. failedUp: the input reported an error.
ListResult listArchive(SubStreamProvider* p, int kind, const std::vector<Member>& ms, const ListOpts& lo) {
    ListResult r;
    const char* K = kindNames[kind];
    uint32_t i = 0;
    auto errOk = [&]() { return lo.cutAt >= 0 || (lo.inputFailed && lo.inputFailed()); };
    for (;; ++i) {
        if (lo.stopAfter >= 0 && (int)i >= lo.stopAfter) { r.stopped = true; return r; }
        clientCall();
        InputStream* e = lib([&]() { return p->nextEntry(); });
        ev("%s: nextEntry -> %s '%s'", K, e ? "entry" : "none", e ? p->entryInfo().filename.c_str() : "");
        if (!e) break;
        if (p->status() != Strigi::Ok)
            fail("entry-without-status", K, "%s: nextEntry() gave an entry, the status is %d", K, (int)p->status());
        if (p->currentEntry() != e)
            fail("wrong-current-entry", K, "%s: currentEntry() is not the entry just returned", K);
        if (i >= ms.size()) fail("extra-entry", K, "%s: entry %u '%s' is not in the archive of %zu", K, i, hexs(p->entryInfo().filename, 100).c_str(), ms.size());
        const Member& m = ms[i];
        bool entryCut = lo.cutAt >= 0 && m.dataEnd > lo.cutAt;
        checkMemberInfo(p->entryInfo(), m, kind, i);
        ++r.entries;
        bool partial = false;
        switch (draw(5)) {
        case 0: partial = true; break;                      // not touched
        default: {
            ClientOpts c; c.maxOps = 10; c.segRate = 5;
            bool lenient = entryCut && kind == KMail;       // no recorded size: may end at the cut
            std::string cutData;
            if (lenient) {
                // only a prefix of the part is left, its encoding may be cut too
                LooseClient lc(e, K);
                lc.errorAllowed = errOk;
                lc.run(8);
                for (size_t k = 0; k < lc.got.size(); ++k)
                    if (lc.got[k] >= 0 && k < m.data.size() && (unsigned char)m.data[k] != lc.got[k])   // a cut boundary may follow
                        fail("wrong-data", K, "%s: entry %u of a cut-off archive delivers wrong data at %zu", K, i, k);
                break;
            }
            Client<char> cl(e, m.data, c, errOk, strf("%s[%u]", K, i));
            uint32_t n = logsize(c.maxOps);
            for (uint32_t k = 0; k < n && !cl.failed; ++k) cl.step();
            if (draw(2) && !cl.failed) cl.drain(); else partial = true;
            if (cl.failed) { r.entryFailed = true; count("probe.entry_error"); }
            break; }
        }
        if (partial) count("probe.entry_left_unfinished");
    }
    r.status = p->status();
    if (p->status() == Strigi::Ok)
        fail("end-without-status", K, "%s: nextEntry() gave nothing, the status is still Ok", K);
    if (p->status() == Strigi::Error) {
        if (!errOk()) fail("unexpected-error", K, "%s: the listing failed at entry %u of %zu without a fault: %s", K, i, ms.size(), p->error());
        if (!p->error() || !p->error()[0]) fail("error-without-message", K, "%s: the listing failed at entry %u but error() is empty", K, i);
    } else {
        if (i < ms.size() && lo.cutAt < 0)
            fail(errOk() ? "failure-reported-as-end" : "missing-entry", K, "%s: the listing ends after %u of %zu entries", K, i, ms.size());
        if (lo.inputFailed && lo.inputFailed())
            fail("failure-reported-as-end", K, "%s: the input failed, the listing ends normally after %u of %zu entries", K, i, ms.size());
    }
    // the end is final
    StreamStatus st = p->status();
    for (uint32_t k = draw(3); k > 0; --k) {
        if (p->nextEntry()) fail("entry-after-end", K, "%s: nextEntry() gives an entry after the end (status %d)", K, (int)st);
        if (p->status() != st) fail("end-not-final", K, "%s: the status changed from %d to %d after the end", K, (int)st, (int)p->status());
    }
    return r;
}

void archiveSession() {
    int kind = (int)draw(KindCount);
    std::vector<Member> ms;
    std::string a = makeArchive(kind, ms, 0);
    BuildOpts b; b.maxDepth = 2; b.layers &= ~(1u << LCustom);
    Stack st;
    buildStack(st, a, b);
    if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
    SubStreamProvider* p = newProvider(kind, st.top);
    st.cleanup.push_back([p]() { delete p; });
    ListOpts lo;
    if (chance(1, 8)) lo.stopAfter = (int)draw((uint32_t)ms.size() + 1);
    if (ms.size()) nontrivial();
    listArchive(p, kind, ms, lo);
    count("probe.listings");
    st.destroy();
}

void bigArchiveRun(bool cut, bool error);
// a zip with one entry that is stored with a method no reader here knows
static void foreignMethodRun() {
    std::vector<Member> ms;
    uint32_t n = 1 + logsize(5);
    for (uint32_t i = 0; i < n; ++i) { Member m; m.name = strf("m%u", i); m.data = randomBytes(memberSize()); m.mtime = dosTime(2000, 1, 1, 0, 0, 0); ms.push_back(m); }
    ZipOpts o; o.mix = true;
    std::string a = makeZip(ms, o);
    uint32_t k = draw(n);
    static const char methods[] = {1, 2, 6, 9, 10, 12, 14, 93, 95, 98, 99};
    a[(size_t)ms[k].headerAt + 8] = methods[draw(sizeof methods)];
    a[(size_t)ms[k].headerAt + 9] = 0;
    ev("zip of %u, entry %u has method %d", n, k, a[(size_t)ms[k].headerAt + 8]);
    BuildOpts b; b.maxDepth = 2; b.layers &= ~(1u << LCustom);
    Stack st;
    buildStack(st, a, b);
    if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
    SubStreamProvider* p = newProvider(KZip, st.top);
    st.cleanup.push_back([p]() { delete p; });
    nontrivial();
    count("probe.foreign_method");
    std::vector<Member> before(ms.begin(), ms.begin() + k);
    ListOpts lo; lo.stopAfter = (int)k;
    listArchive(p, KZip, before, lo);
    InputStream* e = lib([&]() { return p->nextEntry(); });
    if (!e) {
        if (p->status() != Strigi::Error) fail("foreign-entry-dropped", "zip", "zip: the listing ends with status %d at an entry with an unknown method", (int)p->status());
        if (!p->error()[0]) fail("error-without-message", "zip", "zip: the listing failed at an entry with an unknown method, error() is empty");
    } else {
        LooseClient cl(e, "zip");
        cl.run(6);
        if (!cl.failed && !(ms[k].data.empty() && cl.got.empty())) fail("wrong-data", "zip", "zip: %zu bytes of an entry with an unknown method are passed off as its content", cl.got.size());
    }
    st.destroy();
}
static void runC08() {
    disk().reset();
    if (chance(1, 60)) { foreignMethodRun(); return; }
    if (chance(1, 30)) { bigArchiveRun(false, false); return; }
    archiveSession();
}
static void runC09() {
    disk().reset();
    if (chance(1, 30)) { bigArchiveRun(true, false); return; }
    int kind = (int)draw(KindCount);
    std::vector<Member> ms;
    std::string a = makeArchive(kind, ms, 0);
    uint32_t n = (uint32_t)a.size();
    if (!n) return;
    uint32_t cut;
    switch (draw(4)) {
    case 0: cut = draw(n); break;
    case 1: cut = n - 1 - logsize(n - 1); break;
    case 2: { // inside or at the border of a member
        if (ms.empty()) { cut = draw(n); break; }
        const Member& m = ms[draw((uint32_t)ms.size())];
        switch (draw(4)) {
        case 0: cut = (uint32_t)m.dataAt; break;
        case 1: cut = (uint32_t)(m.dataAt + (m.dataEnd > m.dataAt ? draw((uint32_t)(m.dataEnd - m.dataAt)) : 0)); break;
        case 2: cut = (uint32_t)(m.dataEnd > 0 ? m.dataEnd - 1 : 0); break;
        default: cut = (uint32_t)(m.headerAt + draw((uint32_t)(m.dataAt - m.headerAt + 1))); break;
        }
        break; }
    default: cut = logsize(n - 1); break;
    }
    if (cut >= n) cut = n - 1;
    count("fault.archive_cut");
    BuildOpts b; b.maxDepth = 1; b.layers &= ~(1u << LCustom);
    Stack st;
    buildStack(st, a.substr(0, cut), b);
    if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
    ev("%s %u members, %u of %u bytes", kindNames[kind], (unsigned)ms.size(), cut, n);
    SubStreamProvider* p = newProvider(kind, st.top);
    st.cleanup.push_back([p]() { delete p; });
    ListOpts lo; lo.cutAt = cut;
    nontrivial();
    ListResult r = listArchive(p, kind, ms, lo);
    const char* K = kindNames[kind];
    bool sized = kind == KTar || kind == KZip || kind == KCpio || kind == KAr;
    uint32_t complete = 0;
    bool inData = false;
    for (auto& m : ms) {
        if (m.dataEnd <= cut) ++complete;
        if (m.dataAt <= cut && cut < m.dataEnd) inData = true;
    }
    if (sized) {
        if (r.entries < complete && !r.entryFailed)
            fail("missing-entry", K, "%s cut at %u of %u: %u entries listed, %u are complete", K, cut, n, r.entries, complete);
        if (inData && r.status != Strigi::Error)
            fail("cut-reported-as-end", K, "%s cut at %u of %u, inside the data of an entry: the listing ends normally after %u entries", K, cut, n, r.entries);
    }
    if (kind == KSdf && r.entries < complete && r.status != Strigi::Error) {
        // the delimiter itself may be cut
        if (r.entries + 1 < complete || ms[complete - 1].dataEnd + 4 <= cut)
            fail("missing-entry", K, "%s cut at %u of %u: %u entries listed, %u are complete", K, cut, n, r.entries, complete);
    }
    if ((kind == KRpm || kind == KOle) && r.status == Strigi::Eof && r.entries < ms.size())
        fail("cut-reported-as-end", K, "%s cut at %u of %u: the listing ends normally after %u of %zu entries", K, cut, n, r.entries, ms.size());
    if (r.status == Strigi::Error) count("probe.cut_reported");
    st.destroy();
}

void archiveFaultRun() {
    disk().reset();
    int kind = (int)draw(KindCount);
    std::vector<Member> ms;
    std::string a = makeArchive(kind, ms, 0);
    SimConfig c = SimConfig::random(true);
    uint32_t n = (uint32_t)a.size();
    switch (draw(4)) {
    case 0: c.errorAt = draw(n + 1); break;
    case 1: c.errorAt = n - logsize(n); break;
    case 2: c.errorAt = logsize(n); break;
    default: c.errorAt = n; break;
    }
    if (ms.size() && flip()) {
        const Member& m = ms[draw((uint32_t)ms.size())];
        c.errorAt = flip() ? m.dataAt + (int64_t)draw((uint32_t)(m.dataEnd - m.dataAt + 1)) : m.headerAt + (int64_t)draw((uint32_t)(m.dataAt - m.headerAt + 1));
    }
    if (chance(1, 3)) { c.errorAt = -1; c.errorOp = flip() ? logsize(400) : draw(40); }
    SimReport rep;
    SimStream up(a, c, &rep);
    ev("%s %zu members %u bytes, I/O error at %lld or in call %lld", kindNames[kind], ms.size(), n, (long long)c.errorAt, (long long)c.errorOp);
    std::unique_ptr<SubStreamProvider> p(newProvider(kind, &up));
    ListOpts lo; lo.inputFailed = [&]() { return rep.errorFired; };
    ListResult r = listArchive(p.get(), kind, ms, lo);
    if (rep.errorFired) { nontrivial(); if (r.status == Strigi::Error) count("probe.error_reached_client"); }
}

// ---------------------------------------------------------------- C10
static void headerChecks(const std::string& s) {
    uint32_t n = (uint32_t)s.size();
    uint32_t l = draw(3) ? (n > 1024 ? 1024 : n) : draw(n + 1);
    char* p = (char*)malloc(l ? l : 1);      // exactly as many bytes as announced
    memcpy(p, s.data(), l);
    volatile int k = 0;
    k += GZipInputStream::checkHeader(p, (int32_t)l);
    k += BZ2InputStream::checkHeader(p, (int32_t)l);
    k += LZMAInputStream::checkHeader(p, (int32_t)l);
    k += TarInputStream::checkHeader(p, (int32_t)l);
    k += ZipInputStream::checkHeader(p, (int32_t)l);
    k += CpioInputStream::checkHeader(p, (int32_t)l);
    k += ArInputStream::checkHeader(p, (int32_t)l);
    k += RpmInputStream::checkHeader(p, (int32_t)l);
    k += MailInputStream::checkHeader(p, (int32_t)l);
    k += SdfInputStream::checkHeader(p, (int32_t)l);
    k += OleInputStream::checkHeader(p, (int32_t)l);
    ev("headers %u: %d", l, (int)k);
    free(p);
}
static void exploreProvider(SubStreamProvider* p, const char* K, size_t bytes, int depth);
static void exploreEntry(InputStream* e, const char* K, size_t bytes, int depth) {
    switch (draw(depth > 0 ? 5 : 3)) {
    case 0: break;
    case 3: { // treat it as an archive of some kind
        int k = (int)draw(KindCount);
        std::unique_ptr<SubStreamProvider> p(newProvider(k, e));
        exploreProvider(p.get(), kindNames[k], bytes, depth - 1);
        break; }
    case 4: {
        SubStreamProviderProvider pp;
        std::unique_ptr<SubStreamProvider> p(pp.subStreamProvider(e));
        if (p) exploreProvider(p.get(), "detected", bytes, depth - 1);
        break; }
    default: {
        LooseClient c(e, K, 400000);
        c.run(6);
        break; }
    }
}
static void exploreProvider(SubStreamProvider* p, const char* K, size_t bytes, int depth) {
    size_t entries = 0;
    int stop = chance(1, 6) ? (int)draw(4) : -1;
    for (;;) {
        if (stop >= 0 && (int)entries >= stop) return;
        clientCall();
        InputStream* e = lib([&]() { return p->nextEntry(); });
        if (!e) break;
        if (p->status() == Strigi::Error) fail("entry-without-status", K, "%s: nextEntry() gave an entry, the status is Error", K);
        ev("%s: entry %zu '%s' %lld", K, entries, hexs(p->entryInfo().filename, 40).c_str(), (long long)p->entryInfo().size);
        if (++entries > bytes + 16) fail("endless-listing", K, "%s: more than %zu entries from %zu bytes", K, entries, bytes);
        exploreEntry(e, K, bytes, depth);
    }
    if (p->status() == Strigi::Ok) fail("end-without-status", K, "%s: nextEntry() gave nothing, the status is Ok", K);
    if (p->status() == Strigi::Error && !p->error()[0]) fail("error-without-message", K, "%s: the listing failed but error() is empty", K);
    if (entries) count("probe.entries_of_damaged_archive", entries);
    StreamStatus st = p->status();
    for (uint32_t k = draw(3); k > 0; --k)
        if (p->nextEntry() || p->status() != st) fail("entry-after-end", K, "%s: nextEntry() after the end (status %d, was %d)", K, (int)p->status(), (int)st);
}
// a field of a format set to an extreme value
static void attackField(std::string& a, int kind, const std::vector<Member>& ms) {
    static const char* dec[] = {"0", "1", "99999999999999", "-1", "2147483647", "2147483648", "4294967295", "4294967294", "18446744073709551615", "9223372036854775807", "zz"};
    static const char* oct[] = {"00000000000", "77777777777", "17777777777", "20000000000", "-0000000001", "37777777777", "00000000001", "4zzzzzzzzzz"};
    static const char* hex[] = {"00000000", "FFFFFFFF", "7FFFFFFF", "80000000", "00000001", "FFFFFFFE", "7ffffff0", "00ffffff"};
    static const uint32_t bin[] = {0, 0xffffffffu, 0x7fffffff, 0x80000000u, 1, 0xfffffffeu, 0x7ffffff0, 0x00ffffff, 0xfffffff0u, 0x40000000, 0x10000000};
    if (ms.empty() && kind != KOle) return;
    int64_t at = 0;
    if (!ms.empty()) at = ms[draw((uint32_t)ms.size())].headerAt;
    auto putS = [&](int64_t o, const char* s, size_t w, char padc) { for (size_t i = 0; i < w; ++i) if ((size_t)o + i < a.size()) a[(size_t)o + i] = i < strlen(s) ? s[i] : padc; };
    auto putB = [&](int64_t o, uint32_t v, int w, bool be) { for (int i = 0; i < w; ++i) if ((size_t)(o + i) < a.size()) a[(size_t)(o + i)] = (char)(v >> (8 * (be ? w - 1 - i : i))); };
    count("fault.stored_field_extreme");
    switch (kind) {
    case KTar: putS(at + (flip() ? 124 : 136), oct[draw(8)], 11, '0'); if (chance(1, 4)) a[(size_t)at + 156] = "LKxg5270"[draw(8)]; break;
    case KZip: { static const int off[] = {18, 22, 26, 28, 6, 8, 14}; int o = off[draw(7)]; putB(at + o, bin[draw(11)], o >= 26 || o < 10 ? 2 : 4, false); break; }
    case KCpio: { static const int off[] = {54, 94, 46, 14}; putS(at + off[draw(4)], hex[draw(8)], 8, '0'); break; }
    case KAr: {
        static const char* off[] = {"/99", "/-1", "/-300000000", "/-99999999999", "/2147483647", "/4294967295", "/ 12", "//", "/", "/0", "/1"};
        if (draw(3)) putS(at + 48, dec[draw(11)], 10, ' ');
        else putS(at, off[draw(11)], 16, ' ');
        break; }
    case KRpm: {
        // the sizes of a header, or a field of its index
        int64_t o = 96 + (flip() ? 8 : 12);
        if (chance(1, 3)) o = 96 + 16 + 4 * draw(60);
        putB(o, bin[draw(11)], 4, true); break; }
    case KOle: { static const int off[] = {0x2c, 0x30, 0x3c, 0x44, 0x48, 76, 80}; putB(off[draw(7)], bin[draw(11)], 4, false); break; }
    default: break;
    }
}
static void attackOleDir(std::string& a) {
    // directory entries and tables are 4-byte fields anywhere in the file
    static const uint32_t bin[] = {0, 1, 2, 3, 0xffffffffu, 0xfffffffeu, 0x7fffffff, 0x80000000u, 0x00ffffff, 8, 64, 4095, 4096};
    uint32_t n = 1 + draw(3);
    for (uint32_t i = 0; i < n && a.size() > 600; ++i) {
        size_t o = 512 + 4 * draw((uint32_t)(a.size() - 512) / 4);
        uint32_t v = bin[draw(13)];
        for (int k = 0; k < 4 && o + k < a.size(); ++k) a[o + k] = (char)(v >> (8 * k));
    }
}

void facadeDamagedRun(const std::string& data);   // p_damaged.cpp
void deepChainRun();
void nestedArchive(std::string& data);
static void runC10() {
    disk().reset();
    if (chance(1, 150)) { deepChainRun(); return; }
    if (chance(1, 12)) {
        std::string a, how;
        nestedArchive(a);
        if (draw(4)) a = damage(a, &how);
        ev("damage:%s", how.c_str());
        facadeDamagedRun(a);
        return;
    }
    std::string a, how;
    int kind = (int)draw(KindCount + 5);
    std::vector<Member> ms;
    if (kind < KindCount) a = makeArchive(kind, ms, 0);
    else if (kind == KindCount) a = randomBytes(logsize(3000));
    else {
        std::string c = randomBytes(contentSize());
        if (c.empty()) c = "x";
        switch (kind - KindCount) {
        case 1: a = zcompress(c, (int)draw(3), (int)draw(10)); break;
        case 2: a = bzcompress(c, 1); break;
        case 3: a = lzmaCompress(c, flip()); break;
        default: a = base64Encode(c, (int)draw(3)); break;
        }
    }
    uint32_t mode = draw(8);
    if (kind < KindCount && (mode == 1 || mode == 2)) { attackField(a, kind, ms); if (flip()) attackField(a, kind, ms); }
    if (kind == KOle && mode >= 3 && mode < 6) attackOleDir(a);
    if (mode != 0 && mode != 1) { a = damage(a, &how); ev("damage:%s", how.c_str()); }
    if (mode == 7 && ms.size()) { // the same header again and again
        const Member& m = ms[draw((uint32_t)ms.size())];
        if (m.dataAt > m.headerAt) {
            std::string h = a.substr((size_t)std::min<int64_t>(m.headerAt, (int64_t)a.size()), (size_t)(m.dataAt - m.headerAt)), s;
            uint32_t times = logsize(2000);
            if (h.size() * times > 600000) times = (uint32_t)(600000 / h.size());
            for (uint32_t i = 0; i < times; ++i) s += h;
            a.insert((size_t)std::min<int64_t>(m.headerAt, (int64_t)a.size()), s);
            count("fault.repeated_header", times);
        }
    }
    if (chance(1, 40)) a += std::string(logsize(3000000), (char)draw(256));
    nontrivial();
    headerChecks(a);
    if (chance(1, 8)) { facadeDamagedRun(a); return; }
    Stack st;
    BuildOpts b; b.maxDepth = 1; b.layers &= ~(1u << LCustom); 
    buildStack(st, a, b);
    if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
    size_t bytes = a.size();
    // a line or terminator is searched again with every piece of input: quadratic for input that comes byte by byte, but bounded
    double sq = 1.5 * (double)bytes * (double)bytes;
    setEdgeBudget(600000000 + (uint64_t)(sq < 8e9 ? sq : 8e9));
    if (kind < KindCount) {
        int k = chance(1, 8) ? (int)draw(KindCount) : kind;
        SubStreamProvider* p = newProvider(k, st.top);
        st.cleanup.push_back([p]() { delete p; });
        exploreProvider(p, kindNames[k], bytes, 2);
    } else {
        InputStream* s = 0;
        int k = kind - KindCount;
        if (chance(1, 8)) k = (int)draw(8);
        switch (k) {
        case 1: s = new GZipInputStream(st.top, (GZipInputStream::ZipFormat)draw(3)); break;
        case 2: s = new BZ2InputStream(st.top); break;
        case 3: s = new LZMAInputStream(st.top); break;
        case 4: s = new Base64InputStream(st.top); break;
        case 5: { static const char* e[] = {"UTF-8", "UTF-16", "SHIFT-JIS", "ISO-2022-JP", "EUC-JP", "no-such-set", "UTF-7"}; s = new EncodingInputStream(st.top, e[draw(7)], "UTF-8"); break; }
        case 6: s = new StringTerminatedSubStream(st.top, randomBytes(1 + logsize(6))); break;
        default: exploreEntry(st.top, "raw", bytes, 2); break;
        }
        if (s) {
            st.cleanup.push_back([s]() { delete s; });
            exploreEntry(s, "decoder", bytes * 1100 + 1000, 1);
        }
    }
    st.destroy();
}

static Registrar r8({"C08", runC08, 400000000, false, 180000, 2000000});
static Registrar r9({"C09", runC09, 400000000, false, 250000, 2000000});
static Registrar r10({"C10", runC10, 600000000, false, 150000, 2000000});
} // namespace sim
