// C18: the times of entries under a simulated clock and drawn time zones.
#include "stacks.h"
#include "archives.h"
#include "listing.h"
#include "simdisk.h"
#include <strigi/archivereader.h>
#include <strigi/fileinputstream.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <ctime>
using namespace Strigi;
namespace sim {

static const char* zones[] = {
    "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "<+14>-14", "<-12>12", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1", "NST3:30NDT,M3.2.0,M11.1.0",
    "<+01>-1<+00>0,M10.5.0,M3.5.0/3",        // winter is the exception (Ireland's law)
};
static const uint32_t nzones = sizeof zones / sizeof *zones;
static void setZone(uint32_t z) { setenv("TZ", zones[z], 1); tzset(); }

static int64_t civil(int y, int mo, int d) {          // days since 1970-01-01
    y -= mo <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153u * (unsigned)(mo + (mo > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
static int64_t offsetAt(int64_t t) { time_t tt = (time_t)t; struct tm l; localtime_r(&tt, &l); return l.tm_gmtoff; }
static uint32_t dosOf(int64_t local) {                // local seconds as DOS fields
    time_t tt = (time_t)local; struct tm l; gmtime_r(&tt, &l);
    return dosTime(l.tm_year + 1900, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec);
}
static bool dosFields(uint32_t v, int64_t* local) {   // false: not a time of day on a day of the calendar
    int y = 1980 + (int)(v >> 25), mo = (v >> 21) & 15, d = (v >> 16) & 31, h = (v >> 11) & 31, mi = (v >> 5) & 63, s = (int)(v & 31) * 2;
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (mo < 1 || mo > 12 || h > 23 || mi > 59 || s > 59) return false;
    int n = len[mo - 1] + (mo == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
    if (d < 1 || d > n) return false;
    *local = civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s;
    return true;
}
static uint32_t drawDos() {
    switch (draw(6)) {
    case 0: return dosTime(1980 + (int)draw(128), 1 + (int)draw(12), 1 + (int)draw(28), (int)draw(24), (int)draw(60), (int)draw(60));
    case 1: return draw32();
    default: break;
    }
    // around a change of the offset
    uint32_t z = draw(nzones);
    setZone(z);
    int64_t t = (civil(1981 + (int)draw(100), 1, 1)) * 86400;
    int64_t o = offsetAt(t);
    bool second = flip();
    for (int i = 0; i < 700; ++i) {
        int64_t n = t + 86400;
        if (offsetAt(n) != o) {
            int64_t lo = t, hi = n;
            while (hi - lo > 1) { int64_t m = (lo + hi) / 2; if (offsetAt(m) == o) lo = m; else hi = m; }
            if (!second) { t = hi; break; }
            second = false;
            o = offsetAt(n);
        }
        t = n;
    }
    return dosOf(t + o + (int64_t)draw(5 * 1800) * 2 - 3600 * 2);
}
static int64_t drawUnix(int kind) {
    int64_t max = kind == KTar ? 077777777777ll : kind == KAr ? 999999999999ll : 0xffffffffll;
    int64_t v;
    switch (draw(6)) {
    case 0: v = draw(3); break;
    case 1: v = 0x7fffffffll - 2 + draw(5); break;
    case 2: v = 0xffffffffll - 2 + draw(5); break;
    case 3: v = max - draw(3); break;
    case 4: v = (int64_t)draw32(); break;
    default: v = (int64_t)(((uint64_t)draw32() << 32 | draw32()) % (uint64_t)(max + 1)); break;
    }
    return v > max ? max : v;
}
static int64_t jumpingClock() {
    int64_t t = simClock;
    switch (draw(6)) {
    case 0: break;
    case 1: t += draw(5); break;
    case 2: t += 86400 * 182; count("clock.jump"); break;
    case 3: t -= 86400 * (1 + (int64_t)draw(400)); count("clock.jump"); break;
    case 4: t += 3600; count("clock.jump"); break;
    default: t = (int64_t)draw32(); count("clock.jump"); break;
    }
    if (t < 0) t = 0;
    simTime((uint64_t)(t > simClock ? t - simClock : simClock - t));
    return t;
}
struct Arch {
    int kind;
    std::vector<Member> ms;
    std::string bytes, path;
    std::vector<int64_t> stored;
};
struct Clocks {
    std::vector<Arch> archs;
    uint32_t zone = 0;
    std::map<std::pair<uint32_t, uint32_t>, int64_t> seen;   // zone, DOS time -> answer
    void check(const Arch& a, size_t i, int64_t got, const char* where) {
        const char* K = kindNames[a.kind];
        int64_t s = a.stored[i];
        ev("%s %s[%zu] -> %lld", where, K, i, (long long)got);
        if (a.kind != KZip) {
            if (got != s) fail("wrong-mtime", K, "%s: entry %zu of the %s has modification time %lld, stored is %lld", where, i, K, (long long)got, (long long)s);
            return;
        }
        auto k = std::make_pair(zone, (uint32_t)s);
        auto f = seen.find(k);
        if (f != seen.end() && f->second != got)
            fail("mtime-depends-on-history", K, "%s: entry %zu (stored DOS time %08x, zone %s) had modification time %lld before, now %lld", where, i, (uint32_t)s, zones[zone], (long long)f->second, (long long)got);
        seen[k] = got;
        int64_t local;
        if (!dosFields((uint32_t)s, &local)) { count("probe.invalid_dos_time"); return; }
        // any moment at which the clocks of the zone show the stored time will do
        int64_t before = offsetAt(local - 86400 * 2), after = offsetAt(local + 86400 * 2);
        bool exists = false;
        for (int64_t o : {before, after}) if (offsetAt(local - o) == o) { exists = true; if (got == local - o) return; }
        if (!exists) {
            count("probe.skipped_local_time");
            if (got == local - before || got == local - after) return;
        }
        fail("wrong-mtime", K, "%s: entry %zu (stored DOS time %08x = local second %lld, zone %s) has modification time %lld, should be %lld", where, i, (uint32_t)s, (long long)local, zones[zone], (long long)got, (long long)(local - before));
    }
};
static void genArch(Arch& a, std::vector<uint32_t>& dos, uint32_t idx) {
    static const int kinds[] = {KZip, KZip, KZip, KTar, KCpio, KAr, KRpm};
    a.kind = kinds[draw(7)];
    uint32_t n = 1 + logsize(5);
    for (uint32_t i = 0; i < n; ++i) {
        Member m;
        m.name = strf("f%u_%u", idx, i);
        if (a.kind == KAr && chance(1, 3)) m.name += "-with-a-long-name";
        if (a.kind == KTar && chance(1, 5)) m.name += std::string(120, 'n');
        m.dir = a.kind != KAr && chance(1, 6);
        if (!m.dir) m.data = randomText(logsize(300));
        if (a.kind == KZip) {
            if (dos.size() < 2 || chance(1, 3)) dos.push_back(drawDos());
            m.mtime = (int64_t)pick(dos);
        } else m.mtime = drawUnix(a.kind);
        a.stored.push_back(m.mtime);
        a.ms.push_back(m);
    }
    switch (a.kind) {
    case KTar: { TarOpts o; o.ustar = flip(); a.bytes = makeTar(a.ms, o); break; }
    case KZip: { ZipOpts o; o.mix = flip(); a.bytes = makeZip(a.ms, o); break; }
    case KCpio: a.bytes = makeCpio(a.ms); break;
    case KAr: { ArOpts o; o.symtab = draw(3); a.bytes = makeAr(a.ms, o); break; }
    default: a.bytes = makeRpm(a.ms, (int)draw(3)); break;
    }
    a.path = strf("/sim/clock/a%u", idx);
    disk().put(a.path, a.bytes, 1000 + (int64_t)idx);
}
static void runC18() {
    disk().reset();
    disk().mkdir("/sim/clock");
    simClockOn = false;
    setZone(0);
    // the C library remembers the last conversion: make that the same for every run
    { struct tm t; memset(&t, 0, sizeof t); t.tm_year = 90; t.tm_mday = 1; mktime(&t); }
    Clocks c;
    std::vector<uint32_t> dos;
    uint32_t n = 1 + draw(4);
    for (uint32_t i = 0; i < n; ++i) { c.archs.emplace_back(); genArch(c.archs.back(), dos, i); }
    c.zone = draw(nzones);
    setZone(c.zone);
    simClock = (int64_t)draw32();
    simClockHook = jumpingClock;
    simClockOn = true;
    FileStreamOpener fso;
    std::unique_ptr<ArchiveReader> reader;
    uint32_t steps = 3 + logsize(20);
    for (uint32_t s = 0; s < steps; ++s) {
        Arch& a = c.archs[draw((uint32_t)c.archs.size())];
        switch (draw(8)) {
        case 0: simClock = jumpingClock(); ev("clock %lld", (long long)simClock); break;
        case 1: if (flip()) { c.zone = draw(nzones); setZone(c.zone); reader.reset(); ev("zone %s", zones[c.zone]); count("clock.zone_change"); break; }
                // fall through: the application converts a time of its own
                { struct tm t; memset(&t, 0, sizeof t); t.tm_year = 70 + (int)draw(100); t.tm_mon = (int)draw(12); t.tm_mday = 1; t.tm_isdst = -1; mktime(&t); count("probe.application_mktime"); }
                break;
        case 2: case 3: if (a.kind != KCpio) {                // by path (bare cpio archives are not recognised)
            if (!reader) { reader.reset(new ArchiveReader); reader->addStreamOpener(&fso); }
            if (flip()) {
                size_t i = draw((uint32_t)a.ms.size());
                EntryInfo e;
                if (reader->stat(a.path + "/" + a.ms[i].name, e) != 0) fail("missing-entry", "stat", "stat '%s/%s' fails", a.path.c_str(), a.ms[i].name.c_str());
                c.check(a, i, (int64_t)e.mtime, "stat");
            } else {
                ArchiveReader::DirLister l = reader->dirEntries(a.path);
                EntryInfo e;
                while (l.nextEntry(e)) {
                    size_t i = 0;
                    while (i < a.ms.size() && a.ms[i].name != e.filename) ++i;
                    if (i == a.ms.size()) fail("extra-entry", "dirEntries", "unknown entry '%s'", e.filename.c_str());
                    c.check(a, i, (int64_t)e.mtime, "dirEntries");
                }
            }
            break; }
            // fall through
        default: {                                            // by reading the archive
            SimConfig cfg = SimConfig::random();
            SimReport rep;
            SimStream in(a.bytes, cfg, &rep);
            std::unique_ptr<SubStreamProvider> p(newProvider(a.kind, &in));
            uint32_t stop = flip() ? draw((uint32_t)a.ms.size() + 1) : (uint32_t)a.ms.size();
            for (size_t i = 0; i < stop; ++i) {
                InputStream* e = p->nextEntry();
                if (!e) fail("missing-entry", kindNames[a.kind], "entry %zu is missing: %s", i, p->error());
                c.check(a, i, (int64_t)p->entryInfo().mtime, "listing");
                if (flip()) e->skip(1 + draw(400));
                if (chance(1, 4)) { c.check(a, i, (int64_t)p->entryInfo().mtime, "listing"); }
            }
            nontrivial();
            break; }
        }
    }
    reader.reset();
    simClockOn = false;
    simClockHook = 0;
    if (!disk().lastProblem.empty()) fail("handle-misuse", "clock", "%s", disk().lastProblem.c_str());
}
static Registrar r18({"C18", runC18, 200000000ull, false, 200000, 2000000});
} // namespace sim
