// C10: the archive facade over damaged and deeply nested archives: any call, in any order, stays safe and bounded.
#include "tree.h"
#include "stacks.h"
#include <strigi/archivereader.h>
#include <memory>
using namespace Strigi;
namespace sim {
static std::string le(uint32_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); return s; }
// archives inside archives inside archives: stored zip entries or tar members
std::string deepChain(uint32_t levels, bool tar) {
    std::string core = "the innermost file";
    std::string head, tail;
    std::vector<size_t> size(levels + 1);
    size[0] = core.size();
    for (uint32_t i = 1; i <= levels; ++i) size[i] = tar ? 512 + (size[i - 1] + 511) / 512 * 512 + 1024 : 31 + size[i - 1];
    for (uint32_t i = levels; i > 0; --i) {
        if (tar) {
            std::string h(512, '\0');
            h[0] = 'a';
            snprintf(&h[100], 8, "%07o", 0644); snprintf(&h[108], 8, "%07o", 0); snprintf(&h[116], 8, "%07o", 0);
            snprintf(&h[124], 12, "%011llo", (unsigned long long)size[i - 1]); snprintf(&h[136], 12, "%011o", 0);
            h[156] = '0'; memcpy(&h[257], "ustar", 6);
            memset(&h[148], ' ', 8);
            unsigned k = 0; for (unsigned char x : h) k += x;
            snprintf(&h[148], 7, "%06o", k); h[154] = 0; h[155] = ' ';
            head += h;
        } else head += std::string("PK\3\4\12\0\0\0\0\0\0\0\0\0", 14) + le(0, 4) + le((uint32_t)size[i - 1], 4) + le((uint32_t)size[i - 1], 4) + le(1, 2) + le(0, 2) + "a";
    }
    std::string s = head + core;
    if (tar) {
        s.resize(head.size() + 512);
        s += std::string(1024 * (size_t)levels, '\0');
    }
    return s;
}
void facadeDamagedRun(const std::string& data) {
    const std::string root = "/sim/d.bin";
    disk().put(root, data)->shortReads = flip();
    nontrivial();
    std::unique_ptr<FileStreamOpener> op(new FileStreamOpener);
    std::unique_ptr<ArchiveReader> r(new ArchiveReader);
    r->addStreamOpener(op.get());
    std::vector<std::string> paths(1, root);
    std::vector<std::unique_ptr<ArchiveReader::DirLister>> listers;
    std::vector<std::string> at;
    std::vector<InputStream*> open;
    std::vector<bool> physical;
    size_t listed = 0, limit = data.size() * 40 + 2000;
    auto closeOne = [&](size_t i) { r->closeStream(open[i]); open.erase(open.begin() + (long)i); };
    auto step = [&](size_t i, uint32_t n) {
        EntryInfo e;
        while (n-- && listers[i]->nextEntry(e)) {
            ev("damaged facade: '%s' in '%s'", hexs(e.filename, 40).c_str(), hexs(at[i], 60).c_str());
            if (++listed > limit * (1 + listers.size())) fail("endless-listing", "facade", "more than %zu entries from a file of %zu bytes", listed, data.size());
            if (paths.size() < 80) paths.push_back(at[i] + "/" + e.filename);
        }
    };
    uint32_t ops = 2 + logsize(24);
    for (uint32_t o = 0; o < ops; ++o) {
        std::string p = chance(1, 4) ? root : pick(paths);
        if (chance(1, 12)) p += flip() ? "/nosuch" : "x";
        EntryInfo e;
        switch (draw(8)) {
        case 0: case 1: case 2: {
            listers.emplace_back(new ArchiveReader::DirLister(r->dirEntries(p)));
            at.push_back(p);
            step(listers.size() - 1, chance(1, 3) ? 1 + draw(4) : 100000000);
            break; }
        case 3: if (!listers.empty()) step(draw((uint32_t)listers.size()), 1 + draw(5)); break;
        case 4: { int s = r->stat(p, e); ev("damaged facade: stat '%s' = %d", hexs(p, 60).c_str(), s); break; }
        case 5: { bool a = r->isArchive(p), b = r->canHandle(p); ev("damaged facade: '%s' archive %d handled %d", hexs(p, 60).c_str(), a, b); break; }
        case 6: {
            InputStream* s = r->openStream(p);
            if (!s) break;
            const char* d;
            uint32_t n = chance(1, 2) ? 0xffffffff : draw(6);
            int64_t total = 0;
            while (n--) {
                int32_t got = s->read(d, 1, flip() ? 0 : 1 + (int32_t)logsize(5000));
                if (got <= 0) {
                    if (s->status() == Strigi::Ok) fail("end-without-status", "facade", "a stream of '%s' ends with status Ok", hexs(p, 60).c_str());
                    break;
                }
                evbytes(d, (size_t)got);
                total += got;
            }
            ev("damaged facade: open '%s', read %lld", hexs(p, 60).c_str(), (long long)total);
            if (s->status() == Strigi::Error && !s->error()[0]) fail("error-without-message", "facade", "a stream of '%s' failed but error() is empty", hexs(p, 60).c_str());
            open.push_back(s);
            if (flip()) closeOne(draw((uint32_t)open.size()));
            break; }
        default:
            if (!listers.empty() && flip()) { size_t i = draw((uint32_t)listers.size()); listers.erase(listers.begin() + (long)i); at.erase(at.begin() + (long)i); }
            else if (!open.empty()) closeOne(draw((uint32_t)open.size()));
        }
    }
    while (!open.empty()) closeOne(0);
    if (flip()) { listers.clear(); r.reset(); } else { r.reset(); listers.clear(); }
    if (disk().openHandles) fail("leaked-handle", "facade", "%lld files are still open after everything was closed", (long long)disk().openHandles);
    if (listed) count("probe.entries_of_damaged_archive", listed);
}
void deepChainRun() {
    uint32_t n = 1 + logsize(6000);
    bool tar = flip() && n < 1500;
    std::string d = deepChain(n, tar);
    if (chance(1, 4)) { std::string how; d = damage(d, &how); }
    ev("%u archives inside each other (%s), %zu bytes", n, tar ? "tar" : "zip", d.size());
    count("fault.deep_nesting");
    facadeDamagedRun(d);
}
} // namespace sim
