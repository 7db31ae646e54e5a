// C04: failing inputs.  C05: cut-off and damaged compressed data.
#include "stacks.h"
#include <bzlib.h>
#include <cstring>
#include <zlib.h>
#include "client.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/dataeventinputstream.h>
using namespace Strigi;
namespace sim {
void archiveFaultRun();   // p_archives.cpp

void bigArchiveRun(bool cut, bool error);
static void runC04() {
    if (chance(1, 40)) { disk().reset(); bigArchiveRun(false, true); return; }
    if (chance(2, 5)) { archiveFaultRun(); return; }
    disk().reset();
    BuildOpts b; b.maxDepth = 4; b.errors = true; b.layers &= ~(1u << LCustom);
    ClientOpts c; c.maxOps = 16; c.segRate = 8;
    std::string content = randomBytes(contentSize());
    Stack st;
    buildStack(st, content, b);
    if (!st.top) { if (st.rep.errorFired) nontrivial(); return; }
    Client<char> cl(st.top, st.content, c, [&]() { return st.rep.errorFired; }, "top");
    if (st.passthrough) cl.mustFail = [&]() { return st.rep.errorFired; };
    cl.run();
    if (st.rep.errorFired) nontrivial();
    if (cl.failed) count("probe.error_reached_client");
}

struct Quiet : DataEventHandler { bool handleData(const char*, uint32_t) { return true; } };

// whether damaged data is a complete file with a fitting checksum by chance (zlib and bzip2 alone)
static bool anotherFile(int fmt, const std::string& data, std::string& out) {
    std::vector<char> buf(1 << 16);
    out.clear();
    if (fmt < 3) {
        z_stream z; memset(&z, 0, sizeof z);
        if (inflateInit2(&z, fmt == 0 ? 31 : 15) != Z_OK) return false;
        z.next_in = (Bytef*)data.data(); z.avail_in = (uInt)data.size();
        int r;
        do {
            z.next_out = (Bytef*)buf.data(); z.avail_out = (uInt)buf.size();
            r = inflate(&z, Z_NO_FLUSH);
            out.append(buf.data(), buf.size() - z.avail_out);
        } while (r == Z_OK);
        inflateEnd(&z);
        return r == Z_STREAM_END;
    }
    bz_stream z; memset(&z, 0, sizeof z);
    if (BZ2_bzDecompressInit(&z, 0, 0) != BZ_OK) return false;
    z.next_in = (char*)data.data(); z.avail_in = (unsigned)data.size();
    int r;
    do {
        z.next_out = buf.data(); z.avail_out = (unsigned)buf.size();
        r = BZ2_bzDecompress(&z);
        out.append(buf.data(), buf.size() - z.avail_out);
    } while (r == BZ_OK && (z.avail_in || z.avail_out == 0));
    BZ2_bzDecompressEnd(&z);
    return r == BZ_STREAM_END;
}
static void runC05() {
    disk().reset();
    int fmt = (int)draw(5);     // gzip zlib deflate bz2 lzma
    std::string content = randomBytes(contentSize());
    if (fmt == 3 && content.empty()) content = "x";
    bool lzKnown = fmt == 4 && flip();
    std::string z = fmt < 3 ? zcompress(content, fmt, (int)draw(10)) : fmt == 3 ? bzcompress(content, 1 + (int)draw(9)) : lzmaCompress(content, lzKnown);
    static const char* names[] = {"gzip", "zlib", "deflate", "bz2", "lzma"};
    bool trailer = false;
    bool cut = fmt == 2 || fmt == 4 || flip();
    std::string data = z, how;
    uint32_t zn = (uint32_t)z.size();
    bool wrongSize = fmt == 4 && chance(1, 4);
    if (wrongSize) {
        // an end marker before (or behind) the announced end
        uint64_t n = content.size() + (chance(2, 3) ? 1 + logsize(300000) : 0);
        if (n == content.size()) { if (n < 40000) n += 40000; else n -= 1 + draw((uint32_t)n - 32769); }
        if (n <= 32768) n = 32769 + draw(3);    // not more than the dictionary: not recognised
        lzKnown = true;
        for (int i = 0; i < 8; ++i) data[5 + i] = (char)(n >> (8 * i));
        how = strf("announces %llu", (unsigned long long)n);
        count("fault.announced_size_wrong");
        cut = false;
        if (n == content.size()) return;
    } else if (cut) {
        uint32_t at;
        switch (draw(4)) { case 0: at = zn - 1 - (zn > 20 ? draw(20) : 0); break; case 1: at = logsize(zn - 1); break; default: at = draw(zn); break; }
        data.resize(at);
        how = strf("cut@%u/%u", at, zn);
        count("fault.stored_data_cut");
    } else if (chance(1, 5)) {
        // the stored checksum or length: gzip keeps 8 bytes, zlib 4, bzip2 a mark and a checksum before the last byte
        trailer = true;
        uint32_t at = fmt == 0 ? zn - 1 - draw(8) : fmt == 1 ? zn - 1 - draw(4) : zn - 2 - draw(8);
        data[at] = (char)(data[at] ^ (1 << draw(8)));
        how = strf("checksum@%u/%u", at, zn);
        count("fault.stored_checksum_flipped");
    } else {
        data = damage(data, &how);
        if (data == z) return;
        if (flip()) data += randomBytes(logsize(100));
    }
    ev("%s content %zu stored %u %s", names[fmt], content.size(), zn, how.c_str());
    BuildOpts b; b.maxDepth = 2;
    Stack st;
    buildStack(st, data, b);
    if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
    InputStream* s = 0;
    if (fmt < 3) s = new GZipInputStream(st.top, fmt == 0 ? GZipInputStream::GZIPFORMAT : fmt == 1 ? GZipInputStream::ZLIBFORMAT : GZipInputStream::ZIPFORMAT);
    else if (fmt == 3) s = new BZ2InputStream(st.top);
    else s = new LZMAInputStream(st.top);
    st.cleanup.push_back([s]() { delete s; });
    InputStream* top = s;
    uint32_t over = draw(3);
    Quiet q;
    if (over == 1) { InputStream* t = new SubInputStream(top); st.cleanup.push_back([t]() { delete t; }); top = t; }
    if (over == 2) { InputStream* t = new DataEventInputStream(top, q); st.cleanup.push_back([t]() { delete t; }); top = t; }
    nontrivial();
    if (cut) {
        ClientOpts c; c.maxOps = 12; c.segRate = 10;
        Client<char> cl(top, content, c, []() { return true; }, names[fmt]);
        if (!lzKnown) cl.mustFail = []() { return true; };
        cl.run();
        if (cl.failed) count("probe.cut_reported");
    } else {
        int64_t announced = s->status() == Strigi::Ok ? s->size() : -1;
        LooseClient cl(top, names[fmt]);
        cl.run(10);
        if (wrongSize) {
            for (size_t i = 0; i < cl.got.size() && i < content.size(); ++i)
                if (cl.got[i] >= 0 && (char)cl.got[i] != content[i]) fail("wrong-content", names[fmt], "%s: wrong byte at %zu (%s)", names[fmt], i, how.c_str());
            if (cl.got.size() > content.size()) fail("beyond-end", names[fmt], "%s: %zu bytes of content, the original has %zu", names[fmt], cl.got.size(), content.size());
        }
        if (cl.failed) { count("probe.damage_reported"); st.destroy(); return; }
        if (!cl.ended) { st.destroy(); return; }
        if (announced >= 0 && (int64_t)cl.got.size() != announced) fail("ends-elsewhere", names[fmt], "%s: complete stream of %zu bytes, %lld were announced (%s)", names[fmt], cl.got.size(), (long long)announced, how.c_str());
        if (wrongSize) {
            // a client may be content with the announced part of more data
            if (cl.got.size() >= content.size()) fail("damaged-data-accepted", names[fmt], "%s: complete stream with a wrong announced size (%s)", names[fmt], how.c_str());
            count("probe.announced_part"); st.destroy(); return;
        }
        if (trailer) fail("damaged-data-accepted", names[fmt], "%s: complete stream although the stored checksum or length is wrong (%s)", names[fmt], how.c_str());
        std::string other;
        bool differs = cl.got.size() != content.size();
        for (size_t i = 0; i < content.size() && !differs; ++i) differs = cl.got[i] >= 0 && (char)cl.got[i] != content[i];
        if (differs && anotherFile(fmt, data, other) && other.size() == cl.got.size()) {
            differs = false;
            for (size_t i = 0; i < other.size() && !differs; ++i) differs = cl.got[i] >= 0 && (char)cl.got[i] != other[i];
            if (!differs) { count("probe.damage_makes_another_file"); st.destroy(); return; }
        }
        count("probe.damage_harmless");
        if (cl.got.size() != content.size()) fail("damaged-data-accepted", names[fmt], "%s: complete stream of %zu bytes from damaged data (%s), the original has %zu", names[fmt], cl.got.size(), how.c_str(), content.size());
        for (size_t i = 0; i < content.size(); ++i)
            if (cl.got[i] >= 0 && (char)cl.got[i] != content[i]) fail("damaged-data-accepted", names[fmt], "%s: complete stream with wrong byte at %zu from damaged data (%s)", names[fmt], i, how.c_str());
    }
    st.destroy();
}
static Registrar r4({"C04", runC04, 300000000, false, 200000, 2000000});
static Registrar r5({"C05", runC05, 300000000, false, 120000, 2000000});
} // namespace sim
