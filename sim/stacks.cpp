#include "stacks.h"
#include "archives.h"
#include <strigi/bufferedstream.h>
#include <strigi/stringstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/zipinputstream.h>
#include "base64inputstream.h"
#include "gzipcompressstream.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <algorithm>

using namespace Strigi;
namespace sim {
bool Stack::bottomFirst = false;

std::string randomBytes(uint32_t len) {
    std::string s(len, 'a');
    if (!len) return s;
    uint32_t style = draw(7);
    Rng r(draw32());
    switch (style) {
    case 0: { for (uint32_t i = 0; i < len; ++i) s[i] = (char)('a' + i % 26); break; }
    case 1: { for (auto& c : s) c = (char)r.next(); break; }
    case 2: { char k = (char)r.next(); for (auto& c : s) c = k; break; }
    case 3: { for (auto& c : s) c = "ab"[r.below(2)]; break; }
    case 4: { for (auto& c : s) { uint32_t k = r.below(12); c = k == 0 ? '\n' : k == 1 ? '\r' : k == 2 ? '\0' : (char)(32 + r.below(95)); } break; }
    case 5: { uint32_t p = 1 + r.below(40); for (uint32_t i = 0; i < len; ++i) s[i] = i < p ? (char)r.next() : s[i - p]; for (uint32_t k = 0; k < len / 50; ++k) s[r.below(len)] = (char)r.next(); break; }
    default: { for (uint32_t i = 0; i < len; ++i) s[i] = (char)(i * 2654435761u >> 13); break; }
    }
    return s;
}
std::string randomText(uint32_t len) {
    std::string s(len, 'x');
    Rng r(draw32());
    for (auto& c : s) { uint32_t k = r.below(14); c = k == 0 ? '\n' : k == 1 ? ' ' : (char)(33 + r.below(94)); }
    return s;
}
uint32_t contentSize() {
    switch (draw(12)) {
    case 0: case 1: return draw(10);
    case 2: case 3: case 4: return logsize(200);
    case 5: case 6: case 7: return logsize(2000);
    case 8: case 9: return logsize(9000);
    case 10: return 500 + draw(4) * 512 + draw(20);
    default: return chance(1, 4) ? 200000 + logsize(400000) : logsize(40000);
    }
}

std::string zcompress(const std::string& s, int fmt, int level) {
    z_stream z;
    memset(&z, 0, sizeof z);
    deflateInit2(&z, level, Z_DEFLATED, fmt == FmtGzip ? 31 : fmt == FmtZlib ? 15 : -15, 8, Z_DEFAULT_STRATEGY);
    std::string out;
    out.resize(deflateBound(&z, s.size()) + 64);
    z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size();
    z.next_out = (Bytef*)&out[0]; z.avail_out = (uInt)out.size();
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) harnessError("deflate");
    out.resize(z.total_out);
    deflateEnd(&z);
    return out;
}
std::string zdecompressAll(const std::string& s, int fmt, bool* ok) {
    z_stream z;
    memset(&z, 0, sizeof z);
    inflateInit2(&z, fmt == FmtGzip ? 31 : fmt == FmtZlib ? 15 : -15);
    z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size();
    std::string out;
    char buf[16384];
    int r = Z_OK;
    while (r == Z_OK) {
        z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
        r = inflate(&z, Z_NO_FLUSH);
        out.append(buf, sizeof buf - z.avail_out);
        if (r == Z_BUF_ERROR) break;
    }
    inflateEnd(&z);
    if (ok) *ok = r == Z_STREAM_END && z.avail_in == 0;
    return out;
}
std::string bzcompress(const std::string& s, int level) {
    unsigned n = (unsigned)(s.size() + s.size() / 50 + 1000);
    std::string out(n, 0);
    if (BZ2_bzBuffToBuffCompress(&out[0], &n, (char*)s.data(), (unsigned)s.size(), level, 0, 0) != BZ_OK) harnessError("bz2");
    out.resize(n);
    return out;
}
std::string lzmaCompress(const std::string& s, bool knownSize) {
    lzma_options_lzma opt;
    lzma_lzma_preset(&opt, 0);
    opt.dict_size = 4096 << draw(3);
    lzma_stream z = LZMA_STREAM_INIT;
    if (lzma_alone_encoder(&z, &opt) != LZMA_OK) harnessError("lzma");
    std::string out(s.size() * 2 + 4096, 0);
    z.next_in = (const uint8_t*)s.data(); z.avail_in = s.size();
    z.next_out = (uint8_t*)&out[0]; z.avail_out = out.size();
    if (lzma_code(&z, LZMA_FINISH) != LZMA_STREAM_END) harnessError("lzma code");
    out.resize(z.total_out);
    lzma_end(&z);
    if (knownSize && s.size() > opt.dict_size) {
        uint64_t n = s.size();
        for (int i = 0; i < 8; ++i) out[5 + i] = (char)(n >> (8 * i));
    }
    return out;
}
std::string base64Encode(const std::string& s, int style) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    int col = 0;
    Rng r(style >= 2 ? draw32() : 1);
    auto put = [&](char c) {
        o += c;
        ++col;
        if (style == 1 && col == 76) { o += "\r\n"; col = 0; }
        if (style == 2 && r.below(5) == 0) o += " \n\t-"[r.below(4)];
    };
    for (size_t i = 0; i < s.size(); i += 3) {
        uint32_t v = (uint8_t)s[i] << 16;
        if (i + 1 < s.size()) v |= (uint8_t)s[i + 1] << 8;
        if (i + 2 < s.size()) v |= (uint8_t)s[i + 2];
        put(A[v >> 18]);
        put(A[(v >> 12) & 63]);
        if (i + 1 < s.size()) put(A[(v >> 6) & 63]); else o += '=';
        if (i + 2 < s.size()) put(A[v & 63]); else o += '=';
    }
    if (style) o += "\r\n";
    return o;
}

std::string damage(const std::string& in, std::string* what) {
    std::string s = in;
    uint32_t times = 1 + logsize(5);
    std::string w;
    for (uint32_t t = 0; t < times; ++t) {
        if (s.empty()) break;
        uint32_t n = (uint32_t)s.size();
        uint32_t at = flip() ? draw(n) : logsize(n - 1);
        switch (draw(9)) {
        case 0: s[at] = (char)(s[at] ^ (1 << draw(8))); w += strf(" flip@%u", at); count("fault.stored_bit_flip"); break;
        case 1: { static const unsigned char v[] = {0, 0xff, 0x7f, 0x80, '0', '7', ' ', '\n', 1}; s[at] = (char)v[draw(9)]; w += strf(" set@%u", at); count("fault.stored_byte_changed"); break; }
        case 2: { uint32_t l = 1 + logsize(n - at - 1); s.erase(at, l); w += strf(" drop@%u+%u", at, l); count("fault.stored_bytes_lost"); break; }
        case 3: { uint32_t l = 1 + logsize(n - at - 1); if (l > 5000) l = 5000; std::string x = s.substr(at, l); s.insert(at, x); w += strf(" dup@%u+%u", at, l); count("fault.stored_bytes_duplicated"); break; }
        case 4: { uint32_t l = 1 + logsize(n - at - 1); for (uint32_t i = 0; i < l; ++i) s[at + i] = 0; w += strf(" zero@%u+%u", at, l); count("fault.stored_bytes_zeroed"); break; }
        case 5: { s.resize(at); w += strf(" cut@%u", at); count("fault.stored_data_cut"); break; }
        case 6: { uint32_t l = 1 + draw(8); Rng r(draw32()); for (uint32_t i = 0; i < l && at + i < n; ++i) s[at + i] = (char)r.next(); w += strf(" garble@%u+%u", at, l); count("fault.stored_bytes_garbled"); break; }
        case 7: { uint32_t b = draw(n), l = 1 + logsize(64); for (uint32_t i = 0; i < l && at + i < n && b + i < n; ++i) std::swap(s[at + i], s[b + i]); w += strf(" swap@%u,%u+%u", at, b, l); count("fault.stored_bytes_swapped"); break; }
        default: { // a field set to an extreme number, in ascii-octal, hex or binary
            static const char* f[] = {"77777777777", "FFFFFFFF", "-0000001", "00000000", "\xff\xff\xff\x7f", "\x00\x00\x00\x80", "\xff\xff\xff\xff", "80000000", "7FFFFFFF", "\xfe\xff\xff\xff"};
            static const int fl[] = {11, 8, 8, 8, 4, 4, 4, 8, 8, 4};
            int k = (int)draw(10);
            for (int i = 0; i < fl[k] && at + i < s.size(); ++i) s[at + i] = f[k][i];
            w += strf(" field@%u:%d", at, k); count("fault.stored_field_extreme"); break; }
        }
    }
    if (what) *what = w;
    return s;
}

// ---------------------------------------------------------------- custom BufferedStream
class CustomStream : public BufferedInputStream {
    std::string data; size_t at; int style; uint32_t fixed; uint64_t st;
    int32_t fillBuffer(char* start, int32_t space) {
        Unarmed unarmed;
        if (at >= data.size()) return -1;
        size_t n = data.size() - at;
        if (n > (size_t)space) n = (size_t)space;
        if (style == 1 && n > fixed) n = fixed;
        if (style == 2) { Rng r(st); st = r.next(); n = 1 + r.below((uint32_t)n); }
        if (style == 3 && st) { st = 0; return 0; }
        if (style == 3) st = 1;
        memcpy(start, data.data() + at, n);
        at += n;
        ev("custom: fill(%d)=%zu", space, n);
        return (int32_t)n;
    }
public:
    CustomStream(const std::string& d) : data(d), at(0) {
        style = (int)draw(4); fixed = 1 + draw(50); st = style == 2 ? draw32() : 1;
        if (flip()) setMinBufSize(1 + (int32_t)draw(300));
    }
};
InputStream* newCustomStream(const std::string& d) { return new CustomStream(d); }

class NullHandler : public DataEventHandler {
public:
    bool handleData(const char*, uint32_t) { return true; }
    void handleEnd() {}
};

InputStream* buildBase(Stack& st, const std::string& content, const BuildOpts& o) {
    std::string data = content;
    st.baseSize = (int64_t)content.size();
    uint32_t kinds[BBaseCount], nk = 0;
    for (int i = 0; i < BBaseCount; ++i) if (o.bases & (1u << i)) kinds[nk++] = i;
    // SimStream is by far the most adversarial base: prefer it
    int kind = kinds[0];
    if (nk > 1 && chance(1, 3)) kind = kinds[draw(nk)];
    if (o.errors) kind = BSim;
    if (o.truncate && !data.empty()) {
        uint32_t n = (uint32_t)data.size();
        uint32_t cut;
        switch (draw(4)) { case 0: cut = draw(n); break; case 1: cut = n - 1 - logsize(n - 1); break; case 2: cut = logsize(n - 1); break; default: cut = draw(n) / 512 * 512; break; }
        data.resize(cut);
        st.damaged = true;
        st.desc += strf("cut@%u/%u ", cut, n);
        count("fault.stored_data_cut");
    }
    if (o.corrupt) { std::string w; data = damage(data, &w); st.damaged = true; st.desc += "damage(" + w + ") "; }
    InputStream* s = 0;
    static int fileNo = 0;
    switch (kind) {
    case BSim: {
        SimConfig c = SimConfig::random(true);
        if (o.forceUnseekable) c.seekable = false;
        if (o.errors) {
            uint32_t n = (uint32_t)data.size();
            switch (draw(7)) {
            case 5: c.errorOp = logsize(200); break;
            case 6: c.errorOp = draw(30); break;
            case 0: c.errorAt = draw(n + 1); break;
            case 1: c.errorAt = n - logsize(n); break;
            case 2: c.errorAt = logsize(n); break;
            case 3: c.errorAt = n; break;
            default: c.errorAt = n ? draw(n) : 0; break;
            }
            st.errorInjected = true;
            if (c.errorOp >= 0) st.desc += strf("err in call %lld ", (long long)c.errorOp);
            else st.desc += strf("err@%lld/%u ", (long long)c.errorAt, n);
        }
        s = new SimStream(data, c, &st.rep);
        st.desc += strf("sim(%zu,%s%s%s,chunk%d/%u)", data.size(), c.eagerEof ? "eager" : "lazy", c.knownSize ? ",sized" : "", c.seekable ? ",seek" : "", c.chunkStyle, c.chunkFixed);
        st.hasBase = true;
        break; }
    case BString:
        s = lib([&]() { return new StringInputStream(data.data(), (int32_t)data.size(), true); });
        st.desc += strf("string(%zu)", data.size());
        break;
    default: {
        std::string path = strf("/sim/base%d", fileNo++ % 50);
        auto f = disk().put(path, data);
        if (o.fileFaults || chance(1, 3)) f->shortReads = true;
        if (chance(1, 6)) f->unseekable = kind == BFileBuf;
        if (kind == BFileBuf && !f->unseekable && chance(1, 8)) f->reportZeroSize = true;
        if (kind == BFileBuf) {
            int32_t bs = flip() ? 1048576 : 1 + (int32_t)logsize(20000);
            s = lib([&]() { return new FileInputStream(path.c_str(), bs); });
            st.desc += strf("file(%zu,buf %d%s)", data.size(), bs, f->unseekable ? ",pipe" : "");
        } else if (kind == BFileSkip) {
            s = lib([&]() { return FileInputStream::open(path.c_str(), flip() ? FileInputStream::Unbuffered : FileInputStream::Automatic); });
            st.desc += strf("skipfile(%zu)", data.size());
        } else {
            s = lib([&]() { return FileInputStream::open(path.c_str(), FileInputStream::MMap); });
            st.desc += strf("mmap(%zu)", data.size());
        }
        st.cleanup.push_back([path]() { disk().files.erase(path); });
        break; }
    }
    st.cleanup.push_back([s]() { delete s; });
    st.levels.push_back(s);
    return s;
}

static bool position(InputStream* s, int64_t n) {
    // bring the stream to absolute position n by legal client calls
    while (s->position() < n) {
        int64_t left = n - s->position();
        if (flip()) {
            int64_t k = lib([&]() { return s->skip(left); });
            if (k <= 0 || s->status() == Strigi::Error) {
                if (s->status() == Strigi::Error && !s->error()[0]) fail("error-without-message", "skip", "skip failed but error() is empty");
                return false;
            }
        } else {
            const char* p;
            int32_t k = lib([&]() { return s->read(p, (int32_t)std::min<int64_t>(left, 1 + (int64_t)draw(200)), (int32_t)left); });
            if (k <= 0) {
                if (s->status() == Strigi::Error && !s->error()[0]) fail("error-without-message", "read", "read failed but error() is empty");
                return false;
            }
        }
    }
    return true;
}

static InputStream* buildRec(Stack& st, const std::string& content, const BuildOpts& o, int depth);

template <class P> static InputStream* entryLayer(Stack& st, const BuildOpts& o, int depth, const std::string& archive, const std::vector<Member>& ms, uint32_t want) {
    InputStream* in = buildRec(st, archive, o, depth);
    if (!in) return 0;
    P* p = lib([&]() { return new P(in); });
    st.cleanup.push_back([p]() { delete p; });
    InputStream* e = 0;
    for (uint32_t i = 0; i <= want; ++i) {
        e = lib([&]() { return p->nextEntry(); });
        if (!e) {
            if (st.rep.errorFired && p->status() != Strigi::Error)
                fail("failure-reported-as-end", "nextEntry", "%s: the input failed, nextEntry() gives 0 with status %d", st.desc.c_str(), (int)p->status());
            if (p->status() == Strigi::Error && !p->error()[0])
                fail("error-without-message", "nextEntry", "%s: nextEntry() failed but error() is empty", st.desc.c_str());
            if (!st.errorInjected && !st.damaged)
                fail(p->status() == Strigi::Error ? "unexpected-error" : "missing-entry", "nextEntry", "%s: nextEntry() gives 0 with status %d (%s) for member %u", st.desc.c_str(), (int)p->status(), p->error(), i);
            return 0;
        }
    }
    (void)ms;
    return e;
}

static InputStream* buildRec(Stack& st, const std::string& content, const BuildOpts& o, int depth) {
    if (depth <= 0) return buildBase(st, content, o);
    int kinds[LLayerCount], nk = 0;
    for (int i = 0; i < LLayerCount; ++i) if (o.layers & (1u << i)) kinds[nk++] = i;
    if (!nk) return buildBase(st, content, o);
    int k = kinds[draw(nk)];
    InputStream* in = 0;
    InputStream* s = 0;
    switch (k) {
    case LSub: case LSubOpen: {
        std::string pre = randomBytes(logsize(flip() ? 12 : 1500));
        bool open = k == LSubOpen;
        std::string post = open ? "" : randomBytes(logsize(flip() ? 12 : 700));
        in = buildRec(st, pre + content + post, o, depth - 1);
        if (!in) return 0;
        if (!position(in, (int64_t)pre.size())) { st.buildFailed = true; return 0; }
        s = lib([&]() { return new SubInputStream(in, open ? -1 : (int64_t)content.size()); });
        if (!open) st.passthrough = false;
        st.desc += strf(" >sub(+%zu,%s)", pre.size(), open ? "open" : strf("%zu", content.size()).c_str());
        break; }
    case LTerm: {
        std::string pre = randomBytes(logsize(40));
        std::string term;
        uint32_t tl = 1 + logsize(9);
        Rng r(draw32());
        uint32_t ts = draw(4);
        for (uint32_t i = 0; i < tl; ++i) term += ts == 0 ? (char)r.next() : ts == 1 ? 'a' : ts == 2 ? "ab"[r.below(2)] : (char)('\n');
        if (ts == 3 && tl > 1) term[tl - 1] = '-';
        std::string body = content + term;
        bool open = chance(1, 6) && content.find(term) == std::string::npos;
        if (!open && body.find(term) != content.size()) return buildRec(st, content, o, depth - 1);
        std::string post = open ? "" : randomBytes(logsize(60));
        in = buildRec(st, pre + (open ? content : body + post), o, depth - 1);
        if (!in) return 0;
        if (!position(in, (int64_t)pre.size())) { st.buildFailed = true; return 0; }
        s = lib([&]() { return new StringTerminatedSubStream(in, term); });
        if (!open) st.passthrough = false;
        st.desc += strf(" >term(+%zu,'%s'%s)", pre.size(), hexs(term).c_str(), open ? ",open" : "");
        break; }
    case LEvent: {
        in = buildRec(st, content, o, depth - 1);
        if (!in) return 0;
        if (in->position() != 0) { s = in; return s; }
        NullHandler* h = new NullHandler;
        st.cleanup.push_back([h]() { delete h; });
        s = lib([&]() { return new DataEventInputStream(in, *h); });
        st.desc += " >event";
        break; }
    case LGzip: case LZlib: case LDeflate: {
        int fmt = k == LGzip ? FmtGzip : k == LZlib ? FmtZlib : FmtRaw;
        std::string z = zcompress(content, fmt, (int)draw(10));
        std::string post = flip() ? "" : randomBytes(logsize(50));
        in = buildRec(st, z + post, o, depth - 1);
        if (!in) return 0;
        s = lib([&]() { return new GZipInputStream(in, fmt == FmtGzip ? GZipInputStream::GZIPFORMAT : fmt == FmtZlib ? GZipInputStream::ZLIBFORMAT : GZipInputStream::ZIPFORMAT); });
        st.passthrough = false;
        st.desc += strf(" >%s", fmt == FmtGzip ? "gzip" : fmt == FmtZlib ? "zlib" : "deflate");
        break; }
    case LBz2: {
        if (content.empty()) return buildRec(st, content, o, depth - 1);
        std::string z = bzcompress(content, 1 + (int)draw(2));
        in = buildRec(st, z + (flip() ? "" : randomBytes(logsize(50))), o, depth - 1);
        if (!in) return 0;
        s = lib([&]() { return new BZ2InputStream(in); });
        st.passthrough = false;
        st.desc += " >bz2";
        break; }
    case LLzma: {
        std::string z = lzmaCompress(content, flip());
        in = buildRec(st, z, o, depth - 1);
        if (!in) return 0;
        s = lib([&]() { return new LZMAInputStream(in); });
        st.passthrough = false;
        st.desc += " >lzma";
        break; }
    case LBase64: {
        in = buildRec(st, base64Encode(content, (int)draw(3)), o, depth - 1);
        if (!in) return 0;
        s = lib([&]() { return new Base64InputStream(in); });
        st.passthrough = false;
        st.desc += " >base64";
        break; }
    case LEncode: {
        // ISO-8859-1 to UTF-8 of the inverse: only when the content is UTF-8 of latin-1, here: ASCII
        bool ascii = true;
        for (unsigned char c : content) if (c >= 128) ascii = false;
        if (!ascii) return buildRec(st, content, o, depth - 1);
        static const char* enc[] = {"UTF-8", "ISO-8859-1", "UTF-16LE"};
        int e = (int)draw(3);
        std::string bytes = content;
        if (e == 2) { bytes.clear(); for (char c : content) { bytes += c; bytes += '\0'; } }
        in = buildRec(st, bytes, o, depth - 1);
        if (!in) return 0;
        s = lib([&]() { return new EncodingInputStream(in, enc[e], "UTF-8"); });
        st.desc += strf(" >enc(%s)", enc[e]);
        break; }
    case LRoundtrip: {
        in = buildRec(st, content, o, depth - 1);
        if (!in) return 0;
        InputStream* c = lib([&]() { return new GZipCompressInputStream(in, (int)draw(11) - 1); });
        st.cleanup.push_back([c]() { delete c; });
        st.levels.push_back(c);
        s = lib([&]() { return new GZipInputStream(c, GZipInputStream::ZLIBFORMAT); });
        st.desc += " >compress>zlib";
        break; }
    case LTar: case LAr: case LCpio: case LZipStore: {
        std::vector<Member> ms;
        uint32_t n = 1 + draw(3), want = draw(n);
        for (uint32_t i = 0; i < n; ++i) {
            Member m;
            m.name = strf("m%u", i);
            m.data = i == want ? content : randomBytes(logsize(700));
            ms.push_back(m);
        }
        if (k == LTar) s = entryLayer<TarInputStream>(st, o, depth - 1, makeTar(ms, TarOpts()), ms, want);
        else if (k == LAr) s = entryLayer<ArInputStream>(st, o, depth - 1, makeAr(ms, ArOpts()), ms, want);
        else if (k == LCpio) s = entryLayer<CpioInputStream>(st, o, depth - 1, makeCpio(ms), ms, want);
        else s = entryLayer<ZipInputStream>(st, o, depth - 1, makeZip(ms, ZipOpts()), ms, want);
        st.passthrough = false;
        st.desc += strf(" >%s[%u/%u]", k == LTar ? "tar" : k == LAr ? "ar" : k == LCpio ? "cpio" : "zip", want, n);
        if (!s) st.buildFailed = true;
        else st.levels.push_back(s);
        return s; }
    case LCustom: default:
        // replaces the base
        st.desc += "custom";
        s = newCustomStream(content);
        break;
    }
    st.cleanup.push_back([s]() { delete s; });
    st.levels.push_back(s);
    return s;
}

void buildStack(Stack& st, const std::string& content, const BuildOpts& o) {
    st.content = content;
    int depth = (int)draw((uint32_t)o.maxDepth + 1);
    st.top = buildRec(st, content, o, depth);
    ev("stack %s content %zu", st.desc.c_str(), content.size());
}

} // namespace sim
