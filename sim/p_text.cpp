// C13: character decoding does not depend on how the bytes arrive.
#include "stacks.h"
#include "client.h"
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/subinputstream.h>
#include <strigi/dataeventinputstream.h>
#include <iconv.h>
#include <cerrno>
#include <memory>
using namespace Strigi;
namespace sim {

// the whole text in one step: what it must become however it is split
static int oneShot(const char* to, const char* from, const std::string& in, std::string* out) {
    iconv_t c = iconv_open(to, from);
    if (c == (iconv_t)-1) return -1;
    std::string buf(in.size() * 8 + 1024, '\0');
    char* ip = (char*)in.data(); size_t il = in.size();
    char* op = &buf[0]; size_t ol = buf.size();
    size_t r = iconv(c, &ip, &il, &op, &ol);
    int err = r == (size_t)-1 ? errno : 0;
    if (!err && iconv(c, 0, 0, &op, &ol) == (size_t)-1) err = errno;
    buf.resize(buf.size() - ol);
    *out = buf;
    iconv_close(c);
    return err;
}
static const char* encs[] = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "UTF-16", "UCS-2LE", "UTF-32LE", "UTF-32BE", "WINDOWS-1252", "KOI8-R", "SHIFT_JIS", "EUC-JP", "GB18030", "BIG5", "EUC-KR", "ISO-2022-JP", "GBK", "US-ASCII", "UTF-7", "ISO-8859-15",
    // these keep a character back until the next one is known, or have shift states
    "WINDOWS-1258", "TCVN5712-1", "BIG5-HKSCS", "EUC-JISX0213", "SHIFT_JISX0213", "ISO-2022-JP-3", "ISO-2022-KR", "ISO-2022-CN"};
static const char* outs[] = {"UTF-8", "UTF-16LE", "UTF-32BE", "UTF-16", "ISO-2022-JP", "GB18030", "BIG5-HKSCS", "EUC-JISX0213"};
static const int nEncs = sizeof encs / sizeof *encs, nOuts = sizeof outs / sizeof *outs;

static std::string randomCodepoints(uint32_t n, int script) {
    Rng r(draw32());
    std::string s;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t c, k = r.below(16);
        if (k < 4 || script == 0) c = 32 + r.below(95);
        else if (k == 4) c = '\n';
        else switch (script) {
            case 1: c = 0xa0 + r.below(0x60); break;
            case 2: c = 0x410 + r.below(0x40); break;
            case 3: c = 0x4e00 + r.below(0x1000); break;
            case 4: c = 0x3041 + r.below(0x50); break;
            case 5: c = 0xac00 + r.below(0x2ba0); break;
            case 7: { static const uint32_t cs[] = {0x61, 0x65, 0x6f, 0x75, 0xea, 0xf4, 0x103, 0x1a1, 0x300, 0x301, 0x303, 0x309, 0x323, 0x304, 0x30c, 0xca, 0x304b, 0x309a, 0x30ab, 0x2e9, 0x2e5, 0x254}; c = cs[r.below(22)]; break; }   // combining
            case 6: c = 0x1f300 + r.below(0x300); break;
            default: { static const uint32_t lim[] = {0x80, 0x800, 0xd800, 0x110000}; do c = 1 + r.below(lim[r.below(4)] - 1); while (c >= 0xd800 && c < 0xe000); }
        }
        for (int b = 0; b < 4; ++b) s += (char)(c >> (8 * b));
    }
    return s;
}
void textSession() {
    int e = (int)draw(nEncs), script = (int)draw(9);
    const char* enc = encs[e];
    bool wide = flip();
    const char* out = wide ? "WCHAR_T" : flip() ? "UTF-8" : outs[draw(nOuts)];
    uint32_t n;
    switch (draw(4)) { case 0: n = logsize(20); break; case 1: n = logsize(400); break; case 2: n = 60 + draw(210); break; default: n = logsize(6000); break; }
    std::string u = randomCodepoints(n, script), bytes;
    // keep what the character set can express
    std::string keep;
    if (oneShot(enc, "UTF-32LE", u, &bytes) != 0) {
        std::unique_ptr<void, int (*)(iconv_t)> c(iconv_open(enc, "UTF-32LE"), iconv_close);
        bytes.clear();
        char tmp[64];
        for (size_t i = 0; i + 4 <= u.size(); i += 4) {
            char* ip = &u[i]; size_t il = 4; char* op = tmp; size_t ol = sizeof tmp;
            if (iconv(c.get(), &ip, &il, &op, &ol) != (size_t)-1) { keep.append(u, i, 4); bytes.append(tmp, op - tmp); }
        }
        char* op = tmp; size_t ol = sizeof tmp;
        iconv(c.get(), 0, 0, &op, &ol);
        bytes.append(tmp, op - tmp);
    } else keep = u;
    uint32_t fault = draw(6);
    std::string how;
    std::string data = bytes;
    if (fault == 1 && !data.empty()) { data.resize(chance(1, 2) ? data.size() - 1 - draw((uint32_t)std::min<size_t>(4, data.size())) % data.size() : draw((uint32_t)data.size())); how = "cut"; count("fault.stored_data_cut"); }
    if (fault == 2 && !data.empty()) {
        uint32_t k = 1 + draw(3);
        for (uint32_t i = 0; i < k; ++i) { uint32_t at = draw((uint32_t)data.size()); data[at] = (char)(draw(3) ? 0x80 + draw(128) : draw(256)); }
        how = "garbled"; count("fault.stored_byte_changed");
    }
    std::string text;
    int err = oneShot(out, enc, data, &text);
    if (err == -1) { count("probe.charset_missing"); return; }
    if (err == E2BIG) harnessError("output estimate too small");
    BuildOpts b; b.maxDepth = chance(1, 3) ? 2 : 0;
    b.layers = (1u << LSub) | (1u << LSubOpen) | (1u << LEvent) | (1u << LGzip) | (1u << LTar);
    if (fault == 3) b.errors = true;
    Stack st;
    buildStack(st, data, b);
    if (!st.top) { if (!b.errors) fail("build-failed", "build", "the lower stack could not be opened"); return; }
    bool badSet = fault == 4;
    static const char* badNames[] = {"NO-SUCH-SET", "", "UTF-99", "x\xff"};
    const char* inName = badSet ? badNames[draw(4)] : enc;
    // glibc takes the empty name for the set of the locale
    if (badSet && !inName[0]) inName = "NO-SUCH-SET";
    bool nullIn = badSet && !wide && flip();
    ev("%s -> %s, %zu bytes, text of %zu, %s err %d%s", enc, out, data.size(), text.size(), how.c_str(), err, badSet ? " unknown set" : "");
    auto allowed = [&]() { return badSet || err != 0 || st.rep.errorFired; };
    ClientOpts c; c.maxOps = 16; c.segRate = 5;
    if (text.size() > 1 || badSet) nontrivial();
    if (badSet) text.clear();
    if (wide) {
        InputStreamReader* r = (!strcmp(enc, "UTF-8") && !badSet && flip()) ? new InputStreamReader(st.top) : new InputStreamReader(st.top, inName);
        st.cleanup.push_back([r]() { delete r; });
        if (badSet && r->status() != Strigi::Error) fail("open-failure-hidden", "reader", "unknown set %s accepted", inName);
        std::wstring wt((const wchar_t*)text.data(), text.size() / sizeof(wchar_t));
        Client<wchar_t> cl(r, wt, c, allowed, "reader");
        cl.mustFail = [&]() { return badSet || err != 0 || (st.passthrough && st.rep.errorFired); };
        cl.run();
        if (cl.failed) count("probe.text_error_reported");
    } else {
        bool defOut = !strcmp(out, "UTF-8") && flip();
        InputStream* s = new EncodingInputStream(st.top, nullIn ? 0 : inName, badSet && flip() ? "NO-SUCH-OUT" : defOut ? 0 : out);
        st.cleanup.push_back([s]() { delete s; });
        if (badSet && s->status() != Strigi::Error) fail("open-failure-hidden", "encoding", "unknown set accepted");
        InputStream* top = s;
        if (chance(1, 4) && !badSet) { top = new SubInputStream(s); st.cleanup.push_back([top]() { delete top; }); }
        Client<char> cl(top, text, c, allowed, "encoding");
        cl.mustFail = [&]() { return badSet || err != 0 || (st.passthrough && st.rep.errorFired); };
        cl.run();
        if (cl.failed) count("probe.text_error_reported");
    }
    st.destroy();
}
static void runC13() { disk().reset(); textSession(); }
static Registrar r13({"C13", runC13, 300000000, false, 400000, 2000000});
} // namespace sim
