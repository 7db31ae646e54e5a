// C23: header values of mails, decoded one after the other from one reader.
#include "stacks.h"
#include "archives.h"
#include "listing.h"
#include "kernel.h"
#include <strigi/mailinputstream.h>
#include <strigi/archivereader.h>
#include <iconv.h>
#include <cerrno>
#include <cstring>
#include <memory>
#include <set>
using namespace Strigi;
namespace sim {

// charset, script of the texts written in it
struct Set { const char* name; int script; bool plainQ; };
static const Set sets[] = {
    {"utf-8", 7, true}, {"UTF-8", 7, true}, {"Utf-8", 1, true}, {"iso-8859-1", 1, true}, {"ISO-8859-15", 1, true}, {"windows-1252", 1, true}, {"koi8-r", 2, true},
    {"windows-1251", 2, true}, {"iso-8859-5", 2, true}, {"us-ascii", 0, true}, {"iso-2022-jp", 3, false}, {"ISO-2022-JP", 3, false}, {"shift_jis", 3, false},
    {"euc-jp", 3, false}, {"gb2312", 4, false}, {"gb18030", 7, false}, {"big5", 4, false}, {"big5-hkscs", 6, false}, {"euc-kr", 5, false}, {"iso-2022-kr", 5, false},
    {"utf-7", 7, false}, {"utf-16", 7, false}, {"windows-1258", 6, false}, {"hz", 4, false},
};
static const uint32_t nSets = sizeof sets / sizeof *sets;

static bool conv(const char* to, const char* from, const std::string& in, std::string* out) {
    iconv_t c = iconv_open(to, from);
    if (c == (iconv_t)-1) return false;
    std::string buf(in.size() * 8 + 64, '\0');
    char* ip = (char*)in.data(); size_t il = in.size();
    char* op = &buf[0]; size_t ol = buf.size();
    bool ok = iconv(c, &ip, &il, &op, &ol) != (size_t)-1 && iconv(c, 0, 0, &op, &ol) != (size_t)-1;
    iconv_close(c);
    buf.resize(buf.size() - ol);
    *out = buf;
    return ok;
}
static std::string utf8(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
static std::string randomChar(Rng& r, int script) {
    if (r.below(3) == 0) return utf8(32 + r.below(95));
    switch (script) {
    case 0: return utf8(32 + r.below(95));
    case 1: return utf8(0xa0 + r.below(0x60));
    case 2: return utf8(0x410 + r.below(0x40));
    case 3: { uint32_t k = r.below(3); return utf8(k == 0 ? 0x3041 + r.below(0x50) : k == 1 ? 0x30a1 + r.below(0x50) : 0x4e00 + r.below(0x1000)); }
    case 4: return utf8(0x4e00 + r.below(0x1500));
    case 5: return utf8(0xac00 + r.below(0x2ba0));
    case 6: { static const uint32_t cs[] = {0x61, 0x65, 0x6f, 0x75, 0xea, 0x103, 0x1a1, 0xca, 0x301, 0x300, 0x303, 0x304, 0x30c, 0x4e00}; return utf8(cs[r.below(14)]); }
    default: { static const uint32_t lo[] = {0x20, 0xa0, 0x400, 0x3041, 0x4e00, 0x1f300}, w[] = {95, 0x60, 0x100, 0x50, 0x1000, 0x200}; uint32_t k = r.below(6); return utf8(lo[k] + r.below(w[k])); }
    }
}
static std::string b64(const std::string& s) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        uint32_t v = (unsigned char)s[i] << 16, n = 1;
        if (i + 1 < s.size()) { v |= (unsigned char)s[i + 1] << 8; ++n; }
        if (i + 2 < s.size()) { v |= (unsigned char)s[i + 2]; ++n; }
        o += A[v >> 18]; o += A[v >> 12 & 63];
        o += n > 1 ? A[v >> 6 & 63] : '='; o += n > 2 ? A[v & 63] : '=';
    }
    return o;
}
static std::string qenc(const std::string& s, uint32_t style) {
    std::string o;
    for (unsigned char c : s) {
        bool safe = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (style && strchr("!*+-/", c) && c);
        if (c == ' ') o += style == 2 ? "=20" : "_";
        else if (safe) o += (char)c;
        else o += strf(style == 1 ? "=%02x" : "=%02X", c);
    }
    return o;
}
struct Value { std::string raw, text; bool judged = true; std::set<std::string> charsets; };

// one encoded word of at least one character; the text is what its bytes mean
static std::string word(Value& v) {
    const Set& s = sets[draw(nSets)];
    Rng r(draw32());
    std::string t, bytes, back;
    uint32_t n = 1 + logsize(24);
    for (uint32_t i = 0; i < n; ++i) {
        std::string c = randomChar(r, s.script), b;
        if (conv(s.name, "UTF-8", c, &b)) t += c;
    }
    if (t.empty()) t = "x";
    if (!conv(s.name, "UTF-8", t, &bytes) || !conv("UTF-8", s.name, bytes, &back)) { t = "x"; bytes = "x"; back = "x"; if (!strcmp(s.name, "utf-16")) { bytes = std::string("\xff\xfex\0", 4); } }
    v.text += back;
    v.charsets.insert(s.name);
    bool q = s.plainQ ? flip() : chance(1, 4);
    return std::string("=?") + s.name + (q ? flip() ? "?Q?" : "?q?" : flip() ? "?B?" : "?b?") + (q ? qenc(bytes, draw(3)) : b64(bytes)) + "?=";
}
static Value value(const std::string& nl) {
    Value v;
    auto plain = [&](bool edges) {
        static const char* ws[] = {"hello", "a", "<x@example.org>", "Re:", "question?", "a=b", "50%", "=?", "?=", "=?x", "(c)", "\"quoted, text\"", "1=?2?3", "=?utf-8?x?abc?="};
        std::string s;
        uint32_t n = 1 + draw(3);
        for (uint32_t i = 0; i < n; ++i) {
            if (i) s += chance(1, 5) ? "  " : " ";
            s += ws[draw(edges ? 14 : 7)];
        }
        return s;
    };
    switch (draw(6)) {
    case 0: v.raw = v.text = plain(true); break;
    case 1: v.raw = word(v); break;
    case 2: { // words on lines of their own
        uint32_t n = 2 + draw(3);
        for (uint32_t i = 0; i < n; ++i) { if (i) v.raw += draw(3) ? nl + (flip() ? " " : "\t") : flip() ? " " : nl + "  "; v.raw += word(v); }
        count("probe.adjacent_words");
        break; }
    case 3: { // between other text
        std::string a = plain(false);
        v.raw = a + " "; v.text = a + " ";
        v.raw += word(v);
        bool tail = flip();
        if (tail) { a = plain(false); v.raw += " " + a; v.text += " " + a; }
        if (chance(1, 4)) { v.raw += nl + " "; if (tail) v.text += " "; v.raw += word(v); }
        break; }
    case 4: { // folded text
        std::string a = plain(false), b = plain(false), w = flip() ? " " : "\t";
        v.raw = a + nl + w + b; v.text = a + w + b;
        count("probe.folded_text");
        break; }
    default: { // damaged: what it becomes is open, what follows must not suffer
        Value x;
        std::string w = word(x);
        v.charsets = x.charsets;
        uint32_t n = 1 + draw(3);
        for (uint32_t i = 0; i < n; ++i) {
            size_t at = draw((uint32_t)w.size());
            switch (draw(4)) { case 0: w.erase(at, 1 + draw(4)); break; case 1: w[at] = (char)(33 + draw(94)); break; case 2: w.insert(at, 1, (char)(128 + draw(128))); break; default: w.resize(w.size() - draw(4) % w.size()); }
            if (w.empty()) w = "=";
        }
        if (flip()) { // bytes that break off inside a character, or in another shift state
            static const char* cut[] = {"\x1b$B0!", "\x1b$B", "\x83", "\x30\x42\xd8", "~{", "+BB", "\xc3", "\x0e!!"};
            std::string c = cut[draw(8)];
            const Set& s = sets[draw(nSets)];
            v.charsets.insert(s.name);
            w = std::string("=?") + s.name + "?B?" + b64(c) + "?=";
        }
        v.raw = w; v.judged = false;
        count("fault.damaged_header_value");
        break; }
    }
    return v;
}
struct Field { const char* name; const std::string& (MailInputStream::*get)(); };
static const Field fields[] = {
    {"Subject", &MailInputStream::subject}, {"From", &MailInputStream::from}, {"To", &MailInputStream::to}, {"Cc", &MailInputStream::cc}, {"Bcc", &MailInputStream::bcc},
    {"Message-ID", &MailInputStream::messageid}, {"In-Reply-To", &MailInputStream::inreplyto}, {"References", &MailInputStream::references},
};
static std::string spelled(const char* n) {
    std::string s = n;
    uint32_t k = draw(4);
    if (k == 1) for (auto& c : s) c = (char)toupper(c);
    if (k == 2) for (auto& c : s) c = (char)tolower(c);
    return s;
}
// the fields of a part are not those of the mail
static std::string partHeader(const std::string& nl) {
    std::string h = flip() ? "Content-Type: text/plain" + nl : "";
    if (chance(1, 3)) {
        Value v = value(nl);
        h += spelled(fields[draw(8)].name) + ": " + v.raw + nl;
        count("probe.header_field_in_part");
    }
    if (flip() || h.empty()) h += "Content-Disposition: attachment; filename=\"f\"" + nl;
    return h;
}
void mailHeaderSession() {
    std::string nl = flip() ? "\r\n" : "\n", a;
    std::vector<std::pair<int, Value>> vs;
    std::vector<int> order;
    for (int i = 0; i < 8; ++i) order.push_back(i);
    for (int i = 7; i > 0; --i) std::swap(order[(size_t)i], order[draw((uint32_t)i + 1)]);
    uint32_t n = 1 + draw(8);
    for (uint32_t i = 0; i < n; ++i) {
        Value v = value(nl);
        if (chance(1, 6)) { // a field nobody asks for
            static const char* near[] = {"Subject-Alt", "Subjects", "Bc", "Bcc-List", "C", "Cc-X", "Ccc", "To-X", "T", "Reply-To", "Fro", "From-X", "Message-IDs", "Message-I", "In-Reply-To-X", "In-Reply", "Reference", "References-X", "Bcx", "Cx", "Tx", "Frox", "X-To", "Resent-Bcc"};
            a += (flip() ? strf("X-Field-%u: ", i) : std::string(near[draw(24)]) + ": ") + v.raw + nl;
            continue;
        }
        a += spelled(fields[order[i]].name) + (chance(1, 8) ? ":" : chance(1, 6) ? ":" + nl + " " : ": ") + v.raw + nl;
        vs.push_back({order[i], v});
    }
    if (a.empty()) a = "X-A: b" + nl;
    a += "Date: Thu, 1 Jan 1970 00:00:00 +0000" + nl;
    bool multi = flip();
    if (multi) a += "Content-Type: multipart/mixed; boundary=\"----=_x\"" + nl + nl + "------=_x" + nl + partHeader(nl) + nl + "body" + nl + "------=_x--" + nl;
    else a += nl + "body" + nl;
    BuildOpts b; b.maxDepth = chance(1, 3) ? 2 : 0; b.layers &= ~(1u << LCustom);
    Stack st;
    buildStack(st, a, b);
    if (!st.top) fail("build-failed", "build", "the lower stack could not be opened");
    ev("mail of %zu bytes, %zu fields", a.size(), vs.size());
    MailInputStream* m = lib([&]() { return new MailInputStream(st.top); });
    st.cleanup.push_back([m]() { delete m; });
    if (vs.size()) nontrivial();
    auto check = [&](const char* when) {
        for (auto& x : vs) {
            const std::string& got = (m->*fields[x.first].get)();
            evbytes(got.data(), got.size());
            if (!x.second.judged || got == x.second.text) continue;
            fail("wrong-header-value", fields[x.first].name, "%s: '%s: %s' gives '%s', should be '%s'", when, fields[x.first].name, hexs(x.second.raw, 300).c_str(), hexs(got, 200).c_str(), hexs(x.second.text, 200).c_str());
        }
    };
    if (m->status() == Strigi::Error) fail("unexpected-error", "mail", "the mail cannot be read: %s", m->error());
    check("after opening");
    uint32_t entries = 0;
    while (InputStream* e = lib([&]() { return m->nextEntry(); })) {
        ++entries;
        if (flip()) lib([&]() { return e->skip(1 + draw(6)); });
        check("later");
    }
    if (m->status() != Strigi::Eof || entries != 1) fail(m->status() == Strigi::Error ? "unexpected-error" : "missing-entry", "mail", "the mail ends with status %d after %u entries: %s", (int)m->status(), entries, m->error());
    check("at the end");
    count("probe.header_values", vs.size());
    st.destroy();
}
static void runC23() { disk().reset(); mailHeaderSession(); }
static Registrar r23({"C23", runC23, 300000000, false, 200000, 2000000});
} // namespace sim
