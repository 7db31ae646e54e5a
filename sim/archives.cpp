#include "archives.h"
#include "stacks.h"
#include <zlib.h>
#include <cstring>
#include <cstdio>

namespace sim {

// numbers: 0 zero padded and ended by a zero byte, 1 ended by a space (POSIX), 2 padded with spaces (old tars)
void tarHeader(std::string& out, const std::string& name, int64_t size, int64_t mtime, char type, bool ustar, uint32_t mode, const std::string& prefix, const std::string& target, int numbers) {
    char h[512];
    memset(h, 0, sizeof h);
    memcpy(h, name.data(), name.size() > 100 ? 100 : name.size());
    snprintf(h + 100, 8, numbers == 2 ? "%6o " : "%07o", mode);
    snprintf(h + 108, 8, numbers == 2 ? "%6o " : "%07o", 1000);
    snprintf(h + 116, 8, numbers == 2 ? "%6o " : "%07o", 100);
    char n[32];
    snprintf(n, sizeof n, numbers == 2 ? "%11llo" : "%011llo", (unsigned long long)size);
    n[11] = numbers ? ' ' : 0;
    memcpy(h + 124, n, 12);
    snprintf(n, sizeof n, numbers == 2 ? "%11llo" : "%011llo", (unsigned long long)mtime);
    n[11] = numbers ? ' ' : 0;
    memcpy(h + 136, n, 12);
    memset(h + 148, ' ', 8);
    h[156] = type;
    memcpy(h + 157, target.data(), target.size() > 99 ? 99 : target.size());
    if (ustar) { memcpy(h + 257, "ustar\0" "00", 8); strcpy(h + 265, "user"); strcpy(h + 297, "group"); }
    memcpy(h + 345, prefix.data(), prefix.size() > 155 ? 155 : prefix.size());
    unsigned sum = 0;
    for (int i = 0; i < 512; ++i) sum += (unsigned char)h[i];
    snprintf(h + 148, 8, "%06o", sum);
    h[155] = ' ';
    out.append(h, 512);
}
TarOpts drawTarOpts() {
    TarOpts o;
    o.ustar = !chance(1, 4);
    o.oldDirs = !o.ustar && flip();
    o.gnuLong = chance(1, 8);
    o.prefix = flip();
    o.dotSlash = chance(1, 5);
    o.numbers = chance(1, 3) ? 1 + (int)draw(2) : 0;
    return o;
}
ArOpts drawArOpts() {
    ArOpts o;
    o.symtab = flip() ? 0 : 1 + logsize(40);
    o.noSlash = chance(1, 4);
    return o;
}
static void pad(std::string& s, size_t n, char c) { while (s.size() % n) s += c; }

std::string makeTar(std::vector<Member>& ms, const TarOpts& o) {
    std::string out;
    if (o.dotSlash) tarHeader(out, "./", 0, 1000000, '5', o.ustar, 0755, "", "", o.numbers);
    for (auto& m : ms) {
        m.headerAt = (int64_t)out.size();
        std::string name = (o.dotSlash ? "./" : "") + m.name + (m.dir ? "/" : ""), prefix, target;
        if (m.link) {
            target = "target" + std::string(flip() ? logsize(300) : 0, 't');
            if (target.size() > 99) {
                tarHeader(out, "././@LongLink", (int64_t)target.size() + 1, 0, 'K', o.ustar, 0644, "", "", o.numbers);
                out += target; out += '\0';
                pad(out, 512, 0);
            }
        }
        if (o.ustar && o.prefix && name.size() > 100) {
            // split at a slash: at most 155 bytes before, 1 to 100 behind it
            size_t at = name.size() - 2;
            while (at > 0 && (name[at] != '/' || at > 155)) --at;
            if (at > 0 && name.size() - at - 1 <= 100) { prefix = name.substr(0, at); name = name.substr(at + 1); }
        }
        if (name.size() > 100 || (o.gnuLong && prefix.empty())) {
            tarHeader(out, "././@LongLink", (int64_t)name.size() + 1, 0, 'L', o.ustar, 0644, "", "", o.numbers);
            out += name; out += '\0';
            pad(out, 512, 0);
        }
        tarHeader(out, name, (int64_t)m.data.size(), m.mtime, m.dir ? o.oldDirs ? '\0' : '5' : m.link ? '2' : (o.ustar ? '0' : '\0'), o.ustar, m.dir ? 0755 : 0644, prefix, target, o.numbers);
        m.dataAt = (int64_t)out.size();
        out += m.data;
        m.dataEnd = (int64_t)out.size();
        pad(out, 512, 0);
    }
    if (!o.noEnd) {
        out.append(512, 0);
        if (o.twoZeroBlocks) out.append(512, 0);
        out.append((size_t)o.extraBlocks * 512, 0);
    }
    return out;
}

void arHeader(std::string& out, const std::string& name, int64_t mtime, int64_t size) {
    char h[80];
    snprintf(h, sizeof h, "%-16s%-12lld%-6d%-6d%-8s%-10lld`\n", name.c_str(), (long long)mtime, 0, 0, "100644", (long long)size);
    out.append(h, 60);
}
std::string makeAr(std::vector<Member>& ms, const ArOpts& o) {
    std::string out = "!<arch>\n", table;
    std::vector<std::string> hn;
    for (auto& m : ms) {
        if (m.name.size() > 15 || (o.noSlash && m.name[0] == ' ')) {
            hn.push_back(strf("/%zu", table.size()));
            table += m.name + "/\n";
        } else hn.push_back(m.name + (o.noSlash ? "" : "/"));
    }
    if (o.symtab) {
        std::string sym(o.symtab * 4, 0);
        arHeader(out, "/", 0, (int64_t)sym.size());
        out += sym;
        pad(out, 2, '\n');
    }
    if (!table.empty()) {
        arHeader(out, "//", 0, (int64_t)table.size());
        out += table;
        pad(out, 2, '\n');
    }
    for (size_t i = 0; i < ms.size(); ++i) {
        Member& m = ms[i];
        m.headerAt = (int64_t)out.size();
        arHeader(out, hn[i], m.mtime, (int64_t)m.data.size());
        m.dataAt = (int64_t)out.size();
        out += m.data;
        m.dataEnd = (int64_t)out.size();
        pad(out, 2, '\n');
    }
    return out;
}

void cpioHeader(std::string& out, const std::string& name, int64_t size, int64_t mtime, unsigned mode, bool upper) {
    char h[128];
    snprintf(h, sizeof h, upper ? "070701%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X" : "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x",
             1u, mode, 0u, 0u, 1u, (unsigned)mtime, (unsigned)size, 8u, 1u, 0u, 0u, (unsigned)name.size() + 1, 0u);
    out.append(h, 110);
    out += name; out += '\0';
    while (out.size() % 4) out += '\0';
}
std::string makeCpio(std::vector<Member>& ms) {
    std::string out;
    bool upper = flip(), dotSlash = chance(1, 3);
    for (auto& m : ms) {
        m.headerAt = (int64_t)out.size();
        cpioHeader(out, (dotSlash ? "./" : "") + m.name, (int64_t)m.data.size(), m.mtime, m.dir ? 040755 : 0100644, upper);
        m.dataAt = (int64_t)out.size();
        out += m.data;
        m.dataEnd = (int64_t)out.size();
        while (out.size() % 4) out += '\0';
    }
    cpioHeader(out, "TRAILER!!!", 0, 0, 0, upper);
    while (out.size() % 512 && flip()) out.append(4, 0);
    return out;
}

static void le16(std::string& o, uint32_t v) { o += (char)v; o += (char)(v >> 8); }
static void le32(std::string& o, uint32_t v) { le16(o, v & 0xffff); le16(o, v >> 16); }
static void be32(std::string& o, uint32_t v) { o += (char)(v >> 24); o += (char)(v >> 16); o += (char)(v >> 8); o += (char)v; }

uint32_t dosTime(int y, int mo, int d, int h, int mi, int s) {
    return ((uint32_t)(y - 1980) << 25) | ((uint32_t)mo << 21) | ((uint32_t)d << 16) | ((uint32_t)h << 11) | ((uint32_t)mi << 5) | ((uint32_t)s >> 1);
}
std::string makeZip(std::vector<Member>& ms, const ZipOpts& opts) {
    std::string out, cd;
    for (auto& m : ms) {
        ZipOpts o = opts;
        if (opts.mix) { o.deflate = flip(); o.descriptor = o.deflate && flip(); o.extra = flip(); o.descriptorSig = flip(); }
        std::string name = m.name + (m.dir ? "/" : "");
        uint32_t crc = (uint32_t)crc32(0, (const Bytef*)m.data.data(), (uInt)m.data.size());
        bool defl = o.deflate && !m.dir, desc = o.descriptor && defl;
        // a descriptor without signature whose crc looks like the signature would be ambiguous
        bool sig = o.descriptorSig || crc == 0x08074b50;
        std::string z = defl ? zcompress(m.data, FmtRaw, o.level) : m.data;
        uint32_t dt = (uint32_t)m.mtime;
        std::string extra;
        if (o.extra) { std::string e(logsize(40), 'e'); le16(extra, 0x7777); le16(extra, (uint32_t)e.size()); extra += e; }
        m.headerAt = (int64_t)out.size();
        le32(out, 0x04034b50); le16(out, 20); le16(out, desc ? 8 : 0); le16(out, defl ? 8 : 0);
        le32(out, dt);
        le32(out, desc ? 0 : crc); le32(out, desc ? 0 : (uint32_t)z.size()); le32(out, desc ? 0 : (uint32_t)m.data.size());
        le16(out, (uint32_t)name.size()); le16(out, (uint32_t)extra.size());
        out += name; out += extra;
        m.dataAt = (int64_t)out.size();
        out += z;
        m.dataEnd = (int64_t)out.size();
        if (desc) { if (sig) le32(out, 0x08074b50); le32(out, crc); le32(out, (uint32_t)z.size()); le32(out, (uint32_t)m.data.size()); }
        le32(cd, 0x02014b50); le16(cd, 20); le16(cd, 20); le16(cd, desc ? 8 : 0); le16(cd, defl ? 8 : 0); le32(cd, dt);
        le32(cd, crc); le32(cd, (uint32_t)z.size()); le32(cd, (uint32_t)m.data.size());
        le16(cd, (uint32_t)name.size()); le16(cd, 0); le16(cd, 0); le16(cd, 0); le16(cd, 0); le32(cd, 0); le32(cd, (uint32_t)m.headerAt);
        cd += name;
    }
    uint32_t cdAt = (uint32_t)out.size();
    if (opts.centralDir) out += cd;
    le32(out, 0x06054b50); le16(out, 0); le16(out, 0); le16(out, (uint32_t)ms.size()); le16(out, (uint32_t)ms.size());
    le32(out, (uint32_t)cd.size()); le32(out, cdAt); le16(out, 0);
    return out;
}

std::string makeRpm(std::vector<Member>& ms, int comp) {
    std::string out;
    // lead: 96 bytes
    out += "\xed\xab\xee\xdb";
    out += '\x03'; out += '\0'; out += '\0'; out += '\0'; out += '\0'; out += '\1';
    out += "pkg-1-1"; while (out.size() < 76) out += '\0';
    out += '\0'; out += '\1'; out += '\0'; out += '\5'; while (out.size() < 96) out += '\0';
    auto header = [&](int entries, const std::string& store) {
        std::string h("\x8e\xad\xe8\x01\0\0\0\0", 8);
        be32(h, (uint32_t)entries); be32(h, (uint32_t)store.size());
        uint32_t off = 0;
        for (int i = 0; i < entries; ++i) { be32(h, 1000 + (uint32_t)i); be32(h, 6); be32(h, off); be32(h, 1); }
        h += store;
        return h;
    };
    std::string sigStore(logsize(60), 's'); sigStore += '\0';
    std::string sig = header(1 + (int)draw(3), sigStore);
    out += sig;
    while (out.size() % 8) out += '\0';
    std::string st(logsize(300), 'h'); st += '\0';
    out += header(1 + (int)draw(6), st);
    std::string payload = makeCpio(ms);
    std::string z = comp == 0 ? zcompress(payload, FmtGzip, 6) : comp == 1 ? bzcompress(payload, 1) : lzmaCompress(payload, flip());
    int64_t at = (int64_t)out.size();
    out += z;
    for (auto& m : ms) { m.headerAt = at; m.dataAt = at; m.dataEnd = (int64_t)out.size(); }
    return out;
}


// ---------------------------------------------------------------- mail
static void mailPart(std::string& out, Member& m, int index, const std::string& nl, bool base64) {
    m.headerAt = (int64_t)out.size();
    bool named = !m.name.empty();
    int where = (int)draw(3);
    std::string fold = flip() ? nl + "\t" : " ";
    if (where != 1 || !named) out += "Content-Type: text/plain;" + fold + "charset=us-ascii" + nl;
    if (named) {
        if (where == 1) out += "Content-Type: application/octet-stream;" + fold + "name=\"" + m.name + "\"" + nl;
        else out += "Content-Disposition: attachment;" + fold + "filename=\"" + m.name + "\"" + (flip() ? "; size=12" : "") + nl;
    } else m.name = strf("%d", index);
    if (base64) out += std::string(flip() ? "Content-Transfer-Encoding: base64" : "content-transfer-encoding: BASE64") + nl;
    else if (flip()) out += "Content-Transfer-Encoding: 8bit" + nl;
    out += nl;
    m.dataAt = (int64_t)out.size();
    if (base64) {
        std::string e = base64Encode(m.data, 1);
        if (nl == "\n") { std::string t; for (char c : e) if (c != '\r') t += c; e = t; }
        out += e;
        if (!e.empty()) out += nl;
    } else {
        if (!m.data.empty()) m.data += nl;
        out += m.data;
    }
    m.dataEnd = (int64_t)out.size();
}
std::string makeMail(std::vector<Member>& ms, bool multipart) {
    std::string nl = flip() ? "\r\n" : "\n", out;
    out += "From: Some One <one@example.org>" + nl + "To: other@example.org" + nl;
    if (flip()) out += "Subject: a subject" + nl + "\tthat is folded" + nl;
    if (flip()) out += "Message-ID: <1234@example.org>" + nl;
    if (!multipart) {
        if (flip()) out += "Content-Type: text/plain; charset=utf-8" + nl;
        out += nl;
        Member& m = ms[0];
        m.name = "body";
        m.headerAt = 0; m.dataAt = (int64_t)out.size();
        out += m.data;
        m.dataEnd = (int64_t)out.size();
        return out;
    }
    std::vector<std::string> open;
    bool plain = chance(1, 3);     // no quotes around boundaries
    auto boundary = [&]() { return strf(plain ? "----Part_%u_%zu.%u" : "----=_Part_%u_%zu.%u", draw(10), open.size(), 100 + (unsigned)out.size() % 900); };
    // what introduces the parameter, and other parameters around it
    auto param = [&](const std::string& b) {
        static const char* names[] = {"boundary=", "boundary=", "Boundary=", "BOUNDARY="};
        std::string s;
        if (chance(1, 5)) s += "type=\"text/html\"; ";
        s += names[draw(4)];
        s += plain ? b : "\"" + b + "\"";
        if (chance(1, 4)) s += flip() ? "; charset=utf-8" : "; x=\"a;b\"";
        return s;
    };
    // white space may follow a boundary
    auto padding = [&]() { return std::string(chance(1, 6) ? 1 + draw(3) : 0, flip() ? ' ' : '\t'); };
    open.push_back(boundary());
    out += "MIME-Version: 1.0" + nl + "Content-Type: multipart/mixed;" + (flip() ? nl + " " : " ") + param(open[0]) + nl + nl;
    if (flip()) out += "This is a multi-part message." + nl + (flip() ? nl : "");
    for (size_t i = 0; i < ms.size(); ++i) {
        while (open.size() > 1 && chance(1, 4)) { out += "--" + open.back() + "--" + padding() + nl + (flip() ? nl : ""); open.pop_back(); }
        if (open.size() < 3 && chance(1, 4)) {
            std::string b = boundary();
            out += "--" + open.back() + padding() + nl + "Content-Type: multipart/alternative; " + param(b) + nl + nl;
            open.push_back(b);
            if (flip()) out += "nested preamble" + nl;
        }
        out += "--" + open.back() + padding() + nl;
        mailPart(out, ms[i], (int)i + 1, nl, ms[i].forceBase64 || chance(1, 3));
        ms[i].dataEnd += (int64_t)open.back().size() + 2;     // complete only with its boundary
    }
    while (open.size()) { out += "--" + open.back() + "--" + (open.size() > 1 || flip() ? nl : ""); open.pop_back(); }
    if (out[out.size() - 1] == '\n' && flip()) out += "epilogue" + nl;
    return out;
}

// ---------------------------------------------------------------- SD file
std::string makeSdf(std::vector<Member>& ms) {
    std::string nl = flip() ? "\n" : "\r\n", out;
    for (size_t i = 0; i < ms.size(); ++i) {
        Member& m = ms[i];
        std::string d = strf("mol%zu", i) + nl + "  prog" + nl + "comment" + nl + "  2  1  0  0  0  0            999 V2000" + nl;
        for (char c : m.data) d += c == '$' && d.size() > 2 && d[d.size() - 1] == '$' && d[d.size() - 2] == '$' ? '%' : c;
        d += nl + "M  END" + nl;
        if (flip()) d += "> <price>" + nl + "$$$12" + nl + nl;
        m.name = strf("Molecule%zu", i + 1);
        m.data = d;
        m.headerAt = m.dataAt = (int64_t)out.size();
        out += d;
        m.dataEnd = (int64_t)out.size();
        out += "$$$$";
        if (i + 1 < ms.size() || flip()) out += nl;
    }
    return out;
}

// ---------------------------------------------------------------- OLE compound file
std::string makeOle(std::vector<Member>& ms) {
    const int B = 512;
    struct Chain { std::vector<int> blocks; };
    // the mini stream and its allocation table
    std::string mini;
    std::vector<int32_t> minifat;
    std::vector<int> startOf(ms.size());
    for (size_t i = 0; i < ms.size(); ++i) {
        Member& m = ms[i];
        if (m.data.size() >= 4096) continue;
        int n = (int)((m.data.size() + 63) / 64), at = (int)(mini.size() / 64);
        startOf[i] = at;
        for (int k = 0; k < n; ++k) minifat.push_back(k + 1 < n ? at + k + 1 : -2);
        mini += m.data;
        while (mini.size() % 64) mini += '\0';
    }
    size_t slots = 1 + ms.size();
    std::vector<int> storages;      // positions of storage entries in the directory
    uint32_t extra = draw(3);
    size_t dirEntries = slots + extra;
    int nDir = (int)((dirEntries + 3) / 4);
    int nMini = (int)((mini.size() + B - 1) / B);
    int nMiniFat = (int)((minifat.size() + 127) / 128);
    int nData = 0;
    for (auto& m : ms) if (m.data.size() >= 4096) nData += (int)((m.data.size() + B - 1) / B);
    int others = nDir + nMini + nMiniFat + nData, nBat = 1;
    // mostly unused blocks; the list of table blocks does not fit in the header then
    bool huge = chance(1, 200);
    if (huge) { others += 110 * 128 + (int)draw(400); count("probe.ole_extended_table"); }
    while ((others + nBat + (nBat > 109) + 127) / 128 > nBat) ++nBat;
    int nXBat = nBat > 109;
    int total = others + nBat + nXBat;
    if (nBat > 236) harnessError("ole too large");
    // placement of the blocks
    std::vector<int> order(total);
    for (int i = 0; i < total; ++i) order[i] = i;
    uint32_t style = draw(huge ? 4 : 3);
    if (style == 3) { std::reverse(order.begin(), order.end()); style = 0; }
    if (style) {
        Rng r(draw32());
        int swaps = style == 1 ? 3 : total;
        for (int k = 0; k < swaps; ++k) std::swap(order[r.below((uint32_t)total)], order[r.below((uint32_t)total)]);
    }
    int next = 0;
    std::vector<int32_t> fat((size_t)nBat * 128, -1);
    auto take = [&](int n, int32_t mark) {
        std::vector<int> c(order.begin() + next, order.begin() + next + n);
        next += n;
        for (int k = 0; k < n; ++k) fat[(size_t)c[k]] = mark ? mark : k + 1 < n ? c[k + 1] : -2;
        return c;
    };
    std::vector<int> xbat = take(nXBat, -4), bat = take(nBat, -3), dir = take(nDir, 0), minib = take(nMini, 0), mfb = take(nMiniFat, 0);
    std::string out((size_t)(total + 1) * B, 0);
    auto put = [&](int block, const char* d, size_t n) { memcpy(&out[(size_t)(1 + block) * B], d, n); };
    auto putChain = [&](const std::vector<int>& c, const std::string& d) {
        for (size_t k = 0; k < c.size(); ++k) put(c[k], d.data() + k * B, std::min<size_t>(B, d.size() - k * B));
    };
    for (size_t i = 0; i < ms.size(); ++i) {
        if (ms[i].data.size() < 4096) continue;
        std::vector<int> c = take((int)((ms[i].data.size() + B - 1) / B), 0);
        startOf[i] = c[0];
        putChain(c, ms[i].data);
    }
    putChain(minib, mini);
    auto words = [&](const std::vector<int32_t>& v, size_t pad) { std::string s; for (int32_t x : v) le32(s, (uint32_t)x); while (s.size() % pad) s += '\xff'; return s; };
    putChain(mfb, words(minifat, B));
    putChain(bat, words(fat, B));
    std::string d;
    auto entry = [&](const std::string& name, int type, int start, int size) {
        std::string e(128, 0);
        for (size_t k = 0; k < name.size() && k < 31; ++k) e[2 * k] = name[k];
        if (type) e[0x40] = (char)(2 * (name.size() + 1));
        e[0x42] = (char)type; e[0x43] = 1;
        for (int k = 0x44; k < 0x50; ++k) e[k] = '\xff';
        std::string t; le32(t, (uint32_t)start); le32(t, (uint32_t)size);
        for (int k = 0; k < 8; ++k) e[0x74 + k] = t[k];
        d += e;
    };
    entry("Root Entry", 5, minib.empty() ? -2 : minib[0], (int)mini.size());
    for (size_t i = 0; i < ms.size(); ++i) {
        while (extra && flip()) { entry("Storage", 1, 0, 0); --extra; }
        entry(ms[i].name, 2, startOf[i], (int)ms[i].data.size());
    }
    while (extra) { if (flip()) entry("Storage", 1, 0, 0); else entry("", 0, 0, 0); --extra; }
    while (d.size() % B) { d.append(128, 0); }
    putChain(dir, d);
    std::string h("\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8);
    h.append(16, 0);
    le16(h, 0x3e); le16(h, 3); le16(h, 0xfffe); le16(h, 9); le16(h, 6); h.append(6, 0);
    le32(h, 0); le32(h, (uint32_t)nBat); le32(h, (uint32_t)dir[0]); le32(h, 0); le32(h, 4096);
    le32(h, mfb.empty() ? (uint32_t)-2 : (uint32_t)mfb[0]); le32(h, (uint32_t)nMiniFat); le32(h, nXBat ? (uint32_t)xbat[0] : (uint32_t)-2); le32(h, (uint32_t)nXBat);
    for (int i = 0; i < 109; ++i) le32(h, i < nBat ? (uint32_t)bat[i] : (uint32_t)-1);
    memcpy(&out[0], h.data(), B);
    if (nXBat) {
        std::string x;
        for (int i = 0; i < 127; ++i) le32(x, 109 + i < nBat ? (uint32_t)bat[109 + i] : (uint32_t)-1);
        le32(x, (uint32_t)-2);
        put(xbat[0], x.data(), x.size());
    }
    for (auto& m : ms) { m.headerAt = m.dataAt = 0; m.dataEnd = (int64_t)out.size(); }
    return out;
}

} // namespace sim
