#include "tree.h"
#include "stacks.h"
#include <strigi/substreamprovider.h>
#include <strigi/streambase.h>
#include <strigi/stringstream.h>
#include <strigi/mailinputstream.h>
using namespace Strigi;
namespace sim {

Node* findNode(Node& root, const std::string& rel) {
    Node* n = &root;
    size_t at = 0;
    while (at <= rel.size()) {
        size_t e = rel.find('/', at);
        std::string part = rel.substr(at, e == std::string::npos ? std::string::npos : e - at);
        auto it = n->kids.find(part);
        if (it == n->kids.end()) return 0;
        n = it->second.get();
        if (e == std::string::npos) return n;
        at = e + 1;
    }
    return 0;
}
void allPaths(const Node& n, const std::string& at, std::vector<std::string>& out) {
    for (auto& k : n.kids) {
        std::string p = at.empty() ? k.first : at + "/" + k.first;
        out.push_back(p);
        allPaths(*k.second, p, out);
    }
}
static const char* names[] = {"a", "ab", "abc", "a.b", "b", "ba", "x", "xy", "readme", "readme.txt", "c d", "\xc3\xa9", "1", "12"};
static std::string plain() {
    switch (draw(6)) {
    case 0: return "";
    case 1: return "\x01" "v" + strf("%u", draw(1000));
    case 2: return "\x01" + randomText(logsize(3000));
    case 3: { // a compressed file that is no archive
        std::string s = "\x01" + randomText(logsize(2000));
        return flip() ? zcompress(s, FmtGzip, 6) : bzcompress(s, 1); }
    case 4: return "\x01" + randomBytes(logsize(20000));
    default: return "\x01" + randomBytes(logsize(300));
    }
}
static std::string wrapped(std::string s, bool allow) {
    if (!allow) return s;
    uint32_t n = chance(1, 3) ? 1 + draw(2) : 0;
    for (uint32_t i = 0; i < n; ++i) switch (draw(3)) {
        case 0: s = zcompress(s, FmtGzip, 1 + (int)draw(9)); break;
        case 1: s = bzcompress(s, 1); break;
        default: s = lzmaCompress(s, flip()); break;
    }
    return s;
}
// where the member goes, 0 if its path conflicts with what is there
static Node* place(Node& root, const std::string& path, bool dir) {
    // no part of the way may be a file
    Node* n = &root;
    size_t at = 0;
    for (;;) {
        size_t e = path.find('/', at);
        std::string part = path.substr(at, e == std::string::npos ? std::string::npos : e - at);
        auto it = n->kids.find(part);
        if (e == std::string::npos) {
            if (it != n->kids.end()) return dir && it->second->implicit ? it->second.get() : 0;
            break;
        }
        if (it == n->kids.end()) break;
        n = it->second.get();
        if (n->file) return 0;
        at = e + 1;
    }
    n = &root; at = 0;
    for (;;) {
        size_t e = path.find('/', at);
        std::string part = path.substr(at, e == std::string::npos ? std::string::npos : e - at);
        std::unique_ptr<Node>& k = n->kids[part];
        if (!k) { k.reset(new Node); k->name = part; k->dir = true; k->implicit = true; }
        n = k.get();
        if (e == std::string::npos) return n;
        at = e + 1;
    }
}
static bool leadsThroughFile(Node& root, const std::string& path) {
    for (size_t e = path.find('/'); e != std::string::npos; e = path.find('/', e + 1)) {
        Node* n = findNode(root, path.substr(0, e));
        if (n && n->file) return true;
    }
    return false;
}
static void genInto(Node& n, int depth, bool compressed, bool insideMail, int only = -1) {
    static const int plainKinds[] = {KTar, KZip, KAr, KRpm, KMail, KSdf};
    int kind = only >= 0 ? only : insideMail ? (flip() ? KTar : KZip) : plainKinds[draw(6)];
    bool multipart = kind == KMail && flip();
    uint32_t want = 1 + logsize(6);
    if (kind == KMail && !multipart) want = 1;
    std::vector<Member> ms;
    std::vector<Node*> nodes;
    std::vector<std::unique_ptr<Node>> hidden;   // behind another file of the same path
    for (uint32_t i = 0; i < want; ++i) {
        Member m;
        std::string path = names[draw(sizeof names / sizeof *names)];
        if (kind == KTar || kind == KZip || kind == KRpm) {
            uint32_t d = logsize(2);
            for (uint32_t k = 0; k < d; ++k) path = std::string(names[draw(6)]) + "/" + path;
            m.dir = chance(1, 6);
            if (chance(1, 20)) path += std::string(90 + draw(60), 'l');
        } else if (kind == KMail) { path = multipart ? strf("%s.att", path[0] < 0 ? "e" : path.c_str()) : "body"; }
        else if (kind == KSdf) path = strf("Molecule%u", i + 1);
        else if (chance(1, 8)) path += std::string(12 + draw(20), 'n');
        Node* nd = place(n, path, m.dir);
        if (!nd && kind != KSdf && !(kind == KMail && !multipart) && flip()) {
            // once more: the first file of a path is the one that counts
            Node* was = findNode(n, path);
            if (was && was->file && !m.dir) { hidden.emplace_back(new Node); nd = hidden.back().get(); nd->name = path; count("probe.duplicate_path"); }
            else if (leadsThroughFile(n, path)) { hidden.emplace_back(new Node); nd = hidden.back().get(); nd->name = path; nd->dir = m.dir; count("probe.path_through_file"); }
            else if (was && !was->file && m.dir) { nd = was; nd->looseAttrs = true; count("probe.duplicate_path"); }
        }
        if (!nd) continue;
        if (m.dir && !nd->kids.empty()) nd->looseAttrs = true;
        nd->implicit = false;
        m.name = path;
        m.mtime = kind == KZip ? (int64_t)dosTime(1980 + (int)draw(60), 1 + (int)draw(12), 1 + (int)draw(28), (int)draw(24), (int)draw(60), (int)draw(60)) : (int64_t)(draw32() & 0x7fffffff);
        if (!m.dir) {
            nd->file = true; nd->dir = false;
            if (kind == KSdf) m.data = " " + randomText(logsize(400));
            else if (depth > 0 && kind != KMail && chance(1, 3)) {
                genInto(*nd, depth - 1, true, false);
                m.data = nd->data;
            } else if (depth > 0 && multipart && chance(1, 3)) {
                genInto(*nd, depth - 1, false, true);
                m.data = nd->data; m.forceBase64 = true;
            } else if (kind == KMail) m.data = " " + randomText(logsize(2500));   // 8-bit text in front is not recognised as mail
            else m.data = plain();
            if (kind == KMail && !multipart && m.data.empty()) m.data = "b";
        }
        ms.push_back(m); nodes.push_back(nd);
    }
    std::string a;
    switch (kind) {
    case KTar: a = makeTar(ms, drawTarOpts()); break;
    case KZip: { ZipOpts o; uint32_t s = draw(4); o.deflate = s == 1 || s == 2; o.descriptor = s == 2; o.mix = s == 3; o.extra = flip(); a = makeZip(ms, o); break; }
    case KAr: a = makeAr(ms, drawArOpts()); break;
    case KRpm: a = makeRpm(ms, (int)draw(3)); break;
    case KMail: a = makeMail(ms, multipart); break;
    default: a = makeSdf(ms); break;
    }
    for (size_t i = 0; i < ms.size(); ++i) if (nodes[i]->file) { nodes[i]->data = ms[i].data; nodes[i]->size = (int64_t)ms[i].data.size(); }
    if (kind == KMail && !MailInputStream::checkHeader(a.data(), (int32_t)std::min<size_t>(a.size(), 1024))) fail("direct-extraction", "recognition", "a mail is not recognised: %s", hexs(a, 1000).c_str());
    // the attributes are those that direct extraction gives
    StringInputStream in(a.data(), (int32_t)a.size(), false);
    SubStreamProvider* p = newProvider(kind, &in);
    size_t i = 0;
    while (p->nextEntry()) {
        if (i >= ms.size() || p->entryInfo().filename != ms[i].name) fail("direct-extraction", kindNames[kind], "reading a %s entry by entry gives the wrong entry %zu", kindNames[kind], i);
        nodes[i]->mtime = p->entryInfo().mtime;
        if (!nodes[i]->file) nodes[i]->size = p->entryInfo().size;
        ++i;
    }
    if (p->status() != Strigi::Eof || i != ms.size()) fail("direct-extraction", kindNames[kind], "reading a %s entry by entry ends after %zu of %zu entries: %s", kindNames[kind], i, ms.size(), p->error());
    delete p;
    n.data = wrapped(a, compressed);
    n.file = n.dir = true;
    n.size = (int64_t)n.data.size();
    ev("%s with %zu members, %zu bytes", kindNames[kind], ms.size(), n.data.size());
    if (verbose() && kind == KMail) ev("%s", hexs(a, 700).c_str());
}
void genArchive(Node& n, int depth, bool compressed, int only) {
    n.kids.clear();
    genInto(n, depth, compressed, false, only);
}
void nestedArchive(std::string& data) {
    Node n;
    genArchive(n, 1 + (int)draw(3), true);
    data = n.data;
}
} // namespace sim
