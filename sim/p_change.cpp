// C15: archives that change, vanish and fail on disk below the archive facade.
#include "tree.h"
#include "stacks.h"
#include "client.h"
#include <strigi/archivereader.h>
#include <algorithm>
#include <set>
using namespace Strigi;
namespace sim {

struct Version { Node root; std::shared_ptr<DiskFile> f; };
struct Phys {
    std::string path;
    std::vector<std::unique_ptr<Version>> versions;
    std::vector<int> hist;              // the version in place after each change, -1: none
    int faults = 0;                     // faults switched on so far
    bool faulty = false;
    int rewrites = 0;                   // in-place rewrites so far
    int64_t clock = 1000;
    int cur() const { return hist.back(); }
    bool renameOnly = true;
};
typedef std::shared_ptr<DiskFile> FileP;

static int newVersion(Phys& p) {
    std::unique_ptr<Version> v(new Version);
    Node& n = v->root;
    if (chance(1, 6)) { n.file = true; n.data = "\x01" + randomBytes(logsize(300)); n.size = (int64_t)n.data.size(); }
    else if (chance(1, 3)) {
        genArchive(n, (int)draw(2), false, KTar);
        // often as long as another version: zero blocks may follow the end
        size_t want = p.versions.empty() ? 0 : p.versions[draw((uint32_t)p.versions.size())]->root.data.size();
        if (want % 512 == 0 && n.data.size() < want) { n.data.resize(want); n.size = (int64_t)want; }
    } else genArchive(n, (int)draw(2), true);
    n.name = p.path.substr(p.path.rfind('/') + 1);
    // times may go back; two versions differ in time or size
    if (!p.versions.empty() && chance(1, 3)) n.mtime = p.versions[draw((uint32_t)p.versions.size())]->root.mtime - (int64_t)draw(3);
    else n.mtime = p.clock += 1 + (int64_t)logsize(1000);
    for (size_t i = 0; i < p.versions.size(); ++i) {
        Node& o = p.versions[i]->root;
        if (o.mtime == n.mtime && o.size == n.size) { n.mtime = p.clock += 1 + (int64_t)logsize(1000); break; }
        if (o.size == n.size) count("probe.version_of_same_size");
        if (o.mtime == n.mtime) count("probe.version_of_same_time");
        if (o.mtime > n.mtime) count("probe.version_of_earlier_time");
    }
    v->f.reset(new DiskFile);
    v->f->data = n.data; v->f->mtime = n.mtime; v->f->shortReads = chance(1, 4);
    p.versions.push_back(std::move(v));
    return (int)p.versions.size() - 1;
}
static void place(Phys& p, int v) {
    p.hist.push_back(v);
    if (v < 0) disk().files.erase(p.path); else disk().files[p.path] = p.versions[(size_t)v]->f;
}
static void clearFaults(Phys& p) {
    if (!p.faulty) return;
    for (auto& v : p.versions) { v->f->eioAt = -1; v->f->openFails = v->f->statFails = false; }
    p.faulty = false;
    ev("disk: '%s' is healthy again", p.path.c_str());
}
struct ChangeRun {
    std::vector<std::unique_ptr<Phys>> files;
    uint32_t budget;
    bool mayRestore = false;            // a file that comes back during a call cannot be told from one that never went
    void change(const char* when) {
        if (!budget) return;
        --budget;
        Phys& p = *files[draw((uint32_t)files.size())];
        switch (draw(7)) {
        case 0: case 1: {
            bool old = mayRestore && p.renameOnly && !p.versions.empty() && chance(1, 5);
            int v = old ? (int)draw((uint32_t)p.versions.size()) : newVersion(p);
            if (old) count("fault.file_older_version");
            ev("disk: %s: '%s' is replaced by version %d", when, p.path.c_str(), v);
            clearFaults(p);
            place(p, v); count("fault.file_replaced");
            break; }
        case 2: {
            if (p.cur() < 0) break;
            ev("disk: %s: '%s' is removed", when, p.path.c_str());
            place(p, -1); count("fault.file_removed");
            break; }
        case 3: {
            if (p.cur() >= 0 || p.versions.empty()) break;
            int v = (int)p.versions.size() - 1;
            ev("disk: %s: '%s' is back with version %d", when, p.path.c_str(), v);
            place(p, v); count("fault.file_restored");
            break; }
        case 4: {
            if (p.cur() < 0 || p.faulty) { clearFaults(p); break; }
            DiskFile& f = *p.versions[(size_t)p.cur()]->f;
            p.faulty = true; p.faults++;
            uint32_t k = draw(4);
            if (k == 0) { f.openFails = true; ev("disk: %s: '%s' is unreadable", when, p.path.c_str()); count("fault.file_unreadable"); }
            else if (k == 1) { f.statFails = f.openFails = true; ev("disk: %s: '%s' fails", when, p.path.c_str()); count("fault.file_unreadable"); }
            else { f.eioAt = k == 2 ? 0 : draw((uint32_t)f.data.size() + 1); ev("disk: %s: '%s' fails at %lld", when, p.path.c_str(), (long long)f.eioAt); count("fault.file_read_errors"); }
            break; }
        case 5: clearFaults(p); break;
        default: {
            if (p.cur() < 0 || p.renameOnly) break;
            // written over in place: open streams see it
            int v = newVersion(p);
            FileP f = p.versions[(size_t)p.cur()]->f;
            clearFaults(p);
            f->data = p.versions[(size_t)v]->root.data; f->mtime = p.versions[(size_t)v]->root.mtime;
            p.versions[(size_t)v]->f = f;
            p.rewrites++;
            ev("disk: %s: '%s' is written over with version %d", when, p.path.c_str(), v);
            place(p, v); count("fault.file_overwritten");
            break; }
        }
    }
};
// what may be seen through something that was asked for in a span of time
struct Span {
    Phys* p = 0;
    std::string rel;                    // below the physical file, empty: the file itself
    size_t from = 0;
    int faults0 = 0, rewrites0 = 0;
    bool faulty0 = false;
    std::vector<int> allowed;
    void begin(Phys* ph, const std::string& r) { p = ph; rel = r; from = ph->hist.size() - 1; faults0 = ph->faults; faulty0 = ph->faulty; rewrites0 = ph->rewrites; }
    void end() { allowed.assign(p->hist.begin() + (long)from, p->hist.end()); std::sort(allowed.begin(), allowed.end()); allowed.erase(std::unique(allowed.begin(), allowed.end()), allowed.end()); }
    bool disturbed() const { return faulty0 || p->faults != faults0; }
    bool overwritten() const { return p->rewrites != rewrites0; }
    Node* node(int v) const {
        if (v < 0) return 0;
        Node& r = p->versions[(size_t)v]->root;
        return rel.empty() ? &r : findNode(r, rel);
    }
};
static int typeOf(const Node& n) { return (n.dir ? EntryInfo::Dir : 0) | (n.file ? EntryInfo::File : 0); }
static bool matches(const EntryInfo& e, const Node& n, bool loose) {
    if (e.filename != n.name) return false;
    if (loose) return true;
    return (int)e.type == typeOf(n) && (n.looseAttrs || (e.size == n.size && e.mtime == n.mtime));
}
struct CLister {
    std::unique_ptr<ArchiveReader::DirLister> l;
    Span sp;
    std::string path;
    std::vector<int> left;              // versions that explain everything seen
    std::set<std::string> seen;
    bool done = false;
    void advance(uint32_t n) {
        while (n--) {
            EntryInfo e;
            bool r = l->nextEntry(e);
            bool loose = sp.disturbed(), wild = sp.overwritten();
            if (!r) {
                ev("lister '%s': end", path.c_str());
                if (done) return;
                done = true;
                if (loose || wild) return;
                for (int v : left) { Node* nd = sp.node(v); if (seen.size() == (nd ? nd->kids.size() : 0)) return; }
                fail("missing-entry", "dirEntries", "listing '%s' ends after %zu entries, which no version has", path.c_str(), seen.size());
            }
            ev("lister '%s': '%s'", path.c_str(), hexs(e.filename, 60).c_str());
            if (done) fail("entry-after-end", "dirEntries", "listing '%s' gave '%s' after its end", path.c_str(), hexs(e.filename, 60).c_str());
            if (!seen.insert(e.filename).second) fail("duplicate-entry", "dirEntries", "listing '%s' gave '%s' again", path.c_str(), hexs(e.filename, 60).c_str());
            if (wild) { if (seen.size() > 5000) fail("endless-listing", "dirEntries", "'%s'", path.c_str()); continue; }
            std::vector<int> next;
            for (int v : left) {
                Node* nd = sp.node(v);
                if (!nd) continue;
                auto k = nd->kids.find(e.filename);
                if (k != nd->kids.end() && matches(e, *k->second, loose)) next.push_back(v);
            }
            if (next.empty()) {
                // which version is it from?
                int from = -1;
                for (size_t v = 0; v < sp.p->versions.size(); ++v) { Node* nd = sp.node((int)v); if (nd && nd->kids.count(e.filename) && matches(e, *nd->kids[e.filename], false)) from = (int)v; }
                fail(from >= 0 ? "stale-entry" : "wrong-entry", "dirEntries", "listing '%s' gave '%s' (type %d, size %lld, mtime %lld), which %s", path.c_str(), hexs(e.filename, 60).c_str(), (int)e.type, (long long)e.size, (long long)e.mtime, from >= 0 ? strf("belongs to version %d", from).c_str() : "no version has");
            }
            left = next;
        }
    }
};
struct COpen {
    InputStream* s;
    Span sp;
    std::string path;
    std::unique_ptr<Client<char>> c;
    bool over = false;
};
// reads everything; the bytes must be those of one version
static void readAll(COpen& o) {
    std::string got;
    const char* p; int32_t n;
    uint32_t guard = 0;
    while ((n = o.s->read(p, 1, 0)) > 0) { got.append(p, (size_t)n); if (++guard > 200000 || got.size() > 5000000) fail("no-progress", "read", "reading '%s' does not come to an end", o.path.c_str()); }
    bool ok = o.s->status() == Strigi::Eof;
    if (!ok && o.s->status() != Strigi::Error) fail("end-without-status", "read", "'%s': status %d at the end", o.path.c_str(), (int)o.s->status());
    if (o.sp.overwritten()) return;
    if (!ok && !o.sp.disturbed()) fail("unexpected-error", "read", "'%s' fails: %s", o.path.c_str(), o.s->error());
    for (int v : o.sp.allowed) {
        Node* nd = o.sp.node(v);
        if (nd && nd->file && (ok ? got == nd->data : got.size() <= nd->data.size() && nd->data.compare(0, got.size(), got) == 0)) return;
    }
    fail("wrong-data", "read", "the %zu bytes of '%s' belong to no version that was in place", got.size(), o.path.c_str());
}
static void runC15() {
    disk().reset();
    ChangeRun w;
    w.budget = 1 + logsize(10);
    uint32_t nf = 1 + draw(2);
    static const char* places[] = {"/sim/arc", "/sim/d/arc"};
    disk().mkdir("/sim/d");
    bool renameOnly = draw(3) != 2;
    std::vector<std::string> rels;
    for (uint32_t i = 0; i < nf; ++i) {
        std::unique_ptr<Phys> p(new Phys);
        p->path = places[i]; p->renameOnly = renameOnly;
        p->hist.push_back(-1);
        place(*p, newVersion(*p));
        w.files.push_back(std::move(p));
    }
    uint32_t pathRate = flip() ? 4 + draw(60) : 0, ioRate = flip() ? 4 + draw(60) : 0, callRate = 2 + draw(8);
    w.mayRestore = !pathRate && !ioRate;
    bool inCall = false;
    auto hook = [&](uint32_t rate, const char* when) { if (inCall && rate && chance(1, rate)) { inCall = false; w.change(when); inCall = true; } };
    auto attach = [&]() { for (auto& p : w.files) for (auto& v : p->versions) if (!v->f->onOp) v->f->onOp = [&]() { hook(ioRate, "during I/O"); }; };
    disk().onPath = [&]() { hook(pathRate, "during a call"); attach(); };
    FileStreamOpener fso;
    std::unique_ptr<ArchiveReader> r(new ArchiveReader);
    r->addStreamOpener(&fso);
    std::vector<std::unique_ptr<CLister>> ls;
    std::vector<std::unique_ptr<COpen>> os;
    auto somePath = [&](Span& sp) {
        Phys& p = *w.files[draw((uint32_t)w.files.size())];
        std::string rel;
        if (draw(4) && !p.versions.empty()) {
            // a path of any version, mostly the latest
            size_t v = p.versions.size() - 1;
            if (chance(1, 3)) v = draw((uint32_t)p.versions.size());
            std::vector<std::string> in;
            allPaths(p.versions[v]->root, "", in);
            if (!in.empty()) rel = in[draw((uint32_t)in.size())];
            if (chance(1, 10)) rel += "x";
        }
        sp.begin(&p, rel);
        return rel.empty() ? p.path : p.path + "/" + rel;
    };
    auto closeOne = [&](size_t i) { ev("close '%s'", os[i]->path.c_str()); r->closeStream(os[i]->s); os.erase(os.begin() + (long)i); };
    uint32_t n = 6 + logsize(50);
    for (uint32_t i = 0; i < n; ++i) {
        attach();
        if (chance(1, callRate)) { w.change("between calls"); attach(); }
        Span sp;
        inCall = true;
        switch (draw(10)) {
        case 0: case 1: {
            std::string path = somePath(sp);
            std::unique_ptr<COpen> o(new COpen);
            ev("openStream '%s'", hexs(path, 100).c_str());
            o->s = r->openStream(path);
            sp.end();
            o->path = path; o->sp = sp;
            bool any = false, all = true;
            for (int v : sp.allowed) { Node* nd = sp.node(v); if (nd && nd->file) any = true; else all = false; }
            if (!o->s) {
                if (all && !sp.disturbed() && !sp.overwritten()) fail("open-fails", "openStream", "'%s' cannot be opened", path.c_str());
                break;
            }
            count("probe.facade_open");
            if (!any && !sp.overwritten()) fail("open-of-nothing", "openStream", "'%s' was opened, which no version in place has", path.c_str());
            std::set<std::string> contents;
            for (int v : sp.allowed) { Node* nd = sp.node(v); if (nd && nd->file) contents.insert(nd->data); }
            if (contents.size() == 1 && !sp.overwritten()) {
                Node* nd = 0;
                for (int v : sp.allowed) { Node* k = sp.node(v); if (k && k->file) nd = k; }
                ClientOpts co; co.maxOps = 10; co.segRate = 3; co.rewindMayFail = true;
                COpen* op = o.get();
                o->c.reset(new Client<char>(o->s, nd->data, co, [op]() { return op->sp.disturbed(); }, "stream"));
            }
            os.push_back(std::move(o));
            if (os.size() > 5) closeOne(draw((uint32_t)os.size()));
            break; }
        case 2: case 3: {
            if (os.empty()) break;
            size_t k = draw((uint32_t)os.size());
            COpen& o = *os[k];
            if (!renameOnly) inCall = false;
            if (o.over || flip()) { closeOne(k); break; }
            if (o.c && !o.sp.overwritten()) { if (flip()) o.c->step(); else { o.c->run(); o.over = true; } }
            else { readAll(o); o.over = true; }
            // the file may have been written over meanwhile
            break; }
        case 4: case 5: {
            std::string path = somePath(sp);
            EntryInfo e;
            int st = r->stat(path, e);
            sp.end();
            ev("stat '%s': %d", hexs(path, 100).c_str(), st);
            count("probe.facade_stat");
            if (sp.overwritten()) break;
            bool may0 = false, mayNot = sp.disturbed();
            for (int v : sp.allowed) {
                Node* nd = sp.node(v);
                if (!nd) { mayNot = true; continue; }
                if (matches(e, *nd, sp.disturbed())) may0 = true;
                // the file itself was replaced in the middle of the call
                if (sp.rel.empty() && sp.allowed.size() > 1 && e.filename == nd->name && e.size == nd->size && e.mtime == nd->mtime) may0 = true;
            }
            if (st != 0 && !mayNot) fail("stat-fails", "stat", "'%s' is not found", path.c_str());
            if (st == 0 && !may0) {
                bool any = false;
                for (size_t v = 0; v < sp.p->versions.size(); ++v) { Node* nd = sp.node((int)v); if (nd && matches(e, *nd, false)) any = true; }
                fail(any ? "stale-entry" : "wrong-entry", "stat", "stat '%s' gives type %d, size %lld, mtime %lld, %s", path.c_str(), (int)e.type, (long long)e.size, (long long)e.mtime, any ? "which belongs to a version that is not in place" : "which no version has");
            }
            break; }
        case 6: case 7: {
            std::unique_ptr<CLister> l(new CLister);
            l->path = somePath(sp);
            ev("dirEntries '%s'", hexs(l->path, 100).c_str());
            l->l.reset(new ArchiveReader::DirLister(r->dirEntries(l->path)));
            sp.end();
            l->sp = sp; l->left = sp.allowed;
            count("probe.facade_list");
            ls.push_back(std::move(l));
            if (ls.size() > 5) ls.erase(ls.begin() + (long)draw((uint32_t)ls.size()));
            if (chance(1, 3)) ls.back()->advance(1000000);
            break; }
        case 8: {
            if (ls.empty()) break;
            size_t k = draw((uint32_t)ls.size());
            uint32_t what = draw(4);
            if (what == 0) { ev("drop lister"); ls.erase(ls.begin() + (long)k); }
            else if (what == 1) ls[k]->advance(1000000);
            else ls[k]->advance(1 + draw(3));
            break; }
        default: {
            if (chance(1, 6)) {
                inCall = false;
                ev("the reader is replaced");
                while (!os.empty()) closeOne(os.size() - 1);
                r.reset(new ArchiveReader); r->addStreamOpener(&fso);
                break;
            }
            std::string path = somePath(sp);
            bool a = r->isArchive(path), h = r->canHandle(path);
            sp.end();
            ev("isArchive '%s': %d %d", hexs(path, 100).c_str(), a, h);
            if (sp.disturbed() || sp.overwritten()) break;
            bool aOk = false, hOk = false;
            for (int v : sp.allowed) {
                Node* root = v < 0 ? 0 : &sp.p->versions[(size_t)v]->root;
                if (a == (root && sp.rel.empty() && root->archive())) aOk = true;
                if (h == (root && root->archive())) hOk = true;
            }
            if (!aOk) fail("wrong-answer", "isArchive", "isArchive('%s') is %d", path.c_str(), a);
            if (!hOk) fail("wrong-answer", "canHandle", "canHandle('%s') is %d", path.c_str(), h);
            break; }
        }
        inCall = false;
    }
    bool changed = false;
    for (auto& p : w.files) if (p->hist.size() > 2 || p->faults) changed = true;
    if (changed) nontrivial();
    // faults stop: everything must be right again
    if (flip()) {
        for (auto& p : w.files) {
            clearFaults(*p);
            if (p->cur() < 0 && flip()) { place(*p, (int)p->versions.size() - 1); ev("disk: '%s' is back at the end", p->path.c_str()); }
            std::vector<std::string> in(1, "");
            if (p->cur() >= 0) allPaths(p->versions[(size_t)p->cur()]->root, "", in);
            for (auto& rel : in) {
                if (!flip()) continue;
                CLister l;
                l.sp.begin(p.get(), rel);
                l.path = rel.empty() ? p->path : p->path + "/" + rel;
                l.l.reset(new ArchiveReader::DirLister(r->dirEntries(l.path)));
                l.sp.end(); l.left = l.sp.allowed;
                l.advance(1000000);
                EntryInfo e;
                int st = r->stat(l.path, e);
                Node* nd = l.sp.node(p->cur());
                if ((st == 0) != (nd != 0)) fail(nd ? "stat-fails" : "stat-of-nothing", "stat", "after the faults: stat '%s' gives %d", l.path.c_str(), st);
                if (nd && !matches(e, *nd, false)) fail("stale-entry", "stat", "after the faults: stat '%s' gives type %d, size %lld, mtime %lld", l.path.c_str(), (int)e.type, (long long)e.size, (long long)e.mtime);
            }
        }
        count("probe.checked_after_faults");
    }
    if (flip()) ls.clear();
    while (!os.empty()) closeOne(os.size() - 1);
    r.reset();
    for (auto& l : ls) if (flip()) l->advance(1000000);
    ls.clear();
    disk().onPath = nullptr;
    if (!disk().lastProblem.empty()) fail("handle-misuse", "facade", "%s", disk().lastProblem.c_str());
    if (disk().openHandles != 0) fail("handle-leak", "facade", "%lld of %lld handles are still open", (long long)disk().openHandles, (long long)disk().opened);
    for (auto& p : w.files) for (auto& v : p->versions) v->f->onOp = nullptr;
}
static Registrar r15({"C15", runC15, 600000000, false, 80000, 2000000});
} // namespace sim
