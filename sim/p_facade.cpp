// C14: the archive facade.  C15: archives that change on disk below it.
#include "tree.h"
#include "stacks.h"
#include "client.h"
#include <strigi/archivereader.h>
#include <algorithm>
#include <set>
using namespace Strigi;
namespace sim {

// ---------------------------------------------------------------- openers
struct MemOpener : StreamOpener {
    struct F { std::string data; int64_t mtime; SimConfig c; };
    std::map<std::string, F> files;
    InputStream* openStream(const std::string& url) {
        Unarmed unarmed;
        auto i = files.find(url);
        return i == files.end() ? 0 : new SimStream(i->second.data, i->second.c, 0);
    }
    int stat(const std::string& url, EntryInfo& e) {
        Unarmed unarmed;
        auto i = files.find(url);
        if (i == files.end()) return -1;
        e.type = EntryInfo::File;
        e.size = (int64_t)i->second.data.size();
        e.mtime = i->second.mtime;
        e.filename = url.substr(url.rfind('/') + 1);
        return 0;
    }
};

// ---------------------------------------------------------------- C14
struct World {
    std::map<std::string, std::unique_ptr<Node>> roots;   // physical files
    std::set<std::string> dirs;                           // physical directories
    std::vector<std::string> paths;
    // the node a path stands for; *phys: the physical file it is below
    Node* resolve(const std::string& path, Node** phys) {
        *phys = 0;
        for (auto& r : roots) {
            if (path == r.first) { *phys = r.second.get(); return *phys; }
            if (path.size() > r.first.size() && path.compare(0, r.first.size(), r.first) == 0 && path[r.first.size()] == '/') {
                *phys = r.second.get();
                return findNode(**phys, path.substr(r.first.size() + 1));
            }
        }
        return 0;
    }
    std::string somePath() {
        std::string p = pick(paths);
        switch (draw(10)) {
        case 0: return p + (flip() ? "x" : "/nothing");
        case 1: if (p.size() > 6 && p[p.size() - 2] != '/') p.resize(p.size() - 1); return p;
        case 2: { size_t s = p.rfind('/'); std::string up = p.substr(0, s); return up + "/" + (flip() ? "nosuch" : p.substr(s + 1) + p.substr(s + 1)); }
        default: return p;
        }
    }
};
static void addRoot(World& w, const std::string& path, MemOpener* mem) {
    std::unique_ptr<Node> n(new Node);
    if (chance(1, 5)) { n->file = true; n->data = "\x01" + randomBytes(logsize(400)); n->size = (int64_t)n->data.size(); }
    else genArchive(*n, (int)draw(3), true);
    n->name = path.substr(path.rfind('/') + 1);
    n->mtime = 1000 + (int64_t)draw(100000);
    if (mem) {
        MemOpener::F f;
        f.data = n->data; f.mtime = n->mtime; f.c = SimConfig::random(true); f.c.announce = -1;
        mem->files[path] = f;
    } else {
        auto d = disk().put(path, n->data, n->mtime);
        d->shortReads = flip();
    }
    w.paths.push_back(path);
    if (getenv("SIM_DUMP")) { FILE* f = fopen(strf("/tmp/dump%zu", w.roots.size()).c_str(), "wb"); fwrite(n->data.data(), 1, n->data.size(), f); fclose(f); }
    std::vector<std::string> in;
    allPaths(*n, "", in);
    for (auto& i : in) w.paths.push_back(path + "/" + i);
    w.roots[path] = std::move(n);
}
static int wantType(const Node& n) { return (n.dir ? EntryInfo::Dir : 0) | (n.file ? EntryInfo::File : 0); }
static void checkInfo(const EntryInfo& e, const Node& n, const char* op, const std::string& path) {
    if (e.filename != n.name) fail("wrong-name", op, "%s '%s': the entry is called '%s', should be '%s'", op, path.c_str(), hexs(e.filename, 100).c_str(), n.name.c_str());
    if ((int)e.type != wantType(n)) fail("wrong-type", op, "%s '%s': '%s' has type %d, should be %d", op, path.c_str(), n.name.c_str(), (int)e.type, wantType(n));
    if (n.looseAttrs) return;
    if (e.size != n.size) fail("wrong-size", op, "%s '%s': '%s' has size %lld, should be %lld", op, path.c_str(), n.name.c_str(), (long long)e.size, (long long)n.size);
    if (e.mtime != n.mtime) fail("wrong-mtime", op, "%s '%s': '%s' has mtime %lld, should be %lld", op, path.c_str(), n.name.c_str(), (long long)e.mtime, (long long)n.mtime);
}
struct Lister {
    std::unique_ptr<ArchiveReader::DirLister> l;
    std::string path;
    Node* node;
    std::set<std::string> seen;
    bool done = false;
};
static void advance(Lister& l, uint32_t n) {
    while (n--) {
        EntryInfo e;
        bool r = l.l->nextEntry(e);
        if (!r) {
            if (!l.done && l.node && l.seen.size() != l.node->kids.size())
                fail("missing-entry", "dirEntries", "listing '%s' ends after %zu of %zu entries", l.path.c_str(), l.seen.size(), l.node->kids.size());
            ev("lister '%s': end", l.path.c_str());
            l.done = true;
            return;
        }
        ev("lister '%s': '%s'", l.path.c_str(), hexs(e.filename, 60).c_str());
        if (l.done) fail("entry-after-end", "dirEntries", "listing '%s' gave '%s' after its end", l.path.c_str(), hexs(e.filename, 60).c_str());
        if (!l.node) fail("entry-from-nowhere", "dirEntries", "listing '%s', which does not exist, gave '%s'", l.path.c_str(), hexs(e.filename, 60).c_str());
        auto k = l.node->kids.find(e.filename);
        if (k == l.node->kids.end()) fail("extra-entry", "dirEntries", "listing '%s' gave '%s'", l.path.c_str(), hexs(e.filename, 60).c_str());
        if (!l.seen.insert(e.filename).second) fail("duplicate-entry", "dirEntries", "listing '%s' gave '%s' again", l.path.c_str(), hexs(e.filename, 60).c_str());
        checkInfo(e, *k->second, "dirEntries", l.path);
    }
}
struct Open {
    InputStream* s;
    std::unique_ptr<Client<char>> c;
    bool physical;
    int reader;
    std::string path;
};
// tag: keeps the paths of several sessions apart
void facadeSession(const std::string& tag) {
    World w;
    FileStreamOpener fso;
    MemOpener mem;
    const std::string B = "/sim" + tag;
    const std::string places[] = {B + "/one.bin", B + "/two", B + "/d/one.bin", B + "/d/e/deep", B + "/on", "mem/a/file", "mem/b", "m"};
    uint32_t nroots = 1 + logsize(3);
    w.dirs = {B + "/d", B + "/d/e", B + "/empty"};
    for (auto& d : w.dirs) disk().mkdir(d);
    w.paths.push_back(B + "/d"); w.paths.push_back(B + "/nothing"); w.paths.push_back("mem/nothing");
    for (uint32_t i = 0; i < nroots; ++i) {
        std::string p = places[draw(8)];
        if (!w.roots.count(p)) addRoot(w, p, p[0] == 'm' ? &mem : 0);
    }
    nontrivial();
    std::unique_ptr<ArchiveReader> readers[2];
    auto fresh = [&](int i) {
        readers[i].reset(new ArchiveReader);
        if (flip()) { readers[i]->addStreamOpener(&fso); readers[i]->addStreamOpener(&mem); }
        else { readers[i]->addStreamOpener(&mem); readers[i]->addStreamOpener(&fso); }
    };
    fresh(0); fresh(1);
    std::vector<std::unique_ptr<Lister>> ls;
    std::vector<std::unique_ptr<Open>> os;
    auto closeOne = [&](size_t i) {
        Open& o = *os[i];
        if (o.physical && flip()) delete o.s; else readers[o.reader]->closeStream(o.s);
        ev("close '%s'", o.path.c_str());
        os.erase(os.begin() + (long)i);
    };
    uint32_t n = 4 + logsize(40);
    auto never = []() { return false; };
    for (uint32_t i = 0; i < n; ++i) {
        int ri = chance(1, 5);
        ArchiveReader& r = *readers[ri];
        switch (draw(12)) {
        case 0: case 1: {
            std::string p = w.somePath();
            Node* ph; Node* nd = w.resolve(p, &ph);
            InputStream* s = r.openStream(p);
            ev("openStream '%s': %s", hexs(p, 120).c_str(), s ? "ok" : "nothing");
            bool want = nd && nd->file;
            if (!s && want) fail("open-fails", "openStream", "'%s' cannot be opened", p.c_str());
            if (s && !want) fail("open-of-nothing", "openStream", "opening '%s', which is %s, gave a stream", p.c_str(), nd ? "a directory" : "not there");
            count("probe.facade_open");
            if (!s) break;
            std::unique_ptr<Open> o(new Open);
            o->s = s; o->physical = nd == ph; o->reader = ri; o->path = p;
            ClientOpts co; co.maxOps = 12; co.segRate = 2;
            o->c.reset(new Client<char>(s, nd->data, co, never, "stream"));
            os.push_back(std::move(o));
            if (os.size() > 6) closeOne(draw((uint32_t)os.size()));
            break; }
        case 2: case 3: {
            if (os.empty()) break;
            size_t k = draw((uint32_t)os.size());
            uint32_t m = draw(3);
            if (m == 0) os[k]->c->step();
            else if (m == 1) { os[k]->c->run(); }
            else closeOne(k);
            break; }
        case 4: case 5: {
            std::string p = w.somePath();
            Node* ph; Node* nd = w.resolve(p, &ph);
            EntryInfo e;
            int st = r.stat(p, e);
            ev("stat '%s': %d", hexs(p, 120).c_str(), st);
            bool dir = w.dirs.count(p);
            if (st != 0 && (nd || dir)) fail("stat-fails", "stat", "'%s' is not found", p.c_str());
            if (st == 0 && !nd && !dir) fail("stat-of-nothing", "stat", "'%s', which is not there, is found", p.c_str());
            if (nd) checkInfo(e, *nd, "stat", p);
            if (dir && e.type != EntryInfo::Dir) fail("wrong-type", "stat", "the directory '%s' has type %d", p.c_str(), (int)e.type);
            count("probe.facade_stat");
            break; }
        case 6: case 7: {
            std::unique_ptr<Lister> l(new Lister);
            l->path = w.somePath();
            Node* ph; l->node = w.resolve(l->path, &ph);
            ev("dirEntries '%s'", hexs(l->path, 120).c_str());
            l->l.reset(new ArchiveReader::DirLister(r.dirEntries(l->path)));
            count("probe.facade_list");
            ls.push_back(std::move(l));
            if (ls.size() > 6) ls.erase(ls.begin() + (long)draw((uint32_t)ls.size()));
            break; }
        case 8: case 9: {
            if (ls.empty()) break;
            size_t k = draw((uint32_t)ls.size());
            switch (draw(6)) {
            case 0: ev("drop lister"); ls.erase(ls.begin() + (long)k); count("probe.abandoned_lister"); break;
            case 1: advance(*ls[k], 1000000); break;
            case 2: { // a copy goes on independently
                std::unique_ptr<Lister> c(new Lister);
                c->path = ls[k]->path; c->node = ls[k]->node; c->seen = ls[k]->seen; c->done = ls[k]->done;
                c->l.reset(new ArchiveReader::DirLister(*ls[k]->l));
                ev("copy lister '%s'", c->path.c_str());
                ls.push_back(std::move(c));
                if (ls.size() > 8) ls.erase(ls.begin());
                count("probe.lister_copied");
                break; }
            case 3: { // assignment
                size_t t = draw((uint32_t)ls.size());
                *ls[t]->l = *ls[k]->l;
                if (t != k) { ls[t]->path = ls[k]->path; ls[t]->node = ls[k]->node; ls[t]->seen = ls[k]->seen; ls[t]->done = ls[k]->done; }
                ev("assign lister '%s'", ls[k]->path.c_str());
                count("probe.lister_assigned");
                break; }
            default: advance(*ls[k], 1 + draw(3)); break;
            }
            break; }
        case 10: {
            std::string p = w.somePath();
            Node* ph; Node* nd = w.resolve(p, &ph);
            bool a = r.isArchive(p), h = r.canHandle(p);
            ev("isArchive '%s': %d %d", hexs(p, 120).c_str(), a, h);
            if (a != (nd && nd == ph && nd->archive())) fail("wrong-answer", "isArchive", "isArchive('%s') is %d", p.c_str(), a);
            if (h != (ph && ph->archive())) fail("wrong-answer", "canHandle", "canHandle('%s') is %d", p.c_str(), h);
            break; }
        default: {
            if (!chance(1, 4)) break;
            // the reader goes away; its listings stay usable
            ev("reader %d is replaced", ri);
            for (size_t k = os.size(); k-- > 0;) if (os[k]->reader == ri) {
                if (os[k]->physical || flip()) closeOne(k);
                else { count("probe.stream_left_to_reader"); os.erase(os.begin() + (long)k); }
            }
            readers[ri].reset();
            fresh(ri);
            count("probe.reader_destroyed");
            break; }
        }
    }
    // what is still going on comes to its end
    for (auto& l : ls) if (flip()) advance(*l, 1000000);
    for (auto& o : os) if (flip()) o->c->drain();
    if (flip()) { readers[1].reset(); for (size_t k = os.size(); k-- > 0;) if (os[k]->reader == 1) { if (os[k]->physical) delete os[k]->s; os.erase(os.begin() + (long)k); } }
    if (flip()) { for (auto& l : ls) if (flip()) advance(*l, 1000000); ls.clear(); }
    while (!os.empty()) closeOne(os.size() - 1);
    readers[0].reset(); readers[1].reset();
    for (auto& l : ls) if (flip()) advance(*l, 1000000);
    ls.clear();
}
// One call in the middle runs out of memory: it may fail, but what it returns is right, and every
// later call on the same reader is right again (C24).
bool memoryFacadeSession(const MemPlan& plan) {
    World w;
    FileStreamOpener fso;
    MemOpener mo;
    const std::string places[] = {"/sim/one.bin", "/sim/d/e/deep", "mem/a/file"};
    w.dirs = {"/sim/d", "/sim/d/e"};
    for (auto& d : w.dirs) disk().mkdir(d);
    w.paths.push_back("/sim/nothing");
    uint32_t nroots = 1 + draw(2);
    for (uint32_t i = 0; i < nroots; ++i) {
        std::string p = places[draw(3)];
        if (!w.roots.count(p)) addRoot(w, p, p[0] == 'm' ? &mo : 0);
    }
    ArchiveReader r;
    r.addStreamOpener(&fso); r.addStreamOpener(&mo);
    std::vector<std::unique_ptr<Lister>> ls;
    std::vector<std::unique_ptr<Open>> os;
    auto drop = [&]() {
        ls.clear();
        for (auto& o : os) { if (o->physical) delete o->s; else r.closeStream(o->s); }
        os.clear();
    };
    uint32_t n = 3 + draw(8), at = draw(n), tail = 0;
    bool fired = false, thrown = false;
    for (uint32_t i = 0; i < n + tail; ++i) {
        bool armed = i == at;
        if (armed) { ::sim::mem = plan; ::sim::mem.on = true; ev("the next call runs out of memory"); }
        auto lax = [&]() { return ::sim::mem.fired; };
        std::string p = w.somePath();
        Node* ph; Node* nd = w.resolve(p, &ph);
        uint32_t op = draw(6);
        try {
            switch (op) {
            case 0: case 1: {
                InputStream* s = lib([&]() { return r.openStream(p); });
                ev("openStream '%s': %s", hexs(p, 120).c_str(), s ? "ok" : "nothing");
                bool want = nd && nd->file;
                if (!s && want && !lax()) fail("open-fails", "openStream", "'%s' cannot be opened", p.c_str());
                if (s && !want) fail("open-of-nothing", "openStream", "opening '%s', which is %s, gave a stream", p.c_str(), nd ? "a directory" : "not there");
                if (!s) break;
                std::unique_ptr<Open> o(new Open);
                o->s = s; o->physical = nd == ph; o->reader = 0; o->path = p;
                ClientOpts co; co.maxOps = 12; co.segRate = 2;
                o->c.reset(new Client<char>(s, nd->data, co, []() { return false; }, "stream"));
                os.push_back(std::move(o));
                Client<char>* c = os.back()->c.get();
                if (flip()) c->run(); else c->step();
                break; }
            case 2: {
                EntryInfo e;
                int st = lib([&]() { return r.stat(p, e); });
                ev("stat '%s': %d", hexs(p, 120).c_str(), st);
                if (st != 0 && (nd || w.dirs.count(p)) && !lax()) fail("stat-fails", "stat", "'%s' is not found", p.c_str());
                if (st == 0 && !nd && !w.dirs.count(p)) fail("stat-of-nothing", "stat", "'%s', which is not there, is found", p.c_str());
                // an archive whose format could not be determined is a file
                if (nd && st == 0 && !lax()) checkInfo(e, *nd, "stat", p);
                break; }
            case 3: case 4: {
                std::unique_ptr<Lister> l(new Lister);
                l->path = p; l->node = nd;
                l->l.reset(lib([&]() { return new ArchiveReader::DirLister(r.dirEntries(p)); }));
                ev("dirEntries '%s'", hexs(p, 120).c_str());
                uint32_t k = flip() ? 1000000 : draw(4);
                while (k--) {
                    EntryInfo e;
                    if (!lib([&]() { return l->l->nextEntry(e); })) {
                        if (!lax() && nd && l->seen.size() != nd->kids.size()) fail("missing-entry", "dirEntries", "listing '%s' ends after %zu of %zu entries", p.c_str(), l->seen.size(), nd->kids.size());
                        break;
                    }
                    ev("lister: '%s'", hexs(e.filename, 60).c_str());
                    if (!nd) fail("entry-from-nowhere", "dirEntries", "listing '%s', which does not exist, gave '%s'", p.c_str(), hexs(e.filename, 60).c_str());
                    auto kid = nd->kids.find(e.filename);
                    if (kid == nd->kids.end()) fail("extra-entry", "dirEntries", "listing '%s' gave '%s'", p.c_str(), hexs(e.filename, 60).c_str());
                    if (!l->seen.insert(e.filename).second) fail("duplicate-entry", "dirEntries", "listing '%s' gave '%s' again", p.c_str(), hexs(e.filename, 60).c_str());
                    if (!lax()) checkInfo(e, *kid->second, "dirEntries", p);
                }
                ls.push_back(std::move(l));
                break; }
            default: {
                bool a = lib([&]() { return r.isArchive(p); });
                ev("isArchive '%s': %d", hexs(p, 120).c_str(), a);
                if (!lax() && a != (nd && nd == ph && nd->archive())) fail("wrong-answer", "isArchive", "isArchive('%s') is %d", p.c_str(), a);
                break; }
            }
        } catch (const std::bad_alloc&) { count("probe.reported_as_bad_alloc"); ev("bad_alloc"); thrown = true; if (!lax()) fail("bad-alloc", "facade", "std::bad_alloc although no allocation failed"); }
        catch (const Abandon&) {}
        if (armed) {
            fired = ::sim::mem.fired;
            ::sim::mem = MemPlan();
            // a failure that looked like damaged data to a reader may be remembered as such
            if (fired) { nontrivial(); drop(); if (!thrown) return true; tail = 6; }
        }
    }
    drop();
    if (fired) count("probe.facade_after_failure");
    return fired;
}
void bigFacadeRun();
static void runC14() {
    disk().reset();
    if (chance(1, 60)) { bigFacadeRun(); return; }
    facadeSession("");
    if (!disk().lastProblem.empty()) fail("handle-misuse", "facade", "%s", disk().lastProblem.c_str());
    if (disk().openHandles != 0) fail("handle-leak", "facade", "%lld of %lld handles are still open", (long long)disk().openHandles, (long long)disk().opened);
}
static Registrar r14({"C14", runC14, 600000000, false, 80000, 2000000});
} // namespace sim
