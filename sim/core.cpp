#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <vector>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <cerrno>
#include <csignal>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace sim {

static const uint32_t MAXC = 1u << 18;
static const uint32_t NEDGE = 1u << 16;
static const int NCOUNT = 256;

struct Counter { char name[56]; uint64_t n; uint64_t runs; };
enum Outcome { Running = 0, Passed = 1, Violated = 2, HarnessErr = 3 };
struct Shm {
    volatile uint64_t index;
    volatile int outcome;
    uint64_t hash;
    uint64_t nev;
    uint32_t nchoices;
    uint32_t overflow;
    char cls[64];
    char sig[256];
    char msg[4096];
    uint64_t runs, nontriv, evs, edgesTotal, simtime, choiceTotal, wallns, maxEdges, childEdges;
    Counter counters[NCOUNT];
    uint8_t edgemap[NEDGE];
    uint32_t choices[MAXC];
};
static Shm* S = 0;                // shared record of the executing process

// ------------------------------------------------------------ PRNG + choices
static uint64_t x[4];
static inline uint64_t rotl(uint64_t v, int k) { return (v << k) | (v >> (64 - k)); }
static uint64_t xnext() {
    const uint64_t result = rotl(x[1] * 5, 7) * 9;
    const uint64_t t = x[1] << 17;
    x[2] ^= x[0]; x[3] ^= x[1]; x[1] ^= x[2]; x[0] ^= x[3];
    x[2] ^= t; x[3] = rotl(x[3], 45);
    return result;
}
static bool replaying = false;
static std::vector<uint32_t> replayList;
static uint32_t replayPos = 0;
static bool verbose_ = false;
static bool isNontrivial = false;
static FILE* traceOut = 0;

static void seedPrng(uint64_t seed, const char* prop, uint64_t idx) {
    uint64_t h = hashBytes(prop, strlen(prop));
    Rng r(seed * 1000003ull + idx * 7919ull + h);
    for (int i = 0; i < 4; ++i) x[i] = r.next();
}
static inline uint32_t record(uint32_t v) {
    if (S->nchoices < MAXC) S->choices[S->nchoices++] = v; else S->overflow = 1;
    return v;
}
static uint32_t raw(uint32_t maxv) {     // in [0,maxv]
    uint32_t v;
    if (replaying) {
        v = replayPos < replayList.size() ? replayList[replayPos++] : 0;
        if (v > maxv) v = maxv;
    } else if (S->nchoices >= MAXC) {
        v = 0;
    } else {
        uint64_t r = xnext();
        v = maxv == 0xffffffffu ? (uint32_t)(r >> 32) : (uint32_t)(((r >> 32) * ((uint64_t)maxv + 1)) >> 32);
    }
    return record(v);
}
uint32_t draw(uint32_t n) {
    if (n <= 1) return 0;
    return raw(n - 1);
}
uint32_t draw32() { return raw(0xffffffffu); }
bool chance(uint32_t num, uint32_t den) {
    if (num == 0) return false;
    if (num >= den) return true;
    return draw(den) >= den - num;
}
uint32_t logsize(uint32_t max) {
    if (max == 0) return 0;
    uint32_t bits = 0;
    while (bits < 32 && (max >> bits)) ++bits;
    uint32_t b = draw(bits + 1);
    if (b == 0) return 0;
    uint64_t lo = 1ull << (b - 1), hi = (1ull << b) - 1;
    if (hi > max) hi = max;
    if (lo > hi) lo = hi;
    return (uint32_t)lo + draw((uint32_t)(hi - lo) + 1);
}

// ------------------------------------------------------------ log
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
void ev(const char* fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    S->hash = hashBytes(buf, n, S->hash);
    S->nev++;
    if (verbose_ && traceOut) { fputs(buf, traceOut); fputc('\n', traceOut); fflush(traceOut); }
}
void evbytes(const char* p, size_t n) { S->hash = hashBytes(p, n, S->hash); }
bool verbose() { return verbose_; }
void nontrivial() { isNontrivial = true; }
static uint8_t countedThisRun[NCOUNT];
void count(const char* name, uint64_t n) {
    uint64_t h = hashBytes(name, strlen(name));
    for (int k = 0; k < NCOUNT; ++k) {
        Counter& c = S->counters[(h + k) % NCOUNT];
        if (c.name[0] == 0) { strncpy(c.name, name, sizeof c.name - 1); }
        if (strncmp(c.name, name, sizeof c.name - 1) == 0) {
            c.n += n;
            uint8_t& f = countedThisRun[(h + k) % NCOUNT];
            if (!f) { f = 1; c.runs++; }
            return;
        }
    }
}
void simTime(uint64_t u) { S->simtime += u; }
std::string strf(const char* fmt, ...) {
    char buf[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    return std::string(buf, n);
}
std::string hexs(const std::string& s, size_t max) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\') o += (char)c; else o += strf("\\x%02x", c);
    }
    if (s.size() > max) o += strf("...(%zu)", s.size());
    return o;
}

// ------------------------------------------------------------ violations
static void record(const char* cls, const char* sig, const char* msg) {
    if (S->outcome != Running) return;
    strncpy(S->cls, cls, sizeof S->cls - 1);
    strncpy(S->sig, sig, sizeof S->sig - 1);
    strncpy(S->msg, msg, sizeof S->msg - 1);
    S->outcome = Violated;
}
void fail(const char* cls, const std::string& sig, const char* fmt, ...) {
    // a failing allocation may be reported anywhere (C24)
    if (mem.fired && (!strcmp(cls, "unexpected-error") || !strcmp(cls, "build-failed"))) { count("probe.reported_as_error"); ev("reported: %s %s", cls, sig.c_str()); throw Abandon(); }
    char buf[4000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    ev("VIOLATION class=%s sig=%s %s", cls, sig.c_str(), buf);
    record(cls, sig.c_str(), buf);
    _exit(1);
}
void harnessError(const char* fmt, ...) {
    char buf[2000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    strncpy(S->msg, buf, sizeof S->msg - 1);
    S->outcome = HarnessErr;
    if (verbose_) fprintf(stderr, "HARNESS ERROR %s\n", buf);
    _exit(2);
}

// a run that lives in a process of its own did not end well
void childFinished(int st) {
    if (S->outcome != Running) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 1);
    if (WIFSIGNALED(st)) fail("crash", strf("signal %d", WTERMSIG(st)), "the run was ended by signal %d", WTERMSIG(st));
    harnessError("the process of the run ended with status %d", st);
}
static uint64_t edgeCount = 0, edgeBudget = 1ull << 60;
void (*edgeHook)() = 0;
static uint32_t nGuards = 0;
void setEdgeBudget(uint64_t n) { edgeBudget = n; }
uint64_t edges() { return edgeCount; }
void exportEdges() { S->childEdges = edgeCount; }      // by a run's own process, before it exits
void importEdges() { edgeCount += S->childEdges; S->childEdges = 0; }
void ownProcess(bool (*f)()) {
    pid_t p = fork();
    if (p < 0) harnessError("fork");
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        bool nt = f();
        exportEdges();
        _exit(nt ? 0 : 4);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    importEdges();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { nontrivial(); return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return;
    childFinished(st);
}

static char asanReport[65536];
static void onAsanReport(const char* text) {
    strncpy(asanReport, text, sizeof asanReport - 1);
}
static void onDeath() {
    if (!S || S->outcome != Running) return;
    std::string t(asanReport);
    std::string type = "unknown", where;
    size_t p = t.find("AddressSanitizer: ");
    if (p != std::string::npos) {
        p += 18;
        size_t e = t.find_first_of(" \n", p);
        type = t.substr(p, e - p);
        size_t q = t.find("SUMMARY:");
        if (q != std::string::npos) {
            size_t in = t.find(" in ", q);
            if (in != std::string::npos) {
                size_t e2 = t.find('\n', in);
                where = t.substr(in + 4, e2 - in - 4);
                size_t par = where.find('(');
                if (par != std::string::npos) where = where.substr(0, par);
            }
        }
    }
    std::string cls = "asan:" + type;
    record(cls.c_str(), (cls + ":" + where).c_str(), t.substr(0, 3500).c_str());
    S->hash = hashBytes(cls.data(), cls.size(), S->hash);
    if (verbose_ && traceOut) { fprintf(traceOut, "CRASH %s\n%s\n", cls.c_str(), t.c_str()); fflush(traceOut); }
    _exit(1);
}

static int64_t live = 0;
static bool trackPtrs = false;
static const int NPTR = 1 << 16;
static const void* livePtrs[NPTR];
static void onMalloc(const volatile void* p, size_t) {
    ++live;
    if (trackPtrs && p) {
        size_t h = ((uintptr_t)p >> 4) % NPTR;
        for (int i = 0; i < 64; ++i) {
            const void*& slot = livePtrs[(h + i) % NPTR];
            if (!slot) { slot = (const void*)p; break; }
        }
    }
}
static void onFree(const volatile void* p) {
    if (!p) return;
    --live;
    if (trackPtrs) {
        size_t h = ((uintptr_t)p >> 4) % NPTR;
        for (int i = 0; i < 64; ++i) {
            const void*& slot = livePtrs[(h + i) % NPTR];
            if (slot == (const void*)p) { slot = 0; break; }
        }
    }
}
int64_t liveAllocs() { return live; }

// ------------------------------------------------------------ properties
static std::map<std::string, Prop>& props() { static std::map<std::string, Prop> m; return m; }
void registerProp(const Prop& p) { props()[p.id] = p; }
int64_t abandonAfter = -1;
void runScenario(const char* id) {
    const Prop& p = props()[id];
    setEdgeBudget(p.edgeBudget);
    p.run();
}

// ------------------------------------------------------------ one run
static void prepare() {
    S->hash = 1469598103934665603ull;
    S->nev = 0;
    S->nchoices = 0;
    S->overflow = 0;
    S->outcome = Running;
    S->cls[0] = S->sig[0] = S->msg[0] = 0;
    replayPos = 0;
    isNontrivial = false;
    edgeCount = 0;
    memset(countedThisRun, 0, sizeof countedThisRun);
}
static void body(const Prop& p) {
    setEdgeBudget(p.edgeBudget);
    edgeCount = 0;
    int64_t before = live;
    p.run();
    if (p.leakCheck && live > before) {
        // repeat the identical run: one-time initialisation does not repeat, a leak does
        uint64_t h = S->hash, n = S->nev;
        uint32_t nc = S->nchoices, ov = S->overflow;
        bool wasReplaying = replaying;
        std::vector<uint32_t> saved; saved.swap(replayList);
        replayList.assign(S->choices, S->choices + nc);
        replaying = true;
        int64_t b2 = 0;
        // caches of the C library come and go: a leak repeats every time
        for (int again = 0; again < 3; ++again) {
            replayPos = 0; S->nchoices = 0;
            edgeCount = 0;
            S->hash = 1469598103934665603ull; S->nev = 0;
            b2 = live;
            memset(livePtrs, 0, sizeof livePtrs);
            trackPtrs = true;
            p.run();
            trackPtrs = false;
            if (S->hash != h) harnessError("second execution for the leak check diverged");
            if (live <= b2) break;
        }
        if (live > b2) {
            int64_t leaked = live - b2;
            std::string where;
            for (int i = 0; i < NPTR && where.size() < 3000; ++i) {
                if (!livePtrs[i]) continue;
                void* pcs[24]; int tid = 0;
                size_t k = __asan_get_alloc_stack((void*)livePtrs[i], pcs, 24, &tid);
                if (verbose_) {
                    for (size_t j = 1; j < k && j < 12; ++j) {
                        char sb[256];
                        __sanitizer_symbolize_pc((char*)pcs[j] - 1, "%f %s:%l %p", sb, sizeof sb);
                        where += std::string(" <- ") + sb;
                    }
                    where += "\n";
                }
            }
            S->nchoices = nc; S->overflow = ov;
            fail("leak", "leak", "%lld allocation(s) still live after everything was destroyed%s%s",
                 (long long)leaked, where.empty() ? "" : "\n", where.c_str());
        }
        replayList.swap(saved);
        replaying = wasReplaying;
        S->hash = h; S->nev = n; S->nchoices = nc; S->overflow = ov;
    }
    S->outcome = Passed;
}

// ------------------------------------------------------------ process plumbing
static Shm* newShm() {
    void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shm*)p;
}
static void quietStderr() {
    std::cerr.rdbuf(0); std::cout.rdbuf(0);
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
struct Result {
    int outcome; std::string cls, sig, msg; uint64_t hash; std::vector<uint32_t> choices; bool crashed;
};
// runs made before in the same process, for failures that depend on what earlier runs left behind
static std::vector<uint64_t> beforeRuns;
static uint64_t beforeSeed = 0;
// runs either PRNG (seed,index) or a choice list in a forked child
static Result execute(const Prop& p, Shm* shm, bool fromList, const std::vector<uint32_t>& list,
                      uint64_t seed, uint64_t index, double wallLimit = 120) {
    S = shm;
    S->outcome = Running;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        bool loud = verbose_;
        verbose_ = false;
        if (!loud) quietStderr();
        for (uint64_t b : beforeRuns) {
            prepare();
            S->index = b;
            replaying = false;
            seedPrng(beforeSeed, p.id, b);
            body(p);
        }
        verbose_ = loud;
        prepare();
        S->index = index;
        replaying = fromList;
        if (fromList) replayList = list; else seedPrng(seed, p.id, index);
        body(p);
        _exit(0);
    }
    int st = 0;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        clock_gettime(CLOCK_MONOTONIC, &t);
        double el = (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9;
        if (el > wallLimit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        struct timespec sl = {0, el < 0.05 ? 200000 : 2000000};
        nanosleep(&sl, 0);
    }
    Result R;
    R.crashed = false;
    if (S->outcome == Running) {
        R.crashed = true;
        if (WIFSIGNALED(st)) {
            snprintf(S->cls, sizeof S->cls, WTERMSIG(st) == SIGKILL ? "wall-hang" : "signal:%d", WTERMSIG(st));
        } else {
            snprintf(S->cls, sizeof S->cls, "exit:%d", WEXITSTATUS(st));
        }
        strcpy(S->sig, S->cls);
        S->outcome = Violated;
    }
    R.outcome = S->outcome; R.cls = S->cls; R.sig = S->sig; R.msg = S->msg; R.hash = S->hash;
    R.choices.assign(S->choices, S->choices + S->nchoices);
    return R;
}

static std::string jsonEsc(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
        else o += c;
    }
    return o;
}
static void writeChoices(FILE* f, const std::vector<uint32_t>& c) {
    for (size_t i = 0; i < c.size(); ++i) fprintf(f, "%u%c", c[i], (i % 24 == 23) ? '\n' : ' ');
    fprintf(f, "\n");
}
static std::vector<uint32_t> readChoices(const char* path) {
    std::vector<uint32_t> v;
    FILE* f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot read %s\n", path); exit(2); }
    unsigned u;
    while (fscanf(f, "%u", &u) == 1) v.push_back(u);
    fclose(f);
    return v;
}

// ------------------------------------------------------------ minimiser
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::vector<uint32_t> minimise(const Prop& p, Shm* shm, std::vector<uint32_t> cur,
                                      const std::string& cls, double seconds, int* attempts) {
    double end = nowS() + seconds;
    int n = 0;
    auto test = [&](std::vector<uint32_t>& cand) -> bool {
        ++n;
        Result r = execute(p, shm, true, cand, 0, 0, 60);
        if (r.outcome != Violated || r.cls != cls) return false;
        // adopt what was consumed
        if (r.choices.size() < cand.size()) cand = r.choices;
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        return true;
    };
    auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    bool progress = true;
    while (progress && nowS() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && nowS() < end; len /= 2) {
            for (size_t i = cur.size() >= len ? cur.size() - len : 0; nowS() < end;) {
                if (i + len <= cur.size()) {
                    std::vector<uint32_t> c(cur);
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (test(c) && better(c, cur)) { cur = c; progress = true; if (i + len > cur.size()) i = cur.size() >= len ? cur.size() - len : 0; continue; }
                }
                if (i == 0) break;
                i = i > len ? i - len : 0;
            }
            if (len == 1) break;
        }
        for (size_t len : {16, 8, 4, 2, 1}) {
            for (size_t i = 0; i + len <= cur.size() && nowS() < end; i += len) {
                bool any = false;
                for (size_t k = i; k < i + len; ++k) if (cur[k]) any = true;
                if (!any) continue;
                std::vector<uint32_t> c(cur);
                for (size_t k = i; k < i + len; ++k) c[k] = 0;
                if (test(c) && better(c, cur)) { cur = c; progress = true; }
            }
        }
        for (size_t i = 0; i < cur.size() && nowS() < end; ++i) {
            uint32_t lo = 0;
            while (i < cur.size() && cur[i] > lo && nowS() < end) {
                uint32_t mid = lo + (cur[i] - lo) / 2;
                std::vector<uint32_t> c(cur);
                c[i] = mid;
                if (test(c) && better(c, cur)) { cur = c; progress = true; }
                else { if (mid == lo && cur[i] - lo <= 1) break; lo = mid + 1; }
            }
        }
    }
    if (attempts) *attempts = n;
    return cur;
}

// ------------------------------------------------------------ batch
struct Known { std::string cls, sig; };
static std::vector<Known> known;
static bool isKnown(const std::string& cls, const std::string& sig) {
    for (auto& k : known) if (k.cls == cls && k.sig == sig) return true;
    return false;
}

struct Batch { volatile uint64_t lowest; volatile uint64_t stop; volatile uint64_t knownHits; };

static void workerLoop(const Prop& p, uint64_t seed, uint64_t from, uint64_t to, uint64_t stride,
                       Batch* b, uint64_t* hashes, uint64_t* edgeSets, double deadline) {
    static uint8_t before[NEDGE];
    for (uint64_t i = from; i < to; i += stride) {
        if (b->lowest < i || b->stop) break;
        if ((i / stride) % 16 == 0 && nowS() > deadline) { b->stop = 1; break; }
        prepare();
        S->index = i;
        replaying = false;
        seedPrng(seed, p.id, i);
        memcpy(before, S->edgemap, NEDGE);
        memset(S->edgemap, 0, NEDGE);
        body(p);
        S->runs++;
        if (isNontrivial) S->nontriv++;
        S->evs += S->nev;
        S->edgesTotal += edgeCount;
        if (edgeCount > S->maxEdges) S->maxEdges = edgeCount;
        S->choiceTotal += S->nchoices;
        uint64_t es = 1469598103934665603ull;
        const uint64_t* m = (const uint64_t*)S->edgemap; uint64_t* bm = (uint64_t*)before;
        for (uint32_t k = 0; k < (nGuards + 8) / 8; ++k) {
            es = (es ^ m[k]) * 1099511628211ull;
            bm[k] |= m[k];
        }
        memcpy(S->edgemap, before, NEDGE);
        hashes[i] = isNontrivial ? (S->hash | 1) : 2;
        edgeSets[i] = es | 1;
    }
}

static int cmdRun(const Prop& p, uint64_t seed, uint64_t runs, int workers, double timecap, const char* out) {
    std::vector<Shm*> sh;
    for (int w = 0; w < workers; ++w) sh.push_back(newShm());
    Batch* b = (Batch*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    b->lowest = ~0ull;
    uint64_t* hashes = (uint64_t*)mmap(0, (runs + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t* esets = (uint64_t*)mmap(0, (runs + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = nowS(), deadline = t0 + timecap;
    std::vector<pid_t> pids(workers, 0);
    std::vector<uint64_t> lastIdx(workers, ~0ull);
    std::vector<double> lastT(workers, t0);
    struct Viol { uint64_t idx, first; std::string cls, sig, msg; };
    std::vector<Viol> viols;
    std::map<std::string, uint64_t> knownSeen;
    std::vector<uint64_t> firstIdx(workers, 0);
    auto spawn = [&](int w, uint64_t from) {
        firstIdx[w] = from;
        fflush(stdout); fflush(stderr);
        sh[w]->outcome = Running;
        pid_t pid = fork();
        if (pid == 0) {
            S = sh[w];
            quietStderr();
            workerLoop(p, seed, from, runs, workers, b, hashes, esets, deadline);
            S->outcome = Passed;
            _exit(0);
        }
        pids[w] = pid;
        lastT[w] = nowS();
    };
    for (int w = 0; w < workers; ++w) spawn(w, w);
    int alive = workers;
    bool herr = false; std::string herrMsg;
    while (alive > 0) {
        int st;
        pid_t r = waitpid(-1, &st, WNOHANG);
        if (r <= 0) {
            double t = nowS();
            for (int w = 0; w < workers; ++w) {
                if (!pids[w]) continue;
                if (sh[w]->index != lastIdx[w]) { lastIdx[w] = sh[w]->index; lastT[w] = t; }
                else if (t - lastT[w] > 180) { kill(pids[w], SIGKILL); }
            }
            struct timespec sl = {0, 3000000};
            nanosleep(&sl, 0);
            continue;
        }
        int w = 0;
        while (w < workers && pids[w] != r) ++w;
        if (w == workers) continue;
        pids[w] = 0;
        Shm* s = sh[w];
        if (s->outcome == Passed && WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; continue; }
        uint64_t idx = s->index;
        if (s->outcome == HarnessErr) { herr = true; herrMsg = strf("run %llu: %s", (unsigned long long)idx, s->msg); b->stop = 1; --alive; continue; }
        if (s->outcome == Running || s->outcome == Passed) {
            if (WIFSIGNALED(st)) snprintf(s->cls, sizeof s->cls, WTERMSIG(st) == SIGKILL ? "wall-hang" : "signal:%d", WTERMSIG(st));
            else snprintf(s->cls, sizeof s->cls, "exit:%d", WEXITSTATUS(st));
            strcpy(s->sig, s->cls);
        }
        if (isKnown(s->cls, s->sig)) {
            knownSeen[std::string(s->cls) + "|" + s->sig]++;
        } else {
            viols.push_back({idx, firstIdx[w], s->cls, s->sig, s->msg});
            if (!getenv("SIM_KEEPGOING") && idx < b->lowest) b->lowest = idx;
        }
        if (idx + workers < runs && !b->stop) spawn(w, idx + workers); else --alive;
    }
    double wall = nowS() - t0;
    // aggregate
    uint64_t R = 0, N = 0, E = 0, ET = 0, T = 0, C = 0, ME = 0;
    std::map<std::string, std::pair<uint64_t, uint64_t>> cnt;
    std::vector<uint8_t> em(NEDGE, 0);
    for (auto s : sh) {
        R += s->runs; N += s->nontriv; E += s->evs; ET += s->edgesTotal; T += s->simtime; C += s->choiceTotal;
        ME = std::max(ME, s->maxEdges);
        for (auto& c : s->counters) if (c.name[0]) { cnt[c.name].first += c.n; cnt[c.name].second += c.runs; }
        for (uint32_t i = 0; i < NEDGE; ++i) em[i] |= s->edgemap[i];
    }
    uint64_t edgesHit = 0; for (auto v : em) edgesHit += v ? 1 : 0;
    std::vector<uint64_t> hs, es;
    for (uint64_t i = 0; i < runs; ++i) { if (hashes[i] > 2) hs.push_back(hashes[i]); if (esets[i]) es.push_back(esets[i]); }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
    uint64_t batchHash = hashBytes(hashes, runs * 8);
    FILE* f = fopen(out, "w");
    fprintf(f, "{\"runs\":%llu,\"requested\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"distinct_edge_sets\":%llu,\"events\":%llu,"
               "\"edges_executed\":%llu,\"max_edges_per_run\":%llu,\"sim_time\":%llu,\"choices\":%llu,\"edges_covered\":%llu,\"edges_total\":%u,\"wall\":%.3f,\"batch_hash\":\"%016llx\",\n",
            (unsigned long long)R, (unsigned long long)runs, (unsigned long long)N, (unsigned long long)hs.size(), (unsigned long long)es.size(),
            (unsigned long long)E, (unsigned long long)ET, (unsigned long long)ME, (unsigned long long)T, (unsigned long long)C,
            (unsigned long long)edgesHit, nGuards, wall, (unsigned long long)batchHash);
    fprintf(f, "\"timecap_hit\":%s,\"harness_error\":\"%s\",\n\"counters\":{", b->stop && !herr ? "true" : "false", jsonEsc(herrMsg).c_str());
    bool first = true;
    for (auto& c : cnt) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", jsonEsc(c.first).c_str(), (unsigned long long)c.second.first, (unsigned long long)c.second.second); first = false; }
    fprintf(f, "},\n\"known\":{");
    first = true;
    for (auto& k : knownSeen) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\n\"violations\":[");
    std::sort(viols.begin(), viols.end(), [](const Viol& a, const Viol& b2) { return a.idx < b2.idx; });
    for (size_t i = 0; i < viols.size(); ++i)
        fprintf(f, "%s{\"index\":%llu,\"first\":%llu,\"cls\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", (unsigned long long)viols[i].idx, (unsigned long long)viols[i].first,
                jsonEsc(viols[i].cls).c_str(), jsonEsc(viols[i].sig).c_str(), jsonEsc(viols[i].msg).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    return herr ? 2 : 0;
}

static void printResult(const Result& r, const char* choicesOut) {
    printf("{\"outcome\":%d,\"cls\":\"%s\",\"sig\":\"%s\",\"hash\":\"%016llx\",\"nchoices\":%zu,\"msg\":\"%s\"}\n", r.outcome,
           jsonEsc(r.cls).c_str(), jsonEsc(r.sig).c_str(), (unsigned long long)r.hash, r.choices.size(), jsonEsc(r.msg).c_str());
    if (choicesOut) {
        FILE* f = fopen(choicesOut, "w");
        writeChoices(f, r.choices);
        fclose(f);
    }
}

static int mainImpl(int argc, char** argv) {
    // disable core dumps, make signals default
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    __asan_set_error_report_callback(onAsanReport);
    __sanitizer_set_death_callback(onDeath);
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::map<std::string, std::string> o;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
    if (cmd == "list") { for (auto& p : props()) printf("%s %u %u\n", p.first.c_str(), p.second.quickRuns, p.second.thoroughRuns); return 0; }
    auto it = props().find(o["prop"]);
    if (it == props().end()) { fprintf(stderr, "unknown property %s\n", o["prop"].c_str()); return 2; }
    const Prop& p = it->second;
    uint64_t seed = strtoull(o["seed"].c_str(), 0, 10);
    uint64_t index = strtoull(o["index"].c_str(), 0, 10);
    if (o.count("known")) {   // file of cls<TAB>sig lines
        FILE* f = fopen(o["known"].c_str(), "r");
        char line[1024];
        while (f && fgets(line, sizeof line, f)) {
            char* nl = strchr(line, '\n'); if (nl) *nl = 0;
            char* tab = strchr(line, '\t'); if (!tab) continue;
            known.push_back({std::string(line, tab - line), tab + 1});
        }
        if (f) fclose(f);
    }
    if (cmd == "run") {
        return cmdRun(p, seed, strtoull(o["runs"].c_str(), 0, 10), atoi(o["workers"].c_str()), atof(o["timecap"].c_str()), o["out"].c_str());
    }
    Shm* shm = newShm();
    if (o.count("before")) {
        beforeSeed = seed;
        for (const char* b = o["before"].c_str(); *b; b += *b == ',') beforeRuns.push_back(strtoull(b, (char**)&b, 10));
    }
    if (o.count("trace")) { verbose_ = true; traceOut = o["trace"] == "-" ? stdout : fopen(o["trace"].c_str(), "w"); }
    if (cmd == "index") {
        Result r = execute(p, shm, false, std::vector<uint32_t>(), seed, index);
        printResult(r, o.count("choices-out") ? o["choices-out"].c_str() : 0);
        return 0;
    }
    if (cmd == "exec") {
        Result r = execute(p, shm, true, readChoices(o["choices"].c_str()), 0, 0);
        printResult(r, o.count("choices-out") ? o["choices-out"].c_str() : 0);
        return 0;
    }
    if (cmd == "minimise") {
        int att = 0;
        std::vector<uint32_t> m = minimise(p, shm, readChoices(o["choices"].c_str()), o["cls"], atof(o["seconds"].c_str()), &att);
        Result r = execute(p, shm, true, m, 0, 0);
        if (r.choices.size() > m.size()) r.choices = m;
        else if (r.choices.size() < m.size()) {}
        printResult(r, 0);
        FILE* f = fopen(o["choices-out"].c_str(), "w");
        writeChoices(f, m);
        fclose(f);
        fprintf(stderr, "minimise attempts %d\n", att);
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
} // namespace sim

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    if (start == stop || *start) return;
    for (uint32_t* p = start; p < stop; ++p) *p = ++sim::nGuards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!sim::S) return;
    ++sim::edgeCount;
    sim::S->edgemap[*g & (sim::NEDGE - 1)] = 1;
    if (sim::edgeCount > sim::edgeBudget) {
        sim::edgeBudget = ~0ull;
        sim::fail("hang", "hang", "more than the budget of control-flow edges executed without finishing");
    }
    if (sim::edgeHook) sim::edgeHook();
}
const char* __asan_default_options() {
    static const char quiet[] = "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:handle_abort=1:allow_user_segv_handler=0:"
           "max_malloc_fill_size=16777216:malloc_fill_byte=190:max_free_fill_size=16777216:free_fill_byte=221:quarantine_size_mb=8:"
           "allocator_may_return_null=1:max_allocation_size_mb=900:malloc_context_size=12:detect_stack_use_after_return=0:"
           "print_cmdline=0:print_legend=0:print_module_map=0:alloc_dealloc_mismatch=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1";
    static const char loud[] = "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=1:handle_abort=1:allow_user_segv_handler=0:"
           "max_malloc_fill_size=16777216:malloc_fill_byte=190:max_free_fill_size=16777216:free_fill_byte=221:quarantine_size_mb=8:"
           "allocator_may_return_null=1:max_allocation_size_mb=900:malloc_context_size=24:detect_stack_use_after_return=0:"
           "print_cmdline=0:print_legend=0:print_module_map=0:alloc_dealloc_mismatch=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1";
    return getenv("SIM_SYMBOLIZE") ? loud : quiet;
}
const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
// assertions of the library
[[noreturn]] void __wrap___assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
    const char* b = strrchr(file, '/');
    sim::fail("assert", std::string("assert:") + (b ? b + 1 : file) + ":" + expr, "assertion failed: %s:%u %s: %s", file, line, func, expr);
}
[[noreturn]] void __wrap_abort() { sim::fail("abort", "abort", "abort() called"); }
void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr);
void __ubsan_on_report() {
    const char *k = "", *m = "", *f = ""; unsigned l = 0, c = 0; char* a = 0;
    __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a);
    const char* b = strrchr(f, '/');
    sim::fail("ubsan", std::string("ubsan:") + k + ":" + (b ? b + 1 : f), "%s:%u: %s: %s", f, l, k, m);
}
}
int main(int argc, char** argv) {
    // addresses are an input like any other: the same layout in every process, where the system allows it
    int was = personality(0xffffffff);
    if (was != -1 && !(was & ADDR_NO_RANDOMIZE) && personality((unsigned long)was | ADDR_NO_RANDOMIZE) != -1) {
        int now = personality(0xffffffff);
        if (now != -1 && (now & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", argv);
    }
    return sim::mainImpl(argc, argv);
}
