#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "fiber.h"
#include "kernel.h"
#include <cerrno>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
}
namespace sim {
struct Thr {
    pthread_t t;
    sem_t go;
    std::function<void()> body;
    bool done = false;
    const void* waits = 0;           // lock it waits for
};
static std::vector<Thr*> thr;
static int cur = -1;
static sem_t allDone;
static SchedOpts so;
static uint64_t switches = 0;
static int64_t countdown = 0;
static std::unordered_map<const void*, uint32_t>* touched = 0;
static std::map<const void*, int>* guards = 0;     // initialisations and once-calls in progress
int currentThread() { return cur; }
uint64_t threadSwitches() { return switches; }

static void nextCountdown() {
    if (switches >= so.maxSwitches) { countdown = INT64_MAX; return; }
    uint32_t d = logsize(so.meanEdges * 8);
    countdown = 1 + (int64_t)d;
}
static std::vector<int> runnable() {
    std::vector<int> r;
    for (size_t i = 0; i < thr.size(); ++i) if (!thr[i]->done && !thr[i]->waits) r.push_back((int)i);
    return r;
}
static void handTo(int n) {
    int me = cur;
    if (n == me) return;
    ++switches;
    ev("sched: %d -> %d", me, n);
    cur = n;
    sem_post(&thr[(size_t)n]->go);
    while (sem_wait(&thr[(size_t)me]->go) != 0) {}
}
static void preempt() {
    int e = errno;
    std::vector<int> r = runnable();
    nextCountdown();
    if (r.size() > 1) { count("sched.preemption"); handTo(r[draw((uint32_t)r.size())]); }
    errno = e;
}
static void onEdge() {
    if (cur < 0 || kernelChild) return;
    if (--countdown <= 0) preempt();
}
static void blockOn(const void* lock) {
    thr[(size_t)cur]->waits = lock;
    std::vector<int> r = runnable();
    if (r.empty()) fail("deadlock", "deadlock", "all threads wait for each other");
    count("sched.thread_blocked");
    handTo(r[draw((uint32_t)r.size())]);
}
static void wake(const void* lock) { for (auto t : thr) if (t->waits == lock) t->waits = 0; }
static void* entry(void* a) {
    Thr* me = (Thr*)a;
    while (sem_wait(&me->go) != 0) {}
    me->body();
    me->done = true;
    std::vector<int> r = runnable();
    if (r.empty()) {
        for (auto t : thr) if (!t->done) fail("deadlock", "deadlock", "a thread waits for something nobody will release");
        cur = -1;
        sem_post(&allDone);
    } else {
        int n = r[draw((uint32_t)r.size())];
        ev("sched: end of thread -> %d", n);
        cur = n;
        sem_post(&thr[(size_t)n]->go);
    }
    return 0;
}
void runThreads(const std::vector<std::function<void()> >& bodies, const SchedOpts& o) {
    so = o;
    switches = 0;
    touched = new std::unordered_map<const void*, uint32_t>;
    guards = new std::map<const void*, int>;
    sem_init(&allDone, 0, 0);
    for (auto& b : bodies) {
        Thr* t = new Thr;
        t->body = b;
        sem_init(&t->go, 0, 0);
        thr.push_back(t);
    }
    for (auto t : thr) if (pthread_create(&t->t, 0, entry, t) != 0) harnessError("pthread_create");
    nextCountdown();
    edgeHook = onEdge;
    int first = (int)draw((uint32_t)thr.size());
    cur = first;
    sem_post(&thr[(size_t)first]->go);
    while (sem_wait(&allDone) != 0) {}
    edgeHook = 0;
    for (auto t : thr) { pthread_join(t->t, 0); sem_destroy(&t->go); delete t; }
    thr.clear();
    delete touched; touched = 0;
    delete guards; guards = 0;
}
} // namespace sim
using namespace sim;

extern "C" {
extern char __data_start, _end;
static void staticAccess(void* a) {
    uint32_t& n = (*touched)[a];
    if (n >= so.perAddress || switches >= so.maxSwitches) return;
    ++n;
    count("sched.static_access");
    if (chance(1, so.staticDen)) preempt();
}
#define ACCESS(kind, size) void __sanitizer_cov_##kind##size(void* a) { \
    if (cur >= 0 && (char*)a >= &__data_start && (char*)a < &_end && touched && so.staticDen && !kernelChild) staticAccess(a); }
ACCESS(load, 1) ACCESS(load, 2) ACCESS(load, 4) ACCESS(load, 8) ACCESS(load, 16)
ACCESS(store, 1) ACCESS(store, 2) ACCESS(store, 4) ACCESS(store, 8) ACCESS(store, 16)

#define SIMT (cur >= 0 && !kernelChild)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!SIMT) return __real_pthread_mutex_lock(m);
    for (;;) {
        int r = __real_pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        blockOn(m);
    }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    if (SIMT) wake(m);
    return r;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!SIMT) return __real_pthread_once(o, f);
    for (;;) {
        if (*o == 2) return 0;
        auto g = guards->find(o);
        if (g == guards->end()) break;
        if (g->second == cur) fail("deadlock", "once", "recursive initialisation");
        blockOn(o);
    }
    (*guards)[o] = cur;
    f();
    guards->erase(o);
    *o = 2;
    wake(o);
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!SIMT) return __real___cxa_guard_acquire(g);
    for (;;) {
        if (*(char*)g) return 0;
        auto i = guards->find(g);
        if (i == guards->end()) break;
        if (i->second == cur) fail("deadlock", "guard", "recursive initialisation");
        blockOn(g);
    }
    (*guards)[g] = cur;
    count("sched.first_use");
    return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) {
    if (!SIMT || !guards->count(g)) { __real___cxa_guard_release(g); return; }
    *(char*)g = 1;
    guards->erase(g);
    wake(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    if (!SIMT || !guards->count(g)) { __real___cxa_guard_abort(g); return; }
    guards->erase(g);
    wake(g);
}
}
