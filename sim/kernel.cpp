#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "kernel.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

extern char** environ;
namespace sim {
Kernel& kernel() { static Kernel k; return k; }
bool kernelChild = false;
static const size_t PIPEBUF = 4096;
static const size_t RECMAX = 1 << 20;
static char* rec = 0;                // shared with the recording process
static std::vector<Kernel::Pre> pre; // writes of the recording process
static bool preExecErr = false;

std::string Program::output(const std::string& input) const {
    std::string o = prologue, in = readLimit >= 0 && (int64_t)input.size() > readLimit ? input.substr(0, (size_t)readLimit) : input;
    if (expand) for (char ch : in) o.append(expand, (char)(ch ^ (expand > 1 ? 1 : 0)));
    if (epilogue == 1) o.append(in.rbegin(), in.rend());
    if (epilogue == 2) o += fixedEpilogue;
    if (crashAt >= 0 && (int64_t)o.size() > crashAt) o.resize((size_t)crashAt);
    return o;
}
void Kernel::reset() {
    self.clear(); children.clear(); programs.clear();
    capacity = 65536; nextId = 1; nextPid = 5001; eagerness = 2; eintrLeft = 0; eintrDen = 8; shortWrites = false;
    pipeFailAt = forkFailAt = -1; pipes = forks = 0; lastFault = 0;
    sigpipeIgnored = false; blockedPipe = pendingPipe = false; appBuffered.clear(); ticks = 0;
    owner = -1; ioFailIn = pollFailIn = -1; ioFailed.clear(); pollFailed.clear();
    if (!rec) rec = (char*)mmap(0, RECMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void put(Kernel::Pipe& p, const char* d, size_t n) {
    if (p.head > 65536 && p.head > p.buf.size() / 2) { p.buf.erase(0, p.head); p.head = 0; }
    p.buf.append(d, n);
}
static void die(Kernel::Child& c, int status) {
    c.dead = true; c.status = status;
    c.fds.clear(); c.execFds.clear();
    ev("kernel: child %d ends, status %d", c.pid, status);
}
bool Kernel::stepChild(Child& c) {
    if (c.dead) return false;
    simTime(1); ++ticks;
    if (c.term && !(c.started && c.blocksTerm)) { die(c, SIGTERM); count("sched.child_terminated"); return true; }
    if (c.stall) { --c.stall; return true; }
    if (!c.started) {
        if (c.prog && c.steps++ < c.prog->startDelay) return true;
        while (c.preDone < c.pre.size()) {
            Pre& p = c.pre[c.preDone];
            for (auto& f : c.fds) if (f.second.e->id == p.endId) {
                if (f.second.e->p && f.second.e->write) {
                    if (f.second.e->p->readers == 0) break;
                    put(*f.second.e->p, p.data.data(), p.data.size());
                }
                break;
            }
            c.preDone++;
        }
        c.started = true;
        if (!c.execOk) { die(c, c.preExit << 8); return true; }
        c.fds = c.execFds; c.execFds.clear();
        c.out = c.prog->prologue;
        ev("kernel: child %d runs %s", c.pid, c.path.c_str());
        return true;
    }
    const Program& g = *c.prog;
    ++c.steps;
    if (g.stallEvery && c.steps % g.stallEvery == 0) { c.stall = g.stallFor; count("fault.slow_child"); return true; }
    if (g.crashAt >= 0 && (int64_t)c.emitted.size() >= g.crashAt) { count("fault.child_killed"); die(c, SIGKILL); return true; }
    if (c.outPos < c.out.size()) {
        auto f = c.fds.find(1);
        if (f == c.fds.end()) { die(c, 1 << 8); return true; }
        if (!f->second.e->p) { c.outPos = c.out.size(); c.emitted = c.out; return true; }
        if (!f->second.e->write) { die(c, 1 << 8); return true; }
        Pipe& p = *f->second.e->p;
        if (p.readers == 0) { count("sched.child_sigpipe"); die(c, SIGPIPE); return true; }
        size_t space = p.cap - p.avail();
        if (space == 0) { return false; }
        size_t n = c.out.size() - c.outPos;
        if (n > g.writeChunk) n = g.writeChunk;
        if (g.crashAt >= 0 && n > (size_t)g.crashAt - c.emitted.size()) n = (size_t)g.crashAt - c.emitted.size();
        if (n > space) { n = space; count("sched.child_output_pipe_full"); }
        put(p, c.out.data() + c.outPos, n);
        c.emitted.append(c.out, c.outPos, n);
        c.outPos += n;
        if (c.outPos == c.out.size()) { c.out.clear(); c.outPos = 0; }
        return true;
    }
    if (!c.inEof) {
        size_t want = g.readChunk;
        if (g.readLimit >= 0 && (int64_t)c.in.size() + (int64_t)want > g.readLimit) want = (size_t)(g.readLimit - (int64_t)c.in.size());
        auto f = c.fds.find(0);
        if (want == 0) { c.inEof = true; if (g.closeIn) c.fds.erase(0); return true; }
        if (f == c.fds.end()) { c.inEof = true; return true; }
        if (!f->second.e->p) return false;              // waits for somebody at the keyboard
        if (f->second.e->write) { c.inEof = true; return true; }
        Pipe& p = *f->second.e->p;
        if (p.avail() == 0) {
            if (p.writers == 0) { c.inEof = true; ev("kernel: child %d sees the end of its input", c.pid); return true; }
            return false;
        }
        size_t n = p.avail() < want ? p.avail() : want;
        std::string d = p.buf.substr(p.head, n);
        p.head += n;
        c.in += d;
        if (g.expand) for (char ch : d) c.out.append(g.expand, (char)(ch ^ (g.expand > 1 ? 1 : 0)));
        return true;
    }
    if (!c.epilogueDone) {
        c.epilogueDone = true;
        if (g.epilogue == 1) c.out.assign(c.in.rbegin(), c.in.rend());
        if (g.epilogue == 2) c.out = g.fixedEpilogue;
        c.outPos = 0;
        return true;
    }
    if (g.closeOut && !c.outClosed) { c.outClosed = true; c.fds.erase(1); return true; }
    if (c.lingered++ < g.linger) return true;
    die(c, 0);
    return true;
}
void Kernel::background() {
    if (kernelChild || children.empty()) return;
    uint32_t n = 0;
    switch (eagerness) {
    case 0: return;
    case 1: n = draw(2); break;
    case 2: n = logsize(12); break;
    default: n = 4 + draw(60); break;
    }
    for (uint32_t i = 0; i < n; ++i) {
        std::vector<Child*> live;
        for (auto& c : children) if (!c->dead) live.push_back(c.get());
        if (live.empty()) return;
        size_t k = live.size() > 1 ? draw((uint32_t)live.size()) : 0;
        bool any = false;
        for (size_t j = 0; j < live.size() && !any; ++j) any = stepChild(*live[(k + j) % live.size()]);
        if (!any) return;
        count("sched.child_step");
    }
}
bool Kernel::waitStep(const char* what) {
    std::vector<Child*> live;
    for (auto& c : children) if (!c->dead) live.push_back(c.get());
    size_t k = live.size() > 1 ? draw((uint32_t)live.size()) : 0;
    for (size_t j = 0; j < live.size(); ++j) if (stepChild(*live[(k + j) % live.size()])) { count("sched.child_step_while_blocked"); return true; }
    (void)what;
    return false;
}
std::shared_ptr<Kernel::Child> Kernel::childOf(const std::string& path) {
    for (auto& c : children) if (c->path == path) return c;
    return std::shared_ptr<Child>();
}
static std::string state() {
    std::string s;
    for (auto& c : kernel().children) {
        if (c->dead) continue;
        s += strf(" child %d:", c->pid);
        if (c->outPos < c->out.size()) s += " writing to a full pipe;"; else s += " waiting for input;";
    }
    return s.empty() ? " no child is left" : s;
}
[[noreturn]] static void wedge(const char* what) {
    fail("wedge", what, "the application waits in %s for ever:%s", what, state().c_str());
}
static bool interrupted() {
    Kernel& k = kernel();
    if (kernelChild || !k.eintrLeft || !chance(1, k.eintrDen)) return false;
    --k.eintrLeft;
    count("fault.eintr");
    errno = EINTR;
    return true;
}
static Kernel::Fd* fdOf(int fd) {
    auto i = kernel().self.find(fd);
    return i == kernel().self.end() ? 0 : &i->second;
}
static int lowest(int from) { int f = from; while (kernel().self.count(f)) ++f; return f; }
static void enter() { kernel().background(); }

// ------------------------------------------------------------ the record of the forked process
static void w32(char*& p, uint32_t v) { memcpy(p, &v, 4); p += 4; }
static uint32_t r32(const char*& p) { uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
static void wstr(char*& p, const std::string& s) {
    w32(p, (uint32_t)s.size());
    if ((size_t)(p - rec) + s.size() > RECMAX - 4096) _exit(3);
    memcpy(p, s.data(), s.size()); p += s.size();
}
static std::string rstr(const char*& p) { uint32_t n = r32(p); std::string s(p, n); p += n; return s; }
} // namespace sim
using namespace sim;

extern "C" {
void __real__exit(int) __attribute__((noreturn));
void __real_exit(int) __attribute__((noreturn));
pid_t __real_fork();
pid_t __real_waitpid(pid_t, int*, int);
}
namespace sim {
// ends the recording process. ok: the program was found
[[noreturn]] static void finishRecord(bool ok, int exitCode, const std::string& path, char* const* argv) {
    char* p = rec + 4;
    w32(p, ok); w32(p, (uint32_t)exitCode);
    wstr(p, path);
    uint32_t n = 0; if (argv) while (argv[n]) ++n;
    w32(p, n);
    for (uint32_t i = 0; i < n; ++i) wstr(p, argv[i]);
    w32(p, (uint32_t)pre.size());
    for (auto& x : pre) { w32(p, (uint32_t)x.endId); wstr(p, x.data); }
    w32(p, (uint32_t)kernel().self.size());
    for (auto& f : kernel().self) { w32(p, (uint32_t)f.first); w32(p, (uint32_t)f.second.e->id); w32(p, f.second.cloexec); }
    w32(p, kernel().blockedPipe); w32(p, kernel().sigpipeIgnored);
    memcpy(rec, "done", 4);
    __real__exit(0);
}
static pid_t doFork() {
    Unarmed unarmed;
    Kernel& k = kernel();
    enter();
    if (k.forks++ == k.forkFailAt) { k.lastFault++; count("fault.fork_eagain"); ev("kernel: fork fails"); errno = EAGAIN; return -1; }
    memset(rec, 0, 4);
    pid_t r = __real_fork();
    if (r < 0) harnessError("real fork failed");
    if (r == 0) { kernelChild = true; pre.clear(); preExecErr = false; return 0; }
    int st = 0;
    while (__real_waitpid(r, &st, 0) < 0 && errno == EINTR) {}
    if (memcmp(rec, "done", 4) != 0) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) _exit(1);       // it has reported a violation itself
        if (WIFSIGNALED(st)) fail("child-crash", "fork", "the code between fork and exec was killed by signal %d", WTERMSIG(st));
        harnessError("the recording process ended with %d", st);
    }
    std::shared_ptr<Kernel::Child> c(new Kernel::Child);
    c->pid = k.nextPid++;
    const char* p = rec + 4;
    c->execOk = r32(p); c->preExit = (int)r32(p);
    c->path = rstr(p);
    uint32_t n = r32(p);
    for (uint32_t i = 0; i < n; ++i) c->argv.push_back(rstr(p));
    n = r32(p);
    for (uint32_t i = 0; i < n; ++i) { Kernel::Pre x; x.endId = (int)r32(p); x.data = rstr(p); c->pre.push_back(x); }
    c->fds = k.self;                 // everything is inherited until exec
    std::map<int, std::shared_ptr<Kernel::End> > ends;
    for (auto& f : k.self) ends[f.second.e->id] = f.second.e;
    n = r32(p);
    for (uint32_t i = 0; i < n; ++i) {
        int fd = (int)r32(p); int id = (int)r32(p); bool ce = r32(p);
        if (ce || !c->execOk) continue;
        if (!ends.count(id)) harnessError("descriptor created between fork and exec");
        Kernel::Fd x; x.e = ends[id]; c->execFds[fd] = x;
    }
    auto g = k.programs.find(c->path);
    if (g != k.programs.end()) { c->prog = g->second; c->blocksTerm = c->prog->ignoresTerm; }
    k.children.push_back(c);
    ev("kernel: fork -> %d (%s)", c->pid, c->path.c_str());
    count("kernel.processes");
    return c->pid;
}
static int doPipe(int* p, int flags) {
    Unarmed unarmed;
    Kernel& k = kernel();
    enter();
    if (kernelChild) { errno = EMFILE; return -1; }
    if (k.pipes++ == k.pipeFailAt) { k.lastFault++; count("fault.pipe_emfile"); ev("kernel: pipe fails"); errno = EMFILE; return -1; }
    std::shared_ptr<Kernel::Pipe> q(new Kernel::Pipe);
    q->cap = k.capacity;
    q->owner = k.owner;
    for (int i = 0; i < 2; ++i) {
        Kernel::Fd f;
        f.e.reset(new Kernel::End(q, i == 1, k.nextId++));
        f.e->nonblock = flags & O_NONBLOCK;
        f.cloexec = flags & O_CLOEXEC;
        p[i] = lowest(0);
        k.self[p[i]] = f;
    }
    ev("kernel: pipe %d %d", p[0], p[1]);
    return 0;
}
// a failing pipe keeps failing
static bool broken(Kernel::Pipe& p, const char* what) {
    Kernel& k = kernel();
    if (!p.broken) {
        if (k.owner >= 0 || k.ioFailIn < 0 || p.owner < 0 || k.ioFailIn-- > 0) return false;
        p.broken = true;
        k.ioFailed.insert(p.owner);
        count(*what == 'r' ? "fault.pipe_read_eio" : "fault.pipe_write_eio");
    }
    simTime(1);
    ev("kernel: %s on a pipe of p%d fails", what, p.owner);
    errno = EIO;
    return true;
}
static ssize_t doRead(int fd, void* buf, size_t n) {
    Unarmed unarmed;
    Kernel& k = kernel();
    if (kernelChild) harnessError("read between fork and exec");
    enter();
    Kernel::Fd* f = fdOf(fd);
    if (!f) fail("descriptor-misuse", "read", "read from descriptor %d which is not open", fd);
    if (!f->e->p || f->e->write) { errno = EBADF; return -1; }
    std::shared_ptr<Kernel::End> e = f->e;
    if (interrupted()) { ev("kernel: read(%d) EINTR", fd); return -1; }
    if (n == 0) return 0;
    if (broken(*e->p, "read")) return -1;
    while (e->p->avail() == 0) {
        if (e->p->writers == 0) { ev("kernel: read(%d) end", fd); return 0; }
        if (e->nonblock) { errno = EAGAIN; return -1; }
        if (interrupted()) { ev("kernel: read(%d) EINTR", fd); return -1; }
        if (!k.waitStep("read")) wedge("read");
    }
    size_t m = e->p->avail() < n ? e->p->avail() : n;
    memcpy(buf, e->p->buf.data() + e->p->head, m);
    e->p->head += m;
    ev("kernel: read(%d,%zu)=%zu", fd, n, m);
    return (ssize_t)m;
}
static void sigpipe() {
    Kernel& k = kernel();
    count("sched.parent_epipe");
    if (k.blockedPipe) { k.pendingPipe = true; return; }   // also when it is ignored
    if (k.sigpipeIgnored) return;
    fail("sigpipe", "write", "writing to a command that no longer reads raises SIGPIPE, which ends the application");
}
static ssize_t doWrite(int fd, const void* buf, size_t n) {
    Unarmed unarmed;
    Kernel& k = kernel();
    if (kernelChild) {
        Kernel::Fd* f = fdOf(fd);
        if (!f) { errno = EBADF; return -1; }
        Kernel::Pre x; x.endId = f->e->id; x.data.assign((const char*)buf, n);
        pre.push_back(x);
        return (ssize_t)n;
    }
    enter();
    Kernel::Fd* f = fdOf(fd);
    if (!f) fail("descriptor-misuse", "write", "write to descriptor %d which is not open", fd);
    if (!f->e->p) return (ssize_t)n;
    if (!f->e->write) { errno = EBADF; return -1; }
    std::shared_ptr<Kernel::End> e = f->e;
    if (interrupted()) { ev("kernel: write(%d) EINTR", fd); return -1; }
    if (e->p->readers && broken(*e->p, "write")) return -1;
    size_t done = 0;
    const char* b = (const char*)buf;
    while (done < n) {
        if (e->p->readers == 0) {
            if (done) break;
            sigpipe();
            ev("kernel: write(%d) EPIPE", fd);
            errno = EPIPE;
            return -1;
        }
        size_t space = e->p->cap - e->p->avail();
        size_t m = n - done < space ? n - done : space;
        if (n <= PIPEBUF && m < n) m = 0;                      // atomic
        if (m == 0) {
            if (e->nonblock) {
                if (done) break;
                count("sched.parent_eagain");
                errno = EAGAIN;
                return -1;
            }
            if (done && k.eintrLeft && chance(1, k.eintrDen)) { --k.eintrLeft; count("fault.eintr"); break; }
            if (!done && interrupted()) { ev("kernel: write(%d) EINTR", fd); return -1; }
            count("sched.parent_input_pipe_full");
            if (!k.waitStep("write")) wedge("write");
            continue;
        }
        bool cut = n > PIPEBUF && k.shortWrites && chance(1, 3);
        if (cut) m = 1 + logsize((uint32_t)m - 1);
        put(*e->p, b + done, m);
        done += m;
        if (cut && done < n) { count("fault.short_write"); break; }
    }
    if (done < n) count("sched.partial_write");
    ev("kernel: write(%d,%zu)=%zu", fd, n, done);
    return (ssize_t)done;
}
static short ready(Kernel::Fd* f) {
    if (!f) return POLLNVAL;
    if (!f->e->p) return 0;
    short r = 0;
    Kernel::Pipe& p = *f->e->p;
    if (f->e->write) {
        if (p.cap - p.avail() >= PIPEBUF) r |= POLLOUT;
        if (p.readers == 0) r |= POLLERR;
    } else {
        if (p.avail()) r |= POLLIN;
        if (p.writers == 0) r |= POLLHUP;
    }
    return r;
}
static uint32_t idleTimeouts = 0;
static int doPoll(struct pollfd* fds, nfds_t n, int timeout) {
    Unarmed unarmed;
    Kernel& k = kernel();
    if (kernelChild) return 0;
    enter();
    if (interrupted()) { ev("kernel: poll EINTR"); return -1; }
    if (k.owner < 0 && k.pollFailIn >= 0 && k.pollFailIn-- == 0) {
        for (nfds_t i = 0; i < n; ++i) { Kernel::Fd* f = fdOf(fds[i].fd); if (f && f->e->p) k.pollFailed.insert(f->e->p->owner); }
        count("fault.poll_enomem"); ev("kernel: poll fails");
        errno = ENOMEM;
        return -1;
    }
    for (;;) {
        int got = 0;
        for (nfds_t i = 0; i < n; ++i) {
            fds[i].revents = 0;
            if (fds[i].fd < 0) continue;
            Kernel::Fd* f = fdOf(fds[i].fd);
            fds[i].revents = ready(f) & (short)(fds[i].events | POLLERR | POLLHUP | POLLNVAL);
            if (fds[i].revents) ++got;
        }
        if (got) { idleTimeouts = 0; ev("kernel: poll=%d", got); return got; }
        if (timeout == 0) { if (!k.waitStep("poll") && ++idleTimeouts > 2000) wedge("poll"); return 0; }
        if (interrupted()) { ev("kernel: poll EINTR"); return -1; }
        if (k.waitStep("poll")) { idleTimeouts = 0; if (timeout > 0 && chance(1, 4)) return 0; continue; }
        if (timeout > 0) { if (++idleTimeouts > 200) wedge("poll"); return 0; }
        wedge("poll");
    }
}
static int doWait(pid_t pid, int* st, int options) {
    Unarmed unarmed;
    Kernel& k = kernel();
    if (kernelChild) { errno = ECHILD; return -1; }
    enter();
    if (!(options & WNOHANG) && interrupted()) { ev("kernel: waitpid EINTR"); return -1; }
    uint32_t spins = 0;
    for (;;) {
        bool any = false;
        for (auto& c : k.children) {
            if (c->reaped || (pid > 0 && c->pid != pid)) continue;
            any = true;
            if (c->dead) {
                c->reaped = true;
                if (st) *st = c->status;
                ev("kernel: waitpid -> %d", c->pid);
                return c->pid;
            }
        }
        if (!any) { errno = ECHILD; return -1; }
        if (options & WNOHANG) return 0;
        if (interrupted()) { ev("kernel: waitpid EINTR"); return -1; }
        if (!k.waitStep("waitpid")) wedge("waitpid");
        if (++spins > 3000000) wedge("waitpid");
    }
}
static int doKill(pid_t pid, int sig) {
    Unarmed unarmed;
    Kernel& k = kernel();
    if (kernelChild) return 0;
    enter();
    for (auto& c : k.children) if (c->pid == pid) {
        if (c->reaped) fail("foreign-signal", "kill", "kill(%d,%d): that process has been waited for already", pid, sig);
        if (sig < 0 || sig > 64) { errno = EINVAL; return -1; }
        ev("kernel: kill(%d,%d)", pid, sig);
        if (!c->dead) {
            if (sig == SIGKILL) c->term = true, c->blocksTerm = false;
            else if (sig == SIGTERM || sig == SIGINT || sig == SIGHUP) c->term = true;
        }
        return 0;
    }
    fail("foreign-signal", "kill", "kill(%d,%d): signals a process that the stream did not create", pid, sig);
}
static int doDup(int fd, int target, int from, bool cloexec) {
    Unarmed unarmed;
    Kernel& k = kernel();
    Kernel::Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    if (target == fd) return fd;
    Kernel::Fd x = *f; x.cloexec = cloexec;
    int t = target >= 0 ? target : lowest(from);
    auto old = k.self.find(t);
    if (old != k.self.end() && !old->second.e->p && !kernelChild)
        fail("foreign-descriptor", "dup2", "dup2 replaces descriptor %d of the application", t);
    k.self[t] = x;
    return t;
}
} // namespace sim

extern "C" {
int kernelClose(int fd, bool* handled) {
    *handled = false;
    Kernel& k = kernel();
    if (!k.active || fd >= 1000000) return 0;
    *handled = true;
    if (!kernelChild) enter();
    auto i = k.self.find(fd);
    if (i == k.self.end()) {
        if (!kernelChild && fd >= 0) fail("descriptor-misuse", "close", "close of descriptor %d which is not open", fd);
        errno = EBADF; return -1;
    }
    if (!i->second.e->p && !kernelChild) fail("foreign-descriptor", "close", "closes descriptor %d of the application", fd);
    k.self.erase(i);
    if (!kernelChild) ev("kernel: close %d", fd);
    return 0;
}
int kernelRead(int fd, void* b, size_t n, bool* handled, ssize_t* r) {
    *handled = false;
    if (!kernel().active || fd >= 1000000) return 0;
    *handled = true;
    *r = doRead(fd, b, n);
    return 0;
}
#define ON (kernel().active)
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) { return ON ? doWrite(fd, b, n) : __real_write(fd, b, n); }
int __real_pipe(int*);
int __wrap_pipe(int* p) { return ON ? doPipe(p, 0) : __real_pipe(p); }
int __real_pipe2(int*, int);
int __wrap_pipe2(int* p, int f) { return ON ? doPipe(p, f) : __real_pipe2(p, f); }
pid_t __wrap_fork() { return ON && !kernelChild ? doFork() : __real_fork(); }
pid_t __wrap_vfork() { return __wrap_fork(); }
pid_t __wrap_waitpid(pid_t p, int* s, int o) { return ON ? doWait(p, s, o) : __real_waitpid(p, s, o); }
pid_t __real_wait(int*);
pid_t __wrap_wait(int* s) { return ON ? doWait(-1, s, 0) : __real_wait(s); }
pid_t __real_wait4(pid_t, int*, int, struct rusage*);
pid_t __wrap_wait4(pid_t p, int* s, int o, struct rusage* u) { return ON ? doWait(p, s, o) : __real_wait4(p, s, o, u); }
int __real_kill(pid_t, int);
int __wrap_kill(pid_t p, int s) { return ON ? doKill(p, s) : __real_kill(p, s); }
int __real_dup(int);
int __wrap_dup(int f) { return ON ? doDup(f, -1, 0, false) : __real_dup(f); }
int __real_dup2(int, int);
int __wrap_dup2(int f, int t) { return ON ? doDup(f, t, 0, false) : __real_dup2(f, t); }
int __real_dup3(int, int, int);
int __wrap_dup3(int f, int t, int fl) { return ON ? doDup(f, t, 0, fl & O_CLOEXEC) : __real_dup3(f, t, fl); }
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...) {
    Unarmed unarmed;
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!ON) return __real_fcntl(fd, cmd, a);
    Kernel::Fd* f = fdOf(fd);
    if (!f) { errno = EBADF; return -1; }
    switch (cmd) {
    case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: f->cloexec = a & FD_CLOEXEC; return 0;
    case F_GETFL: return (f->e->write ? O_WRONLY : O_RDONLY) | (f->e->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: if (!kernelChild) f->e->nonblock = a & O_NONBLOCK; return 0;
    case F_DUPFD: return doDup(fd, -1, (int)a, false);
    case F_DUPFD_CLOEXEC: return doDup(fd, -1, (int)a, true);
    default: return 0;
    }
}
int __wrap_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return __wrap_fcntl(fd, cmd, a);
}
int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_poll(struct pollfd* f, nfds_t n, int t) { return ON ? doPoll(f, n, t) : __real_poll(f, n, t); }
int __real_ppoll(struct pollfd*, nfds_t, const struct timespec*, const sigset_t*);
int __wrap_ppoll(struct pollfd* f, nfds_t n, const struct timespec* t, const sigset_t* s) {
    Unarmed unarmed;
    return ON ? doPoll(f, n, t ? (t->tv_sec || t->tv_nsec ? 1 : 0) : -1) : __real_ppoll(f, n, t, s);
}
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
    Unarmed unarmed;
    if (!ON) return __real_select(n, r, w, e, t);
    std::vector<struct pollfd> v;
    for (int i = 0; i < n; ++i) {
        struct pollfd p = {i, 0, 0};
        if (r && FD_ISSET(i, r)) p.events |= POLLIN;
        if (w && FD_ISSET(i, w)) p.events |= POLLOUT;
        if (p.events) v.push_back(p);
    }
    int k = doPoll(v.data(), v.size(), t ? (t->tv_sec || t->tv_usec ? 1 : 0) : -1);
    if (k < 0) return k;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    int c = 0;
    for (auto& p : v) {
        if (p.revents & POLLNVAL) { errno = EBADF; return -1; }
        if ((p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); ++c; }
        if ((p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); ++c; }
    }
    return c;
}
// program start
static int doExec(const char* path, char* const* argv) {
    Unarmed unarmed;
    auto g = kernel().programs.find(path);
    if (g == kernel().programs.end()) { preExecErr = true; errno = ENOENT; return -1; }
    if (g->second->execErrno) { errno = g->second->execErrno; return -1; }
    finishRecord(true, 0, path, argv);
}
int __real_execve(const char*, char* const*, char* const*);
int __wrap_execve(const char* p, char* const* a, char* const* e) { return kernelChild ? doExec(p, a) : __real_execve(p, a, e); }
int __real_execv(const char*, char* const*);
int __wrap_execv(const char* p, char* const* a) { return kernelChild ? doExec(p, a) : __real_execv(p, a); }
int __real_execvp(const char*, char* const*);
int __wrap_execvp(const char* p, char* const* a) { return kernelChild ? doExec(p, a) : __real_execvp(p, a); }
int __real_execvpe(const char*, char* const*, char* const*);
int __wrap_execvpe(const char* p, char* const* a, char* const* e) { return kernelChild ? doExec(p, a) : __real_execvpe(p, a, e); }
void __wrap__exit(int c) {
    if (kernelChild) finishRecord(false, c, "", 0);
    __real__exit(c);
}
void __wrap_exit(int c) {
    if (kernelChild) {
        // exit flushes what the application has in its stdio buffers
        if (!kernel().appBuffered.empty()) doWrite(1, kernel().appBuffered.data(), kernel().appBuffered.size());
        finishRecord(false, c, "", 0);
    }
    __real_exit(c);
}
// signals
typedef void (*handler_t)(int);
handler_t __real_signal(int, handler_t);
handler_t __wrap_signal(int s, handler_t h) {
    Unarmed unarmed;
    if (!ON) return __real_signal(s, h);
    if (s != SIGPIPE) return SIG_DFL;
    bool o = kernel().sigpipeIgnored;
    kernel().sigpipeIgnored = h != SIG_DFL;
    return o ? SIG_IGN : SIG_DFL;
}
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) {
    Unarmed unarmed;
    if (!ON) return __real_sigaction(s, a, o);
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = s == SIGPIPE && kernel().sigpipeIgnored ? SIG_IGN : SIG_DFL; }
    if (a && s == SIGPIPE) kernel().sigpipeIgnored = a->sa_handler != SIG_DFL;
    return 0;
}
static int doMask(int how, const sigset_t* set, sigset_t* old) {
    Unarmed unarmed;
    Kernel& k = kernel();
    if (old) { sigemptyset(old); if (k.blockedPipe) sigaddset(old, SIGPIPE); }
    if (set) {
        bool has = sigismember(set, SIGPIPE) == 1;
        if (how == SIG_BLOCK) { if (has) k.blockedPipe = true; }
        else if (how == SIG_UNBLOCK) { if (has) k.blockedPipe = false; }
        else k.blockedPipe = has;
    }
    if (!k.blockedPipe && k.pendingPipe) {
        k.pendingPipe = false;
        if (!k.sigpipeIgnored && !kernelChild) fail("sigpipe", "unblock", "a pending SIGPIPE is delivered when the signal is unblocked and ends the application");
    }
    return 0;
}
int __real_sigprocmask(int, const sigset_t*, sigset_t*);
int __wrap_sigprocmask(int h, const sigset_t* s, sigset_t* o) { return ON ? doMask(h, s, o) : __real_sigprocmask(h, s, o); }
int __real_pthread_sigmask(int, const sigset_t*, sigset_t*);
int __wrap_pthread_sigmask(int h, const sigset_t* s, sigset_t* o) { return ON ? doMask(h, s, o) : __real_pthread_sigmask(h, s, o); }
int __real_sigpending(sigset_t*);
int __wrap_sigpending(sigset_t* s) {
    Unarmed unarmed;
    if (!ON) return __real_sigpending(s);
    sigemptyset(s);
    if (kernel().pendingPipe) sigaddset(s, SIGPIPE);
    return 0;
}
static int doSigwait(const sigset_t* s) {
    Unarmed unarmed;
    if (kernel().pendingPipe && sigismember(s, SIGPIPE) == 1) { kernel().pendingPipe = false; return SIGPIPE; }
    return 0;
}
int __real_sigtimedwait(const sigset_t*, siginfo_t*, const struct timespec*);
int __wrap_sigtimedwait(const sigset_t* s, siginfo_t* i, const struct timespec* t) {
    Unarmed unarmed;
    if (!ON) return __real_sigtimedwait(s, i, t);
    if (interrupted()) return -1;
    int r = doSigwait(s);
    if (r) return r;
    errno = EAGAIN;
    return -1;
}
int __real_sigwait(const sigset_t*, int*);
int __wrap_sigwait(const sigset_t* s, int* r) {
    Unarmed unarmed;
    if (!ON) return __real_sigwait(s, r);
    *r = doSigwait(s);
    if (!*r) wedge("sigwait");
    return 0;
}
}
