// Simulated process kernel: pipes, descriptors, child processes, signals.
// The code between fork and exec runs for real in a forked process that only records what it does;
// the commands themselves are simulated programs.
#ifndef SIM_KERNEL_H
#define SIM_KERNEL_H
#include "core.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <set>

namespace sim {

// what a simulated command does
struct Program {
    std::string prologue;            // written before anything is read
    uint32_t expand = 1;             // output bytes per input byte while streaming (0: none)
    int64_t readLimit = -1;          // stops reading after that many bytes (-1: reads to the end)
    bool closeIn = false;            // closes its input when it has read enough
    int epilogue = 0;                // 0 nothing, 1 the whole input reversed, 2 fixed text
    std::string fixedEpilogue;
    bool closeOut = false;           // closes its output when it is complete and lingers
    uint32_t linger = 0;             // steps before it exits
    int64_t crashAt = -1;            // is killed after that many bytes of output
    uint32_t readChunk = 4096, writeChunk = 4096;
    uint32_t stallEvery = 0, stallFor = 0;
    uint32_t startDelay = 0;
    bool ignoresTerm = false;        // ends by itself only
    bool ignoresInputEof = false;
    int execErrno = 0;               // exec fails
    std::vector<std::string> argv;   // expected command line
    std::string output(const std::string& input) const;   // the complete output for an input
    bool readsAll() const { return readLimit < 0 && crashAt < 0; }
};

struct Kernel {
    struct Pipe { std::string buf; size_t head = 0; size_t cap = 65536; int readers = 0, writers = 0; int owner = -1; bool broken = false; size_t avail() const { return buf.size() - head; } };
    struct End {
        std::shared_ptr<Pipe> p;     // null: a descriptor of the application
        bool write = false, nonblock = false; int id = 0;
        End(std::shared_ptr<Pipe> pp, bool w, int i) : p(pp), write(w), id(i) { if (p) (w ? p->writers : p->readers)++; }
        ~End() { if (p) (write ? p->writers : p->readers)--; }
    };
    struct Fd { std::shared_ptr<End> e; bool cloexec = false; };
    typedef std::map<int, Fd> Table;
    struct Pre { int endId; std::string data; };
    struct Child {
        int pid = 0; Table fds;
        // at exec
        Table execFds; bool execOk = false; int preExit = 0; std::vector<Pre> pre; bool started = false;
        size_t preDone = 0;
        std::shared_ptr<Program> prog; std::vector<std::string> argv; std::string path;
        std::string in, out; size_t outPos = 0; bool inEof = false, prologueDone = false, epilogueDone = false, outClosed = false;
        uint32_t steps = 0, stall = 0, lingered = 0;
        bool dead = false, reaped = false; int status = 0; bool term = false, blocksTerm = false;
        std::string emitted;
    };
    bool active = false;
    Table self;
    std::vector<std::shared_ptr<Child> > children;
    std::map<std::string, std::shared_ptr<Program> > programs;
    size_t capacity = 65536;
    int nextId = 1, nextPid = 5001;
    // scheduling and faults
    int eagerness = 2;               // 0 children run only when the application blocks ... 3 they run ahead
    uint32_t eintrLeft = 0; uint32_t eintrDen = 8;
    bool shortWrites = false;
    int pipeFailAt = -1, forkFailAt = -1, pipes = 0, forks = 0;
    int lastFault = 0;               // counts pipe/fork failures
    int owner = -1;                  // the stream that is being created
    int ioFailIn = -1;               // calls on pipes until one fails (EIO; from then on every call on that pipe); only when no stream is created
    std::set<int> ioFailed;          // owners of pipes on which a read or write failed
    int pollFailIn = -1;             // poll fails once (ENOMEM)
    std::set<int> pollFailed;
    bool sigpipeIgnored = false;     // disposition of the application
    bool blockedPipe = false, pendingPipe = false;
    std::string appBuffered;         // what the application has in its stdio buffer
    uint64_t ticks = 0;
    void reset();
    bool stepChild(Child& c);        // false: blocked or dead
    void background();
    bool waitStep(const char* what); // the application is blocked: let the others run
    int openFds() const { return (int)self.size(); }
    std::shared_ptr<Child> childOf(const std::string& path);
};
Kernel& kernel();
extern bool kernelChild;             // in the recording process between fork and exec

} // namespace sim
#endif
