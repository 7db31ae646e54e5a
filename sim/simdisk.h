// Simulated disk: every file access of the library to a path below /sim/ ends up here.
#ifndef SIM_DISK_H
#define SIM_DISK_H
#include "core.h"
#include "big.h"
#include <functional>
#include <map>
#include <memory>
#include <string>

namespace sim {

struct DiskFile {
    std::string data;
    std::shared_ptr<BigContent> big;  // instead of data
    int64_t size() const { return big ? big->size : (int64_t)data.size(); }
    int64_t mtime = 0;
    bool dir = false;
    // faults
    bool unseekable = false;       // ESPIPE on every seek
    bool reportZeroSize = false;   // like /proc: size 0, content present
    int64_t eioAt = -1;            // reads that touch this offset or beyond fail with EIO
    bool shortReads = false;       // read returns fewer bytes than asked
    int seekFailAt = -1;           // n-th seek on a handle fails with EIO
    bool openFails = false;        // EACCES
    bool statFails = false;        // EIO
    bool quietStat = false;        // no reason for anything else to fail
    bool fstatFails = false;
    bool mmapFails = false;
    bool eintr = false;            // first read of a handle is interrupted
    std::function<void(bool hard)> onFault;   // a fault was reported to the library (hard: data could not be read)
    std::function<void()> onOp;    // before each open, read, seek, fstat, mmap
    void op() { if (onOp) onOp(); }
    void fault(bool hard) { if (onFault) onFault(hard); }
};
struct Disk {
    std::map<std::string, std::shared_ptr<DiskFile>> files;
    int64_t openHandles = 0;       // FILE*, fds and mappings not yet released
    int64_t opened = 0;
    std::function<void()> onPath;  // before each open and stat
    bool readErrorTold = false;    // fread has set the error flag of a file
    std::string lastProblem;       // double close and friends
    void forgetClosed();
    void reset() { forgetClosed(); onPath = nullptr; files.clear(); openHandles = 0; opened = 0; readErrorTold = false; lastProblem.clear(); }
    std::shared_ptr<DiskFile> put(const std::string& path, const std::string& data, int64_t mtime = 1000) {
        std::shared_ptr<DiskFile> f(new DiskFile);
        f->data = data; f->mtime = mtime;
        files[path] = f;
        return f;
    }
    std::shared_ptr<DiskFile> mkdir(const std::string& path) { auto f = put(path, ""); f->dir = true; return f; }
};
Disk& disk();

// simulated wall clock
extern int64_t simClock;           // seconds; active while simClockOn
extern bool simClockOn;
extern int64_t (*simClockHook)();  // may move the clock on each query

} // namespace sim
#endif
