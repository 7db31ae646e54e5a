#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simdisk.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <cstdarg>
#include <set>

namespace sim {
Disk& disk() { static Disk d; return d; }
int64_t simClock = 0;
bool simClockOn = false;
int64_t (*simClockHook)() = 0;

struct Handle {
    std::shared_ptr<DiskFile> f;
    int64_t pos = 0;
    int seeks = 0, reads = 0;
};
static bool simPath(const char* p) { return p && strncmp(p, "/sim/", 5) == 0; }
static std::string norm(const char* p) {
    std::string s(p);
    while (s.size() > 5 && s[s.size() - 1] == '/') s.resize(s.size() - 1);
    return s;
}
static std::shared_ptr<DiskFile> lookup(const char* p) {
    if (disk().onPath) disk().onPath();
    auto it = disk().files.find(norm(p));
    return it == disk().files.end() ? std::shared_ptr<DiskFile>() : it->second;
}
static ssize_t hread(Handle* h, char* buf, size_t n) {
    Unarmed unarmed;
    DiskFile& f = *h->f;
    f.op();
    int r = h->reads++;
    simTime(1);
    if (f.dir) { count("fault.disk_eisdir"); f.fault(true); errno = EISDIR; return -1; }
    if (f.eintr && r == 0) { count("fault.disk_eintr"); f.fault(true); errno = EINTR; return -1; }
    int64_t avail = f.size() - h->pos;
    if (avail <= 0 || n == 0) {
        if (f.eioAt >= 0 && h->pos >= f.eioAt && n) { count("fault.disk_eio"); f.fault(true); ev("disk: EIO @%lld", (long long)h->pos); errno = EIO; return -1; }
        return 0;
    }
    int64_t k = (int64_t)n < avail ? (int64_t)n : avail;
    if (f.shortReads && k > 1) {
        int64_t s = 1 + (int64_t)logsize((uint32_t)(k - 1));
        if (s < k) count("fault.disk_short_read");
        k = s;
    }
    if (f.eioAt >= 0 && h->pos + k > f.eioAt) {
        if (h->pos >= f.eioAt) { count("fault.disk_eio"); f.fault(true); ev("disk: EIO @%lld", (long long)h->pos); errno = EIO; return -1; }
        k = f.eioAt - h->pos;
    }
    if (f.big) f.big->copy(h->pos, k, buf);
    else memcpy(buf, f.data.data() + h->pos, (size_t)k);
    h->pos += k;
    ev("disk: read(%zu)=%lld @%lld", n, (long long)k, (long long)h->pos);
    return k;
}
static int64_t hseek(Handle* h, int64_t off, int whence) {
    Unarmed unarmed;
    DiskFile& f = *h->f;
    f.op();
    if (f.unseekable) { errno = ESPIPE; return -1; }
    if (f.dir && whence == SEEK_END) {
        // file systems differ
        if (f.eioAt == -2) { errno = EINVAL; return -1; }
        h->pos = f.eioAt == -3 ? INT64_MAX : 0;
        return h->pos;
    }
    // a pure position query must not count
    if (!(whence == SEEK_CUR && off == 0)) {
        int s = h->seeks++;
        if (f.seekFailAt >= 0 && s == f.seekFailAt) { count("fault.disk_seek_error"); f.fault(false); ev("disk: seek fails"); errno = EIO; return -1; }
    }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : (f.reportZeroSize ? 0 : f.size());
    int64_t np = base + off;
    if (np < 0) { errno = EINVAL; return -1; }
    h->pos = np;
    return np;
}
static ssize_t ckRead(void* c, char* buf, size_t n) { return hread((Handle*)c, buf, n); }
static int ckSeek(void* c, off64_t* off, int whence) {
    int64_t r = hseek((Handle*)c, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ckClose(void* c) { Unarmed unarmed; delete (Handle*)c; disk().openHandles--; return 0; }

static std::set<FILE*>& openFiles() { static std::set<FILE*> m; return m; }
static std::set<FILE*>& closedFiles() { static std::set<FILE*> m; return m; }
void Disk::forgetClosed() { closedFiles().clear(); }
static FILE* simFopen(const char* path, const char*) {
    auto f = lookup(path);
    if (!f) { errno = ENOENT; return 0; }
    if (f->openFails) { count("fault.disk_open_error"); f->fault(true); errno = EACCES; return 0; }
    f->op();
    Handle* h = new Handle; h->f = f;
    cookie_io_functions_t io = {ckRead, 0, ckSeek, ckClose};
    FILE* fp = fopencookie(h, "rb", io);
    if (!fp) { delete h; return 0; }
    disk().openHandles++; disk().opened++;
    openFiles().insert(fp); closedFiles().erase(fp);
    return fp;
}
// fds
static const int FDBASE = 1000000;
static std::map<int, Handle*>& fds() { static std::map<int, Handle*> m; return m; }
static std::map<void*, size_t>& maps() { static std::map<void*, size_t> m; return m; }
static int simOpen(const char* path) {
    auto f = lookup(path);
    if (!f) { errno = ENOENT; return -1; }
    if (f->openFails) { count("fault.disk_open_error"); f->fault(true); errno = EACCES; return -1; }
    int fd = FDBASE;
    while (fds().count(fd)) ++fd;
    Handle* h = new Handle; h->f = f;
    fds()[fd] = h;
    disk().openHandles++; disk().opened++;
    return fd;
}
static void fillStat(const DiskFile& f, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_mode = f.dir ? (S_IFDIR | 0755) : f.unseekable ? (S_IFIFO | 0644) : (S_IFREG | 0644);
    st->st_size = f.reportZeroSize ? 0 : (off_t)f.size();
    st->st_mtime = f.mtime;
    st->st_nlink = 1;
    st->st_blksize = 4096;
}
} // namespace sim
using namespace sim;

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) { Unarmed unarmed; return simPath(p) ? simFopen(p, m) : __real_fopen(p, m); }
FILE* __real_fopen64(const char*, const char*);
FILE* __wrap_fopen64(const char* p, const char* m) { Unarmed unarmed; return simPath(p) ? simFopen(p, m) : __real_fopen64(p, m); }
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
    Unarmed unarmed;
    size_t r = __real_fread(p, s, n, f);
    if (openFiles().count(f) && ferror(f)) disk().readErrorTold = true;
    return r;
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
    Unarmed unarmed;
    if (openFiles().erase(f)) closedFiles().insert(f);
    else if (closedFiles().count(f)) { disk().lastProblem = "fclose of a file that is already closed"; errno = EBADF; return EOF; }
    return __real_fclose(f);
}
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int flags, ...) {
    Unarmed unarmed;
    if (simPath(p)) return simOpen(p);
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return __real_open(p, flags, mode);
}
int __real_open64(const char*, int, ...);
int __wrap_open64(const char* p, int flags, ...) {
    Unarmed unarmed;
    if (simPath(p)) return simOpen(p);
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return __real_open64(p, flags, mode);
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* st) {
    Unarmed unarmed;
    if (!simPath(p)) return __real_stat(p, st);
    auto f = lookup(p);
    if (!f) { errno = ENOENT; return -1; }
    if (f->statFails) { count("fault.disk_stat_error"); if (!f->quietStat) f->fault(true); errno = EIO; return -1; }
    fillStat(*f, st);
    return 0;
}
int __wrap_stat64(const char* p, struct stat64* st) { return __wrap_stat(p, (struct stat*)st); }
int __real_lstat(const char*, struct stat*);
int __wrap_lstat(const char* p, struct stat* st) { return simPath(p) ? __wrap_stat(p, st) : __real_lstat(p, st); }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st) {
    Unarmed unarmed;
    if (fd >= FDBASE) {
        auto it = fds().find(fd);
        if (it == fds().end()) { errno = EBADF; return -1; }
        if (it->second->f->fstatFails) { count("fault.disk_fstat_error"); it->second->f->fault(true); errno = EIO; return -1; }
        fillStat(*it->second->f, st);
        return 0;
    }
    return __real_fstat(fd, st);
}
int __wrap_fstat64(int fd, struct stat64* st) { return __wrap_fstat(fd, (struct stat*)st); }
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    Unarmed unarmed;
    if (fd < FDBASE) return __real_mmap(a, len, prot, flags, fd, off);
    auto it = fds().find(fd);
    if (it == fds().end()) { errno = EBADF; return MAP_FAILED; }
    DiskFile& f = *it->second->f;
    if (f.mmapFails) { count("fault.disk_mmap_error"); f.fault(true); errno = ENOMEM; return MAP_FAILED; }
    if (len == 0) { errno = EINVAL; return MAP_FAILED; }
    // an exact-size allocation: reading past the mapping is a sanitizer report
    char* m = (char*)malloc(len);
    memset(m, 0, len);
    if ((size_t)off < f.data.size()) memcpy(m, f.data.data() + off, std::min(len, f.data.size() - (size_t)off));
    maps()[m] = len;
    disk().openHandles++; disk().opened++;
    return m;
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __real_munmap(void*, size_t);
int __wrap_munmap(void* a, size_t len) {
    Unarmed unarmed;
    auto it = maps().find(a);
    if (it != maps().end()) {
        if (it->second != len) disk().lastProblem = "munmap with a length different from the mapping";
        maps().erase(it);
        free(a);
        disk().openHandles--;
        return 0;
    }
    if (((uintptr_t)a & 4095) != 0) { disk().lastProblem = "munmap of something that is not mapped"; errno = EINVAL; return -1; }
    return __real_munmap(a, len);
}
int kernelClose(int fd, bool* handled);
int __real_close(int);
int __wrap_close(int fd) {
    Unarmed unarmed;
    bool handled = false;
    int r = kernelClose(fd, &handled);
    if (handled) return r;
    if (fd >= FDBASE) {
        auto it = fds().find(fd);
        if (it == fds().end()) { disk().lastProblem = "close of a descriptor that is not open"; errno = EBADF; return -1; }
        delete it->second;
        fds().erase(it);
        disk().openHandles--;
        return 0;
    }
    if (fd < 0) { errno = EBADF; return -1; }
    return __real_close(fd);
}
int kernelRead(int fd, void* buf, size_t n, bool* handled, ssize_t* r);
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* buf, size_t n) {
    Unarmed unarmed;
    bool handled = false; ssize_t r = 0;
    kernelRead(fd, buf, n, &handled, &r);
    if (handled) return r;
    if (fd >= FDBASE) {
        auto it = fds().find(fd);
        if (it == fds().end()) { errno = EBADF; return -1; }
        return hread(it->second, (char*)buf, n);
    }
    return __real_read(fd, buf, n);
}
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) {
    Unarmed unarmed;
    if (fd >= FDBASE) {
        auto it = fds().find(fd);
        if (it == fds().end()) { errno = EBADF; return -1; }
        return (off_t)hseek(it->second, o, w);
    }
    return __real_lseek(fd, o, w);
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    Unarmed unarmed;
    if (fd >= FDBASE) {
        auto it = fds().find(fd);
        if (it == fds().end()) { errno = EBADF; return -1; }
        int64_t save = it->second->pos;
        it->second->pos = o;
        ssize_t r = hread(it->second, (char*)b, n);
        it->second->pos = save;
        return r;
    }
    return __real_pread(fd, b, n, o);
}
// clock
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) {
    if (!simClockOn) return __real_time(t);
    count("clock.queries");
    if (simClockHook) simClock = simClockHook();
    if (t) *t = (time_t)simClock;
    return (time_t)simClock;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z) {
    if (!simClockOn) return __real_gettimeofday(tv, z);
    if (tv) { tv->tv_sec = __wrap_time(0); tv->tv_usec = 0; }
    return 0;
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (!simClockOn) return __real_clock_gettime(c, ts);
    if (ts) { ts->tv_sec = __wrap_time(0); ts->tv_nsec = 0; }
    return 0;
}
}
