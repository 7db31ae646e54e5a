// Allocation and initialisation calls of the library's own object files (redirected by build.py with
// objcopy) go through here and fail when the plan says so.
#include "core.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <zlib.h>
#include <bzlib.h>
#include <iconv.h>
namespace sim {
MemPlan mem;
enum { KNew = 1, KMalloc = 2, KCodec = 4, KIconv = 8 };
static bool fails(int kind, const char* what, size_t n) {
    if (!mem.armed || !(mem.kinds & kind)) return false;
    if (mem.left > 0) { --mem.left; return false; }
    if (mem.burst <= 0) return false;
    --mem.burst;
    Unarmed u;
    mem.fired = true;
    count(kind == KNew ? "fault.new_fails" : kind == KMalloc ? "fault.malloc_fails" : kind == KCodec ? "fault.codec_out_of_memory" : "fault.iconv_open_fails");
    ev("memory: %s(%zu) fails", what, n);
    return true;
}
}
using namespace sim;
extern "C" {
void* simlib__Znwm(size_t n) { if (fails(KNew, "new", n)) throw std::bad_alloc(); return ::operator new(n); }
void* simlib__Znam(size_t n) { if (fails(KNew, "new[]", n)) throw std::bad_alloc(); return ::operator new[](n); }
void* simlib_malloc(size_t n) { if (fails(KMalloc, "malloc", n)) { errno = ENOMEM; return 0; } return malloc(n); }
void* simlib_calloc(size_t m, size_t n) { if (fails(KMalloc, "calloc", n)) { errno = ENOMEM; return 0; } return calloc(m, n); }
void* simlib_realloc(void* p, size_t n) { if (fails(KMalloc, "realloc", n)) { errno = ENOMEM; return 0; } return realloc(p, n); }
char* simlib_strdup(const char* s) { if (fails(KMalloc, "strdup", strlen(s))) { errno = ENOMEM; return 0; } return strdup(s); }
int simlib_inflateInit2_(z_streamp z, int w, const char* v, int s) { if (fails(KCodec, "inflateInit2", 0)) return Z_MEM_ERROR; return inflateInit2_(z, w, v, s); }
int simlib_inflateInit_(z_streamp z, const char* v, int s) { if (fails(KCodec, "inflateInit", 0)) return Z_MEM_ERROR; return inflateInit_(z, v, s); }
int simlib_inflate(z_streamp z, int f) { if (fails(KCodec, "inflate", 0)) return Z_MEM_ERROR; return inflate(z, f); }
int simlib_deflateInit_(z_streamp z, int l, const char* v, int s) { if (fails(KCodec, "deflateInit", 0)) return Z_MEM_ERROR; return deflateInit_(z, l, v, s); }
int simlib_deflateInit2_(z_streamp z, int l, int m, int w, int ml, int st, const char* v, int s) { if (fails(KCodec, "deflateInit2", 0)) return Z_MEM_ERROR; return deflateInit2_(z, l, m, w, ml, st, v, s); }
int simlib_BZ2_bzDecompressInit(bz_stream* b, int v, int s) { if (fails(KCodec, "BZ2_bzDecompressInit", 0)) return BZ_MEM_ERROR; return BZ2_bzDecompressInit(b, v, s); }
int simlib_BZ2_bzDecompress(bz_stream* b) { if (fails(KCodec, "BZ2_bzDecompress", 0)) return BZ_MEM_ERROR; return BZ2_bzDecompress(b); }
iconv_t simlib_iconv_open(const char* t, const char* f) { if (fails(KIconv, "iconv_open", 0)) { errno = EMFILE; return (iconv_t)-1; } return iconv_open(t, f); }
}
