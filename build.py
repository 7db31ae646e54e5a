"""Builds the simulator against /repo's current working tree. Content-addressed under /verif/build."""
import hashlib, os, subprocess, sys, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
SAN = "-fsanitize=address,bounds,null,return,bool,enum,unreachable,integer-divide-by-zero,vla-bound -fno-sanitize-recover=all"
LIBFLAGS = "-O1 -g1 -fno-omit-frame-pointer -Wno-everything " + SAN + " -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -D_GLIBCXX_EXTERN_TEMPLATE=0"
SIMFLAGS = "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -Wno-everything " + SAN
WRAPS = """fopen fopen64 fread fclose open open64 stat stat64 lstat fstat fstat64 mmap mmap64 munmap close read lseek lseek64 pread
time gettimeofday clock_gettime __assert_fail abort""".split()
# calls of the library's own object files that can be made to fail (sim/memfault.cpp)
LIBCALLS = """_Znwm _Znam malloc calloc realloc strdup inflateInit2_ inflateInit_ inflate deflateInit_ deflateInit2_
BZ2_bzDecompressInit BZ2_bzDecompress iconv_open""".split()
EXTRA_WRAPS = os.path.join(SIM, "wraps.txt")

def repo_files():
    out = []
    for base in ("lib", "include", "cmake"):
        for d, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cpp", ".h", ".c", ".txt", ".cmake", ".in", ".hpp")):
                    out.append(os.path.join(d, f))
    for f in ("CMakeLists.txt", "ConfigureChecks.cmake", "strigiconfig.h.cmake"):
        out.append(os.path.join(REPO, f))
    return out

def digest():
    h = hashlib.sha256()
    for f in repo_files() + sorted(os.path.join(SIM, x) for x in os.listdir(SIM)) + [os.path.join(HERE, "build.py")]:
        try:
            b = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + b + b"\0")
    return h.hexdigest()[:16]

def sh(cmd, cwd=None, log=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (cmd, r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(2)
    return r.stdout.decode(errors="replace")

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = digest()
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, "simrun")
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(d)
        return exe
    t0 = time.time()
    if os.path.exists(d):
        shutil.rmtree(d)
    for old in sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if not x.startswith(".")), key=os.path.getmtime)[:-3]:
        if time.time() - os.path.getmtime(old) > 600:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d)
    env = "env CC=clang CXX=clang++ "
    lib = os.path.join(d, "lib")
    sh(env + "cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS='%s' -DCMAKE_C_FLAGS='%s'" % (REPO, lib, LIBFLAGS, LIBFLAGS))
    # CMAKE_BUILD_TYPE=Debug keeps the library's assert()s
    inc = "-I%s/include -I%s/include -I%s/lib -I%s/lib -I%s" % (REPO, lib, REPO, lib, SIM)
    allow = os.path.join(SIM, "cov-allow.txt")
    srcs = sorted(f for f in os.listdir(SIM) if f.endswith(".cpp"))
    def comp(f):
        o = os.path.join(d, f[:-4] + ".o")
        cov = "" if f in ("core.cpp", "memfault.cpp", "simdisk.cpp", "kernel.cpp", "fiber.cpp") else "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -fsanitize-coverage-allowlist=%s" % allow
        sh("clang++ %s %s %s -DHAVE_CONFIG_H -c %s -o %s" % (SIMFLAGS, cov, inc, os.path.join(SIM, f), o))
        return o
    with ThreadPoolExecutor(max_workers=9) as ex:
        fl = ex.submit(sh, "ninja -C %s streamsstatic" % lib)
        # generated headers exist after configure
        objs = list(ex.map(comp, srcs))
        fl.result()
    wraps = list(WRAPS)
    if os.path.exists(EXTRA_WRAPS):
        wraps += open(EXTRA_WRAPS).read().split()
    w = " ".join("-Wl,--wrap=%s" % x for x in wraps)
    a = None
    for dd, _, fn in os.walk(lib):
        for f in fn:
            if f == "libstreamsstatic.a":
                a = os.path.join(dd, f)
    sh("objcopy %s %s" % (" ".join("--redefine-sym %s=simlib_%s" % (x, x) for x in LIBCALLS), a))
    sh("clang++ %s %s %s -o %s.tmp %s -lz -lbz2 -llzma -lpthread -ldl" % (SAN, w, " ".join(objs), exe, a))
    os.rename(exe + ".tmp", exe)
    # keep the binary, drop the intermediate files
    shutil.rmtree(lib, ignore_errors=True)
    for o in objs:
        os.unlink(o)
    open(os.path.join(d, "ok"), "w").write("%.1f\n" % (time.time() - t0))
    if verbose:
        print("built %s in %.1fs" % (exe, time.time() - t0))
    return exe

if __name__ == "__main__":
    print(build(True))
