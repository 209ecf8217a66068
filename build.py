"""Builds what a check needs from /repo's working tree (content-hash keyed)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KV_REPO", "/repo")
BUILD = os.environ.get("KV_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"
GUARD = "KVTREE_VERIF_SEGSIZE"
COMMON = ["-O1", "-g", "-fno-omit-frame-pointer", "-fPIC", "-fsanitize=address", "-fexceptions"]
CFLAGS = COMMON + ["-w", "-Wno-error", "-Wno-implicit-function-declaration", "-Wno-int-conversion",
                   "-Wno-incompatible-function-pointer-types", "-Wno-return-type", "-D" + GUARD,
          "-ftrivial-auto-var-init=pattern"]  # what is read before it is written is never 0 by luck
CXXFLAGS = COMMON + ["-std=c++17", "-Wall", "-Wno-unused-function", "-Wno-deprecated-declarations"]
WRAP = ("open open64 openat creat read write pread pread64 pwrite pwrite64 readv writev close fsync "
        "fdatasync ftruncate ftruncate64 truncate lseek lseek64 flock fcntl fcntl64 lockf access rename unlink "
        "usleep sleep nanosleep malloc calloc realloc strdup strndup "
        "exit _exit _Exit abort").split()
WRAPFLAGS = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
LINK = ["-fsanitize=address", "-rdynamic", "-lz", "-ldl", "-lpthread"]
NOT_LIB = {"kvtree_print.c", "tv_data_display.c"}
# variant -> (config.h lines, with MPI)
VARIANTS = {
    "static": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_FLOCK"], False),
    "flock": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_FLOCK"], False),
    "fcntl": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_FCNTL"], False),
    "none": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_NONE"], False),
    "noswap": (["#define KVTREE_FILE_LOCK_USE_FLOCK"], False),
    "plain": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_FLOCK"], False),
    "tsan": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_FLOCK"], False),
    "mpi": (["#define HAVE_BYTESWAP_H", "#define KVTREE_FILE_LOCK_USE_FLOCK"], True),
}


# checks whose library is instrumented by ThreadSanitizer, linked in statically; their harness is not instrumented
TSAN = {"T10"}


def plain(flags, to=None):
    return [to if f == "-fsanitize=address" else f for f in flags if to or f != "-fsanitize=address"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout)


def compile_lib(flags, inc, src, out):
    """one file of the library; gcc takes over where the code needs its extensions"""
    try:
        run([CC] + flags + inc + ["-c", src, "-o", out])
    except BuildError as e:
        try:
            run(["gcc"] + flags + inc + ["-c", src, "-o", out])
        except BuildError:
            raise e


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.[ch]"))


def public_headers():
    return [REPO + "/src/" + h for h in ("kvtree.h", "kvtree_util.h", "kvtree_mpi.h")]


def harness_headers():
    return glob.glob(VERIF + "/src/*.hpp") + glob.glob(VERIF + "/mpi/*.h*") + glob.glob(VERIF + "/checks/*.hpp")


def obj(src, flags=CXXFLAGS):
    """object file of one harness source"""
    deps = [src] + harness_headers() + public_headers()
    out = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src)[:-4], digest(deps, flags))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run([CXX] + flags + ["-I" + VERIF + "/mpi", "-I" + VERIF + "/src", "-I" + REPO + "/src", "-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def build_variant(d, v, pool):
    cfg, mpi = VARIANTS[v]
    cflags = plain(CFLAGS, "-fsanitize=thread") if v == "tsan" else plain(CFLAGS) if v == "plain" else CFLAGS
    o = "%s/o_%s" % (d, v)
    os.makedirs(o, exist_ok=True)
    with open(o + "/config.h", "w") as f:
        f.write("\n".join(cfg) + "\n#define KVTREE_TEST_BASE \"/dev/shm\"\n")
    srcs = [s for s in repo_sources() if s.endswith(".c") and os.path.basename(s) not in NOT_LIB
            and (mpi or "mpi" not in os.path.basename(s))]
    objs, futs = [], []
    for s in srcs:
        out = "%s/%s.o" % (o, os.path.basename(s))
        objs.append(out)
        inc = ["-I" + o, "-I" + VERIF + "/mpi"] if mpi else ["-I" + o]
        futs.append(pool.submit(compile_lib, cflags, inc + ["-I" + REPO + "/src"], s, out))
    return v, objs, futs


def library():
    """directory with all library variants of the current tree"""
    d = "%s/lib/%s" % (BUILD, digest(repo_sources(), CFLAGS, VARIANTS, WRAP, open(VERIF + "/src/big.c").read()))
    if os.path.exists(d + "/done"):
        os.utime(d)
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with ThreadPoolExecutor(8) as pool:
        jobs = [build_variant(d, v, pool) for v in VARIANTS]
        cli = d + "/o_static/cli.o"
        f = jobs[0]
        jobs_cli = pool.submit(compile_lib, CFLAGS, ["-I" + d + "/o_static", "-I" + REPO + "/src"], REPO + "/src/kvtree_print.c", cli)
        links = []
        for v, objs, futs in jobs:
            for x in futs:
                x.result()
            if v in ("static", "tsan", "plain"):
                run(["ar", "rcs", "%s/libkv_%s.a" % (d, v)] + objs)
            else:
                links.append(pool.submit(run, [CC, "-shared", "-fsanitize=address", "-Wl,-Bsymbolic"] + WRAPFLAGS + objs + ["-lz", "-o", "%s/libkv_%s.so" % (d, v)]))
        jobs_cli.result()
        for x in links:
            x.result()
        run([CC, "-fsanitize=address", cli, d + "/libkv_static.a", "-lz", "-o", d + "/kvtree_print"])
        run([CC, "-O1", "-I" + REPO + "/src", VERIF + "/src/big.c", d + "/libkv_plain.a", "-lz", "-o", d + "/big"])
    with open(d + "/done", "w"):
        pass
    # keep only the most recent ones
    dirs = sorted(glob.glob(BUILD + "/lib/*"), key=os.path.getmtime, reverse=True)
    for x in dirs[3:]:
        shutil.rmtree(x, ignore_errors=True)
    return d


def base_objs():
    return [VERIF + "/src/pbt.cpp", VERIF + "/src/kv.cpp", VERIF + "/src/sys.cpp", VERIF + "/mpi/shim.cpp"]


def check_binary(cid, pool=None):
    libdir = library()
    srcs = base_objs() + ["%s/checks/%s.cpp" % (VERIF, cid)]
    tsan = cid in TSAN
    flags = plain(CXXFLAGS) if tsan else CXXFLAGS
    lib = libdir + ("/libkv_tsan.a" if tsan else "/libkv_static.a")
    link = plain(LINK, "-fsanitize=thread") if tsan else LINK
    with ThreadPoolExecutor(8) as p:
        objs = list(p.map(lambda s: obj(s, flags), srcs))
    out = "%s/%s-%s" % (libdir, cid, digest(objs, WRAP, LINK))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run([CXX] + objs + [lib] + WRAPFLAGS + link + ["-o", tmp])
        os.rename(tmp, out)
        for x in glob.glob("%s/%s-*" % (libdir, cid)):
            if x != out:
                os.unlink(x)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        self.f = open(BUILD + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def all_ids():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(VERIF + "/checks/*.cpp"))


def main():
    with Lock():
        used = set()
        library()
        srcs = [(x, CXXFLAGS) for x in base_objs()] + [(x, plain(CXXFLAGS)) for x in base_objs()]
        srcs += [("%s/checks/%s.cpp" % (VERIF, c), plain(CXXFLAGS) if c in TSAN else CXXFLAGS) for c in all_ids()]
        with ThreadPoolExecutor(8) as p:
            used = set(p.map(lambda x: obj(*x), srcs))
        with ThreadPoolExecutor(4) as p:
            list(p.map(check_binary, all_ids()))
        for o in glob.glob(BUILD + "/obj/*.o"):
            if o not in used:
                os.unlink(o)


if __name__ == "__main__":
    try:
        main()
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
