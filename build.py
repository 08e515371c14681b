#!/usr/bin/env python3
"""Builds the simulator from the working tree of /repo.

The library's own sources are compiled with the compiler's memory-access instrumentation (its
callbacks are implemented by sim/rt.cpp, no sanitizer runtime is linked) into liblevsim.so; the
harness in sim/ is compiled plainly. Objects are cached by content below /verif/build."""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LLSIM_REPO", "/repo")
BUILD = os.environ.get("LLSIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
COMMON = ["-std=c++20", "-g", "-fPIC", "-w"]
INSTR = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
         "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin-memcmp"]
PLAIN = ["-O2"]
WRAP = ["memcmp", "memchr", "strlen", "memcpy", "memmove", "memset"]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else p.encode()
        h.update(len(b).to_bytes(8, "little"))
        h.update(b)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs) if os.path.splitext(f)[1] in exts]
    return sorted(out)


def build():
    """Returns (path of llsim, digest of the library under test)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked()


def build_locked():
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    ver = sh([CXX, "--version"])
    proto = os.path.join(REPO, "proto/liblevenshtein.proto")
    gkey = digest(read(proto), sh(["protoc", "--version"]))
    gen = os.path.join(BUILD, "gen-" + gkey)
    gdir = os.path.join(gen, "liblevenshtein/proto")
    if not os.path.exists(os.path.join(gdir, "liblevenshtein.pb.cc")):
        os.makedirs(gdir, exist_ok=True)
        sh(["protoc", "-I" + os.path.dirname(proto), "--cpp_out=" + gdir, proto])
    src = os.path.join(REPO, "src")
    third = os.path.join(REPO, "third-party")
    inc = ["-I" + src, "-I" + third, "-I" + gen]
    heads = tree(src, {".h", ".hpp", ".inl", ".tpp"}) + tree(third, {".h", ".hpp"})
    hkey = digest(gkey, ver, *[x for h in heads for x in (os.path.relpath(h, REPO), read(h))])
    sim = os.path.join(VERIF, "sim")
    simkey = digest(*[read(h) for h in tree(sim, {".h"})])
    lib_src = tree(src, {".cpp", ".cc", ".cxx"}) + tree(third, {".cpp", ".cc", ".cxx"})
    jobs, lib, exe, prog = [], [], [], []

    def job(path, flags, key, into):
        k = digest(key, path if path.startswith(sim) else os.path.relpath(path, REPO), read(path), " ".join(flags))
        o = os.path.join(obj, os.path.basename(path) + "." + k + ".o")
        into.append(o)
        if not os.path.exists(o):
            jobs.append((path, flags, o))

    for p in lib_src:
        job(p, COMMON + INSTR + inc, hkey, lib)
    job(os.path.join(gdir, "liblevenshtein.pb.cc"), COMMON + PLAIN + inc, hkey, lib)
    demo = os.path.join(REPO, "example/src")
    dkey = digest(hkey, *[x for h in tree(demo, {".h", ".hpp"}) for x in (os.path.relpath(h, REPO), read(h))])
    for p in tree(demo, {".cpp", ".cc", ".cxx"}):
        job(p, COMMON + INSTR + inc + ["-I" + demo, "-Dmain=llsim_demo_main"], dkey, prog)
    for p in tree(sim, {".cpp"}):
        job(p, COMMON + PLAIN + inc + ["-I" + sim], hkey + simkey, exe)

    def run(j):
        path, flags, o = j
        t = o + ".tmp%d" % os.getpid()
        try:
            sh([CXX, *flags, "-c", path, "-o", t])
        except BuildError as e:
            if o not in prog:
                raise
            sys.stderr.write("the command-line program does not compile; only C16 needs it\n" + str(e))
            return
        os.rename(t, o)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    if all(os.path.exists(o) for o in prog):
        lib += prog
    libkey = digest(*[os.path.basename(o) for o in lib], "wrap2")
    exekey = digest(libkey, *[os.path.basename(o) for o in exe])
    out = os.path.join(BUILD, "bin-" + exekey)
    llsim = os.path.join(out, "llsim")
    if not os.path.exists(llsim):
        os.makedirs(out, exist_ok=True)
        so = os.path.join(out, "liblevsim.so")
        sh([CXX, "-shared", "-o", so, *lib, "-Wl,-Bsymbolic-functions", *["-Wl,--wrap=" + w for w in WRAP]])
        t = llsim + ".tmp%d" % os.getpid()
        sh([CXX, "-rdynamic", "-o", t, *exe, so, "-Wl,-rpath,$ORIGIN", "-lprotobuf", "-lpthread", "-ldl"])
        os.rename(t, llsim)
    # keep the cache small
    keep = 6
    bins = sorted(glob.glob(os.path.join(BUILD, "bin-*")), key=os.path.getmtime)
    for b in bins[:-keep]:
        if b != out:
            for f in os.listdir(b):
                os.unlink(os.path.join(b, f))
            os.rmdir(b)
    objs = sorted(glob.glob(os.path.join(obj, "*.o")), key=os.path.getmtime)
    used = set(lib + exe)
    for o in objs[:-400]:
        if o not in used:
            os.unlink(o)
    return llsim, libkey


if __name__ == "__main__":
    try:
        print(build()[0])
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
