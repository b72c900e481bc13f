#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree into /verif/build (ignored by git).

Objects are cached under the hash of everything that can influence them, so a check always runs the
code that is in /repo now, and rebuilds only what changed."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DEPS = "/opt/vp/deps/include"

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def tree(root, exts, skip=()):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip and not x.startswith("."))
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out

def sut_sources():
    lib = [f for f in tree(f"{REPO}/lib/src", (".cpp",))]
    tool = sorted(glob.glob(f"{REPO}/tool/*.cpp"))
    return lib, tool

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

EXT = (".h", ".hpp", ".inl", ".cpp")

def repo_headers_hash():
    """Everything in /repo a compilation can include, by name and content."""
    parts = []
    for f in tree(f"{REPO}/lib", EXT, ("test",)) + tree(f"{REPO}/tool", EXT, ("test",)):
        parts += [os.path.relpath(f, REPO), read(f)]
    parts.append(read(f"{REPO}/cmake/templates/NoExport.h"))
    return sha(*parts)

SUT = ["-std=gnu++14", "-g1", "-O1", "-fPIC", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-w"]

# Functions the compiler calls for memory accesses it does not instrument itself.
WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strcasecmp", "malloc", "calloc", "realloc",
        "__cxa_allocate_exception",
        "strcpy", "strncpy", "strcat", "strncmp", "strncasecmp", "strchr", "strrchr", "strstr", "memchr",
        "snprintf", "vsnprintf", "sprintf", "vsprintf"]
# C functions with hidden state of their own, shared by all threads.
WRAP += ["strtok", "setlocale", "localtime", "gmtime", "ctime", "asctime", "setenv", "unsetenv", "putenv", "ecvt", "fcvt",
         "mblen", "mbtowc", "wctomb", "localeconv"]

# What the library can see of the world (sim/lib/env.cpp).
WORLD = ["time", "clock", "clock_gettime", "timespec_get", "gettimeofday", "times",
         "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
         "_ZNSt13random_device9_M_getvalEv", "_ZNSt6thread20hardware_concurrencyEv", "getpid", "getppid",
         "gettid", "getuid", "geteuid", "getgid", "getegid", "getenv", "secure_getenv", "getrandom",
         "getentropy", "arc4random", "sysconf", "get_nprocs", "get_nprocs_conf", "sched_getcpu",
         "gethostname", "uname", "sysinfo", "getcwd", "isatty", "nanosleep", "clock_nanosleep", "usleep",
         "sleep", "sched_yield"]

ENVWRAP = ["-Wl,--wrap=getenv", "-Wl,--wrap=secure_getenv", "-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"]

FLAVORS = {
    # Simulated kernel running the whole tool.
    "tool": dict(cxx="g++", sut=["-O1"], sim=["-O2"], link=["-Wl,-z,now"] + ENVWRAP, parts=("lib", "tool"),
                 simdirs=("common", "tool"), exe="simt"),
    "toolasan": dict(cxx="g++", sut=["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
                     sim=["-O2", "-DSIM_ASAN=1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"], link=["-Wl,-z,now", "-fsanitize=address"] + ENVWRAP,
                     parts=("lib", "tool"), simdirs=("common", "tool"), exe="simt"),
    # Simulated threads, allocator and error handlers around the library. The library is a shared object of its own,
    # compiled with -fsanitize=thread; the simulator implements the entry points.
    "lib": dict(cxx="g++", sut=["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], sim=["-O2"], parts=("lib", "shim"),
                simdirs=("common", "lib"), exe="siml", solib=True,
                solink=["-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + x for x in WRAP + WORLD], link=["-rdynamic", "-lpthread", "-ldl"]),
    "libasan": dict(cxx="g++", sut=["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DNDEBUG"],
                    sim=["-O2", "-DSIM_ASAN=1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"], parts=("lib", "shim"),
                    simdirs=("common", "lib"), exe="siml", solib=True, solink=["-Wl,-Bsymbolic", "-fsanitize=address"] + ["-Wl,--wrap=" + x for x in WORLD],
                    link=["-rdynamic", "-lpthread", "-ldl", "-fsanitize=address"]),
}

def build(flavor):
    fl = FLAVORS[flavor]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, flavor)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, flavor + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(flavor, fl, out)

def _build(flavor, fl, out):
    inc = os.path.join(out, "include", "VFC")
    os.makedirs(inc, exist_ok=True)
    exp = read(f"{REPO}/cmake/templates/NoExport.h")
    expf = os.path.join(inc, "Export.h")
    if not os.path.exists(expf) or read(expf) != exp:
        with open(expf, "wb") as f:
            f.write(exp)
    incs = [f"-I{REPO}/lib/glm", f"-I{REPO}/lib/src", f"-I{out}/include", f"-I{REPO}/lib/include", "-isystem", DEPS]
    toolver = subprocess.run([fl["cxx"], "--version"], stdout=subprocess.PIPE, text=True).stdout.split("\n")[0]
    rh = repo_headers_hash()
    sim = []
    for d in fl["simdirs"]:
        sim += tree(os.path.join(VERIF, "sim", d), EXT)
    simh = sha(*[x for f in sim + tree(os.path.join(VERIF, "sim", "shim"), EXT) for x in (os.path.relpath(f, VERIF), read(f))])
    jobs = []  # (kind, source, object, command)
    lib, tool = sut_sources()
    shim = tree(os.path.join(VERIF, "sim", "shim"), (".cpp",))
    shimh = sha(*[read(f) for f in tree(os.path.join(VERIF, "sim", "shim"), EXT)])
    for kind, srcs in (("lib", lib), ("tool", tool), ("shim", shim)):
        if kind not in fl["parts"]:
            continue
        for s in srcs:
            cmd = [fl["cxx"]] + SUT + fl["sut"] + incs + (["-I" + f"{REPO}/tool"] if kind == "tool" else [])
            obj = os.path.join(out, f"{kind}_{os.path.basename(s)[:-4]}.{sha(toolver, ' '.join(cmd), s, rh, shimh if kind == 'shim' else '')}.o")
            jobs.append((kind, s, obj, cmd))
    for s in sim:
        if not s.endswith(".cpp"):
            continue
        cmd = [fl["cxx"], "-std=c++17", "-g1", "-fPIC", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-w"] + fl["sim"]
        cmd += incs
        obj = os.path.join(out, f"sim_{os.path.basename(s)[:-4]}.{sha(toolver, ' '.join(cmd), s, simh, rh)}.o")
        jobs.append(("sim", s, obj, cmd))
    wanted = {j[2] for j in jobs}
    def one(j):
        kind, s, obj, cmd = j
        if os.path.exists(obj):
            return
        tmp = obj + ".tmp.o"
        run(cmd + ["-c", s, "-o", tmp])
        if kind == "tool":
            run(["objcopy", "--redefine-sym", "main=vfc_tool_main", tmp])
        os.rename(tmp, obj)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    linkkey = sha(*sorted(wanted), " ".join(fl["link"]))
    exe = os.path.join(out, f"{fl['exe']}.{linkkey}")
    if not os.path.exists(exe):
        tmp = exe + ".tmp"
        if fl.get("solib"):
            so = os.path.join(out, f"libsut.{linkkey}.so")
            run([fl["cxx"], "-shared", "-o", so + ".tmp"] + [j[2] for j in jobs if j[0] != "sim"] + fl["solink"])
            os.rename(so + ".tmp", so)
            run([fl["cxx"], "-o", tmp] + [j[2] for j in jobs if j[0] == "sim"] + [so, f"-Wl,-rpath,{out}"] + fl["link"])
        else:
            run([fl["cxx"], "-o", tmp] + [j[2] for j in jobs] + fl["link"])
        os.rename(tmp, exe)
    # Drop what earlier trees left behind.
    keep = wanted | {exe, os.path.join(out, f"libsut.{linkkey}.so")}
    for f in os.listdir(out):
        p = os.path.join(out, f)
        if os.path.isfile(p) and p not in keep:
            os.unlink(p)
    return exe

if __name__ == "__main__":
    try:
        for f in sys.argv[1:] or list(FLAVORS):
            print(build(f))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
