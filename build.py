#!/usr/bin/env python3
"""Builds the simulator with the library sources of /repo's working tree.

The library's own build (CMakeLists.txt) says which sources and flags make up
the library; every source is compiled here per variant and its references to
libc (allocator, entropy device, clock, assertion failure) are redirected to
the simulator with objcopy, so /repo needs no hooks."""
import fcntl, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RACRYPT_REPO", "/repo")
CC, CXX = "/usr/bin/gcc", "/usr/bin/g++"
SEAM = """malloc free calloc realloc aligned_alloc posix_memalign reallocarray strdup explicit_bzero
open open64 openat __open_2 __open64_2 read pread __read_chk close getrandom getentropy syscall
fopen fopen64 fread fgetc getc fclose ferror feof setvbuf setbuf fileno fcntl fcntl64 poll
clock_gettime time gettimeofday times clock timespec_get nanosleep usleep sleep sched_yield
getpid getppid rand random srand srandom __assert_fail abort exit _exit""".split()
UNDEF_ONLY = ["RaRandomBytes", "RaAesCheckForInstructionSet", "RaSha1CheckForInstructionSet", "RaSha256CheckForInstructionSet"]
VARIANTS = {
    # name: (replacement optimisation flags, definitions removed, definitions added, harness flags)
    "asan": (["-O1", "-g1", "-fsanitize=address", "-fsanitize-coverage=trace-pc", "-fno-omit-frame-pointer"], [], [], True),
    "alt": (["-O1", "-g1", "-fsanitize=address", "-fsanitize-coverage=trace-pc", "-fno-omit-frame-pointer"],
            ["-DRACRYPT_USE_ASM"], ["-DBN_WORD_BYTE=4", "-DRACRYPT_AES_MIN_TABLE", "-DRACRYPT_PRIME_MIN_TABLE", "-DHAVE_TIMES"], True),
    "altfast": (["-O2", "-g1", "-fsanitize-coverage=trace-pc"],
                ["-DRACRYPT_USE_ASM"], ["-DBN_WORD_BYTE=4", "-DRACRYPT_AES_MIN_TABLE", "-DRACRYPT_PRIME_MIN_TABLE", "-DHAVE_TIMES"], False),
    # 64-bit words without the compiler's 128-bit integers
    "mid": (["-O2", "-g1", "-fsanitize-coverage=trace-pc"], ["-DRACRYPT_USE_ASM"], ["-U__SIZEOF_INT128__"], False),
    "fast": (["-O2", "-g1", "-fsanitize-coverage=trace-pc"], [], [], False),
    "ship": (None, [], [], False),
    # reports memory accesses as well, so that accesses to static storage can be scheduling points (sim.cc; no thread sanitizer run-time is linked)
    "race": (["-O1", "-g1", "-fsanitize=thread", "-fsanitize-coverage=trace-pc"], [], [], False),
}

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(2)
    return p.stdout

def lib_sources(bdir):
    """[(source, flags)] as CMake would compile the library target."""
    cm = os.path.join(bdir, "cmake")
    shutil.rmtree(cm, ignore_errors=True)
    p = subprocess.run(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                        "-DCMAKE_C_COMPILER=" + CC, "-DCMAKE_CXX_COMPILER=" + CXX],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=clean_env())
    out = []
    if p.returncode == 0:
        for e in json.load(open(os.path.join(cm, "compile_commands.json"))):
            if "/racrypt.dir/" not in e["command"]: continue
            a = shlex.split(e["command"])[1:]
            fl, i = [], 0
            while i < len(a):
                if a[i] in ("-o", "-MF", "-MT", "-MQ"): i += 2; continue
                if a[i] in ("-c", "-MD", "-MMD"): i += 1; continue
                if os.path.join(e["directory"], a[i]) == e["file"] or a[i] == e["file"]: i += 1; continue
                fl.append(a[i]); i += 1
            out.append((e["file"], fl))
    if not out:
        for f in sorted(glob.glob(REPO + "/src/*/*.c")):
            if "/test/" in f or "arm64" in f: continue
            out.append((f, ["-DRACRYPT_USE_ASM", "-I" + REPO + "/src/include", "-O2", "-g"]))
    return out

def clean_env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "CC", "CXX"): e.pop(k, None)
    return e

def tree_key():
    """Digest of everything that goes into the executables: all files of the library tree (contents, not dates), the harness, this script."""
    h = hashlib.sha256()
    def add(root, want):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if not x.startswith(".") and x not in ("__pycache__", "CMakeFiles", "_build"))
            for f in sorted(fs):
                if not want(f): continue
                p = os.path.join(d, f)
                try: c = open(p, "rb").read()
                except OSError: continue
                h.update(("%s %d\n" % (os.path.relpath(p, root), len(c))).encode()); h.update(c)
    add(REPO, lambda f: re.search(r"\.(c|h|cc|cpp|hpp|inc|asm|s|S|cmake|in|def|txt)$", f) is not None and f != "CMakeCache.txt")
    add(os.path.join(HERE, "sim"), lambda f: True)
    h.update(open(os.path.join(HERE, "build.py"), "rb").read())
    h.update(REPO.encode())
    return h.hexdigest()[:20]

def harness_key():
    """What the harness objects depend on: the harness and the library's headers."""
    h = hashlib.sha256(open(os.path.join(HERE, "build.py"), "rb").read())
    for f in sorted(glob.glob(os.path.join(HERE, "sim", "*"))) + sorted(glob.glob(REPO + "/src/**/*.h", recursive=True)):
        h.update(f.replace(REPO, "").encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def build(variants, root=None, jobs=8):
    """Executables of the current tree. Kept under the digest of their inputs, so a changed tree is always compiled anew and
    checks running at the same time do not disturb each other."""
    root = root or os.path.join(HERE, "build")
    os.makedirs(root, exist_ok=True)
    bdir = os.path.join(root, tree_key())
    with open(os.path.join(root, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        old = [d for d in glob.glob(os.path.join(root, "*")) if os.path.isdir(d) and d != bdir and time.time() - os.stat(d).st_mtime > 7200]
        for d in old: shutil.rmtree(d, ignore_errors=True)
        os.makedirs(bdir, exist_ok=True)
        os.utime(bdir)
    with open(bdir + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        miss = [v for v in variants if not os.path.exists(os.path.join(bdir, v + ".done"))]
        if miss:
            compile_variants(miss, bdir, jobs)
            for v in miss: open(os.path.join(bdir, v + ".done"), "w").close()
        os.utime(bdir)
    return {v: os.path.join(bdir, "sim_" + v) for v in variants}

def compile_variants(variants, bdir, jobs):
    srcs = lib_sources(bdir)
    tasks, exes = [], {}
    redef = os.path.join(bdir, "seam.txt")
    with open(redef, "w") as f:
        for s in SEAM: f.write("%s sim_%s\n" % (s, s))
    hk = harness_key()
    # the header that switches digest unrolling on, with the switch off, for the alt builds
    ai = os.path.join(bdir, "altinc")
    os.makedirs(ai, exist_ok=True)
    hd0 = open(os.path.join(REPO, "src/include/racrypt.h")).read()
    with open(os.path.join(ai, "racrypt.h"), "w") as f: f.write(re.sub(r"(?m)^\s*#\s*define\s+RACRYPT_DIGEST_UNROLL\b.*$", "", hd0))
    for v in variants:
        opt, rm, add, san = VARIANTS[v]
        od = os.path.join(bdir, v)
        hd = os.path.join(os.path.dirname(bdir), "har-" + hk, v)
        os.makedirs(hd, exist_ok=True)
        os.utime(os.path.dirname(hd))
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        libo = []
        for k, (f, fl) in enumerate(srcs):
            o = os.path.join(od, "lib_%02d_%s.o" % (k, os.path.basename(f)[:-2]))
            fl = [x for x in fl if x not in rm]
            if opt is not None: fl = [x for x in fl if not re.match(r"-O|-g\d?$|-g$|-DNDEBUG", x)] + opt
            alt = ["-I" + ai] if v.startswith("alt") else []
            tasks.append(("lib", [CC] + alt + fl + ["-w", "-U_FORTIFY_SOURCE", "-fno-pie", "-c", f, "-o", o] + add, o))
            libo.append(o)
        har = []
        hf = (["-O1", "-g1", "-fsanitize=address"] if san else ["-O2", "-g1"])
        for c in ("sim", "lib", "w_sym", "w_rsa", "props", "main"):
            o = os.path.join(hd, c + ".o")
            dfs = ["-DSIM_INSTRUMENTED=%d" % (v != "ship"), '-DSIM_VARIANT="%s"' % v]
            tasks.append(("har", [CXX, "-std=c++17", "-Wall", "-fno-pie", "-I" + REPO + "/src/include"] + hf + dfs + add + ["-c", os.path.join(HERE, "sim", c + ".cc"), "-o", o], o))
            har.append(o)
        for c in ("begin", "end"):
            o = os.path.join(hd, c + ".o")
            tasks.append(("har", [CC, "-O1", "-fno-pie", "-c", os.path.join(HERE, "sim", c + ".c"), "-o", o], o))
        ro = os.path.join(hd, "ref.o")
        tasks.append(("har", [CXX, "-std=c++17", "-Wall", "-fno-pie"] + hf + ["-c", os.path.join(HERE, "sim", "ref.cc"), "-o", ro], ro))
        har.append(ro)
        exe = os.path.join(bdir, "sim_" + v)
        exes[v] = (exe, [CXX, "-no-pie"] + (["-fsanitize=address"] if san else []) + [os.path.join(hd, "begin.o")] + libo + [os.path.join(hd, "end.o")] + har + ["-lcrypto", "-lgmp", "-lm", "-o", exe])
    def one(t):
        kind, cmd, o = t
        if kind == "har":
            if os.path.exists(o): return
            t = "%s.%d" % (o, os.getpid())
            run([t if x == o else x for x in cmd], env=clean_env())
            os.rename(t, o)
            return
        run(cmd, env=clean_env())
        if kind == "lib":
            nm = run(["nm", o])
            extra = []
            undef = set(re.findall(r"^\s+U (\S+)$", nm, re.M))
            for s in UNDEF_ONLY:
                if s in undef: extra += ["--redefine-sym", "%s=sim_%s" % (s, s)]
            if "-fsanitize=thread" in cmd:
                for s in ("memcpy", "memmove", "memset"): extra += ["--redefine-sym", "%s=sim_%s" % (s, s)]
            run(["objcopy", "--redefine-syms=" + redef] + extra + [o])
    tasks.sort(key=lambda t: 0 if t[0] == "har" else 1)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, tasks))
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda v: run(exes[v][1], env=clean_env()), variants))
    for v in variants: shutil.rmtree(os.path.join(bdir, v), ignore_errors=True)

if __name__ == "__main__":
    print(build(sys.argv[1:] or list(VARIANTS)))
