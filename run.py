#!/usr/bin/env python3
"""run.py check PROP [--tier quick|thorough] [--seed N] | run.py replay FILE

Builds the simulator from /repo's working tree, runs seeded simulations of one
property on all cores, confirms, minimises and writes every failure as a replay
file, and rewrites evidence/PROP.json."""
import ctypes, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build as B
HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = 8
HANG_S = 200.0
ASAN = "detect_leaks=0:detect_stack_use_after_return=0:exitcode=99:allocator_may_return_null=1"

# property -> [(variant, quick seconds, thorough seconds)]
DEFAULT = [("fast", 20, 260), ("asan", 14, 160), ("altfast", 7, 60), ("alt", 5, 40)]
PHASES = {
    "C01": [("fast", 18, 260), ("asan", 12, 160), ("ship", 36, 300), ("altfast", 6, 60), ("alt", 4, 40)],
    "C03": [("fast", 16, 120), ("asan", 12, 120), ("ship", 60, 500), ("altfast", 6, 40)],
    "C04": [("fast", 20, 260), ("race", 14, 200), ("asan", 14, 160), ("altfast", 7, 60), ("alt", 5, 40)],
    "C05": [("fast+altfast", 26, 300), ("fast+mid", 16, 150), ("asan+alt", 20, 200)],
    "C12": DEFAULT + [("mid", 7, 60)],
    "C15": DEFAULT + [("mid", 7, 60)],
    "C18": DEFAULT + [("mid", 7, 60)],
    "C16": [("ship", 22, 220), ("fast", 14, 120), ("asan", 12, 100), ("altfast", 6, 40)],
    "C08": [("fast", 30, 300), ("asan", 16, 160), ("altfast", 8, 60)],
    "C10": [("fast", 34, 300), ("asan", 12, 120), ("altfast", 14, 100), ("mid", 7, 60)],
}
LEVEL = {"C06": "fault_enumeration"}

def noaslr():
    try: ctypes.CDLL(None).personality(0x0040000)
    except Exception: pass

def limits():
    noaslr()

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = int(tier == "thorough")
        self.env = {k: v for k, v in os.environ.items() if not k.startswith(("SIM_", "ASAN_", "LD_PRELOAD", "GLIBC_TUNABLES", "MALLOC_"))}
        self.env["ASAN_OPTIONS"] = ASAN
        self.tmp = tempfile.mkdtemp(prefix="rasim.")
        self.exes = {}
        self.notes = []
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.tmp, ignore_errors=True)
    def sim(self, variant, args, timeout=HANG_S):
        return subprocess.run([self.exes[variant]] + [str(a) for a in args], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)

# ---------------------------------------------------------------- known findings
def known():
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\S+) (.*)", l.strip())
        if m: out.append((m.group(1), m.group(2), m.group(3)))
    return out

def probe(c):
    """A listed defect in the DES table is part of the reference model; see DESIGN.md."""
    listed = [k for k in known() if k[1] == "des-s1-63"]
    if not listed: return
    v = next(iter(c.exes))
    try:
        t = c.sim(v, ["probe"], 60).stdout.decode().split()
        quirk, m0 = int(t[1]), int(t[2])
    except Exception:
        quirk, m0 = 0, 0
    if m0 != 64: c.env["SIM_DES"] = "1"
    for p, mt, what in listed:
        if p == c.prop and quirk: print("KNOWN-FINDING: property=%s %s" % (p, what))

# ---------------------------------------------------------------- classification
def classify(prop, rc, out, err):
    """-> (class, hash, message) or None"""
    if rc == 77:
        m = re.search(r"VIOL (\{.*\})", out)
        if m:
            try: j = json.loads(m.group(1)); return j["cls"], j["hash"], j["msg"]
            except ValueError: pass
        return prop + ":unparsed", "", "violation"
    if rc == 99:
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
        kind = m.group(1) if m else "error"
        fn = "harness"
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
            if "/src/" in m.group(2) and "/verif/" not in m.group(2): fn = m.group(1); break
        return "%s:memory:%s:%s" % (prop, kind, fn), "", "%s in %s" % (kind, fn)
    if rc < 0:
        s = signal.Signals(-rc).name
        return "%s:crash:%s" % (prop, s), "", "the process was ended by %s" % s
    return None

def execute(c, variant, text, timeout=HANG_S):
    """Run one plan in a fresh process. -> (class or None, hash, message, stdout, rhash)"""
    fd, path = tempfile.mkstemp(dir=c.tmp, suffix=".plan")
    os.write(fd, text.encode()); os.close(fd)
    vp = path + ".viol"
    try:
        p = c.sim(variant, ["exec", path, "trace", vp], timeout)
    except subprocess.TimeoutExpired:
        return c.prop + ":hang:wall", "", "no end after %d s" % timeout, "", ""
    finally:
        os.unlink(path)
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    for f in (vp, vp + ".plan"):
        if os.path.exists(f):
            if f.endswith(".plan"): c.realized = open(f).read()
            os.unlink(f)
    m = re.search(r"HASH (\w+) RHASH (\w+)", out)
    if p.returncode == 0: return None, m.group(1), "", out, m.group(2)
    k = classify(c.prop, p.returncode, out, err)
    if not k: raise RuntimeError("simulator failed (%d): %s" % (p.returncode, (out + err)[-2000:]))
    return k[0], k[1], k[2], out, ""

# what a failing plan is judged by: a plain run, or two variants compared (C05)
def judge(c, variant, text, timeout=HANG_S):
    if "+" not in variant: return execute(c, variant, text, timeout)
    a, b = variant.split("+")
    ra = execute(c, a, retarget(text, a), timeout)
    if ra[0]: return ra
    rb = execute(c, b, retarget(text, b), timeout)
    if rb[0]: return rb
    if ra[4] != rb[4]:
        op = first_difference(ra[3], rb[3])
        return c.prop + ":variants:" + (op.split() or ["?"])[0], ra[1], "the %s and %s builds differ: %s" % (a, b, op), ra[3] + "\n" + rb[3], ""
    return ra

def retarget(text, variant): return re.sub(r"(?m)^variant .*$", "variant " + variant, text)

def first_difference(a, b):
    f = lambda t: [re.sub(r"^EV \d+ t(\d+) s\d+ ", r"", l) for l in t.splitlines() if l.startswith("EV ")]
    for x, y in zip(f(a), f(b)):
        if x != y: return "%s / %s" % (x, y)
    return "length"

# ---------------------------------------------------------------- minimisation
def minimise(c, variant, text, cls, budget):
    end = time.time() + budget
    def ok(lines):
        try: return judge(c, variant, "\n".join(lines) + "\n", 60)[0] == cls
        except Exception: return False
    lines = [l for l in text.splitlines() if l.strip()]
    fixed = lambda l: l.split()[0] in ("prop", "seed", "variant", "explicit_sw")
    pool = ThreadPoolExecutor(WORKERS)
    tried = 0
    n = 2
    while time.time() < end:
        idx = [i for i, l in enumerate(lines) if not fixed(l)]
        if not idx: break
        size = max(1, len(idx) // n)
        chunks = [set(idx[i:i + size]) for i in range(0, len(idx), size)]
        hit = False
        for k in range(0, len(chunks), WORKERS):
            if time.time() > end: break
            cand = [[l for i, l in enumerate(lines) if i not in ch] for ch in chunks[k:k + WORKERS]]
            res = list(pool.map(ok, cand)); tried += len(cand)
            for r, cl in zip(res, cand):
                if r: lines = cl; hit = True; break
            if hit: break
        if hit: n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(idx), n * 2)
    # smaller arguments
    again = True
    while again and time.time() < end:
        again = False
        for i in range(len(lines)):
            t = lines[i].split()
            st = {"op": 3, "fault": 2, "cfg": 2}.get(t[0])
            if not st: continue
            for j in range(st, len(t)):
                if time.time() > end: break
                v = int(t[j])
                opts = []
                for w in (0, 1, v // 16, v // 2, v - 1):
                    if 0 <= w < abs(v) and w not in opts: opts.append(w)
                if not opts: continue
                cand = []
                for w in opts:
                    u = list(t); u[j] = str(w)
                    cand.append(lines[:i] + [" ".join(u)] + lines[i + 1:])
                res = list(pool.map(ok, cand)); tried += len(cand)
                for r, cl in zip(res, cand):
                    if r: lines = cl; t = lines[i].split(); again = True; break
    pool.shutdown()
    return "\n".join(lines) + "\n", tried

# ---------------------------------------------------------------- one phase of parallel workers
class Worker:
    def __init__(self, c, variant, base, w, stride, cnt, secs, tag):
        self.c, self.variant, self.w = c, variant, w
        self.out = os.path.join(c.tmp, "%s.%d" % (tag, w))
        self.so, self.se = open(self.out + ".out", "wb"), open(self.out + ".err", "wb")
        self.p = subprocess.Popen([c.exes[variant], "batch", c.prop, str(base), str(w), str(stride), str(cnt), str(secs), self.out, str(c.thorough)],
                                  env=c.env, stdout=self.so, stderr=self.se, preexec_fn=limits)
        self.last, self.when = None, time.time()
        self.killed = False
    def status(self):
        try: return struct.unpack("<4Q", open(self.out + ".status", "rb").read(32))
        except Exception: return None
    def poll(self):
        rc = self.p.poll()
        if rc is not None: return rc
        s = self.status()
        if s and s[2] != self.last: self.last, self.when = s[2], time.time()
        if time.time() - self.when > HANG_S:
            self.p.kill(); self.p.wait(); return "hang"
        return None
    def stop(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait(); self.killed = True
        self.so.close(); self.se.close()
    def text(self, ext):
        try: return open(self.out + ext, "rb").read().decode(errors="replace")
        except OSError: return ""

def run_workers(ws):
    """-> (worker, kind) of the first failure or None; all workers ended."""
    bad = None
    live = list(ws)
    while live and not bad:
        time.sleep(0.05)
        for w in list(live):
            rc = w.poll()
            if rc is None: continue
            live.remove(w)
            if rc != 0 and not bad: bad = (w, rc)
    for w in ws: w.stop()
    return bad

def read_runs(w):
    d = {}
    for l in w.text(".runs").splitlines():
        t = l.split()
        if len(t) == 5: d[int(t[0])] = t[1:]
    return d

class Totals:
    def __init__(self):
        self.runs = self.steps = self.sim_ns = 0
        self.counts, self.sigs, self.nontriv = {}, set(), set()
        self.cov = {}
        self.per_variant = {}
        self.wall = 0.0
    def add(self, w):
        runs = read_runs(w)
        for i, t in runs.items():
            self.sigs.add(t[1])
            if t[2] == "1": self.nontriv.add(t[1])
        self.runs += len(runs)
        pv = self.per_variant.setdefault(w.variant, [0, 0])
        pv[0] += len(runs)
        try: j = json.loads(w.text(".stats"))
        except ValueError: j = None
        if j:
            self.steps += j["steps"]; self.sim_ns += j["sim_ns"]; pv[1] += j["steps"]
            for k, v in j["counts"].items():
                if k.startswith("max."): self.counts[k] = max(v, self.counts.get(k, 0))
                else: self.counts[k] = self.counts.get(k, 0) + v
        cv = self.cov.setdefault(w.variant, set())
        cv.update(w.text(".cov").split())

def report(c, variant, text, cls, msg, hsh):
    """Confirm, minimise, write the replay file. -> path, or None if it does not repeat."""
    c.realized = None
    r1 = judge(c, variant, text)
    if variant in ("fast", "ship", "altfast", "mid", "race") and (r1[0] is None or r1[0] != cls) and "asan" in c.exes:
        for v in ("asan", "alt"):
            if v in c.exes:
                r = judge(c, v, retarget(text, v))
                if r[0]: variant, text, cls, msg, r1 = v, retarget(text, v), r[0], r[2], r; break
    if r1[0] is None: return None
    cls, msg, hsh = r1[0], r1[2], r1[1]
    if c.realized and "+" not in variant:
        r2 = judge(c, variant, c.realized)
        if r2[0] == cls: text = c.realized
    r2 = judge(c, variant, text)
    if r2[0] is None: return None
    tried = 0
    small = text
    if not cls.endswith(":hang:wall"):
        small, tried = minimise(c, variant, text, cls, 60 if c.thorough else 40)
    fin = judge(c, variant, small)
    if fin[0] != cls: small, fin = text, judge(c, variant, text)
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    seed = re.search(r"(?m)^seed (\d+)", small)
    path = os.path.join(d, "%s-%s.json" % (c.prop, seed.group(1) if seed else "x"))
    with open(path, "w") as f:
        json.dump({"property": c.prop, "variant": variant, "class": fin[0] or cls, "message": fin[2] or msg, "hash": fin[1], "env": {k: v for k, v in c.env.items() if k.startswith("SIM_")},
                   "plan": small.splitlines(), "original_plan": text.splitlines(), "minimiser_runs": tried,
                   "trace": [l for l in fin[3].splitlines() if l.startswith("EV ")][-200:]}, f, indent=1)
    return path, fin[0] or cls, fin[2] or msg

def check(prop, tier, seed):
    t0 = time.time()
    phases = PHASES.get(prop, DEFAULT)
    need = []
    for v, _, _ in phases:
        for x in v.split("+"):
            if x not in need: need.append(x)
    need.sort(key=lambda v: "asan alt fast altfast mid ship race".split().index(v))
    with Ctx(prop, tier, seed) as c:
        c.exes = B.build(need)
        # quick answers come from the uninstrumented builds first
        build_s = time.time() - t0
        st = c.sim(need[0], ["selftest"], 120)
        if st.stdout.decode().strip() != "ok":
            print("reference self-test failed: %s" % st.stdout.decode()); return 2
        probe(c)
        T = Totals()
        found = None
        det = {"sampled": 0, "equal": 0}
        # committed regression plans of this property
        for f in sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.plan"))):
            txt = open(f).read()
            m = re.search(r"(?m)^variant (\S+)", txt)
            v = m.group(1)
            if any(x not in c.exes for x in v.split("+")): continue
            r = judge(c, v, txt)
            T.counts["corpus.plans"] = T.counts.get("corpus.plans", 0) + 1
            if r[0]: found = (v, txt, r[0], r[2], r[1]); break
        for k, (variant, q, th) in enumerate(phases):
            if found: break
            secs = th if c.thorough else q
            secs = secs * float(os.environ.get("RASIM_SCALE", "1"))
            base = seed * 1000 + k
            tw = time.time()
            pair = variant.split("+")
            per = WORKERS // len(pair)
            ws = [Worker(c, v, base, w, per, 1 << 40, secs, "p%d%s" % (k, v)) for v in pair for w in range(per)]
            bad = run_workers(ws)
            T.wall += time.time() - tw
            for w in ws: T.add(w)
            if bad:
                w, rc = bad
                s = w.status()
                text = c.sim(w.variant, ["gen", prop, s[1], c.thorough, s[0]], 120).stdout.decode()
                if rc == "hang":
                    r = execute(c, w.variant, text)
                    if r[0] is None: c.notes.append("run %d (seed %d) was slow on this machine" % (s[0], s[1])); continue
                    found = (w.variant, text, r[0], r[2], r[1])
                else:
                    kd = classify(prop, rc, w.text(".out"), w.text(".err"))
                    if not kd:
                        print("worker failed (%s): %s" % (rc, (w.text(".out") + w.text(".err"))[-3000:])); return 2
                    found = (w.variant, text, kd[0], kd[2], kd[1])
                break
            if len(pair) == 2:
                A, Bm = {}, {}
                for w in ws: (A if w.variant == pair[0] else Bm).update(read_runs(w))
                both = sorted(set(A) & set(Bm))
                T.counts["variants.compared"] = T.counts.get("variants.compared", 0) + len(both)
                for i in both:
                    if A[i][3] != Bm[i][3]:
                        text = None
                        sd = run_seed_of(c, pair[0], base, i)
                        text = c.sim(pair[0], ["gen", prop, sd, c.thorough, i], 120).stdout.decode()
                        found = (variant, text, prop + ":variants", "the %s and %s builds give different results" % tuple(pair), A[i][0])
                        break
                if found: break
            # determinism: the first runs again, in other processes and with another number of workers
            v = pair[0]
            first = {}
            for w in ws:
                if w.variant == v: first.update(read_runs(w))
            n = 24 if v != "ship" or prop not in ("C01", "C03") else 2
            ws2 = [Worker(c, v, base, w, 3, max(1, n // 3), 20, "d%d%s" % (k, v)) for w in range(3)]
            if run_workers(ws2):
                print("a run that passed failed when repeated; see DESIGN.md (determinism)"); return 2
            for w in ws2:
                for i, t in read_runs(w).items():
                    if i in first:
                        det["sampled"] += 1
                        det["equal"] += t[0] == first[i][0]
        rc = 0
        if found:
            r = report(c, *found)
            if r is None:
                print("failure %s (%s) does not repeat in a fresh process; plan:\n%s" % (found[2], found[3], found[1][:2000])); return 2
            path, cls, msg = r
            for p, mt, what in known():
                if p == prop and mt != "des-s1-63" and re.fullmatch(mt, cls):
                    print("KNOWN-FINDING: property=%s %s" % (prop, what)); break
            else:
                print("%s: %s" % (cls, msg))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                rc = 1
        elif det["equal"] != det["sampled"]:
            print("determinism: %d of %d repeated runs differ" % (det["sampled"] - det["equal"], det["sampled"]))
            rc = 2
        evidence(c, T, det, rc, time.time() - t0, build_s, phases)
        return rc

def run_seed_of(c, variant, base, index):
    return int(c.sim(variant, ["seed", c.prop, base, index], 30).stdout.decode())

REAL = "all of racrypt as the working tree has it (ciphers, digests, generator, big numbers, RSA, ASN.1), compiled from its own sources"
STUB = "malloc/free family (simulated heap with failure injection, junk-filled blocks, ownership tracking), /dev/urandom (open/read/close), clocks, processor feature report, thread scheduling (cooperative tasks switched at seeded basic-block edges), assertion failure"

def evidence(c, T, det, rc, wall, build_s, phases):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    try:
        v = next(iter(c.exes))
        for i in (0, 1):
            sd = run_seed_of(c, v, c.seed * 1000, i)
            samples.append(c.sim(v, ["gen", c.prop, sd, c.thorough, i], 60).stdout.decode()[:1500])
    except Exception as e:
        samples.append("unavailable: %r" % (e,))
    hours = max(T.wall, 1e-9) / 3600
    faults = {k[6:]: v for k, v in sorted(T.counts.items()) if k.startswith("fault.")}
    rest = {k: v for k, v in sorted(T.counts.items()) if not k.startswith("fault.")}
    ev = {
        "property": c.prop, "tier": c.tier, "seed": c.seed, "level": LEVEL.get(c.prop, "exploration"),
        "coverage": {
            "evaluations": T.runs, "distinct_nontrivial": len(T.nontriv),
            "rule": "one evaluation is one simulated run of one seed (a generated plan: operations, their arguments, environment, faults, preemptions); distinct means a different digest of the complete event history (C04: of the realised schedule as well); non-trivial means at least one fault, forced value, environment change, split, crash/restart or preemption actually took effect in it",
            "samples": samples,
            "simulated_runs": T.runs, "seeds": T.runs, "runs_per_hour": int(T.runs / hours), "seeds_per_hour": int(T.runs / hours),
            "simulated_time_s": T.sim_ns / 1e9, "library_steps": T.steps, "step_measure": "instrumented basic-block edges executed in library code",
            "faults_injected": faults, "operations": rest,
            "distinct_histories": len(T.sigs),
            "library_edges_reached": {v: len(x) for v, x in T.cov.items()},
            "runs_per_build": {v: {"runs": a, "steps": b} for v, (a, b) in T.per_variant.items()},
            "determinism": {"runs_repeated_in_other_processes_and_worker_counts": det["sampled"], "identical": det["equal"]},
            "components_real": REAL, "components_stubbed": STUB,
            "workers": WORKERS, "search_wall_s": round(T.wall, 2), "build_wall_s": round(build_s, 2), "notes": c.notes,
        },
        "assumptions": ["the reference models in sim/ref.cc (OpenSSL and own code for primitives, GMP for integers)", "instruction-level preemption inside one basic block and weak memory effects are not simulated"],
        "wall_s": round(wall, 2), "violations": int(rc == 1),
    }
    with open(os.path.join(HERE, "evidence", c.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def replay(path):
    j = json.load(open(path))
    with Ctx(j["property"], "quick", 1) as c:
        need = j["variant"].split("+")
        c.exes = B.build(need)
        c.env.update(j.get("env", {}))
        r = judge(c, j["variant"], "\n".join(j["plan"]) + "\n")
        print(r[3])
        if r[0] is None:
            print("not reproduced: the run ends normally"); return 0
        same = r[0] == j["class"] and (not j["hash"] or r[1] == j["hash"])
        print("%s: %s (%s)" % (r[0], r[2], "identical to the recorded failure" if same else "recorded: %s %s" % (j["class"], j["hash"])))
        print("VIOLATION property=%s replay=%s" % (j["property"], path))
        return 1

def main(a):
    if len(a) >= 2 and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        if "--seed" in a: seed = int(a[a.index("--seed") + 1])
        return check(a[1], tier, seed)
    if len(a) >= 2 and a[0] == "replay": return replay(a[1])
    print(__doc__); return 2

if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
