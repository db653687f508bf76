"""Build and run machinery shared by all checks (standard library only)."""
import hashlib, json, os, re, shutil, subprocess, sys, time, fnmatch, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
NCPU = max(2, min(8, os.cpu_count() or 8))
CXX = os.environ.get("CXX", "g++")

FLAVOURS = {
    "rel":  ["-O1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-fsanitize-address-use-after-scope", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "ord":  ["-O1", "-g1"],          # delaying OpenMP run-time without ThreadSanitizer
    "pat":  ["-O1", "-ftrivial-auto-var-init=pattern"],
    "zero": ["-O1", "-ftrivial-auto-var-init=zero"],
    "vg":   ["-O1", "-g1", "-fno-inline-functions"],
}

class HarnessError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out

def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

class Variant:
    """One compiled configuration of the repository: (dim, spline degree, flavour)."""
    def __init__(self, dim, spline, flavour, vdb=False, with_save=True, extra=()):
        self.dim, self.spline, self.flavour, self.vdb, self.extra = dim, spline, flavour, vdb, tuple(extra)
        self.name = f"{dim}d{'q' if spline == 2 else 'c'}-{flavour}" + ("-vdb" if vdb else "")
        src = os.path.join(REPO, "src")
        files = tree_files(src) + tree_files(os.path.join(VERIF, "standins"))
        self.key = hash_files(files, self.name + " ".join(FLAVOURS[flavour]) + " ".join(self.extra))
        self.dir = os.path.join(BUILD, self.name + "-" + self.key)
        self.src = os.path.join(self.dir, "src")
        self.flags = ["-std=c++17", "-w", "-fopenmp", "-DMATTER_MONITOR", "-I/usr/include/eigen3",
                      f'-DSRC_DIR="{self.src}"'] + FLAVOURS[flavour] + list(self.extra)
        if dim == 3:
            self.flags.append("-DTHREEDIM")

    def prepare(self):
        if os.path.exists(os.path.join(self.dir, ".ready")):
            return
        tmp = self.dir + f".tmp{os.getpid()}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(tmp, "src"))
        shutil.copytree(os.path.join(VERIF, "standins", "deps"), os.path.join(tmp, "deps"))
        tp = os.path.join(tmp, "src", "tools.hpp")
        t = open(tp).read()
        t2, n = re.subn(r"(#\s*define\s+SPLINEDEG\s+)\d+", lambda m: m.group(1) + str(self.spline), t, count=1)
        if n != 1:
            raise HarnessError("no SPLINEDEG setting in tools.hpp")
        t2 = re.sub(r"(?m)^\s*#\s*define\s+THREEDIM\b.*$", "", t2)
        open(tp, "w").write(t2)
        os.makedirs(os.path.join(tmp, "obj"))
        open(os.path.join(tmp, ".ready"), "w").close()
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(BUILD, exist_ok=True)
        os.rename(tmp, self.dir)

    def repo_units(self):
        out = []
        for f in tree_files(self.src):
            if f.endswith(".cpp") and os.path.basename(f) != "mpm.cpp":
                out.append(f)
        return out

    def obj_for(self, f):
        return os.path.join(self.dir, "obj", os.path.relpath(f, self.src).replace("/", "_") + ".o")

def run_cc(cmd, out):
    tmp = out + f".tmp{os.getpid()}"
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("compilation failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:])
    os.replace(tmp, out)

def build(jobs):
    """jobs: list of (variant, harness source name). Returns {(variant.name, harness): exe}."""
    exes, units, links = {}, {}, []
    for v, h in jobs:
        v.prepare()
        objs = []
        for f in v.repo_units():
            o = v.obj_for(f)
            objs.append(o)
            if not os.path.exists(o):
                units[o] = [CXX] + v.flags + ["-c", f]
        hsrc = os.path.join(VERIF, "harness", "props", h + ".cpp")
        hk = hash_files(tree_files(os.path.join(VERIF, "harness")) + tree_files(os.path.join(VERIF, "gomp")))
        ho = os.path.join(v.dir, "obj", f"H_{h}-{hk}.o")
        if not os.path.exists(ho):
            units[ho] = [CXX] + v.flags + ["-I" + v.src, "-I" + os.path.join(VERIF, "harness"), "-c", hsrc]
        exe = os.path.join(v.dir, f"{h}-{hk}.exe")
        exes[(v.name, h)] = exe
        lobjs = [ho] + objs
        lflags = list(v.flags)
        if v.flavour in ("tsan", "ord"):
            go = os.path.join(v.dir, "obj", f"gomp-{hk}.o")
            if not os.path.exists(go):
                units[go] = ["gcc", "-O1", "-g1"] + (["-fsanitize=thread"] if v.flavour == "tsan" else []) + ["-c", os.path.join(VERIF, "gomp", "gomp.c")]
            lobjs.append(go)
            lflags = [x for x in lflags if x != "-fopenmp"] + ["-pthread"]
        libs = ["-lopenvdb", "-ltbb", "-lImath"] if v.vdb else []
        links.append((exe, [CXX] + [f for f in lflags if not f.startswith("-D")] + lobjs + libs))
    # longest first: plasticity.cpp and the harness dominate
    order = sorted(units.items(), key=lambda kv: (not ("plasticity" in kv[0] or "/H_" in kv[0]), kv[0]))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(run_cc, cmd, o) for o, cmd in order]:
            f.result()
    for exe, cmd in links:
        if not os.path.exists(exe):
            run_cc(cmd, exe)
    return exes

def san_key(text):
    """Stable key of a sanitizer report: kind + first frames in the repository's functions (no line numbers)."""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m: kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]+)", text)
    if m2 and not m:
        kind = "ubsan:" + re.sub(r"[-+]?\d[\w.+-]*", "N", m2.group(1))[:70]
    m4 = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid (?:read|write)|Syscall param|Argument|Source and destination|Jump to)", text)
    if m4: kind = "valgrind:" + m4.group(1)
    if "ThreadSanitizer: data race" in text: kind = "tsan:data-race"
    if "Assertion" in text and "glibcxx" in text.lower(): kind = "glibcxx-assert"
    m3 = re.search(r"Assertion '([^']*)' failed", text)
    if m3: kind = "assert:" + m3.group(1)[:60]
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([A-Za-z_][\w:~]*)", text) + re.findall(r"(?:at|by) 0x[0-9A-F]+: ([A-Za-z_][\w:~]*)", text)
    fr = [f for f in fr if f.startswith("Simulation::") or f.startswith("MCC") or f.startswith("limited") or f.startswith("Object")]
    if fr: kind += ":" + fr[0]
    return kind

class Shard:
    def __init__(self, exe, variant, harness, first, stride, count):
        self.exe, self.variant, self.harness = exe, variant, harness
        self.first, self.stride, self.count = first, stride, count

def cpu_of(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None

def run_proc(cmd, env, timeout, cwd, stop=None):
    """Runs a shard. Returns (rc, stderr, seconds); rc 'timeout', 'stopped' (stop() became true) or 'deadlock' (a minute without using the CPU)."""
    t0 = time.time()
    ef = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=cwd, start_new_session=True)
    why, idle0, cpu0 = None, time.time(), 0.0
    delay = 0.02
    while p.poll() is None:
        time.sleep(delay); delay = min(0.5, delay * 1.5)
        now = time.time()
        c = cpu_of(p.pid)
        if c is not None and c > cpu0 + 0.2:
            cpu0, idle0 = c, now
        if now - t0 > timeout: why = "timeout"
        elif now - idle0 > 60: why = "deadlock"
        elif stop and stop(): why = "stopped"
        if why:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait()
            break
    ef.seek(0, 2); n = ef.tell(); ef.seek(max(0, n - 20000))
    err = ef.read().decode("utf8", "replace"); ef.close()
    return why or p.returncode, err, time.time() - t0

class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.viol, self.counts, self.distinct, self.samples = [], {}, set(), []
        self.evaluations = self.skipped = 0
        self.inconclusive = []
        self.t0 = time.time()
        self.deadline = self.t0 + (840 if tier == "quick" else 6 * 3600)
        self.notes = {}
        self.digests = {}

    def env(self, extra=None):
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
                  "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0:history_size=4:suppressions=" + os.path.join(VERIF, "gomp", "tsan.supp"),
                  "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive", "OMP_NUM_THREADS": "4", "LC_ALL": "C"})
        e.pop("MALLOC_PERTURB_", None)
        if extra: e.update(extra)
        return e

    def enough(self):
        """A quick check that already has witnesses does not explore for longer than a few minutes."""
        return self.tier == "quick" and bool(self.viol) and time.time() - self.t0 > 240

    def one(self, exe, variant, harness, first, stride, count, env=None, timeout=800, prefix=(), tag="", replay=False):
        """Run a shard; returns list of reports; handles crashes by isolating the case."""
        k = 0
        cur = first
        while cur < count:
            if self.enough(): return
            k += 1
            out = os.path.join(self.scratch, f"{harness}-{variant}-{tag}-{first}-{k}.json")
            sd = os.path.join(self.scratch, f"d-{harness}-{variant}-{tag}-{first}-{k}")
            os.makedirs(sd, exist_ok=True)
            left = max(20, min(timeout, self.deadline - time.time()))
            rc, err, dt = run_proc(list(prefix) + [exe, out, str(self.seed), self.tier, sd, str(cur), str(stride), str(count)] + (["r"] if replay else []),
                                   self.env(env), left, sd, self.enough)
            shutil.rmtree(sd, ignore_errors=True)
            if rc == "stopped": return
            ok = rc == 0 and os.path.exists(out)
            if os.path.exists(out):
                self.merge(json.load(open(out)), variant, harness, tag)
            if ok:
                if replay: sys.stderr.write(err)
                return
            prog = open(out + ".progress").read().split("\n") if os.path.exists(out + ".progress") else []
            cases = [int(l.split()[1]) for l in prog if l.startswith("CASE ")]
            hang = "HANG" in prog
            if not cases:
                raise HarnessError(f"harness {harness} {variant} failed to start: rc={rc}\n{err[-3000:]}")
            bad = cases[-1]
            if rc == "timeout":
                self.inconclusive.append(f"{harness} {variant} shard {first} timed out at case {bad}")
                return
            # re-run the failing case alone to confirm
            out2 = out + ".re"
            sd2 = sd + "r"; os.makedirs(sd2, exist_ok=True)
            rc2, err2, _ = run_proc(list(prefix) + [exe, out2, str(self.seed), self.tier, sd2, str(bad), "1", str(bad + 1)], self.env(env), left, sd2, self.enough)
            shutil.rmtree(sd2, ignore_errors=True)
            # hot spot: the cases before the crash are not in any report; run them again in halves
            if rc2 == 0:
                if k > 3:
                    self.inconclusive.append(f"{harness} {variant} case {bad}: crash rc={rc} not reproduced")
                    return
                if os.path.exists(out2): self.merge(json.load(open(out2)), variant, harness, tag)
                self.inconclusive.append(f"{harness} {variant} case {bad}: rc={rc} not reproduced alone; {err[-300:]}")
                if rc in ("deadlock", -9, 77):   # a stall, an out-of-memory kill or an exhausted CPU budget that does not come back: not a verdict
                    cur = bad + stride
                    continue
                self.viol.append({"key": "crash-unstable:" + san_key(err), "idx": bad, "variant": variant, "harness": harness, "tag": tag,
                                  "detail": f"exit {rc} in sequence from case {cur}: " + err[-1500:]})
            else:
                hang2 = os.path.exists(out2 + ".progress") and "HANG" in open(out2 + ".progress").read()
                if rc2 == "stopped": return
                if rc2 == "timeout":
                    self.inconclusive.append(f"{harness} {variant} case {bad} timed out when re-run")
                    return
                key = "hang" if (hang and hang2) else "deadlock" if rc2 == "deadlock" else san_key(err2 or err)
                if key == "crash": key += f":rc{rc2}"
                self.viol.append({"key": key, "idx": bad, "variant": variant, "harness": harness, "tag": tag,
                                  "detail": ("CPU budget of the case exhausted twice" if key == "hang" else (err2 or err)[-2500:])})
            # cases between cur and bad ran but were not reported: re-run them, then go on after bad
            if bad > cur:
                self.one(exe, variant, harness, cur, stride, bad, env, timeout, prefix, tag + f"p{k}")
            cur = bad + stride
            if k > 6:      # enough witnesses
                return

    def merge(self, r, variant, harness, tag):
        self.evaluations += r["evaluations"]; self.skipped += r["skipped"]
        for a, b in r["counts"].items(): self.counts[a] = self.counts.get(a, 0) + b
        self.distinct.update(variant.split("-")[0] + d for d in r["distinct"])
        for s in r["samples"]:
            if len(self.samples) < 12: self.samples.append(f"[{variant}] {s}")
        for k, d in r.get("digests", {}).items():
            self.digests.setdefault((variant, harness, tag.split("p")[0]), {})[int(k)] = d
        for v in r["violations"]:
            v = dict(v); v.update(variant=variant, harness=harness, tag=tag); self.viol.append(v)

    def run_jobs(self, jobs):
        """jobs: list of dict(variant=Variant, harness=, cases=, shards=, env=, prefix=, tag=)"""
        exes = build([(j["variant"], j["harness"]) for j in jobs])
        log(f"[{self.prop}] built {len(jobs)} job(s) in {time.time()-self.t0:.1f}s")
        tasks = []
        for j in jobs:
            n = j["cases"]; sh = min(j.get("shards", NCPU), max(1, n))
            for s in range(sh):
                tasks.append((n / sh, exes[(j["variant"].name, j["harness"])], j, s, sh))
        tasks.sort(key=lambda t: -t[0])
        par = NCPU
        errs = []
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.one, exe, j["variant"].name, j["harness"], s, sh, j["cases"], j.get("env"), j.get("timeout", 800), j.get("prefix", ()), j.get("tag", ""))
                  for _, exe, j, s, sh in tasks]
            for f in fs:
                f.result()

    def finish(self, level, rule, assumptions, min_eval=1, required=()):
        known = load_known()
        uniq, kf = {}, {}
        for v in self.viol:
            m = match_known(known, self.prop, v)
            if m is not None:
                kf.setdefault(m["id"], (m, v))
                continue
            k = v["key"] + "@" + v["variant"]
            if k not in uniq: uniq[k] = v
        rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + "-"): os.remove(os.path.join(rdir, f))
        lines = []
        for n, v in enumerate(list(uniq.values())[:8]):
            p = os.path.join(rdir, f"{self.prop}-{n}.json")
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, **v}, open(p, "w"), indent=1)
            lines.append(f"VIOLATION property={self.prop} replay={p}")
            log(f"[{self.prop}] {v['key']} {v['variant']} case {v['idx']}: {v['detail'][:400]}")
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": rule,
               "samples": self.samples[:8], "skipped_ambiguous": self.skipped, "observed": dict(sorted(self.counts.items()))}
        if self.inconclusive: cov["inconclusive"] = self.inconclusive[:10]
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(uniq)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for m, v in kf.values():
            print(f"KNOWN-FINDING: property={self.prop} {m['what']}")
        if lines:
            print("\n".join(lines)); return 1
        missing = [r for r in required if self.counts.get(r, 0) == 0]
        if self.evaluations < min_eval or missing:
            log(f"[{self.prop}] observed too little: evaluations={self.evaluations}, missing={missing}, inconclusive={self.inconclusive[:3]}")
            return 2
        print(f"{self.prop}: held on {self.evaluations} evaluations ({len(self.distinct)} distinct non-trivial), {time.time()-self.t0:.1f}s"
              + (f", inconclusive: {len(self.inconclusive)}" if self.inconclusive else ""))
        return 0

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "open"] if os.path.exists(p) else []

def match_known(known, prop, v):
    for k in known:
        if k["property"] != prop: continue
        if not fnmatch.fnmatchcase(v["key"], k["key"]): continue
        if "variant" in k and not fnmatch.fnmatchcase(v["variant"], k["variant"]): continue
        if "detail_re" in k and not re.search(k["detail_re"], v["detail"]): continue
        return k
    return None
