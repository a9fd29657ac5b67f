"""Builds of /repo's working tree, running harness shards, known findings, evidence."""
import concurrent.futures as cf, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SCALE = float(os.environ.get("VERIF_SCALE", "1"))   # of the number of cases; for experiments

class HarnessError(Exception):
    pass

# ---------------------------------------------------------------- building
def pkgflags(*pk):
    c = subprocess.check_output(["pkg-config", "--cflags", *pk], text=True).split()
    l = subprocess.check_output(["pkg-config", "--libs", *pk], text=True).split()
    return [x for x in c if x != "-fopenmp"], [x for x in l if x != "-fopenmp"]

_headers_hash = None
def headers_hash():
    """Everything a source file of the library may include."""
    global _headers_hash
    if _headers_hash is None:
        h = hashlib.sha256()
        for top in ("include", "lib", "src"):
            for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
                for f in sorted(fs):
                    if f.endswith((".h", ".inc")) or (top == "lib" and "kissfft" in d and f.endswith(".h")):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _headers_hash = h.hexdigest()
    return _headers_hash

SAN = {
    "asan": ["clang", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"],
    "msan": ["clang", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"],
    "tsan": ["clang", "-O0", "-fsanitize=thread"],
    "none": ["gcc", "-O2"],
    "rel":  ["gcc", "-O3"],
    "fence": ["gcc", "-O1"],   # with the allocator of harness/guard.hpp
}
COMMON = ["-g", "-fno-omit-frame-pointer", "-fPIC", "-w"]

class Cfg:
    """A configuration of libresdet."""
    def __init__(self, name, fftw=True, coeff="F", inter="D", pixmax=None, range=None, builtin=True, readers="all", san="asan", wrap=(), omit=()):
        self.__dict__.update(locals()); del self.__dict__["self"]
    def with_(self, **kw):
        d = {k: v for k, v in self.__dict__.items()}; d.update(kw); return Cfg(**d)
    @property
    def eps(self): return 1.2e-7 if self.coeff == "F" else 1e-15
    @property
    def ieps(self): return 1.2e-7 if self.inter == "F" and self.coeff == "F" else 2.3e-16
    def spec(self, path):
        s = f"{self.name}={path};eps={self.eps};ieps={self.ieps};fftw={int(self.fftw)}"
        if self.pixmax: s += f";pixmax={self.pixmax}"
        if self.range: s += f";range={self.range}"
        return s

def repo_sources(cfg):
    src = sorted(os.path.join("lib", f) for f in os.listdir(f"{REPO}/lib") if f.endswith(".c"))
    img = sorted(f for f in os.listdir(f"{REPO}/lib/image") if f.endswith(".c"))
    ext = {"libjpeg.c", "libpng.c", "ffmpeg.c", "magickwand.c"}
    on = ext if cfg.readers == "all" else ({"libjpeg.c", "libpng.c"} if cfg.readers == "still" else {"libpng.c", "libjpeg.c", "ffmpeg.c"} if cfg.readers == "nomagick" else set())
    for f in img:
        if f in ext and f not in on: continue
        if f[:-2] in cfg.omit: continue
        src.append("lib/image/" + f)
    tr = sorted(f for f in os.listdir(f"{REPO}/lib/transform") if f.endswith(".c"))
    for f in tr:
        if f == "fftw.c" and not cfg.fftw: continue
        if f == "kiss_fft.c" and cfg.fftw: continue
        src.append("lib/transform/" + f)
    if not cfg.fftw:
        src += ["lib/kissfft/" + f for f in ("kiss_fft.c", "kiss_fftnd.c", "kiss_fftndr.c", "kiss_fftr.c")]
    return src

def cfg_flags(cfg):
    inc = [f"-I{REPO}/include", f"-I{REPO}/lib"]
    defs = ["-DRESDET_EXPORT", '-DVERSION_SUFFIX="+verif"']
    pk = []
    if cfg.readers in ("all", "still", "nomagick"):
        defs += ["-DHAVE_LIBJPEG=2", "-DHAVE_LIBPNG=1"]; pk += ["libjpeg", "libpng"]
    if cfg.readers in ("all", "nomagick"):
        defs += ["-DHAVE_FFMPEG=1"]; pk += ["libavcodec", "libavformat", "libavutil", "libswscale"]
    if cfg.readers == "all":
        defs += ["-DHAVE_MAGICKWAND=6"]; pk += ["MagickWand"]
    for o in cfg.omit: defs.append(f"-DOMIT_{o.upper()}_READER")
    if cfg.fftw: pk.append({"F": "fftw3f", "D": "fftw3", "L": "fftw3l"}[cfg.coeff])
    else:
        inc.append(f"-I{REPO}/lib/kissfft")
        if cfg.coeff in "DL": defs.append("-Dkiss_fft_scalar=double")
    if cfg.coeff != "F": defs.append(f"-DCOEFF_PRECISION={cfg.coeff}")
    if cfg.inter != "D": defs.append(f"-DINTER_PRECISION={cfg.inter}")
    if cfg.pixmax: defs.append(f"-DPIXEL_MAX={cfg.pixmax}")
    if cfg.range: defs.append(f"-DDEFAULT_RANGE={cfg.range}")
    if cfg.builtin: defs.append("-DUSE_BUILTIN_SIGNBIT")
    c, l = pkgflags(*pk) if pk else ([], [])
    return inc + defs + c, l + ["-lm"]

def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise HarnessError(f"{what} failed:\n{' '.join(cmd)}\n{r.stdout[-3000:]}")

_locks = {}
_locks_guard = threading.Lock()
def _once(path, make):
    with _locks_guard: lk = _locks.setdefault(path, threading.Lock())
    with lk:
        if os.path.exists(path):
            os.utime(path)
            return path
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = f"{path}.{os.getpid()}.{threading.get_ident()}.tmp"
        make(tmp); os.replace(tmp, path)
        return path

def compile_obj(src, flags, hh):
    key = hashlib.sha256(("\0".join(flags) + hh).encode() + open(src, "rb").read() + src.encode()).hexdigest()[:24]
    return _once(f"{BUILD}/obj/{key}.o", lambda t: _run([*flags, "-c", "-o", t, src], f"compiling {src}"))

pool = cf.ThreadPoolExecutor(JOBS)

def build_lib(cfg, shared=True):
    """Returns the path of the shared library built from the working tree with this configuration."""
    flags, libs = cfg_flags(cfg)
    cc = SAN[cfg.san] + COMMON
    hh = headers_hash()
    def one(s):
        fl = [*cc, "-std=c99" if not s.startswith("src/") else "-std=gnu99", *(["-fvisibility=hidden"] if shared else []), *flags]
        return compile_obj(f"{REPO}/{s}", fl, hh)
    objs = list(pool.map(one, repo_sources(cfg)))
    key = hashlib.sha256("\0".join(objs + cc + libs + list(cfg.wrap)).encode()).hexdigest()[:24]
    wrap = [f"-Wl,--wrap={w}" for w in cfg.wrap]
    return _once(f"{BUILD}/lib/{cfg.name}-{key}.so", lambda t: _run([*cc, "-shared", "-o", t, *objs, *wrap, *libs], f"linking {cfg.name}"))

def build_objs(cfg):
    flags, libs = cfg_flags(cfg)
    cc = SAN[cfg.san] + COMMON
    hh = headers_hash()
    return list(pool.map(lambda s: compile_obj(f"{REPO}/{s}", [*cc, "-std=c99", *flags], hh), repo_sources(cfg))), libs

def build_tool(cfg, tool):
    """A command line tool from src/, statically linked with the library's objects, as the Makefile does."""
    objs, libs = build_objs(cfg)
    flags, _ = cfg_flags(cfg)
    cc = SAN[cfg.san] + COMMON
    # with the sources there which are no tools themselves, should there ever be some
    own = [f for f in sorted(os.listdir(f"{REPO}/src")) if f == tool + ".c" or f.endswith(".c") and not re.search(rb"\bmain\s*\(", open(f"{REPO}/src/{f}", "rb").read())]
    o = [compile_obj(f"{REPO}/src/{f}", [*cc, "-std=gnu99", *flags], headers_hash()) for f in own]
    key = hashlib.sha256("\0".join(objs + o + cc + libs).encode()).hexdigest()[:24]
    return _once(f"{BUILD}/bin/{tool}-{cfg.name}-{key}", lambda t: _run([*cc, "-o", t, *o, *objs, *libs], f"linking {tool}"))

def harness_hash():
    h = hashlib.sha256()
    d = f"{VERIF}/harness"
    for f in sorted(os.listdir(d)):
        if not f.endswith((".cpp", ".hpp", ".h")): continue
        h.update(f.encode()); h.update(open(f"{d}/{f}", "rb").read())
    h.update(open(f"{REPO}/include/resdet.h", "rb").read())
    return h.hexdigest()

def build_harness(name, san="asan", libs=(), defs=()):
    """The harness executables hold no code of the library; they load builds of it."""
    cxx = {"clang": "clang++", "gcc": "g++"}[SAN[san][0]]
    fl = [cxx, "-O1" if san not in ("none", "fence") else "-O2", *SAN[san][2:], "-g", "-fno-omit-frame-pointer", "-std=c++17", "-w", f"-I{REPO}/include", f"-I{VERIF}/harness", *defs]
    key = hashlib.sha256(("\0".join(fl + list(libs)) + harness_hash() + name).encode()).hexdigest()[:24]
    return _once(f"{BUILD}/harness/{name}-{san}-{key}", lambda t: _run([*fl, "-rdynamic", "-o", t, f"{VERIF}/harness/{name}.cpp", *libs, "-ldl", "-lm", "-lpthread"], f"building {name}"))

def prune(limit=3 << 30):
    """Keeps the build cache bounded."""
    fs = []
    for d, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(d, n)
            try: st = os.stat(p); fs.append((st.st_mtime, st.st_size, p))
            except OSError: pass
    total = sum(s for _, s, _ in fs)
    for m, s, p in sorted(fs):
        if total <= limit: break
        try: os.unlink(p); total -= s
        except OSError: pass

# ---------------------------------------------------------------- running
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=2048:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:handle_abort=1:malloc_context_size=20",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "MSAN_OPTIONS": "exitcode=99:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=0:report_thread_leaks=0:second_deadlock_stack=1",
    "LSAN_OPTIONS": f"suppressions={VERIF}/vlib/lsan.supp:print_suppressions=0",
    "MAGICK_THREAD_LIMIT": "1", "OMP_NUM_THREADS": "1", "MAGICK_CONFIGURE_PATH": f"{VERIF}/vlib/magick", "MAGICK_TMPDIR": ".",
    "LC_ALL": "C.UTF-8",
}

def clean_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "LSAN_", "TSAN_", "MSAN_", "LD_"))}
    e.update(SANENV)
    if extra: e.update(extra)
    return e

def crash_key(text, rc):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+(?: [\w\-]+)?)", text)
    fn = ""
    # first frame inside the library or tools
    for mm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", text):
        if "/repo/" in mm.group(2) or REPO in mm.group(2):
            fn = mm.group(1); break
    m2 = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", text)
    if m2:
        return "ubsan:" + os.path.basename(m2.group(1)) + ":" + re.sub(r"[^a-z ]", "", m2.group(3).lower())[:40].strip().replace(" ", "-")
    if m: return f"{m.group(1)}:{m.group(2).replace(' ', '-')}:{fn}"
    if rc < 0: return f"signal{-rc}:{fn}"
    return f"exit{rc}:{fn}"

class Job:
    def __init__(self, exe, prop, mode, count, cfgs=(), san="asan", opts=None, env=None, stall=100, shards=None, prefix=()):
        self.__dict__.update(locals()); del self.__dict__["self"]

class Result:
    def __init__(self):
        self.counters = {}; self.samples = []; self.distinct = set(); self.viol = []; self.errors = []; self.hung = False; self.lock = threading.Lock()
    def add(self, k, n=1):
        with self.lock: self.counters[k] = self.counters.get(k, 0) + n
    def violation(self, key, msg, replay):
        with self.lock: self.viol.append((key, msg, replay))

def run_jobs(ctx, jobs, res):
    """Runs all shards of all jobs on JOBS workers."""
    tasks = []
    for j in jobs:
        n = j.shards or JOBS
        n = max(1, min(n, j.count))
        for s in range(n): tasks.append((j, s, n))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(_shard, ctx, j, s, n, res) for j, s, n in tasks]
        for f in futs: f.result()

def job_cmd(ctx, j, first, count, step, tmp, extra=()):
    cmd = [*j.prefix, j.exe, f"prop={j.prop}", f"mode={j.mode}", f"tier={ctx.tier}", f"seed={ctx.seed}", f"first={first}", f"count={count}", f"step={step}", f"work={tmp}"]
    for c in j.cfgs: cmd.append("lib=" + c.spec(build_lib(c)))
    for k, v in (j.opts or {}).items(): cmd.append(f"{k}={v}")
    return cmd + list(extra)

def _shard(ctx, j, s, n, res):
    first = s; crashes = 0
    while first < j.count and crashes < 4 and not res.hung:
        tmp = tempfile.mkdtemp(prefix="rdv", dir=ctx.scratch)
        out, prog, dist, err = (os.path.join(tmp, x) for x in (".out", ".prog", ".dist", ".err"))
        work = os.path.join(tmp, "w"); os.mkdir(work)
        cmd = job_cmd(ctx, j, first, j.count, n, work, [f"out={out}", f"progress={prog}", f"distinct={dist}"])
        stop = (lambda: _unknown(j.prop, [v[0] for v in res.viol] + _reported(out))) if STOP_EARLY else None
        rc, hung, text = _exec(cmd, clean_env(j.env), prog, err, j.stall, work, stop=stop)
        done = collect(j, out, dist, res, ctx)
        if STOP_EARLY and _unknown(j.prop, [v[0] for v in res.viol]): shutil.rmtree(tmp, ignore_errors=True); return
        active, idx, what = read_prog(prog)
        if rc == 0 and done:
            shutil.rmtree(tmp, ignore_errors=True); return
        if rc in (0, 3) or "HARNESS" in text:
            res.errors.append(f"{j.mode}: rc={rc} {text[-800:]}"); shutil.rmtree(tmp, ignore_errors=True); return
        crashes += 1
        if done and active == 0:
            # reported at exit: a leak (cannot be attributed to a case), or data races
            key = crash_key(text, rc)
            res.violation(key, f"reported at exit: {text[-1500:]}", ctx.save_replay(j, key, None, first, n, text))
            shutil.rmtree(tmp, ignore_errors=True); return
        if hung:
            # run once more on its own before believing it
            rc2, hung2, text2 = _exec(job_cmd(ctx, j, idx, idx + 1, 1, work, [f"out={out}2", f"progress={prog}2"]), clean_env(j.env), prog + "2", err + "2", j.stall * 2, work)
            if hung2:
                res.hung = True   # further cases would take as long each
                res.violation(f"hang:{j.mode}", f"no progress for {j.stall} s, twice, in case {idx}: {what}", ctx.save_replay(j, "hang", idx, 0, 1, what))
            else:
                res.add("slow_cases_retried")
                if rc2: res.violation(crash_key(text2, rc2), f"case {idx}: {what}: {text2[-1500:]}", ctx.save_replay(j, crash_key(text2, rc2), idx, 0, 1, text2))
        else:
            key = crash_key(text, rc)
            res.violation(key, f"case {idx}: {what}: rc={rc} {text[:200]} ... {text[-1500:]}", ctx.save_replay(j, key, idx, 0, 1, text))
        res.add("evaluations", max(0, (idx - first) // n))
        first = idx + n
        shutil.rmtree(tmp, ignore_errors=True)

def read_prog(path):
    try:
        with open(path, "rb") as f: b = f.read(16 + 4000)
        idx, active = struct.unpack("QQ", b[:16])
        return active, idx, b[16:].split(b"\0")[0].decode("utf-8", "replace")
    except Exception:
        return 1, 0, ""

STOP_EARLY = os.environ.get("VERIF_STOP_EARLY") == "1"   # for mutation runs: the first violation is enough
def _unknown(prop, keys):
    known = [k["key"] for k in load_known()["findings"] if k["property"] == prop]
    return any(not any(re.fullmatch(p, k) for p in known) for k in keys)
def _reported(path):
    try: return [l.split("\t")[1] for l in open(path, errors="replace") if l.startswith("V\t") and l.count("\t") >= 3]
    except OSError: return []

def _exec(cmd, env, prog, errpath, stall, cwd, stdin=subprocess.DEVNULL, stop=None):
    with open(errpath, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, stdin=stdin, env=env, cwd=cwd, start_new_session=True)
        last = None; t0 = time.time(); hung = False
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5); break
            except subprocess.TimeoutExpired:
                pass
            st = read_prog(prog)[:2]
            if st != last: last = st; t0 = time.time()
            if stop and stop():
                os.killpg(p.pid, signal.SIGKILL); p.wait(); break
            if time.time() - t0 > stall:
                hung = True
                os.killpg(p.pid, signal.SIGKILL); p.wait(); break
            if os.path.getsize(errpath) > 64 << 20:
                os.truncate(errpath, 0)
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
    with open(errpath, "rb") as ef:
        ef.seek(max(0, os.path.getsize(errpath) - 200000)); text = ef.read().decode("utf-8", "replace")
    return p.returncode, hung, text

def collect(j, out, dist, res, ctx):
    done = False
    try: lines = open(out, errors="replace").read().split("\n")
    except OSError: return False
    for l in lines:
        t = l.split("\t")
        if t[0] == "C": res.add(t[1], int(t[2]))
        elif t[0] == "S":
            with res.lock:
                if len(res.samples) < 8: res.samples.append(t[1])
        elif t[0] == "V": res.violation(t[1], t[3], ctx.save_replay(j, t[1], int(t[2]), 0, 1, t[3]))
        elif t[0] == "E": done = True
    try:
        b = open(dist, "rb").read()
        with res.lock: res.distinct.update(struct.unpack(f"{len(b)//8}Q", b[:len(b)//8*8]))
    except OSError: pass
    return done

# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="rdverif")
        self.t0 = time.time(); self.nreplay = 0; self.lock = threading.Lock()
        self.replaydir = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
        os.makedirs(self.replaydir, exist_ok=True)
    @property
    def thorough(self): return self.tier == "thorough"
    def n(self, quick, thorough): return max(1, int((thorough if self.thorough else quick) * SCALE))
    def save_replay(self, j, key, idx, first, step, text):
        with self.lock:
            self.nreplay += 1; k = self.nreplay
        if k > 40: return "(not saved)"
        path = os.path.join(self.replaydir, f"{self.prop}-{self.tier}-{self.seed}-{k}.json")
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "key": key, "idx": idx, "first": first, "step": step, "report": text[-6000:]}
        if isinstance(j, Job): d.update(exe=os.path.basename(j.exe), mode=j.mode, cfgs=[c.name for c in j.cfgs], opts=j.opts, count=j.count, prefix=list(j.prefix))
        elif j: d.update(j)
        json.dump(d, open(path, "w"), indent=1)
        return path
    def cleanup(self): shutil.rmtree(self.scratch, ignore_errors=True)

def load_known():
    return json.load(open(os.path.join(VERIF, "known_findings.json")))
