"""C24: imgread, stat and profile, built with sanitizers, against the library."""
import resource, os, re, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *

def init(c):
    global lib
    lib = Lib(c.libs[0][1])

def run(c, tool, args, stdin=None):
    p = subprocess.Popen([c.opt[tool], *args], stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: o, e = p.communicate(stdin, timeout=100)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate(); c.fail("hang", f"{tool}: no end after 100 s"); return None, "", ""
    c.add(tool + "_runs")
    o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    m = re.search(r"SUMMARY: (\w+Sanitizer: [\w-]+)", e)
    if m or p.returncode < 0 or p.returncode == 99:
        c.fail(f"{tool}:crash:{m.group(1).replace(' ', '') if m else 'signal%d' % -p.returncode}", f"{args}: rc={p.returncode} {e[-2500:]}"); return None, o, e
    return p.returncode, o, e

def make(c, r, allow_damage=True):
    """path, description; the file is written, or not"""
    fmt = r.choice(("pgm", "pfm", "pfm", "y4m", "y4m", "png"))
    w, h, rows = content(r)
    if r.random() < .008: fmt = "pfm"; w, h, rows = content(r, r.randint(1, 2), r.choice((32769, 34000, 36000, 40000, 66000, 69984)))
    n = r.randint(1, 5) if fmt in ("pfm", "y4m") else 1
    fr = [rows] + [content(r, w, h)[2] for _ in range(n - 1)]
    if fmt == "pfm" and r.random() < .3: fr = [[[v * r.uniform(-1e3, 1e3) for v in row] for row in f] for f in fr]
    data = {"pgm": lambda: pgm(rows), "png": lambda: png(rows), "pfm": lambda: b"".join(pfm(f, r.random() < .7) for f in fr), "y4m": lambda: y4m(fr)}[fmt]()
    d = r.random() if allow_damage else 1
    if d < .12: data = data[:r.randrange(len(data))]
    elif d < .18: b = bytearray(data); b[r.randrange(min(40, len(b)))] ^= 1 << r.randrange(8); data = bytes(b)
    elif d < .21 and fmt == "pfm":
        b = bytearray(data); k = 4 * r.randrange(1, min(len(rows), 2) + 1); b[-k:len(b) - k + 4] = struct.pack("<f", r.choice((math.nan, math.inf))); data = bytes(b)
    name = f"in{c.cur}." + r.choice((fmt, fmt.upper()))
    if d >= .21 and d < .25 and allow_damage: return name, f"{fmt} missing", b"", []
    open(name, "wb").write(data)
    return name, f"{fmt} {w}x{h} {n} frames {len(data)} bytes damage {d:.2f}", data, fr

def unlink(*ps):
    for p in ps:
        try: os.unlink(p)
        except OSError: pass

def dump(c, r):
    path, desc, data, _ = make(c, r)
    out = f"out{c.cur}.pfm"
    k = r.random()
    c.what(f"imgread {path} ({desc})")
    if k < .04:
        rc, o, e = run(c, "imgread", [path][:r.randrange(2)])
        if rc is not None and (not rc or not e): c.fail("imgread:usage", f"exit {rc}, {e[:200]!r}")
        unlink(path); return
    err, w, h, frames = lib.frames(path)
    if k < .12:
        target = r.choice(("nosuchdir/out.pfm", ".", "/proc/nosuch/out.pfm", "/dev/full", "/dev/full"))
        rc, o, e = run(c, "imgread", [path, target]); c.add("unwritable_outputs")
        if rc is not None and (not rc or not e) and (frames or err or target != "/dev/full"): c.fail("imgread:output", f"exit {rc} with output {target}, {e[:200]!r}")
        unlink(path); return
    if r.random() < .5: open(out, "wb").write(b"x" * r.randrange(3000))   # is replaced
    rc, o, e = run(c, "imgread", [path, out])
    if rc is None: return
    if err:
        c.add("damaged_inputs")
        if not rc or not e.strip(): c.fail("imgread:no-failure", f"exit {rc} for an input with error {err}, stderr {e[:200]!r}")
    else:
        if rc: c.fail("imgread:status", f"exit {rc}, {e[:300]!r}")
        want = b"".join(b"Pf\n%d %d\n-1.0\n" % (w, h) + b"".join(f[y * w * 4:(y + 1) * w * 4] for y in range(h - 1, -1, -1)) for f in frames)
        got = open(out, "rb").read()
        # the header may be written differently, the samples read back must be the same
        if got != want:
            e2, w2, h2, back = lib.frames(out) if frames else (0, w, h, [] if not got else [got])
            if e2 or (w2, h2) != (w, h) or back != frames:
                bad = next((i for i, (a, b) in enumerate(zip(back, frames)) if a != b), None)
                c.fail("imgread:content", f"the file written reads back as error {e2}, {w2}x{h2}, {len(back)} frames instead of {w}x{h}, {len(frames)}; first different frame {bad}")
        c.add("dumps_compared"); c.add("samples_compared", len(frames) * w * h); c.nontrivial(data)
        if len(frames) > 1: c.add("sequences_dumped")
        c.sample(f"{desc}: {len(frames)} frames dumped")
    unlink(path, out)

def stat(c, r):
    path, desc, data, _ = make(c, r)
    m = r.choice([None] + [x for x, _ in lib.methods()])
    c.what(f"stat {path} {m} ({desc})")
    if r.random() < .03:
        rc, o, e = run(c, "stat", [])
        if rc is not None and (not rc or not e): c.fail("stat:usage", f"exit {rc}, {e[:200]!r}")
        unlink(path); return
    err, w, h, frames = lib.frames(path)
    if not err: err, rw, rh = lib.analyse(w, h, frames, lib.method(m)) if frames else (7, 0, 0)
    rc, o, e = run(c, "stat", [path] + ([m] if m else []))
    if rc is None: return
    if err:
        c.add("damaged_inputs")
        if not rc or not e.strip(): c.fail("stat:no-failure", f"exit {rc} for an input with error {err}, {e[:200]!r}")
    else:
        if rc: c.fail("stat:status", f"exit {rc}, {e[:300]!r}")
        if not ("width:" in o and "height:" in o and o.count("median:") == 2): c.fail("stat:output", o[:400])
        # whatever it lists as outliers are results
        ow, _, oh = o.partition("height:")
        for t, res in ((ow, rw), (oh, rh)):
            ix = {i: x for i, x in res[:-1]} # without the size given
            for i, p in re.findall(r"^\s+(\d+) \(\s*([-\d.]+)%\)", t, re.M):
                c.add("outliers_checked")
                if int(i) not in ix or abs(ix[int(i)] * 100 - float(p)) > .02: c.fail("stat:outlier", f"lists {i} ({p}%) which is not a result: {res[:20]}")
        c.nontrivial(data, m)
    unlink(path)

def profile(c, r):
    images = []; text = []; fails = False; totals = {}
    lines_expected = []; heavy = r.random() < .012; times = r.randint(12, 20) if heavy and r.random() < .4 else 1   # over a second in all
    for k in range(1 if heavy else r.randint(1, 3)):
        c.cur_img = k
        path, desc, data, _ = make(c, r, r.random() < .3)
        if heavy:
            import array
            path = "heavy.pfm"; w, h = (r.choice((512, 576, 640)), r.choice((512, 576, 640))) if times > 1 else (r.randint(500, 700), r.randint(500, 700)); open(path, "wb").write(b"Pf\n%d %d\n-1.0\n" % (w, h) + array.array("f", (r.random() for _ in range(w * h))).tobytes())
        os.path.exists(path) and os.replace(path, f"{k}{path}"); path = f"{k}{path}"
        images.append(path)
        err, w, h, frames = lib.frames(path)
        kw = sorted(r.sample(range(1, 130), r.randint(1, 4))); kh = sorted(r.sample(range(1, 130), r.randint(1, 4)))
        res = {}
        if not err:
            for m, _ in lib.methods():
                e2, rw, rh = lib.analyse(w, h, frames, lib.method(m)) if frames else (7, [], [])
                res[m] = e2, rw, rh
                if e2: fails = True
            if r.random() < .8:
                ok = [x for x in res.values() if not x[0]]
                if ok:
                    kw = [i for i, _ in ok[0][1][:-1]][:5] or kw; kh = [i for i, _ in ok[0][2][:-1]][:5] or kh
                    if r.random() < .5: kw.append(777)
        if r.random() < .5: kw.sort(reverse=r.random() < .5); kh.sort()
        text.append(f"{path}\n{' '.join(map(str, kw))}\n{' '.join(map(str, kh))}\n" + ("\n" if r.random() < .7 else ""))
        lines_expected.append((path, err, [(m, len([i for i, _ in rw[:-1] if i not in kw]) + len([i for i, _ in rh[:-1] if i not in kh]),
                                            len([i for i in kw if i not in [j for j, _ in rw[:-1]]]) + len([i for i in kh if i not in [j for j, _ in rh[:-1]]])) if not e2 else (m, None, None) for m, (e2, rw, rh) in res.items()]))
        if any(x[0] for x in res.values()): break
    cut = r.random() < .08
    if times > 1: c.add("long_profiles")
    text *= times; lines_expected *= times
    d = "".join(text)
    if cut: d = d[:d.rstrip("\n").rfind("\n") + 1]
    elif r.random() < .3: d = d.rstrip("\n")   # the last line need not end
    open("dict.txt", "w").write(d); before = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
    c.what(f"profile of {[(p, e) for p, e, _ in lines_expected]}: {d!r}")
    rc, o, e = run(c, "profile", ["dict.txt"] if r.random() < .97 else ["nosuch.txt"] if r.random() < .5 else [])
    if rc is None: return
    used = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime - before
    if "Usage" in e or "Error opening dictionary" in e:
        if not rc: c.fail("profile:usage", f"exit 0, {e[:200]!r}")
        return
    if cut:
        if not rc: c.fail("profile:no-failure", f"exit 0 for a cut dictionary, {o[:300]!r}")
    else:
        if bool(rc) != fails: c.fail("profile:status", f"exit {rc}, expected {'failure' if fails else 'success'}; {e[:300]!r}")
        got = []
        for l in o.split("totals\n")[0].split("\n"):
            m = re.match(r"(\w+)\s+\d+\.\d+\s+\(\+(\d+) -(\d+)\)", l)
            if m: got[-1][1].append((m.group(1), int(m.group(2)), int(m.group(3))))
            elif l: got.append((l, []))
        want = [(p, [x for x in l if x[1] is not None]) for p, _, l in lines_expected]
        if got != want: c.fail("profile:counts", f"printed {got}, expected {want}")
        tot = {}
        for _, _, l in lines_expected:
            for m, a, b in l:
                if a is not None: t = tot.setdefault(m, [0, 0]); t[0] += a; t[1] += b
        for m, a, b in re.findall(r"(\w+)\s+\d+\.\d+\s+\(\+(\d+) -(\d+)\)", o.split("totals\n")[-1]):
            if tot.get(m, [0, 0]) != [int(a), int(b)]: c.fail("profile:totals", f"{m}: +{a} -{b}, expected {tot.get(m)}")
        # times, in decimals of a second: the totals are the sums, and all together what the process used for detection
        tm = {}
        for m, t in re.findall(r"(\w+)\s+(\d+\.\d+)\s+\(\+", o.split("totals\n")[0]): tm[m] = tm.get(m, 0) + float(t)
        for m, t in re.findall(r"(\w+)\s+(\d+\.\d+)\s+\(\+", o.split("totals\n")[-1]):
            if abs(float(t) - tm.get(m, 0)) > 1e-4: c.fail("profile:time-totals", f"{m}: {t} in all, {tm.get(m, 0)} for each: {o[:900]!r}")
        if sum(tm.values()) > used + .05: c.fail("profile:time", f"{sum(tm.values())} s for detection, {used} s were used in all")
        if heavy and not fails and used > .03:
            c.add("times_compared")
            if sum(tm.values()) < .1 * used: c.fail("profile:time", f"{sum(tm.values())} s for detection of a large image, {used} s were used in all: {o[:900]!r}")
        if fails and "Error during detection" not in e: c.fail("profile:silent", f"nothing said about the failed detection: {e[:300]!r}")
        for p, err, _ in lines_expected:
            if err and p not in e: c.fail("profile:silent", f"nothing said about {p} with error {err}: {e[:300]!r}")
        c.add("profiles_compared"); c.nontrivial(d, o.count("+"))
        if fails: c.add("profiles_failing")
    unlink("dict.txt", *images)

def most(c, tool, args):
    """exit status and the most bytes the tool had allocated"""
    p = subprocess.run([c.opt[tool], *args], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300, env=dict(os.environ, LD_PRELOAD=c.opt["shim"], MEMSHIM="memshim.txt"))
    try: k, events, _ = map(int, open("memshim.txt").read().split())
    except (OSError, ValueError): raise RuntimeError(f"{tool} {args}: no report of its allocations")
    unlink("memshim.txt"); c.add(tool + "_runs"); c.add("tool_allocations", events); return p.returncode, k

def memory(c):
    """long sequences take no more memory than short ones"""
    r = c.rng(); fmt = r.choice(("pfm", "y4m", "y4m")); tiny = r.random() < .4
    w, h, n = (r.randint(30, 60), r.randint(30, 60), r.randint(2500, 3500)) if tiny else (r.randint(150, 220), r.randint(150, 220), r.randint(40, 80) if fmt == "pfm" else r.randint(90, 140))
    if fmt == "pfm": head, frame = b"", lambda: b"Pf\n%d %d\n-1.0\n" % (w, h) + b"".join(struct.pack("<%df" % w, *[r.random() for _ in range(w)]) for _ in range(h))
    else: head, frame = b"YUV4MPEG2 W%d H%d F25:1 Cmono\n" % (w, h), lambda: b"FRAME\n" + r.randbytes(w * h)
    fs = [frame() for _ in range(3)]; c.what(f"{fmt} {w}x{h}, 4 and {n} frames")
    names = [f"m{k}.{fmt}" for k in (4, n)]
    for name, k in zip(names, (4, n)):
        with open(name, "wb") as f:
            f.write(head)
            for i in range(k): f.write(fs[i % 3])
    tool = c.cur % 3
    if tool == 0: o = r.choice(([], ["-v3"], ["-v1"])); runs = [("resdet", [*o, "-n", "100000", x]) for x in names]
    elif tool == 1: runs = [("imgread", [x, "m.out"]) for x in names]
    else: # one run of profile over few and over many images
        k = n // 2 if not tiny else n // 3; head = head or b""; one = f"m1.{fmt}"; open(one, "wb").write(head + fs[0])
        for x, m in zip(("d4", "dn"), (4, k)): open(x, "w").write("".join(f"{one}\n{r.randint(20, 100)}\n{r.randint(20, 100)}\n" for _ in range(m)))
        runs = [("profile", [x]) for x in ("d4", "dn")]; n = k
    (r0, a), (r1, b) = [most(c, t, args) for t, args in runs]
    if r0 or r1: c.fail(f"{runs[0][0]}:exit", f"exit {r0}, {r1}: {runs}")
    elif b - a > 40000: c.fail(f"{runs[0][0]}:grows", f"{a} bytes allocated with 4, {b} with {n} images of {w}x{h}")
    c.add("tools_compared"); tiny and c.add("small_images_compared"); c.add("frames_measured", n + 4); c.nontrivial(f"{fmt}{w}{h}{n}{tool}{c.cur}"); c.sample(f"{runs[0][0]}, {fmt} {w}x{h}: at most {a} bytes with 4, {b} with {n} images")
    unlink(*names, "m.out", "d4", "dn", f"m1.{fmt}")

STUBS = {"identify": "printf '%s\\0' \"$@\" > \"$STUBS/identify.args\"; cat \"$STUBS/identify.out\"; [ -s \"$STUBS/identify.out\" ]",
         "spec": "printf '%s\\0' \"$@\" > \"$STUBS/spec.args\"; cat \"$STUBS/spectrum\"",
         "magick": "printf '%s\\0' \"$@\" > \"$STUBS/magick.args\"; for o; do :; done; cat > \"$o\""}
def visualize(c):
    """the script, with stand-ins for spec and ImageMagick which record what they are asked for"""
    r = c.rng(); d = os.path.abspath(f"v{c.cur}"); os.makedirs(d + "/bin")
    try:
        for n, t in STUBS.items(): open(f"{d}/bin/{n}", "w").write("#!/bin/sh\n" + t + "\n"); os.chmod(f"{d}/bin/{n}", 0o755)
        os.symlink(c.opt["resdet"], d + "/bin/resdet")
        path, desc, data, _ = make(c, r, r.random() < .3)
        stem, ext = path.rsplit(".", 1); name = r.choice((stem, "a b", "it's", "q\"x", "$HOME", "*", "a;b", "x\\y", "tab\there", "a  b", "é", "[1]", "~", "a&b", "50%")) + "." + ext
        here = os.path.join(d, name)
        if os.path.exists(path): os.replace(path, here)
        err, w, h, frames = lib.frames(here)
        opts = []; rd = []; m = None; rng = None
        length, color, thick, spec = 50, "green", "1", []
        if r.random() < .5: length = r.choice((0, 1, 10, r.randint(0, 200))); opts += ["-l", str(length)]
        if r.random() < .5: color = r.choice(("red", "#00ff00", "rgb(1, 2, 3)", "none")); opts += ["-c", color]
        if r.random() < .5: thick = r.choice(("2", "0.5", "10")); opts += ["-t", thick]
        if r.random() < .6:
            if r.random() < .6: m = r.choice([x for x, _ in lib.methods()]); rd += ["-m", m]
            if r.random() < .5: rng = r.randint(1, 14); rd += ["-r", str(rng)]
            if r.random() < .4: rd += ["-v", r.choice(("3", "2", "-1"))]
            opts += ["-r", " ".join(rd)]
        if r.random() < .5: spec = r.choice((["-g"], ["-s", "abs"], ["-t", "copy", "-R", "one"])); opts += ["-s", " ".join(spec)]
        k = r.random(); args = [*opts, name, "out put.png"]; usage = None
        if k < .04: args = [*opts, name]; usage = 2
        elif k < .08: args = [*opts, r.choice(("-z", "-Q")), name, "out put.png"]; usage = 2
        elif k < .10: args = ["-h", *opts]; usage = 0
        elif k < .13: args = [*opts, "-l"]; usage = 2
        spectrum = r.randbytes(r.choice((0, 10, 70000))); open(d + "/spectrum", "wb").write(spectrum); open(d + "/identify.out", "w").write(f"{w} {h}\n" * max(1, len(frames or [])) if w else "")
        c.what(f"visualize.sh {args} ({desc})")
        p = subprocess.run(["bash", c.opt["visualize"], *args], cwd=d, env=dict(os.environ, PATH=d + "/bin:/usr/bin:/bin", STUBS=d), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        c.add("scripts_run"); argv = lambda n: open(f"{d}/{n}.args", "rb").read().decode().split("\0")[:-1] if os.path.exists(f"{d}/{n}.args") else None
        drawn, asked = argv("magick"), argv("spec")
        if usage is not None:
            c.add("usages")
            if p.returncode != usage or drawn or asked or not (p.stderr if usage else p.stdout): c.fail("visualize:usage", f"exit {p.returncode}, expected {usage}; {p.stdout[:100]!r} {p.stderr[:100]!r}")
            return
        res = None
        if not err and frames:
            e2, rw, rh = lib.analyse(w, h, frames, lib.method(m) if m else None, lib.params(rng))
            if not e2: res = rw[0][0], rh[0][0]
        if not res:
            c.add("failures_expected")
            if p.returncode == 0 or drawn or os.path.exists(d + "/out put.png"): c.fail("visualize:failure", f"exit {p.returncode} and {drawn} though nothing was detected")
            return
        if p.returncode: return c.fail("visualize:status", f"exit {p.returncode}: {p.stderr[-300:]!r}")
        if not asked or asked[:len(spec)] != spec or asked[-2:] != [name, "-"]: c.fail("visualize:spec", f"spec was run with {asked}")
        x, y = res; want = f"line {w - length},{y} {w},{y} line {x},{h - length} {x},{h}"
        if not drawn or "-draw" not in drawn: return c.fail("visualize:draw", f"magick was run with {drawn}")
        got = " ".join(" ".join(drawn[i + 1] for i, o in enumerate(drawn[:-1]) if o == "-draw").split()); parts = lambda t: sorted(p.strip() for p in t.split("line "))
        if parts(got) != parts(want): c.fail("visualize:lines", f"{got!r} instead of {want!r}")
        for o, v in (("-stroke", color), ("-strokewidth", thick)):
            if o not in drawn or drawn[drawn.index(o) + 1] != v: c.fail("visualize:style", f"{o} {v} missing in {drawn}")
        if drawn[0] != "-" or drawn[-1] != "out put.png" or open(d + "/out put.png", "rb").read() != spectrum: c.fail("visualize:data", f"the spectrum did not reach the output: {drawn}")
        c.add("drawings_compared"); c.add("moved_lines", (x != w) + (y != h)); c.nontrivial(repr((args, x, y, w, h))); c.sample(f"{args}: {want}")
    finally: __import__("shutil").rmtree(d, ignore_errors=True)

def one(c):
    if c.mode == "c27": return memory(c)
    if c.mode == "c29": return visualize(c)
    r = c.rng()
    k = r.random()
    (dump if k < .5 else stat if k < .75 else profile)(c, r)

if __name__ == "__main__": drive(init, one)
