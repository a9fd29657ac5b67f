"""C22: the resdet tool against the library: standard output, standard error and exit status."""
import ctypes, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *

def init(c):
    global lib, tool
    lib = Lib(c.libs[0][1]); tool = c.opt["tool"]
    if c.opt.get("fresh"): pass

def run(c, args, stdin=None, how="null"):
    """rc, stdout, stderr; how: null, pipe, file"""
    if how == "file":
        open("stdin.bin", "wb").write(stdin); f = open("stdin.bin", "rb")
    else: f = subprocess.PIPE if how == "pipe" else subprocess.DEVNULL
    p = subprocess.Popen([tool, *args], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: o, e = p.communicate(stdin if how == "pipe" else None, timeout=100)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate(); c.fail("hang", "no end after 100 s: " + " ".join(args)); return None, "", ""
    if how == "file": f.close()
    c.add("tool_runs")
    o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    m = re.search(r"SUMMARY: (\w+Sanitizer: [\w-]+).*?(\w+)?$", e, re.M)
    if m or p.returncode < 0 or p.returncode == 99:
        c.fail(f"crash:{m.group(1).replace(' ', '') if m else 'signal%d' % -p.returncode}", f"{args}: rc={p.returncode} {e[-2500:]}"); return None, o, e
    return p.returncode, o, e

def num_eq(a, b):
    if a == b: return True
    m, n = re.fullmatch(r"(\D*)(-?[\d.]+)(\D*)", a), re.fullmatch(r"(\D*)(-?[\d.]+)(\D*)", b)
    if not (m and n and "." in b and m.group(1) == n.group(1) and m.group(3) == n.group(3)): return False
    d = len(b.split(".")[1].rstrip("%)"))
    try: return len(m.group(2).split(".")[1]) == d and abs(float(m.group(2)) - float(n.group(2))) <= 1.01 * 10 ** -d
    except (IndexError, ValueError): return False

def confs(s): return [t for t in re.split(r"([\s:]+)", s)]
def same_text(a, b):
    la, lb = a.rstrip("\n").split("\n"), b.rstrip("\n").split("\n")
    if len(la) != len(lb): return False
    for x, y in zip(la, lb):
        tx, ty = re.split(r"([\s:]+)", x.rstrip()), re.split(r"([\s:]+)", y.rstrip())
        if len(tx) != len(ty) or not all(num_eq(p, q) for p, q in zip(tx, ty)): return False
    return True

def listing(v, rw, rh):
    if v == 0: return ""
    if v == 1: return f"{rw[0][0]} {rh[0][0]}\n"
    if v == 2: return "".join(" ".join(str(i) for i, _ in r) + " \n" for r in (rw, rh))
    if v == 3: return "".join(" ".join(f"{i}:{x:f}" for i, x in r) + " \n" for r in (rw, rh))
    no = len(rw) == 1 and len(rh) == 1
    s = f"given: {rw[-1][0]}x{rh[-1][0]}\nbest guess: {rw[0][0]}x{rh[0][0]}{' (not upsampled)' if no else ''}\n"
    n = max(len(rw), len(rh)) - 1
    if n: s += "all width        height\n"
    for k in range(n):
        s += f"{rw[k][0]:5d} ({f32(rw[k][1] * 100):5.2f}%)   " if k < len(rw) - 1 else " " * 17
        s += f"{rh[k][0]:5d} ({f32(rh[k][1] * 100):5.2f}%)" if k < len(rh) - 1 else ""
        s += "\n"
    return s

CANON = {"pgm": ("pgm", "PGM", "image/x-portable-graymap"), "pfm": ("pfm", "PFM", "image/x-portable-floatmap"), "y4m": ("y4m", "Y4M", "video/yuv4mpeg"), "png": ("png", "libpng", "image/png")}
AUTO = {".jpeg": 3, ".jpg": 3, ".mp4": 3, ".mkv": 3, ".webp": 2, ".webm": 2, ".avif": 5, ".heic": 5}

HUGE = ("256", "257", "65536", "65537", "4294967296", "4294967297", "4294967299", "9223372036854775809", "18446744073709551615") # which must not be cut to fewer bits

def recase(r, s): return r.choice((s.upper(), s.lower(), "".join(r.choice((x.upper(), x.lower())) for x in s)))

def one(c):
    r = c.rng()
    k = r.random()
    if k < .04: return informative(c, r)
    # ---- an input
    fmt = r.choice(("pgm", "pfm", "pfm", "y4m", "y4m", "png"))
    w, h, rows = content(r)
    n = 1
    if fmt in ("pfm", "y4m") and r.random() < .7: n = r.randint(1, 6)
    if n > 1 and w * h < 400 and r.random() < .1: n = r.randint(20, 300)
    fr = [rows] + [content(r, w, h)[2] if r.random() < .4 else [[min(1, max(0, v + r.uniform(-.1, .1))) for v in row] for row in rows] for _ in range(n - 1)]
    data = {"pgm": lambda: pgm(rows), "png": lambda: png(rows), "pfm": lambda: b"".join(pfm(f, r.random() < .7) for f in fr), "y4m": lambda: y4m(fr)}[fmt]()
    damage = r.random()
    if damage < .06: data = data[:r.randrange(len(data))]
    elif damage < .09: b = bytearray(data); b[r.randrange(min(40, len(b)))] ^= 1 << r.randrange(8); data = bytes(b)
    elif damage < .11 and fmt == "pfm":
        b = bytearray(data); b[-4:] = r.choice((b"\0\0\xc0\x7f", b"\0\0\x80\x7f", b"\x7f\xc0\0\0", b"\0\0\x80\xff")); data = bytes(b)
    elif damage < .12: data = b""
    # ---- how it is selected
    args = []
    readers = lib.readers()
    sel = r.random(); typ = reader = None
    ext = r.choice((fmt, fmt.upper(), fmt.capitalize()))
    name = "im." + ext
    if sel < .25:
        name = r.choice(("im", "im.dat", "im.jpg", "im.WebP", "im.avif", "im.mkv", "im.JPEG", "x.heic", "a.webm", "b.mp4", "im.pgm.jpeg", "im.png"))
        typ = r.choice(CANON[fmt][::2]) if r.random() < .9 else r.choice(("nosuch", "image/nosuch", "pgm", "png", "y4m"))
    elif sel < .5:
        name = r.choice(("im", "im.dat", "im.jpg", "im.WebP", "im.avif", "im.MKV", "im.jpeg", "im.png"))
        cand = [x for x in readers if x.lower() == CANON[fmt][1].lower()] or [x for x in readers if x.lower().replace("lib", "") == fmt] or readers[:1]
        reader = cand[0] if r.random() < .9 else r.choice(readers)
        if reader.lower() in ("ffmpeg", "magickwand") and damage < .12: reader = cand[0]
    if typ is None and reader is None and fmt == "pfm" and damage < .03: pass
    how = "null"
    if (typ or reader) and r.random() < .4 and (reader or "").lower() not in ("ffmpeg", "magickwand"): how = r.choice(("pipe", "file"))
    if fmt == "y4m" and how == "pipe" and b" Cmono\n" not in data[:60]: how = "file"   # the end of the last frame's chroma only matters where it is read
    missing = r.random()
    if (typ or reader) and r.random() < .3: name = recase(r, name)
    path = "-" if how != "null" else name
    if how == "null":
        if missing < .03: path = "missing." + ext
        elif missing < .04: os.makedirs("dir." + ext, exist_ok=True); path = "dir." + ext
        else: open(name, "wb").write(data)
    # ---- options
    bad = False
    opts = []
    def opt(f, v): opts.append([f, v] if r.random() < .5 else [f + v])
    if typ is not None: opt("-t", typ)
    if reader is not None: opt("-R", r.choice((reader, reader.lower(), reader.upper())))
    if typ and r.random() < .02: opt("-R", readers[0]); bad = True
    method = rng = thr = flt = None; off = 0; lim = None; verb = -1; auto = False
    if r.random() < .6:
        method = r.choice([m for m, _ in lib.methods()]) if r.random() < .94 else r.choice(("nosuch", "sig", "signn", " sign"))
        opt("-m", method); bad |= not lib.method(method)
    if r.random() < .7:
        v = r.choice(("-1", "0", "1", "2", "3", "3", "01", "+2", "03", "10", "12", "31", "4")); opt("-v", v); verb = int(v)
    if r.random() < .6:
        v = r.choice((str(r.randint(1, 30)), "1", "2", "3", str(r.randint(1, 8)))) if r.random() < .9 else r.choice(("0", "x", "", "abc", "100", "1000000", "4294967297", "9223372036854775813", "18446744073709551615"))
        opt("-r", v)
        if not v or not v[0].isdigit(): bad = True
        else: rng = int(v)
    named = "." in path and path[path.rindex("."):].lower() in AUTO and r.random() < .5 # where the filter depends on the name
    if named or r.random() < .6:
        v = "0" if named else r.choice((str(r.randint(0, 100)), "0", "100", "%.2f" % r.uniform(0, 100), "%.3f" % r.uniform(20, 60))) if r.random() < .92 else r.choice(("-1", "100.01", "1e9", "nan", "inf", "x", "", "-0.001", "101", "200"))
        opt("-x", v)
        try: thr = float(v) / 100
        except ValueError: bad = True
    if named or r.random() < .5:
        v = "auto" if named else r.choice((str(r.randint(0, 31)), "0", "1", "2", "3", "auto", "auto", "auto")) if r.random() < .92 else r.choice(("32", "255", "256", "260", "x", "", "-1", "99999", "AUTO", "4294967297"))
        opt("-f", v)
        if v == "auto": auto = True
        else:
            try: flt = int(v)
            except ValueError: bad = True
            if flt is not None and not 0 <= flt <= 255: bad = True
    if r.random() < .35:
        v = str(r.randint(0, n + 1)) if r.random() < .88 else r.choice(HUGE + ("x", "", "abc", "+", "."))
        opt("-o", v)
        if v.isdigit(): off = int(v)
        else: bad = True
    if r.random() < .35:
        v = str(r.randint(1, n + 2)) if r.random() < .85 else r.choice(HUGE + ("0", "x", "", "abc"))
        opt("-n", v)
        if v.isdigit() and int(v): lim = int(v)
        else: bad = True
    prog = r.random() < .3
    if prog: opts.append(["-p"])
    r.shuffle(opts)
    args = [a for o in opts for a in o] + [path]
    # ---- expectation
    params = None
    if not bad:
        e = auto and "." in path and AUTO.get(path[path.rindex("."):].lower(), 0)
        if auto: flt = e or None
        p = lib.params(rng, thr, flt)
        if p is None: bad = True
        else: params = p
    c.what(f"{' '.join(map(repr, args))} ({fmt} {w}x{h}, {n} frames, {len(data)} bytes, damage {damage:.3f}, stdin {how})")
    exp = None; analysed = None
    if not bad:
        real = path
        if how != "null": open("oracle.bin", "wb").write(data); real = "oracle.bin"
        t2 = typ
        err, fw, fh, frames = lib.frames(real, t2 if t2 is not None else (None if how == "null" else ""), reader, off, lim)
        if not err:
            m = lib.method(method)
            analysed = len(frames)
            e2, rw, rh = lib.analyse(fw, fh, frames, m, params)
            if not e2: exp = rw, rh
        lib.free(params)
    rc, o, e = run(c, args, data, how)
    if rc is None: return
    if exp is None:
        c.add("failures_expected")
        if rc == 0: c.fail("no-failure", f"exit 0 for a run which must fail; stdout {o[:300]!r} stderr {e[:300]!r}")
        if o: c.fail("output-on-failure", f"standard output {o[:300]!r}, exit {rc}, stderr {e[:200]!r}")
        if not e.strip(): c.fail("silent-failure", f"nothing on standard error, exit {rc}")
        return
    rw, rh = exp
    c.add("results_compared"); c.add("entries", len(rw) + len(rh))
    no = len(rw) == 1 and len(rh) == 1
    if verb == 0: c.add("verdicts")
    if verb == 0 and not no: c.add("upscaled_verdicts")
    want = 1 if verb == 0 and no else 0
    if (rc != 0) != want: c.fail("status", f"exit {rc}, expected {want}; stdout {o[:300]!r} stderr {e[:300]!r}")
    t = listing(verb, rw, rh)
    if not same_text(o, t): c.fail("output", f"printed {o[:900]!r}, the library's results are {t[:900]!r}")
    if not no: c.nontrivial(t, " ".join(sorted(map(" ".join, opts))), data)
    else: c.nontrivial(data, args)
    if not prog and re.search(r"frame \d", e): c.fail("progress-unasked", f"standard error {e[:300]!r}")
    if prog:
        c.add("progress_logs")
        seen = [int(x) for x in re.findall(r"Analyzing frame (\d+)", e)]
        if seen != list(range(off + 1, off + 1 + analysed)): c.fail("progress", f"frames reported as analysed: {seen[:20]}, expected {off + 1} to {off + analysed}")
        seen = [int(x) for x in re.findall(r"Seeking past frame (\d+)", e)]
        if seen != list(range(1, off + 1)): c.fail("progress", f"frames reported as skipped: {seen[:20]}, offset {off}")
    if len(c.samples) < 4 and not no: c.sample(f"{' '.join(args)}: {o}")

def informative(c, r):
    k = r.randrange(6)
    c.what(f"informative {k}"); c.add("informative_runs")
    if k == 0:
        rc, o, e = run(c, ["-h"])
        if rc is None: return
        if rc or "Usage" not in o: c.fail("help", f"exit {rc}, {o[:200]!r}")
        for m, t in lib.methods():
            if not re.search(rf"^\s*{m}\s+- {t * 100:.0f}%", o, re.M): c.fail("help", f"method {m} with {t * 100:.0f}% not listed in {o[-300:]!r}")
        if f"({lib.l.resdet_default_range()})" not in o: c.fail("help", "default range not shown")
    elif k == 1:
        rc, o, e = run(c, ["-V"])
        if rc is None: return
        if rc or f"libresdet version {lib.l.resdet_libversion().decode()}" not in o or ", ".join(lib.readers()) not in o: c.fail("version", f"exit {rc}, {o[:400]!r}")
    elif k == 2:
        rc, o, e = run(c, ["-R", "list"])
        if rc is None: return
        if rc or o.split() != lib.readers(): c.fail("list-readers", f"exit {rc}, {o[:400]!r}, expected {lib.readers()}")
    elif k == 3:
        open("x.pgm", "wb").write(pgm([[.5] * 20] * 20)); name = r.choice(lib.readers()); name = r.choice(("nosuch", "", name[:-1], name + "x", name[1:], "li", " " + name))
        rc, o, e = run(c, ["-R", name, "x.pgm"])
        if rc is None: return
        if name.lower() not in [x.lower() for x in lib.readers()] and (not rc or not e): c.fail("unknown-reader", f"exit {rc}, {e[:200]!r}")
    elif k == 4:
        rc, o, e = run(c, [])
        if rc is None: return
        if not rc or "Usage" not in e or o: c.fail("usage", f"exit {rc}, {e[:200]!r} {o[:200]!r}")
    else:
        rc, o, e = run(c, [r.choice(("-z", "-m", "-q"))])
        if rc is None: return
        if not rc or not e or o: c.fail("usage", f"exit {rc}, {e[:200]!r} {o[:200]!r}")

if __name__ == "__main__": drive(init, one)
