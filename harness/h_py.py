"""C23: the Python bindings against the library's C interface."""
import array, ctypes, gc, mmap, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np
import PIL.Image
import resdet, resdet_numpy, resdet_PIL

libc = ctypes.CDLL(None)
libc.mmap.restype = VP; libc.mmap.argtypes = [VP, SZ, I, I, I, ctypes.c_long]
libc.mprotect.argtypes = [VP, SZ, I]; libc.munmap.argtypes = [VP, SZ]
class MI(ctypes.Structure): _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc.mallinfo2.restype = MI
def held(): gc.collect(); m = libc.mallinfo2(); return m.uordblks + m.hblkhd

class Guarded:
    """float samples which end at an inaccessible page (or start after one), read-only on demand"""
    def __init__(self, data, front=False):
        n = len(data); size = (n + 4095) // 4096 * 4096 or 4096
        self.size = size + 8192; self.base = libc.mmap(None, self.size, 3, 0x22, -1, 0)
        self.addr = self.base + 4096 + (0 if front else size - n)
        ctypes.memmove(self.addr, data, n)
        libc.mprotect(self.base, 4096, 0); libc.mprotect(self.base + 4096 + size, 4096, 0)
        libc.mprotect(self.base + 4096, size, 1)   # the bindings do not write to images either
        self.n = n
    def ptr(self): return ctypes.cast(self.addr, ctypes.POINTER(ctypes.c_float))
    def bytes(self): return ctypes.string_at(self.addr, self.n)
    def free(self): libc.munmap(self.base, self.size)

def init(c):
    global lib, EXC
    lib = Lib(c.libs[0][1])
    EXC = {1: MemoryError, 2: resdet.InternalError, 3: resdet.InvalidImageError, 4: resdet.UnsupportedFormatError, 5: resdet.ImageTooBigErrror, 6: resdet.ParameterError, 7: resdet.NoImagesError}
    sys.unraisablehook = lambda a: None

def attempt(f):
    """value, exception"""
    try: return f(), None
    except Exception as e: return None, e

def expect_error(c, what, err, e):
    cls = EXC.get(err) if err > 0 else OSError
    c.add("errors_expected")
    if type(e) is not cls and not (err < 0 and isinstance(e, OSError)): c.fail("exception:" + what, f"error {err} should raise {cls.__name__}, got {e!r}"); return
    if err < 0 and e.errno != -err: c.fail("errno:" + what, f"errno {e.errno} for error {err}")
    msg = lib.l.resdet_error_str(err).decode()
    if msg not in str(e): c.fail("message:" + what, f"{e!r} for error {err} ({msg})")

def as_lists(d): return [(x.index, x.confidence) for x in d["widths"]], [(x.index, x.confidence) for x in d["heights"]]
def check_results(c, what, want, got, e):
    err, rw, rh = want
    if err: return expect_error(c, what, err, e)
    if e is not None: c.fail("raised:" + what, f"{e!r} although the library succeeds"); return
    c.add("results_compared"); c.add("entries", len(rw) + len(rh))
    a, b = as_lists(got)
    if a != rw or b != rh: c.fail("results:" + what, f"widths {a[:6]} heights {b[:6]} ({len(a)}, {len(b)}), the library's are {rw[:6]} {rh[:6]} ({len(rw)}, {len(rh)})")

def params(r, valid=True):
    """dict for the bindings, (range, threshold, filter) for the library"""
    d = {}
    if r.random() < .6: d["range"] = r.choice((1, 2, 3, r.randint(1, 8), 12, 40, 1 << 40, (1 << 64) - 1))
    if r.random() < .6: d["threshold"] = r.choice((0, 0.0, 1, 1.0, .3, r.random(), f32(r.random())))
    if r.random() < .4: d["compression_filter"] = r.choice((0, 1, 2, 3, r.randint(0, 31)))
    if not valid:
        k = r.choice(("range", "threshold", "compression_filter"))
        d[k] = r.choice({"range": (0, -1, 1 << 64, -(1 << 64), (1 << 64) + 5), "threshold": (-.01, 1.01, 55, math.nan, math.inf, -math.inf, -1), "compression_filter": (32, 255, 256, 257, -1, 1000, 1 << 32)}[k])
        if r.random() < .5: d = dict(sorted(d.items(), key=lambda _: r.random()))
    return d
def lib_params(d):
    if not d: return None
    return lib.params(d.get("range"), d.get("threshold"), d.get("compression_filter"))

def floats(rows): return b"".join(struct.pack(f"{len(x)}f", *x) for x in rows)
def picture(r):
    w, h, rows = content(r); return w, h, floats(rows)
def pick_method(r):
    name = r.choice([None, None] + [m for m, _ in lib.methods()])
    return name, (resdet.Method.get(name) if name else None)

def variants(r, data, n, w, h):
    """image arguments which hold these samples: name, object for resdetect (linear), keepalive"""
    ct = ctypes.c_float * (n * w * h)
    k = r.choice(("ptr", "list", "array", "ct", "imagebuffer", "nd", "nd64", "ndF", "ndslice", "ndbig", "ndro"))
    a = np.frombuffer(data, np.float32)
    shape = (w, h) if n == 1 and r.random() < .7 else (w, h, n)
    if k == "ptr": g = Guarded(data, r.random() < .5); return k, g.ptr(), g
    if k == "ct": x = ct.from_buffer_copy(data); return k, x, x
    if k == "list": return k, [float(v) for v in a], None
    if k == "array": return k, array.array("f", data), None
    if k == "imagebuffer":
        b = resdet.ImageBuffer.with_dimensions(w, h, n); ctypes.memmove(b.data, data, len(data)); return k, b, None
    a = a.reshape(shape)
    if k == "nd": g = Guarded(data, r.random() < .5); return k, np.ctypeslib.as_array(g.ptr(), shape=shape), g
    if k == "nd64": return k, a.astype(np.float64), None
    if k == "ndF": return k, np.asfortranarray(a), None
    if k == "ndbig": return k, a.astype(">f4"), None
    if k == "ndro": x = a.copy(); x.setflags(write=False); return k, x, None
    b = np.zeros(tuple(2 * s for s in shape), np.float32); v = b[tuple(slice(r.randrange(2), 2 * s, 2) for s in shape)]; v[...] = a
    return "ndslice", v, b

def one_shot(c, r):
    w, h, data = picture(r); n = r.choice((1, 1, 2, 3))
    if r.random() < .04: w, h, n = r.randint(1, 14), r.randint(1, 14), r.choice((255, 256, 257, 300)); data = floats(content(r, w, h)[2])
    data += b"".join(floats(content(r, w, h)[2]) for _ in range(n - 1))
    if r.random() < .05: b = bytearray(data); k = 4 * r.randrange(n * w * h); b[k:k + 4] = struct.pack("f", r.choice((math.nan, math.inf))); data = bytes(b)
    mname, m = pick_method(r); d = params(r, r.random() < .85)
    kind, obj, keep = variants(r, data, n, w, h)
    W, H, N = w, h, n
    if r.random() < .06 and not isinstance(obj, (np.ndarray, resdet.ImageBuffer)): W, H, N = r.choice(((0, h, n), (w, 0, n), (w, h, 0), (1 << 40, 1 << 40, 1), (1 << 63, 8, 1)))
    c.what(f"resdetect {kind} {N}x{W}x{H} {mname} {d}")
    bad = False
    try: p = lib_params(d); bad = bool(d) and p is None
    except Exception: bad = True
    if any(k in d and not 0 <= d[k] < 1 << 64 for k in ("range",)) or not 0 <= d.get("compression_filter", 0) < 256: bad = True
    if isinstance(obj, np.ndarray): got, e = attempt(lambda: resdet_numpy.resdetect(obj, m, d) if r.random() < .5 else resdet_numpy.resdetect(obj, method=m, parameters=d))
    elif isinstance(obj, resdet.ImageBuffer): got, e = attempt(lambda: resdet.resdetect(obj, m, d))
    else: got, e = attempt(lambda: resdet.resdetect(obj, N, W, H, m, d))
    if bad: c.add("invalid_parameters"); expect_error(c, "parameters", 6, e)
    else:
        buf = ctypes.create_string_buffer(data, len(data)); rw, rh, cw, ch = PR(), PR(), SZ(), SZ()
        er = lib.l.resdetect(ctypes.cast(buf, PF), N, W, H, rw, cw, rh, ch, lib.method(mname), p)
        want = er, [(rw[i].index, rw[i].confidence) for i in range(cw.value)], [(rh[i].index, rh[i].confidence) for i in range(ch.value)]
        lib.free(ctypes.cast(rw, VP)); lib.free(ctypes.cast(rh, VP)); lib.free(p) if p else None
        check_results(c, "resdetect:" + kind, want, got, e)
        if not er and len(want[1]) + len(want[2]) > 2: c.nontrivial(data, mname, d); c.sample(f"{kind} {n}x{w}x{h} {mname} {d}: {want[1][:3]}")
    if isinstance(obj, np.ndarray) and not bad and np.ascontiguousarray(obj, dtype=np.float32).tobytes() != data: c.fail("modified", f"the {kind} argument was modified")
    if kind == "imagebuffer": obj.close()
    del obj
    if isinstance(keep, Guarded): keep.free()

def sequential(c, r):
    w, h, _ = picture(r); mname, m = pick_method(r); d = params(r, r.random() < .9)
    c.what(f"Analysis {w}x{h} {mname} {d}")
    bad = bool(d) and any(k in d and not 0 <= d[k] < 1 << 64 for k in ("range",)) or not 0 <= d.get("compression_filter", 0) < 256
    p = None if bad else lib_params(d); bad = bad or (bool(d) and p is None)
    W = 0 if r.random() < .04 else r.choice((1 << 62, (1 << 32) + w, (1 << 33) + w, (1 << 63) + w)) if r.random() < .06 else w
    if W == w and r.random() < .04: h = r.choice((0, (1 << 32) + h, (1 << 33) + h, (1 << 62) + h))
    an, e = attempt(lambda: resdet.Analysis(W, h, m, d) if r.random() < .5 else resdet.Analysis(width=W, height=h, method=m, parameters=d))
    err = I()
    ref = None if bad else lib.l.resdet_create_analysis(lib.method(mname), W, h, p, err)
    if p: lib.free(p)
    if bad or err.value: expect_error(c, "analysis", 6 if bad else err.value, e); c.add("invalid_parameters" if bad else "refused_sizes"); return
    if e is not None: c.fail("raised:analysis", repr(e)); return
    used = 0; log = []
    for step in range(r.randint(1, 7)):
        k = r.random()
        if k < .25:
            got, e = attempt(an.analysis_results)
            rw, rh, cw, ch = PR(), PR(), SZ(), SZ(); er = lib.l.resdet_analysis_results(ref, rw, cw, rh, ch)
            want = er, [(rw[i].index, rw[i].confidence) for i in range(cw.value)], [(rh[i].index, rh[i].confidence) for i in range(ch.value)]
            lib.free(ctypes.cast(rw, VP)); lib.free(ctypes.cast(rh, VP))
            check_results(c, "analysis_results", want, got, e); log.append("results"); c.add("interim_results")
            continue
        _, _, rows = content(r, w, h); data = floats(rows)
        if r.random() < .1: b = bytearray(data); q = 4 * r.randrange(w * h); b[q:q + 4] = struct.pack("f", r.choice((math.nan, math.inf))); data = bytes(b)
        if r.random() < .25:
            obj = pil_image(r, rows); kind = "pil" + obj.mode; keep = None
            if r.random() < .1: # of another size
                bad_w, bad_h = r.choice(((h, w), (w + 1, h), (w, h + 1), (max(w - 1, 1), h), (1, 1), (w * 2, h * 2)))
                if (bad_w, bad_h) != (w, h): obj = PIL.Image.new("L", (bad_w, bad_h), 100); c.what(f"Analysis {w}x{h}: PIL image {bad_w}x{bad_h}"); v, e = attempt(lambda: an.analyze_image(obj)); c.add("pil_mismatched"); expect_error(c, "pil-size", 3, e); continue
            data = np.array(obj.convert("F"), np.float32).tobytes()
        else: kind, obj, keep = variants(r, data, 1, w, h)
        c.what(f"Analysis {w}x{h} {mname} {d}: {' '.join(log)} {kind}")
        _, e = attempt(lambda: an.analyze_image(obj))
        buf = ctypes.create_string_buffer(data, len(data)); er = lib.l.resdet_analyze_image(ref, ctypes.cast(buf, PF))
        if er: expect_error(c, "analyze:" + kind, er, e)
        elif e is not None: c.fail("raised:analyze:" + kind, repr(e))
        log.append(kind); used += not er; c.add("images_analysed")
        if kind == "imagebuffer": obj.close()
        del obj
        if isinstance(keep, Guarded): keep.free()
    got, e = attempt(an.analysis_results)
    rw, rh, cw, ch = PR(), PR(), SZ(), SZ(); er = lib.l.resdet_analysis_results(ref, rw, cw, rh, ch)
    want = er, [(rw[i].index, rw[i].confidence) for i in range(cw.value)], [(rh[i].index, rh[i].confidence) for i in range(ch.value)]
    lib.free(ctypes.cast(rw, VP)); lib.free(ctypes.cast(rh, VP)); lib.l.resdet_destroy_analysis(ref)
    check_results(c, "analysis_results", want, got, e)
    if not er and len(want[1]) + len(want[2]) > 2: c.nontrivial(str(want), " ".join(log))
    if r.random() < .5:
        an.destroy_analysis()
        c.add("uses_after_close")
        for f, what in ((lambda: an.analyze_image([0.0] * (w * h)), "analyze_image"), (an.analysis_results, "analysis_results")):
            v, e = attempt(f)
            if e is None: c.fail("after-destroy", f"{what} of a destroyed analysis returned {v!r}")
        an.destroy_analysis()

def make(r, k):
    fmt = r.choice(("pgm", "pfm", "pfm", "y4m", "y4m", "png"))
    w, h, rows = content(r); n = r.randint(1, 5) if fmt in ("pfm", "y4m") else 1
    if n > 1 and r.random() < .05: w, h, rows = content(r, r.randint(1, 14), r.randint(1, 14)); n = r.randint(250, 300)
    fr = [rows] + [content(r, w, h)[2] for _ in range(n - 1)]
    data = {"pgm": lambda: pgm(rows), "png": lambda: png(rows), "pfm": lambda: b"".join(pfm(f, r.random() < .7) for f in fr), "y4m": lambda: y4m(fr)}[fmt]()
    d = r.random()
    if d < .08: data = data[:r.randrange(len(data))]
    name = r.choice((f"in{k}", f"in{k}", f"in {k} \u00e4\u4e2d", os.fsdecode(b"in\xff%d\xe4" % k)))
    typ = reader = None
    q = r.random()
    MIME = {"pgm": "image/x-portable-graymap", "pfm": "image/x-portable-floatmap", "y4m": "video/yuv4mpeg", "png": "image/png"}
    if q < .5: name += "." + fmt
    elif q < .75: typ = r.choice((fmt, fmt.upper(), MIME[fmt], "nosuch"))
    else: reader = r.choice([x for x in lib.readers() if x.lower().replace("lib", "") == fmt] * 4 + ["nosuch"] + [lib.readers()[0]])
    if r.random() < .05: pass
    else: open(name, "wb").write(data)
    return name, typ, reader, f"{fmt} {w}x{h} {n} frames {len(data)} bytes damage {d:.2f} type {typ} reader {reader}", data

def path_of(r, name):
    import pathlib
    d = [e for e in os.scandir(".") if e.name == name] if r.random() < .2 else []
    return d[0] if d else r.choice((name, pathlib.Path(name), os.path.abspath(name)))

def reading(c, r):
    name, typ, reader, desc, data = make(r, c.cur); path = path_of(r, name)
    c.what(desc)
    fds = len(os.listdir("/proc/self/fd"))
    # ---- frame by frame
    err, im, w, h, b = lib.open(name, typ, reader)
    cls = r.choice((resdet.Image, resdet_numpy.Image, resdet_PIL.Image))
    buf = resdet.ImageBuffer() if cls is resdet.Image and r.random() < .7 else None
    kw = {}
    if typ is not None: kw["type"] = typ
    if reader is not None: kw["image_reader"] = reader
    if cls is resdet.Image: kw["buffer"] = buf
    pi, e = attempt(lambda: cls(path, **kw))
    if err:
        expect_error(c, "open", err, e)
    elif e is not None: c.fail("raised:open", repr(e))
    else:
        if (pi.width, pi.height) != (w, h): c.fail("dimensions", f"{pi.width}x{pi.height}, the library's are {w}x{h}")
        if buf is not None and ((buf.width, buf.height, buf.nimages) != (w, h, 1) or buf.shape() != (w, h)): c.fail("buffer-dimensions", f"{buf.width}x{buf.height}x{buf.nimages}")
        if cls is resdet.Image and buf is None: buf = resdet.ImageBuffer.with_dimensions(w, h)
        ops = []; kept = []
        for _ in range(r.randint(1, 8)):
            er = I()
            if r.random() < .3:
                off = r.choice((0, 1, 1, 2, 7, 1 << 33)); seen, pseen = [], []
                cb = PROGRESS(lambda _, k: seen.append(k)) if r.random() < .6 else None
                ok = lib.l.resdet_seek_frame(im, off, ctypes.cast(cb, VP) if cb else None, None, er)
                pv, e = attempt(lambda: pi.seek_frame(off, pseen.append) if cb else pi.seek_frame(off))
                ops.append(f"seek {off}"); c.add("seeks")
                if er.value: expect_error(c, "seek", er.value, e); break
                if e is not None or bool(pv) != bool(ok): c.fail("seek", f"{ops}: {pv!r} {e!r}, the library: {ok}"); break
                if seen != pseen: c.fail("progress", f"{ops}: {pseen[:9]}, the library: {seen[:9]}")
                continue
            ok = lib.l.resdet_read_image_frame(im, b, er); want = ctypes.string_at(b, w * h * 4) if ok else None
            how = r.randrange(3) if cls is not resdet.Image else 0
            if how == 0:
                pb = buf or pi.buffer; pv, e = attempt(lambda: pi.read_image_frame(pb))
                got = ctypes.string_at(pb.data, w * h * 4) if e is None and pv else None; pv = bool(pv)
            elif cls is resdet_PIL.Image and how == 2:
                v, e = attempt(lambda: pi.read_image_frame_as_pil_image() if r.random() < .5 else next(pi, None)); pv = v is not None
                got = None
                if pv:
                    if v.size != (w, h) or v.mode != "F": c.fail("pil-image", f"{v.mode} {v.size}, expected F {w}x{h}")
                    got = np.array(v, np.float32).tobytes(); kept.append((v, got))
            else:
                v, e = attempt(lambda: pi.read_image_frame_as_ndarray() if r.random() < .5 or cls is resdet_PIL.Image else next(pi, None)); pv = v is not None
                got = None
                if pv:
                    if v.shape != (w, h) or v.dtype != np.float32: c.fail("ndarray", f"{v.dtype} {v.shape}, expected float32 {w}x{h}")
                    got = np.ascontiguousarray(v).tobytes(); kept.append((v, got))
            ops.append("read"); c.add("reads")
            if er.value: expect_error(c, "read", er.value, e); break
            if e is not None or pv != bool(ok): c.fail("read", f"{ops} ({cls.__module__}, {how}): {pv!r} {e!r}, the library: {ok}"); break
            if got != want: c.fail("frame", f"{ops} ({cls.__module__}, {how}): the frame differs from the library's"); break
            if ok: c.add("frames_compared")
        c.nontrivial(data, *ops)
        if r.random() < .5:
            pi.close_image(); c.add("uses_after_close")
            v, e = attempt(lambda: pi.read_image_frame(buf or pi.buffer))
            if e is None: c.fail("after-close", f"reading a closed image returned {v!r}")
            v, e = attempt(lambda: pi.seek_frame(1))
            if e is None: c.fail("after-close", f"seeking in a closed image returned {v!r}")
            pi.close_image()
        else:
            with pi: pass
    if im: lib.l.resdet_close_image(im)
    lib.free(ctypes.cast(b, VP))
    pi = None; buf = None; pb = None; gc.collect()
    if not err and e is None:
        for v, b0 in kept:   # frames stay what they were after further reads and after the image was closed
            c.add("kept_frames")
            if np.ascontiguousarray(np.asarray(v), np.float32).tobytes() != b0: c.fail("kept-frame", f"a {type(v).__name__} changed after {ops} and closing the image"); break
    if len(os.listdir("/proc/self/fd")) != fds: c.fail("descriptors", f"{len(os.listdir('/proc/self/fd')) - fds} more open than before")
    # ---- in bulk, and detection
    if reader is None:
        ef, w, h, fr = lib.frames(name, typ)
        e1 = lib.read_image(name, typ)
        if not ef and not fr: e1 = None   # no frames: left to the next comparison
        v, e = attempt(lambda: resdet.read_image(path, typ) if typ is not None or r.random() < .5 else resdet.read_image(path))
        if e1: expect_error(c, "read_image", e1, e)
        elif e1 == 0:
            if e is not None: c.fail("raised:read_image", repr(e))
            else:
                c.add("bulk_reads")
                if (v.width, v.height, v.nimages) != (w, h, len(fr)) or ctypes.string_at(v.data, w * h * 4 * len(fr)) != b"".join(fr): c.fail("read_image", f"{v.width}x{v.height}x{v.nimages} instead of {w}x{h}x{len(fr)}, or different samples")
                else: indexing(c, r, v, np.frombuffer(b"".join(fr), np.float32).reshape(len(fr), h, w))
        mname, m = pick_method(r); d = params(r)
        v, e = attempt(lambda: resdet.resdetect_file(path, typ, m, d) if r.random() < .5 else resdet.resdetect_file(path, type=typ, method=m, parameters=d))
        if ef: expect_error(c, "resdetect_file", ef, e)
        elif e1 is not None:
            p = lib_params(d); want = lib.analyse(w, h, fr, lib.method(mname), p)
            if p: lib.free(p)
            check_results(c, "resdetect_file", want, v, e)
    try: os.unlink(name)
    except OSError: pass

def indexing(c, r, v, a):
    n, h, w = a.shape
    for _ in range(12):
        k = r.randrange(3)
        if k == 0:
            i = r.choice((0, n * h * w - 1, r.randrange(n * h * w), -1, n * h * w, n * h * w + r.randrange(1 << 20), -n * h * w, -(1 << 40), 1 << 62)); ok = 0 <= i < n * h * w; want = a.flat[i] if ok else None; ix = i
        else:
            f, y, x = (r.choice((0, s - 1, r.randrange(s), s, -1, s + 5, -s)) for s in (n, h, w))
            if k == 1: f = 0; ix = (y, x)
            else: ix = (f, y, x)
            ok = 0 <= f < n and 0 <= y < h and 0 <= x < w; want = a[f, y, x] if ok else None
        got, e = attempt(lambda: v[ix]); c.add("indices")
        if ok and (e is not None or not (got == want or got != got and want != want)): c.fail("index", f"[{ix}] of {w}x{h}x{n}: {got!r} {e!r}, expected {want!r}")
        if not ok and not isinstance(e, IndexError): c.fail("index-range", f"[{ix}] of {w}x{h}x{n}: {got!r} {e!r}, expected IndexError")
    if r.random() < .5: v.close()
    else: # the same at the end of a with statement, left normally or by an error
        def leave(fail):
            with v as u:
                if u is not v or u[0, 0] != a[0, 0, 0] and a[0, 0, 0] == a[0, 0, 0]: c.fail("with", f"{u!r} in the with statement over {v!r}")
                if fail: raise KeyError("left")
        fail = r.random() < .5; _, e = attempt(lambda: leave(fail))
        if isinstance(e, KeyError) != fail: c.fail("with-error", f"{e!r} left a with statement")
    c.add("uses_after_close")
    got, e = attempt(lambda: v[0])
    if e is None: c.fail("after-close", f"element of a closed buffer: {got!r}")
    v.close()

def pil_image(r, rows, only=None):
    """an image of any mode which PIL converts to float"""
    a8 = (np.array(rows) * 255).round().astype(np.uint8)
    while True:
        mode = only or r.choice(("L", "F", "RGB", "I", "1", "P", "P", "RGBA", "LA", "CMYK", "YCbCr", "I;16", "RGBX"))
        if mode == "P":
            im = PIL.Image.fromarray(a8, "L").convert("P") if r.random() < .2 else PIL.Image.frombytes("P", (a8.shape[1], a8.shape[0]), a8.tobytes())
            if r.random() < .9: im.putpalette([r.randrange(256) for _ in range(768)])
        elif mode == "I;16": im = PIL.Image.fromarray((np.array(rows) * 65535).round().astype(np.uint16))
        elif mode == "F": im = PIL.Image.fromarray(np.array(rows, np.float32) * r.choice((1, 255, 1000)))
        elif mode == "RGB": im = PIL.Image.fromarray(np.stack([np.roll(a8, r.randrange(4), r.randrange(2)) for _ in range(3)], 2))
        else: im = PIL.Image.fromarray(a8).convert(mode)
        try: im.convert("F"); return im
        except ValueError: pass

def pil_sequence(c, r):
    w, h, rows = content(r); n = r.randint(1, 4)
    if r.random() < .15: w, h, rows = content(r, r.randint(5, 20), r.randint(5, 20)); n = r.randint(8, 20)
    mode = r.choice(("L", "RGB", "P", "P", "I;16", "F", "1")) # PIL itself mixes up pages of different modes
    ims = [pil_image(r, x, mode) for x in [rows] + [content(r, w, h)[2] for _ in range(n - 1)]]
    odd = None
    if n > 1 and r.random() < .2: # pages of another size
        odd = r.randrange(1, n); w2, h2 = r.choice(((w + 1, h), (max(1, w // 2), h), (1, 1), (w * 2, h * 2), (h, w), (w, h + 3)))
        if (w2, h2) == (w, h): odd = None
        else: ims[odd] = pil_image(r, [[r.random() for _ in range(w2)] for _ in range(h2)], mode)
    path = f"s{c.cur}.tif"; ims[0].save(path, save_all=True, append_images=ims[1:])
    im = PIL.Image.open(path); start = r.choice((0, 0, r.randrange(n)))
    if odd is not None and start >= odd: start = 0
    data = []
    for k in range(n): im.seek(k); data.append(np.array(im.convert("F"), np.float32).tobytes())
    im.seek(start)
    mname, m = pick_method(r); d = params(r)
    c.what(f"PIL sequence {w}x{h}x{n} {' '.join(x.mode for x in ims)} from {start} {mname} {d}, other size at {odd}")
    got, e = attempt(lambda: resdet_PIL.resdetect(im, m, d))
    p = lib_params(d); want = lib.analyse(w, h, data[start:odd], lib.method(mname), p)
    if p: lib.free(p)
    if odd is not None and not want[0]: expect_error(c, "pil-page-size", 3, e); c.add("pil_mismatched")
    else:
        check_results(c, "pil-sequence", want, got, e); c.add("pil_sequences")
        if e is None and im.tell() != start: c.fail("pil-position", f"left at {im.tell()}, was at {start}")
    im.close(); os.unlink(path)

def lookups(c, r):
    c.what("lookups"); c.add("lookups")
    if resdet.libversion() != lib.l.resdet_libversion().decode(): c.fail("libversion", resdet.libversion())
    if [(m.name, m.threshold) for m in resdet.methods()] != lib.methods(): c.fail("methods", str([(m.name, m.threshold) for m in resdet.methods()]))
    if resdet.default_range() != lib.l.resdet_default_range(): c.fail("default_range", str(resdet.default_range()))
    if resdet.list_image_readers() != lib.readers(): c.fail("readers", str(resdet.list_image_readers()))
    for name, t in lib.methods():
        m = resdet.Method.get(name)
        if m is None or m.name != name or m.threshold != t: c.fail("method", f"{name}: {m!r}")
    for name in ("", "nosuch", "Sign", "sig"):
        if resdet.Method.get(name) is not None: c.fail("method", f"{name!r} found")
    for f in (lambda: resdet.resdetect([0.0], 1, 1, 1, None, {"ranges": 1}), lambda: resdet.Analysis(1, 1, None, {"threshold": .5, "x": 1}), lambda: resdet.resdetect_file("nosuch.pgm", None, None, {"filter": 1})):
        v, e = attempt(f)
        if e is None: c.fail("unrecognized", f"an unrecognized parameter was accepted: {v!r}")

def leaks(c, r):
    n = 120; data = floats([[r.random() for _ in range(n)] for _ in range(24)]); lst = list(struct.unpack(f"{24 * n}f", data)); d = {"range": 1, "threshold": 0}
    open("leak.pfm", "wb").write(b"Pf\n%d 24\n-1.0\n" % n + data)
    bad = {"range": 0, "threshold": .5}
    nd = np.frombuffer(data, np.float32).reshape(n, 24)
    def image(cls, **k):
        im = cls("leak.pfm", **k); b = k.get("buffer") or im.buffer; im.read_image_frame(b)
    def analysis():
        a = resdet.Analysis(n, 24, None, d); a.analyze_image(lst); a.analysis_results(); a.analysis_results()
    def ibuf():
        b = resdet.ImageBuffer.with_dimensions(n, 24); b.close()
    ops = {"resdetect": (12, lambda: resdet.resdetect(lst, 1, n, 24, None, d)), "numpy": (12, lambda: resdet_numpy.resdetect(nd.astype(np.float64), None, d)), "file": (12, lambda: resdet.resdetect_file("leak.pfm", None, None, d)), "analysis": (12, analysis),
           "read_image": (20, lambda: resdet.read_image("leak.pfm")), "image": (20, lambda: image(resdet.Image, buffer=resdet.ImageBuffer())), "numpyimage": (20, lambda: image(resdet_numpy.Image)), "missing": (1500, lambda: attempt(lambda: resdet.Image("nosuch.pgm"))),
           "parameters": (1500, lambda: attempt(lambda: resdet.resdetect([0.0], 1, 1, 1, None, {"range": 3}))), "badparameters": (1500, lambda: attempt(lambda: resdet.resdetect([0.0], 1, 1, 1, None, bad))), "emptyanalysis": (1500, lambda: attempt(lambda: resdet.Analysis(1, 1, None, {"range": 2}))), "refused": (1500, lambda: attempt(lambda: resdet.Analysis(0, 1, None, {"range": 2}))), "buffer": (20, ibuf), "missingfile": (1500, lambda: attempt(lambda: resdet.resdetect_file("nosuch.pgm", None, None, {"range": 2}))),
           "toobig": (1500, lambda: attempt(lambda: resdet.resdetect([0.0], 1, 1 << 40, 1 << 40, None, {"range": 2}))), "openanalysis": (1500, lambda: attempt(lambda: resdet.Analysis(1 << 40, 1 << 40, None, {"range": 2}))), "noreader": (1500, lambda: attempt(lambda: resdet.Image("leak.pfm", image_reader="nosuch"))), "readnone": (1500, lambda: attempt(lambda: resdet.read_image("nosuch.pgm")))}
    name = r.choice(sorted(ops)); k, f = ops[name]
    c.what(f"memory after {k} calls: {name}")
    growth = []; per = 600 if k < 100 else 12
    for rnd in range(4):
        if rnd == 0:
            for _ in range(max(3, k // 10)): f()
        m = held()
        for _ in range(k): f()
        growth.append(held() - m)
        if growth[-1] < k * per: break
    c.add("leak_loops")
    if min(growth) >= k * per: c.fail("leak:" + name, f"{k} calls keep {growth} bytes")

def one(c):
    r = c.rng(); k = r.random()
    if k < .3: one_shot(c, r)
    elif k < .55: sequential(c, r)
    elif k < .88: reading(c, r)
    elif k < .94: pil_sequence(c, r)
    elif k < .96: lookups(c, r)
    else: leaks(c, r) if not c.opt.get("memcheck") else one_shot(c, r)

if __name__ == "__main__": drive(init, one)
