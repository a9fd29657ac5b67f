"""The case loop, reporting and file generators of the harnesses written in Python (same protocol as common.hpp)."""
import ctypes, hashlib, math, mmap, os, random, resource, struct, sys, zlib

class Ctx:
    def __init__(self):
        self.opt = {}; self.libs = []; self.counters = {}; self.distinct = []; self.samples = []; self.nviol = {}
        self.prop = self.mode = ""; self.tier = "quick"; self.seed = 1; self.first = 0; self.count = 0; self.step = 1; self.replay = False
        self.out = sys.stdout; self.prog = None; self.cur = 0; self.text = ""
    def what(self, s):
        self.text = s.replace("\n", " ").replace("\t", " ")
        if self.prog is not None:
            b = self.text.encode("utf-8", "replace")[:3999] + b"\0"
            self.prog[16:16 + len(b)] = b
    def fail(self, key, msg):
        msg = msg.replace("\n", " ").replace("\t", " ")[:3000]
        self.nviol[key] = self.nviol.get(key, 0) + 1
        if self.nviol[key] <= 6 and len(self.nviol) <= 60:
            self.out.write(f"V\t{key}\t{self.cur}\t{msg} [case: {self.text}]\n"); self.out.flush()
    def add(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n
    def nontrivial(self, *parts):
        h = hashlib.sha256()
        for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
        self.distinct.append(int.from_bytes(h.digest()[:8], "little"))
    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(s.replace("\n", " ").replace("\t", " ")[:900])
    def rng(self, salt=""): return random.Random(f"{self.seed}/{self.prop}/{self.mode}/{self.libs[0][0] if self.libs else ''}/{self.cur}/{salt}")

def drive(init, one):
    c = Ctx(); outp = progp = distp = work = None
    for a in sys.argv[1:]:
        k, _, v = a.partition("=")
        if k in ("prop", "mode", "tier"): setattr(c, k, v)
        elif k in ("seed", "first", "count", "step"): setattr(c, k, int(v))
        elif k == "lib":
            name, _, rest = v.partition("=")
            c.libs.append((name, rest.split(";")[0], dict(x.split("=", 1) for x in rest.split(";")[1:])))
        elif k == "out": outp = v
        elif k == "progress": progp = v
        elif k == "distinct": distp = v
        elif k == "work": work = v
        elif k == "replay": c.replay = True
        else: c.opt[k] = v
    if outp: c.out = open(outp, "a")
    if progp:
        fd = os.open(progp, os.O_RDWR | os.O_CREAT, 0o644); os.ftruncate(fd, 4016)
        c.prog = mmap.mmap(fd, 4016); os.close(fd)
    if work: os.chdir(work)
    resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
    init(c)
    n = 0
    for i in range(c.first, c.count, c.step):
        c.cur = i; c.what("")
        if c.prog is not None: c.prog[0:16] = struct.pack("QQ", i, 1)
        one(c); n += 1
        if c.prog is not None: c.prog[8:16] = struct.pack("Q", 2)
    if c.prog is not None: c.prog[8:16] = struct.pack("Q", 0)
    c.out.write(f"C\tevaluations\t{n}\n")
    for k, v in c.counters.items(): c.out.write(f"C\t{k}\t{v}\n")
    for s in c.samples: c.out.write(f"S\t{s}\n")
    if distp: open(distp, "ab").write(struct.pack(f"{len(c.distinct)}Q", *c.distinct))
    c.out.write("E\tdone\n"); c.out.flush()
    os._exit(0)

# ---------------------------------------------------------------- the library through its C interface
class Res(ctypes.Structure): _fields_ = [("index", ctypes.c_size_t), ("confidence", ctypes.c_float)]
class Meth(ctypes.Structure): _fields_ = [("name", ctypes.c_char_p), ("func", ctypes.c_void_p), ("threshold", ctypes.c_float)]
PF, PR, SZ, I, VP = ctypes.POINTER(ctypes.c_float), ctypes.POINTER(Res), ctypes.c_size_t, ctypes.c_int, ctypes.c_void_p
PROGRESS = ctypes.CFUNCTYPE(None, VP, ctypes.c_uint64)
P = ctypes.POINTER

class Lib:
    """Every call returns (error, value); the error codes are the library's."""
    def __init__(self, path):
        l = self.l = ctypes.CDLL(path)
        self.free = ctypes.CDLL(None).free; self.free.argtypes = [VP]; self.free.restype = None
        for f, r, a in (("resdet_libversion", ctypes.c_char_p, []), ("resdet_error_str", ctypes.c_char_p, [I]), ("resdet_methods", P(Meth), []), ("resdet_get_method", VP, [ctypes.c_char_p]), ("resdet_default_range", SZ, []),
                        ("resdet_alloc_default_parameters", VP, []), ("resdet_parameters_set_range", I, [VP, SZ]), ("resdet_parameters_set_threshold", I, [VP, ctypes.c_float]), ("resdet_parameters_set_compression_filter", I, [VP, ctypes.c_uint8]),
                        ("resdet_open_image", VP, [ctypes.c_char_p, ctypes.c_char_p, P(SZ), P(SZ), P(PF), P(I)]), ("resdet_open_image_with_reader", VP, [ctypes.c_char_p, ctypes.c_char_p, P(SZ), P(SZ), P(PF), P(I)]),
                        ("resdet_list_image_readers", P(ctypes.c_char_p), []), ("resdet_read_image_frame", ctypes.c_bool, [VP, PF, P(I)]), ("resdet_seek_frame", ctypes.c_bool, [VP, ctypes.c_uint64, VP, VP, P(I)]), ("resdet_close_image", None, [VP]), ("resdet_read_image", I, [ctypes.c_char_p, ctypes.c_char_p, P(PF), P(SZ), P(SZ), P(SZ)]),
                        ("resdet_create_analysis", VP, [VP, SZ, SZ, VP, P(I)]), ("resdet_analyze_image", I, [VP, PF]), ("resdet_analysis_results", I, [VP, P(PR), P(SZ), P(PR), P(SZ)]), ("resdet_destroy_analysis", None, [VP]),
                        ("resdetect", I, [PF, SZ, SZ, SZ, P(PR), P(SZ), P(PR), P(SZ), VP, VP])):
            g = getattr(l, f); g.restype = r; g.argtypes = a
    def readers(self):
        p = self.l.resdet_list_image_readers(); out = []
        while p[len(out)]: out.append(p[len(out)].decode())
        return out
    def methods(self):
        p = self.l.resdet_methods(); out = []
        while p[len(out)].name: out.append((p[len(out)].name.decode(), p[len(out)].threshold))
        return out
    def method(self, name): return self.l.resdet_get_method(name.encode() if name is not None else None)
    def params(self, range=None, threshold=None, filter=None):
        """None if refused."""
        p = self.l.resdet_alloc_default_parameters(); bad = False
        if threshold is not None: bad |= bool(self.l.resdet_parameters_set_threshold(p, threshold))
        if range is not None: bad |= bool(self.l.resdet_parameters_set_range(p, range))
        if filter is not None: bad |= bool(self.l.resdet_parameters_set_compression_filter(p, filter))
        if bad: self.free(p); return None
        return p
    def open(self, path, type=None, reader=None):
        w, h, b, e = SZ(), SZ(), PF(), I()
        if reader is not None: im = self.l.resdet_open_image_with_reader(os.fsencode(path), reader.encode(), w, h, b, e)
        else: im = self.l.resdet_open_image(os.fsencode(path), type.encode() if type is not None else None, w, h, b, e)
        return e.value, im, w.value, h.value, b
    def frames(self, path, type=None, reader=None, offset=0, limit=None):
        """error, width, height, list of frames (bytes)"""
        e, im, w, h, b = self.open(path, type, reader)
        if e: return e, 0, 0, []
        fr, err = [], I()
        if offset and not self.l.resdet_seek_frame(im, offset, None, None, err): pass
        else:
            while limit is None or len(fr) < limit:
                if not self.l.resdet_read_image_frame(im, b, err): break
                fr.append(ctypes.string_at(b, w * h * 4))
        self.l.resdet_close_image(im); self.free(ctypes.cast(b, VP))
        return err.value, w, h, fr
    def read_image(self, path, type=None):
        """error only"""
        b, n, w, h = PF(), SZ(), SZ(), SZ()
        e = self.l.resdet_read_image(os.fsencode(path), type.encode() if type is not None else None, b, n, w, h)
        self.free(ctypes.cast(b, VP)); return e
    def analyse(self, w, h, frames, method=None, params=None):
        """error, widths, heights"""
        e = I(); a = self.l.resdet_create_analysis(method, w, h, params, e)
        if e.value: return e.value, None, None
        er = 0
        for f in frames:
            buf = ctypes.create_string_buffer(f, len(f))
            er = self.l.resdet_analyze_image(a, ctypes.cast(buf, PF))
            if er: break
        rw, rh, cw, ch = PR(), PR(), SZ(), SZ()
        if not er: er = self.l.resdet_analysis_results(a, rw, cw, rh, ch)
        out = er, [(rw[i].index, rw[i].confidence) for i in range(cw.value)], [(rh[i].index, rh[i].confidence) for i in range(ch.value)]
        self.free(ctypes.cast(rw, VP)); self.free(ctypes.cast(rh, VP)); self.l.resdet_destroy_analysis(a)
        return out

# ---------------------------------------------------------------- contents
def axis_weights(n, f, linear):
    if not linear: return [((i // f, 1.0),) for i in range(n * f)]
    out = []
    for i in range(n * f):
        p = (i + .5) / f - .5; a = math.floor(p); t = p - a
        out.append(((min(max(a, 0), n - 1), 1 - t), (min(max(a + 1, 0), n - 1), t)))
    return out
def enlarged(r, sw, sh, fw, fh, linear):
    """A random texture enlarged by whole factors, 0..1"""
    src = [[r.random() for _ in range(sw)] for _ in range(sh)]
    wx, wy = axis_weights(sw, fw, linear), axis_weights(sh, fh, linear)
    rows = [[sum(row[k] * c for k, c in wx[x]) for x in range(sw * fw)] for row in src]
    return [[sum(rows[k][x] * c for k, c in wy[y]) for x in range(sw * fw)] for y in range(sh * fh)]
def content(r, w=None, h=None, big=False):
    """width, height, rows"""
    k = r.random()
    if w is None and k < .6:
        fw, fh = r.choice(((2, 2), (2, 1), (1, 2), (3, 2), (1, 1)))
        sw, sh = (r.randint(13, 40), r.randint(13, 40)) if not big else (r.randint(84, 100), r.randint(84, 100))
        im = enlarged(r, sw, sh, fw, fh, r.random() < .5)
        return sw * fw, sh * fh, im
    if w is None:
        w, h = r.choice(((r.randint(1, 8), r.randint(1, 8)), (r.randint(1, 70), r.randint(1, 70)), (1, r.randint(1, 90)), (r.randint(1, 90), 1)))
    m = r.random()
    if m < .1: return w, h, [[.5] * w for _ in range(h)]
    return w, h, [[r.random() for _ in range(w)] for _ in range(h)]

def q8(v): return min(255, max(0, int(v * 255 + .5)))
def pgm(rows):
    return b"P5\n%d %d\n255\n" % (len(rows[0]), len(rows)) + b"".join(bytes(q8(v) for v in row) for row in rows)
def pfm(rows, little=True):
    return b"Pf\n%d %d\n%s\n" % (len(rows[0]), len(rows), b"-1.0" if little else b"1.0") + b"".join(struct.pack(f"{'<' if little else '>'}{len(row)}f", *row) for row in reversed(rows))
def y4m(frames):
    w, h = len(frames[0][0]), len(frames[0])
    return b"YUV4MPEG2 W%d H%d F25:1 Cmono\n" % (w, h) + b"".join(b"FRAME\n" + b"".join(bytes(q8(v) for v in row) for row in f) for f in frames)
def png(rows):
    def chunk(t, d): return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    w, h = len(rows[0]), len(rows)
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(b"".join(b"\0" + bytes(q8(v) for v in row) for row in rows), 1)) + chunk(b"IEND", b"")
def f32(v): return struct.unpack("f", struct.pack("f", v))[0]
