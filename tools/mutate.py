"""tools/mutate.py [-n COUNT] [-s SEED] [-f REGEX] [-c CHECK,...] [-j WORKERS] OUT: simple mutants of /repo's sources against the checks.
Mutants are made in scratch copies; those no check catches but the stable tests do not fail either are listed in OUT for review."""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
ap = argparse.ArgumentParser(); ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1); ap.add_argument("-f", default="."); ap.add_argument("-c", default=""); ap.add_argument("-j", type=int, default=4); ap.add_argument("--scale", default="0.5"); ap.add_argument("out")
a = ap.parse_args()
W = os.environ.get("MUTDIR", "/tmp/mutate")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ANA = "C07 C12 C09 C11 C06 C10 C02 C03 C14 C13 C08 C04 C05".split()
IMG = "C15 C16 C17 C18 C19 C20 C21 C12 C01 C04 C03 C22 C24".split()
def checks(f):
    b = os.path.basename(f)
    if f.startswith("bindings/python"): return ["C23"]
    if f.startswith("bindings/"): return ["C25"]
    if b == "resdet.c" and f.startswith("src"): return ["C22", "C08"]
    if f.startswith("src/"): return ["C24"]
    if b in ("ffmpeg.c", "magickwand.c"): return "C17 C19 C18 C01 C04 C21 C12".split()
    if b in ("libpng.c", "libjpeg.c"): return "C16 C20 C19 C18 C21 C12 C01 C04 C03".split()
    if "/image/" in f: return "C15 C20 C18 C19 C21 C12 C01 C04 C03".split()
    if b.startswith("image"): return "C19 C15 C16 C17 C18 C20 C21 C12 C01 C04 C03 C22 C24".split()
    if b == "util.c": return "C21 C12 C22 C07".split()
    if b == "resdetect.c": return "C19 C09 C12 C08 C06 C03 C04 C21 C10".split()
    return ANA
def files():
    for f in subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split():
        if re.match(r"(lib/[^/]*\.[ch]|lib/image/.*\.c|lib/transform/.*\.c|src/.*\.c|bindings/python/.*\.py|bindings/emscripten/.*\.mts)$", f) and re.search(a.f, f): yield f
REL = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
def mutants(f):
    s = open("/repo/" + f).read(); py = f.endswith(".py"); pos = 0
    skip = re.compile(r"^\s*(#|//|/\*|\*|import|from |\"\"\"|\})")
    for line in s.splitlines(True):
        o = pos; pos += len(line); body = line.rstrip("\n")
        if not body.strip() or skip.match(body): continue
        # strings are left alone
        masked = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\1" * len(m.group()), body); masked = re.sub(r"//.*|/\*.*\*/", lambda m: "\1" * len(m.group()), masked)
        def sub(m, new, i=0): return (f, o + m.start(i), o + m.end(i), new)
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<(?!<)|>(?!>))(?![<>=])", masked):
            if m.group() in "<>" and (py or not re.match(r"\s*#", body)) and re.search(r"[A-Za-z_]<[A-Za-z_, |\[\]]*>", masked) : continue
            if masked[m.start()-1:m.start()] == "-": continue
            yield sub(m, REL[m.group()])
        for m in re.finditer(r"&&|\|\|", masked): yield sub(m, "||" if m.group() == "&&" else "&&")
        for m in re.finditer(r"\+\+|--", masked): yield sub(m, "--" if m.group() == "++" else "++")
        for m in re.finditer(r"(?<=[\w)\]])\s*([+\-*/%])(?![+\-=>*/])\s*(?=[\w(])", masked):
            if masked[m.start(1)-1] in "+-": continue
            yield sub(m, {"+": "-", "-": "+", "*": "/", "/": "*", "%": "/"}[m.group(1)], 1)
        for m in re.finditer(r"([+\-*/|&])=(?!=)", masked):
            yield sub(m, {"+": "-=", "-": "+=", "*": "=", "/": "*=", "|": "=", "&": "="}[m.group(1)])
        for m in re.finditer(r"<<|>>", masked): yield sub(m, ">>" if m.group() == "<<" else "<<")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", masked):
            v = int(m.group()); yield sub(m, str(v + 1))
            if v: yield sub(m, str(v - 1))
        for m in re.finditer(r"\b(?:if|while)\s*\(", masked):
            d = 0
            for k in range(m.end() - 1, len(masked)):
                d += {"(": 1, ")": -1}.get(masked[k], 0)
                if not d: yield (f, o + m.end(), o + k, "!(" + body[m.end():k] + ")"); yield (f, o + m.end(), o + k, "0"); break
        if py:
            for m in re.finditer(r"^\s*(if|elif|while) (.*):$", masked): yield (f, o + m.start(2), o + m.end(2), "not (" + body[m.start(2):m.end(2)] + ")"); yield (f, o + m.start(2), o + m.end(2), "False")
            m = re.match(r"(\s+)(?!def|class|return|@|if|elif|else|try|except|for|while|with|raise|pass|\)|\]|import|from)[^#]*$", body)
            if m and body.count("(") == body.count(")") and body.count("[") == body.count("]") and not body.rstrip().endswith((":", ",", "(", "[")): yield (f, o + m.end(1), o + len(body), "pass")
        elif re.match(r"\s*(\*?[a-z_]\w*[\w\->.\[\]*+ ]*(=|\+\+|--|\+=|-=)[^=].*;|\w+\(.*\);|return.*;|goto \w+;|break;|continue;)\s*$", masked) and not re.match(r"\s*(const |static |size_t |int |float |double |char |RD\w+\*? |struct |bool |unsigned |uint|FILE|let |const )", masked):
            i = len(body) - len(body.lstrip()); yield (f, o + i, o + len(body), ";")
        for m in re.finditer(r"(?<![\w)])!(?=[\w(])", masked): yield sub(m, "")
def setup(i):
    d = f"{W}/{i}"; os.makedirs(d, exist_ok=True)
    subprocess.check_call(["rm", "-rf", f"{d}/repo"]); subprocess.check_call(["cp", "-a", "/repo", f"{d}/repo"])
    for n in ("build.sh", "test.sh"):
        t = open(f"/opt/vp/{n}").read().replace("REPO=/repo", f"REPO={d}/repo").replace("/opt/vp/build.sh", f"{d}/build.sh").replace("-j8", "-j2"); open(f"{d}/{n}", "w").write(t)
    subprocess.run(["bash", f"{d}/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lock = threading.Lock(); free = []
def one(mu):
    f, x, y, new = mu
    with lock: i = free.pop()
    d = f"{W}/{i}"; p = f"{d}/repo/{f}"
    orig = open("/repo/" + f).read()
    try:
        open(p, "w").write(orig[:x] + new + orig[y:])
        if f.endswith(".c") or f.endswith(".h"):
            src = [f] if f.endswith(".c") else ["lib/analysis.c", "lib/methods.c", "lib/image.c"]
            if any(subprocess.run(["gcc", "-fsyntax-only", "-w", "-std=gnu99", "-DHAVE_LIBJPEG=2", "-DHAVE_MAGICKWAND=6", "-I/usr/include/ImageMagick-6", "-I/usr/include/x86_64-linux-gnu/ImageMagick-6", "-DMAGICKCORE_HDRI_ENABLE=0", "-DMAGICKCORE_QUANTUM_DEPTH=16", f"-I{d}/repo/include", f"-I{d}/repo/lib", f"-I{d}/repo/lib/kissfft", f"{d}/repo/{q}"], capture_output=True).returncode for q in src): return "nocompile", ""
        elif f.endswith(".py"):
            try: compile(open(p).read(), p, "exec")
            except SyntaxError: return "nocompile", ""
        env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_BUILD=f"{d}/build", VERIF_JOBS=str(max(1, 8 // a.j)), VERIF_SCALE=a.scale, VERIF_STOP_EARLY="1", VERIF_REPLAYS=f"{d}/replays", VERIF_EVIDENCE=f"{d}/evidence", TMPDIR=d)
        odd = []
        for c in (a.c.split(",") if a.c else checks(f)):
            try: r = subprocess.run(["python3", f"{VERIF}/check.py", c, "quick"], env=env, capture_output=True, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired: odd.append(c + ":timeout"); continue
            if r.returncode == 1: return "caught", c
            if r.returncode: odd.append(f"{c}:{r.stdout[-200:]!r}")
        subprocess.run(["bash", f"{d}/test.sh", f"{d}/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
        try: ok = not (STABLE - set(json.load(open(f"{d}/o.json"))["passed"]))
        except Exception: ok = False
        return ("SURVIVED" if ok else "tests"), " ".join(odd)
    except Exception as e: return "error", repr(e)
    finally:
        open(p, "w").write(orig)
        with lock: free.append(i)
if __name__ == "__main__":
    ms = [m for f in files() for m in mutants(f)]; print(len(ms), "mutants possible")
    random.Random(a.s).shuffle(ms); ms = ms[:a.n]
    for i in range(a.j): setup(i); free.append(i)
    out = open(a.out, "a"); stat = {}
    def run(mu):
        r, c = one(mu); f, x, y, new = mu; s = open("/repo/" + f).read(); ln = s.count("\n", 0, x) + 1; line = s.splitlines()[ln - 1]; col = x - (s.rfind("\n", 0, x) + 1)
        with lock:
            stat[r] = stat.get(r, 0) + 1
            out.write(f"{r}\t{c}\t{f}:{ln}\t{line.strip()}\t=> {line[:col].strip()}«{new}»{line[col + (y - x):].strip() if y <= x + len(line) else ''}\n"); out.flush()
    with cf.ThreadPoolExecutor(a.j) as ex: list(ex.map(run, ms))
    print(stat); subprocess.run(["rm", "-rf", W])
