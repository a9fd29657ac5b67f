"""What each check builds and runs."""
from .core import *
from . import core

# ---------------------------------------------------------------- configurations
A_FFTW  = Cfg("asan-fftw-FD", True, readers="native")
A_KISS  = Cfg("asan-kiss-FD", False, readers="native")
ANALYSIS_ASAN = [
    A_FFTW, A_KISS,
    Cfg("asan-fftw-DD", True, "D", "D", readers="native"),
    Cfg("asan-fftw-LL", True, "L", "L", readers="native"),
    Cfg("asan-kiss-DL", False, "D", "L", readers="native"),
    Cfg("asan-kiss-FF-px32", False, "F", "F", pixmax=0xffffffff, readers="native", builtin=False),
    Cfg("asan-fftw-FL-r5", True, "F", "L", range=5, readers="native", builtin=False),
]
def rel(c): return c.with_(name=c.name.replace("asan", "rel"), san="rel")
ANALYSIS_REL = [rel(c) for c in ANALYSIS_ASAN] + [
    Cfg("rel-fftw-FF", True, "F", "F", readers="native", san="rel"),
    Cfg("rel-kiss-DD", False, "D", "D", readers="native", san="rel"),
    Cfg("rel-fftw-DL", True, "D", "L", readers="native", san="rel"),
    Cfg("rel-kiss-FD-px20", False, pixmax=1 << 20, readers="native", san="rel"),
    Cfg("rel-kiss-LL", False, "L", "L", readers="native", san="rel"),
    Cfg("rel-fftw-FD-r1", True, range=1, readers="native", san="rel"),
]
LIMITED = [
    Cfg("asan-fftw-px1000", True, pixmax=1000, readers="native"),
    Cfg("asan-kiss-px4096", False, pixmax=4096, readers="native"),
    Cfg("asan-kiss-px97", False, pixmax=97, range=3, readers="native"),
]

META = {}   # property -> dict(plan, technique, level, note, rule)
def plan(prop, technique, rule, level="exploration", note="", floor=()):
    def deco(f):
        META[prop] = dict(plan=f, technique=technique, rule=rule, level=level, note=note, floor=tuple(floor))
        return f
    return deco

def ana(ctx, mode, count, cfgs, san="asan", **kw):
    return Job(build_harness("h_analysis", san), ctx.prop, mode, count, cfgs, san, **kw)

def prebuild(*cfgs):
    cs = list({c.name: c for c in cfgs}.values())
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(build_lib, cs))

# ---------------------------------------------------------------- analysis
VG = ("valgrind", "-q", "--leak-check=no", "--error-limit=no", "--child-silent-after-fork=no", "--max-stackframe=8000000")
VG_KISS = Cfg("none-kiss-FD", False, readers="still", san="none")
VG_FFTW = Cfg("none-fftw-FD", True, readers="still", san="none")

@plan("C02", "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck over generated analyses, with state oracles",
      "distinct images analysed (hash of pixels, method and range)",
      note="Sanitizers observe the executions of random sizes (1x1 to several hundred), all methods, ranges up to SIZE_MAX, thresholds, filters, hostile float data, in 7 build configurations; sizes beyond that and overruns inside uninstrumented FFTW are not observed.",
      floor=["images", "candidates", "memcheck_cases", "buffers_checked_defined"])
def c02(ctx, res):
    prebuild(*ANALYSIS_ASAN, VG_KISS, VG_FFTW)
    run_jobs(ctx, [ana(ctx, "c02", ctx.n(40000, 600000), ANALYSIS_ASAN), ana(ctx, "c02", ctx.n(400, 8000), [VG_KISS, VG_FFTW], "none", prefix=VG)], res)

@plan("C06", "online shape monitor over every result list", "distinct result lists with candidates (hash of all entries)",
      note="The list invariants are checked on every list returned for generated images, parameters and build configurations.", floor=["entries"])
def c06(ctx, res):
    prebuild(*ANALYSIS_ASAN)
    run_jobs(ctx, [ana(ctx, "c06", ctx.n(30000, 600000), ANALYSIS_ASAN)], res)

@plan("C07", "differential monitor against a long double reference model with rounding intervals", "distinct detection results compared with the reference model",
      note="Every candidate's confidence is compared with an independent naive DCT and the methods' definitions in long double; comparisons which the library's rounding may decide either way are intervals, so tiny deviations within rounding are accepted.", floor=["candidates_exact", "candidates_positive", "elongated_images"])
def c07(ctx, res):
    prebuild(*ANALYSIS_REL[:7])
    run_jobs(ctx, [ana(ctx, "c07", ctx.n(40000, 1000000), ANALYSIS_REL[:7], "none")], res)

@plan("C08", "end-to-end recovery oracle over synthesised enlargements", "distinct detection results",
      note="Random textured sources of at least 84x84 pixels enlarged by 1 to 4 per dimension; every method with default parameters must rank the source size.", floor=["sources_recovered", "files_detected"])
def c08(ctx, res):
    cs = [rel(A_FFTW), rel(A_KISS), rel(ANALYSIS_ASAN[2]), rel(ANALYSIS_ASAN[3])]
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c08", ctx.n(800, 16000), cs, "none")], res)

@plan("C09", "history oracle: mean over recorded per-frame results, all feeding orders and interruptions", "distinct multi-frame results",
      note="Sequences of up to 7 frames with refused images and interim queries at random points, and long sequences (up to 66000 frames) of small images.", floor=["frames", "refused", "interim_queries", "means_compared", "long_sequences"])
def c09(ctx, res):
    cs = ANALYSIS_ASAN[:5]
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c09", ctx.n(16000, 250000), cs)], res)

@plan("C10", "bitwise comparison of repeated and interleaved histories, read-only pixel pages", "distinct results compared bit for bit",
      note="Interleavings of random other analyses, changed and freed parameters, differently aligned read-only pixels, child processes.", floor=["interleaved_analyses", "runs_compared", "children"])
def c10(ctx, res):
    cs = ANALYSIS_ASAN
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c10", ctx.n(12000, 200000), cs)], res)

@plan("C11", "subset and filter-set oracle against the unfiltered run", "distinct filtered results",
      note="Filtered results are compared with the unfiltered results of the same input; the set removed must be the documented one (or exactly the recorded known deviation).", floor=["entries", "removed"])
def c11(ctx, res):
    cs = ANALYSIS_ASAN[:4]
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c11", ctx.n(30000, 500000), cs)], res)

@plan("C12", "argument matrix with exact error oracle, builds with small size limits", "distinct argument sets",
      note="All combinations of missing arguments, boundary parameter values and sizes at and beyond limits of builds with PIXEL_MAX 97, 1000 and 4096; multi-gigabyte images are not allocated.", floor=["refusals_checked", "limit_accepted", "limit_refused", "limit_sequences"])
def c12(ctx, res):
    cs = LIMITED + [A_FFTW, A_KISS]
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c12", ctx.n(2000, 30000), cs)], res)

@plan("C13", "metamorphic oracle with rounding intervals", "distinct results transformed",
      note="Scaling, negation, transposition, flips and added constants; differences are allowed only where the reference model shows that rounding decides.", floor=["transformations", "candidates_exact"])
def c13(ctx, res):
    cs = ANALYSIS_REL[:7]
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c13", ctx.n(40000, 800000), cs, "none")], res)

@plan("C14", "differential monitor over 13 build configurations", "distinct images compared across builds",
      note="The same image and parameters through all builds, each within the rounding interval of its precision; larger images compared directly.", floor=["builds_compared", "entries_total", "large_candidates_compared", "elongated_images"])
def c14(ctx, res):
    cs = ANALYSIS_REL
    prebuild(*cs)
    run_jobs(ctx, [ana(ctx, "c14", ctx.n(1600, 30000), cs, "none")], res)

# ---------------------------------------------------------------- readers
WRAP = ("malloc", "calloc", "realloc", "free")
R_ALL    = Cfg("asan-all", True, readers="all")
R_STILL  = Cfg("asan-still-kiss", False, readers="still")
R_ALLPX  = Cfg("asan-all-px1000", True, readers="all", pixmax=1000)
R_STILLPX = Cfg("asan-still-kiss-px300", False, readers="still", pixmax=300)
R_FENCE_ALL    = Cfg("fence-all", True, readers="all", san="fence", wrap=WRAP)
R_FENCE_STILL  = Cfg("fence-still", False, readers="still", san="fence", wrap=WRAP)
R_FENCE_NATIVE = Cfg("fence-native", False, readers="native", san="fence", wrap=WRAP)
R_OMIT1  = Cfg("asan-omit-pgm-y4m", False, readers="native", omit=("pgm", "y4m"))
R_OMIT2  = Cfg("asan-omit-pfm", False, readers="still", omit=("pfm",))
R_PLAIN_ALL = Cfg("plain-all", True, readers="all", san="fence")
R_API_ALL = R_ALL.with_(name="asan-all-api", wrap=("av_frame_alloc", "av_packet_alloc", "avcodec_alloc_context3", "avformat_open_input", "avformat_find_stream_info", "av_find_best_stream", "avcodec_parameters_to_context", "avcodec_open2",
    "avcodec_send_packet", "avcodec_receive_frame", "av_read_frame", "sws_alloc_context", "sws_init_context", "sws_scale_frame", "MagickExportImagePixels"))
ALLW, STILLW = "native,png,ffmpeg,magick", "native,png"
FWRAP = ("fopen",) + tuple(f"{p}_{f}" for p in ("fftwf", "fftw") for f in ("alloc_real", "free", "plan_r2r_2d", "execute", "destroy_plan"))
F_KISS  = Cfg("fault-kiss-still", False, readers="still", san="fence", wrap=FWRAP)
F_KISSD = Cfg("fault-kiss-DD", False, "D", "D", readers="still", san="fence", wrap=FWRAP)
F_FFTW  = Cfg("fault-fftw-still", True, readers="still", san="fence", wrap=FWRAP)
F_FFTWD = Cfg("fault-fftw-DD", True, "D", "D", readers="still", san="fence", wrap=FWRAP)
TWRAP = ("malloc", "calloc", "free", "fread")
T_KISS = Cfg("tsan-kiss-still", False, readers="still", san="tsan", wrap=TWRAP)
T_NATIVE = Cfg("tsan-kiss-native-DD", False, "D", "D", readers="native", san="tsan", wrap=TWRAP)
T_FFTW = Cfg("thr-fftw-still", True, readers="still", san="fence", wrap=TWRAP)
T_FFTWD = Cfg("thr-fftw-DD", True, "D", "D", readers="still", san="fence", wrap=TWRAP)
HARNESS_LIBS = {"h_thread": ("-lpng", "-ljpeg", "-lz"), "h_fault": ("-lpng", "-ljpeg", "-lz"), "h_reader": ("-lpng", "-ljpeg", "-lz"), "h_av": ("-lpng", "-ljpeg", "-lz", "-lavformat", "-lavcodec", "-lavutil"), "h_mem": ("-lpng", "-ljpeg", "-lz", "-lavformat", "-lavcodec", "-lavutil"), "h_avmem": ("-lpng", "-ljpeg", "-lz", "-lavformat", "-lavcodec", "-lavutil")}
def harness(name, san): return build_harness(name, san, HARNESS_LIBS.get(name, ()))
FUZZENV = {"ASAN_OPTIONS": SANENV["ASAN_OPTIONS"].replace("max_allocation_size_mb=2048", "max_allocation_size_mb=1024")}
def rdr(ctx, mode, count, cfgs, readers, san="asan", env=None, prefix=(), exe="h_reader", **opts):
    return Job(harness(exe, san), ctx.prop, mode, count, cfgs, san, opts=dict(readers=readers, **opts), env=env, prefix=prefix)

@plan("C01", "AddressSanitizer, UndefinedBehaviorSanitizer, memcheck and a guard-page allocator over structure-aware mutated files, with state oracles and a hang monitor",
      "distinct files read (hash of the bytes)",
      note="Mutations of generated valid files of every format through every reader, from files, regular standard input and pipes; uninstrumented codecs are observed at the library's buffers (guard pages) only.",
      floor=["opens_ok", "opens_refused", "frames_read", "seeks", "bulk_reads", "detections", "stdin_runs", "memcheck_cases", "buffers_checked_defined"])
def c01(ctx, res):
    prebuild(R_ALL, R_STILL, A_KISS, R_FENCE_ALL, R_FENCE_STILL)
    run_jobs(ctx, [rdr(ctx, "c01", ctx.n(10000, 200000), [R_ALL], ALLW, env=FUZZENV, exe="h_av"), rdr(ctx, "c01", ctx.n(12000, 300000), [R_STILL], STILLW, env=FUZZENV),
                   rdr(ctx, "c01", ctx.n(10000, 200000), [A_KISS], "native", env=FUZZENV),
                   rdr(ctx, "c01", ctx.n(8000, 150000), [R_FENCE_ALL], ALLW, "fence"), rdr(ctx, "c01", ctx.n(10000, 200000), [R_FENCE_STILL], STILLW, "fence"),
                   rdr(ctx, "c01", ctx.n(800, 16000), [VG_KISS, VG_FFTW], STILLW, "none", prefix=VG), rdr(ctx, "c15", ctx.n(160, 3000), [VG_KISS], "native", "none", prefix=VG), rdr(ctx, "c16", ctx.n(120, 3000), [VG_FFTW], STILLW, "none", prefix=VG)], res)

@plan("C03", "fault enumeration: every allocation and every read fails once and from there on; outcome, block and stream accounting monitors",
      "distinct histories whose faults were enumerated", level="fault_enumeration",
      note="The process's allocator and the library's streams are replaced; each allocation (of the library, libpng, libjpeg and the C library) and read of a generated history fails singly and persistently. Reads of the files FFmpeg decodes fail or are interrupted too, as do the readers' own allocations and their calls of FFmpeg's and MagickWand's functions, one by one; allocations inside FFTW, FFmpeg and MagickWand do not fail.",
      floor=["allocation_faults", "read_faults", "open_faults", "faults_hit", "errors_reported", "successes_compared", "refused_images", "av_faults_hit", "av_errors_reported", "av_successes_compared", "mem_own_faults", "api_faults", "late_frames"])
def c03(ctx, res):
    cs = [F_KISS, F_FFTW, F_KISSD, F_FFTWD]
    prebuild(R_ALL, R_PLAIN_ALL, R_API_ALL, *cs)
    run_jobs(ctx, [rdr(ctx, "c03mem", ctx.n(800, 30000), [R_PLAIN_ALL], ALLW, "fence", exe="h_avmem"), rdr(ctx, "c03api", ctx.n(800, 20000), [R_API_ALL], ALLW, env=FUZZENV, exe="h_av"), Job(harness("h_fault", "fence"), "C03", "c03", ctx.n(3000, 40000), cs, "fence", opts=dict(readers=STILLW)), rdr(ctx, "c03av", ctx.n(1600, 40000), [R_ALL], ALLW, exe="h_av")], res)

@plan("C04", "LeakSanitizer, descriptor and block accounting around generated call histories",
      "distinct files in the histories (hash of the bytes)",
      note="Valid, mutated and missing files, interrupted readings and failing analyses; memory held by third-party libraries for the process lifetime is suppressed (vlib/lsan.supp).",
      floor=["opens_ok", "opens_refused", "failed_opens", "analyses", "leak_checks", "stdin_runs", "encoded_sequences", "allocation_faults", "read_faults"])
def c04(ctx, res):
    prebuild(R_ALL, R_STILL, R_ALLPX, R_STILLPX, R_FENCE_ALL, R_FENCE_STILL, F_KISS, F_FFTW, F_KISSD, F_FFTWD)
    run_jobs(ctx, [rdr(ctx, "c04", ctx.n(2400, 60000), [R_ALL, R_ALLPX], ALLW, env=FUZZENV, exe="h_av"), rdr(ctx, "c04", ctx.n(4000, 80000), [R_STILL, R_STILLPX], STILLW, env=FUZZENV),
                   rdr(ctx, "c04", ctx.n(6000, 150000), [R_FENCE_ALL], ALLW, "fence"), rdr(ctx, "c04", ctx.n(10000, 200000), [R_FENCE_STILL], STILLW, "fence"),
                   Job(harness("h_fault", "fence"), "C04", "c04", ctx.n(800, 16000), [F_KISS, F_FFTW, F_KISSD, F_FFTWD], "fence", opts=dict(readers=STILLW))], res)

@plan("C05", "ThreadSanitizer and comparison with the results alone over concurrent histories with injected delays", "distinct interleavings (hash of the order in which the threads passed the injection points)",
      note="2 to 8 threads with random histories; the race detector observes the library's code with the bundled transform (libpng and libjpeg themselves are not instrumented); with FFTW, whose planner is made thread safe first, results are compared only.",
      floor=["results_compared", "switches", "scheduling_points", "planners_made_safe"])
def c05(ctx, res):
    prebuild(T_KISS, T_NATIVE, T_FFTW, T_FFTWD)
    run_jobs(ctx, [Job(harness("h_thread", "tsan"), "C05", "c05", ctx.n(2000, 40000), [T_KISS, T_NATIVE], "tsan", opts=dict(readers=STILLW)),
                   Job(harness("h_thread", "fence"), "C05", "c05", ctx.n(1200, 30000), [T_FFTW, T_FFTWD], "fence", opts=dict(readers=STILLW, fftwsafe=1))], res)

@plan("C15", "exact decoding oracle over generated files", "distinct files decoded (hash of the bytes)",
      note="Every sample of generated PGM, PFM and Y4M files (header variants, comments, depths, chroma formats, byte orders, several frames) from files and standard input, whole and frame by frame.",
      floor=["samples_compared", "frames_read", "stdin_runs"])
def c15(ctx, res):
    prebuild(A_FFTW, R_ALL, R_FENCE_NATIVE)
    run_jobs(ctx, [rdr(ctx, "c15", ctx.n(12000, 250000), [A_FFTW], "native"), rdr(ctx, "c15", ctx.n(3000, 40000), [R_ALL], ALLW), rdr(ctx, "c15", ctx.n(8000, 150000), [R_FENCE_NATIVE], "native", "fence")], res)

@plan("C16", "exact decoding oracle over generated files", "distinct files decoded (hash of the bytes)",
      note="PNGs of every colour type, depth, interlacing, transparency and gamma, and JPEGs (baseline, progressive, subsampled, restart intervals) against samples kept at encoding time or the luma plane decoded without conversion.",
      floor=["samples_compared", "frames_read", "stdin_runs"])
def c16(ctx, res):
    prebuild(R_STILL, R_ALL, R_FENCE_STILL)
    run_jobs(ctx, [rdr(ctx, "c16", ctx.n(20000, 400000), [R_STILL], STILLW), rdr(ctx, "c16", ctx.n(6000, 100000), [R_ALL], ALLW), rdr(ctx, "c16", ctx.n(6000, 100000), [R_FENCE_STILL], STILLW, "fence")], res)

@plan("C17", "differential decoding oracle over generated files", "distinct files decoded (hash of the bytes)",
      note="Generated grayscale TGA, TIFF, BMP, AVI, GIF, PNG, PGM, PFM and Y4M through FFmpeg and MagickWand against the samples they were made from; sequences encoded with 13 codecs in 10 containers (lossless ones compared exactly, lossy ones by closest frame), with delayed and reordered frames and other streams in between; and changes of size within a sequence.",
      floor=["samples_compared", "frames_read", "stdin_runs", "size_changes", "palette_images", "encoded_sequences", "other_streams", "format_changes", "color_images"])
def c17(ctx, res):
    prebuild(R_ALL)
    run_jobs(ctx, [rdr(ctx, "c17", ctx.n(12000, 240000), [R_ALL], ALLW, exe="h_av")], res)

@plan("C18", "history oracle over seeks and reads, with progress callback monitor", "distinct seek histories",
      note="Random histories of reads and seeks over generated sequences, seekable and from pipes, each frame compared with the model of a reader which only reads.",
      floor=["operations", "seeks_stdin", "generic_sequences", "frames_read", "stdin_runs", "encoded_sequences"])
def c18(ctx, res):
    prebuild(R_ALL, R_STILL, R_FENCE_STILL)
    run_jobs(ctx, [rdr(ctx, "c18", ctx.n(2400, 50000), [R_ALL], ALLW), rdr(ctx, "c18", ctx.n(10000, 200000), [R_STILL], STILLW), rdr(ctx, "c18", ctx.n(6000, 100000), [R_FENCE_STILL], STILLW, "fence"), rdr(ctx, "cav", ctx.n(320, 8000), [R_ALL], ALLW, exe="h_av")], res)

@plan("C19", "differential oracle over all ways to read a file", "distinct files read (hash of the bytes)",
      note="Frame by frame into own and library buffers, in bulk, from files, regular standard input and pipes of varying portions, and detection on files against detection on their pixels.",
      floor=["frames_read", "stdin_runs", "ways_compared", "detections_compared"])
def c19(ctx, res):
    prebuild(R_ALL, R_STILL)
    run_jobs(ctx, [rdr(ctx, "c19", ctx.n(1600, 30000), [R_ALL], ALLW), rdr(ctx, "c19", ctx.n(4000, 80000), [R_STILL], STILLW)], res)

@plan("C20", "truncation and corruption with exact outcome oracle", "distinct broken files (hash of the bytes)",
      note="Files cut at chosen or random bytes and corrupted headers: everything before the damage is delivered and the damage reported.",
      floor=["damaged_files", "frames_read", "damage_seeks"])
def c20(ctx, res):
    prebuild(R_STILL, A_KISS)
    run_jobs(ctx, [rdr(ctx, "c20", ctx.n(60000, 1000000), [R_STILL], STILLW), rdr(ctx, "c20", ctx.n(20000, 400000), [A_KISS], "native")], res)

@plan("C21", "lookup consistency oracle over several build configurations", "distinct files selected by name and type",
      note="All methods, readers, errors, file extensions and MIME types in random case, in builds with all, some and omitted readers.",
      floor=["selections", "generic_selected"])
def c21(ctx, res):
    prebuild(R_ALL, R_STILL, A_KISS, R_OMIT1, R_OMIT2)
    run_jobs(ctx, [rdr(ctx, "c21", ctx.n(1600, 30000), [R_ALL], ALLW), rdr(ctx, "c21", ctx.n(2000, 40000), [R_STILL], STILLW), rdr(ctx, "c21", ctx.n(2000, 40000), [A_KISS], "native"),
                   rdr(ctx, "c21", ctx.n(400, 8000), [R_OMIT1], "native", omit="pgm,y4m"), rdr(ctx, "c21", ctx.n(400, 8000), [R_OMIT2], STILLW, omit="pfm")], res)

# ---------------------------------------------------------------- tools and bindings
TOOL_ENV = {"ASAN_OPTIONS": SANENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")}
def py(ctx, script, mode, count, cfg, tools=(), python="python3", san="none", env=None, prefix=(), **opts):
    """A harness written in Python: the library (cfg) is its oracle, the tools are built with sanitizers."""
    return Job(f"{VERIF}/harness/{script}.py", ctx.prop, mode, count, [cfg] if cfg else [], san, opts=dict(opts, **{t: build_tool(tc, n) for t, n, tc in tools}), env=env or TOOL_ENV, prefix=(*prefix, python))
CLI = [(Cfg("rel-still", True, readers="still", san="rel"), R_STILL.with_(name="asan-still-fftw", fftw=True)),
       (Cfg("rel-kiss-still", False, readers="still", san="rel"), R_STILL),
       (Cfg("rel-all", True, readers="all", san="rel"), R_ALL),
       (Cfg("rel-kiss-native-LL-px3000", False, "L", "L", pixmax=3000, range=5, readers="native", san="rel"), Cfg("asan-kiss-native-LL-px3000", False, "L", "L", pixmax=3000, range=5, readers="native"))]

@plan("C22", "differential monitor of the tool's output and exit status, built with AddressSanitizer and UndefinedBehaviorSanitizer, against the library", "distinct runs with results (hash of output, options and input)",
      note="Random option combinations, valid and invalid, over generated single and multi-frame, damaged and missing inputs from files, pipes and redirected standard input, in four build configurations.",
      floor=["results_compared", "failures_expected", "verdicts", "upscaled_verdicts", "progress_logs", "informative_runs"])
def c22(ctx, res):
    prebuild(*[a for a, _ in CLI])
    ns = [(3600, 80000), (2400, 60000), (800, 16000), (1600, 32000)]
    run_jobs(ctx, [py(ctx, "h_cli", "c22", ctx.n(*n), a, [("tool", "resdet", b)]) for (a, b), n in zip(CLI, ns)], res)

@plan("C24", "round-trip and differential monitors of the tools' files, output and exit status, built with AddressSanitizer and UndefinedBehaviorSanitizer", "distinct inputs processed (hash of input and method)",
      note="Generated stills and sequences, damaged and missing inputs and outputs that cannot be created or written, through imgread, stat and profile.",
      floor=["dumps_compared", "sequences_dumped", "damaged_inputs", "unwritable_outputs", "stat_runs", "profiles_compared", "times_compared", "outliers_checked"])
def c24(ctx, res):
    prebuild(*[a for a, _ in CLI[:3]])
    ns = [(2400, 50000), (2400, 50000), (600, 12000)]
    run_jobs(ctx, [py(ctx, "h_tools", "c24", ctx.n(*n), a, [(t, t, b) for t in ("imgread", "stat", "profile")]) for (a, b), n in zip(CLI, ns)], res)

LOCALES = dict(de_DE="UTF-8", ps_AF="UTF-8", tr_TR="ISO-8859-9", fr_FR="ISO-8859-1", az_AZ="UTF-8")   # decimal points of other characters, of several bytes, other cases of letters, more letters and spaces
def locales():
    d = f"{core.BUILD}/locale"; os.makedirs(d, exist_ok=True)
    for n, m in LOCALES.items():
        if not os.path.isdir(f"{d}/{n}"):
            t = f"{d}/{n}.{os.getpid()}"; subprocess.run(["localedef", "--no-archive", "-i", n, "-f", m, t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if not os.path.isdir(t): raise core.HarnessError(f"localedef could not make {n}")
            try: os.rename(t, f"{d}/{n}")
            except OSError: pass
    return d

@plan("C26", "differential and exact decoding monitors around library calls made in other locales", "distinct files and runs in other locales",
      note="The readers, lookups and error reports are called in locales with other decimal points (of one or more bytes), other cases of letters and other classes of characters, while files are generated and judged in the C locale; the tools run with such locales in their environment.",
      floor=["in_other_locales", "other_decimal_points", "other_cases", "samples_compared", "seeks", "selections", "results_compared", "dumps_compared"])
def c26(ctx, res):
    prebuild(A_KISS, R_ALL, R_STILL, *CLI[1])
    d = locales()   # ImageMagick itself does not find its GIF decoder where I and i are not the same letter
    opts = dict(locpath=d, locales=",".join(LOCALES))
    run_jobs(ctx, [rdr(ctx, "c26", ctx.n(8000, 200000), [A_KISS], "native", **opts), rdr(ctx, "c26", ctx.n(4000, 80000), [R_STILL], STILLW, **opts),
                   rdr(ctx, "c26", ctx.n(1600, 30000), [R_ALL], ALLW, **dict(opts, locales="de_DE,ps_AF,fr_FR"))] +
                  [py(ctx, h, m, ctx.n(600, 12000), CLI[1][0], [(t, t, CLI[1][1]) for t in ts] if m == "c24" else [("tool", "resdet", CLI[1][1])], env=dict(TOOL_ENV, LOCPATH=d, LC_ALL="de_DE", PYTHONUTF8="1"))
                   for h, m, ts in (("h_cli", "c22", ()), ("h_tools", "c24", ("imgread", "stat", "profile")))], res)

@plan("C28", "monitor of process-wide state before and after every call, over the workloads of the other properties", "distinct files and images",
      note="Standard streams, locale, floating point environment, environment variables, working directory, umask, signal handlers and masks, resource limits, timers, the C library's random numbers, other open files and the files in the working directory are compared before and after each call. What FFmpeg logs to standard error is excepted.",
      floor=["calls_observed", "detections", "opens_ok", "opens_refused", "seeks", "stdin_runs", "damaged_files"])
def c28(ctx, res):
    prebuild(A_KISS, A_FFTW, R_ALL, R_STILL)
    run_jobs(ctx, [rdr(ctx, "c28", ctx.n(4000, 100000), [A_KISS, A_FFTW], "native", env=FUZZENV), rdr(ctx, "c28", ctx.n(4000, 100000), [R_STILL], STILLW, env=FUZZENV), rdr(ctx, "c28", ctx.n(2400, 60000), [R_ALL], ALLW, env=FUZZENV, exe="h_av")], res)

@plan("C29", "differential monitor of visualize.sh with recording stand-ins for spec and ImageMagick", "distinct drawings (hash of arguments and results)",
      note="The script runs with the real resdet; spec, identify and magick, which are not installed, are stand-ins recording their arguments and passing data on.", floor=["drawings_compared", "moved_lines", "failures_expected", "usages"])
def c29(ctx, res):
    prebuild(CLI[0][0], *CLI[1])
    run_jobs(ctx, [py(ctx, "h_tools", "c29", ctx.n(4000, 40000), a, [("resdet", "resdet", b)], visualize=f"{REPO}/src/visualize.sh") for a, b in CLI[:2]], res)

def memshim():
    p = f"{VERIF}/harness/memshim.c"; h = hashlib.sha256(open(p, "rb").read()).hexdigest()[:24]
    return core._once(f"{BUILD}/lib/memshim-{h}.so", lambda t: core._run(["gcc", "-O2", "-fPIC", "-shared", "-o", t, p], "building memshim"))

@plan("C27", "allocation monitor over long histories: bytes live between calls and at most during them, allocations of the tools", "distinct sequences and images (hash of bytes)",
      note="Sequences of 40 to 120 frames and analyses of up to 200 images are observed allocation by allocation; growth too slow to show over these is not observed. What FFmpeg's demuxers and decoders hold is allowed to grow a little, MagickWand reads all frames when opening.",
      floor=["histories_measured", "frames_measured", "detections_compared", "one_shot_compared", "bulk_reads", "interim_queries", "refused", "lookups", "pipes", "allocation_events", "tools_compared", "tool_allocations"])
def c27(ctx, res):
    prebuild(A_KISS, A_FFTW, R_ALL, ANALYSIS_ASAN[3], ANALYSIS_ASAN[4], CLI[0][0])
    run_jobs(ctx, [rdr(ctx, "c27", ctx.n(3000, 80000), [A_KISS, A_FFTW, ANALYSIS_ASAN[3], ANALYSIS_ASAN[4]], "native", exe="h_mem"), rdr(ctx, "c27", ctx.n(1200, 30000), [R_ALL], ALLW, exe="h_mem"),
                   py(ctx, "h_tools", "c27", ctx.n(40, 1200), CLI[2][0], [(t, t, CLI[2][0]) for t in ("resdet", "imgread", "profile")], shim=memshim())], res)

VENV = "/opt/resdet-venv/bin/python"
def bindings_env(ctx, cfg, **kw):
    """libresdet.so, as the bindings load it by name, is the build of cfg."""
    d = os.path.join(ctx.scratch, "so-" + cfg.name); os.makedirs(d, exist_ok=True)
    l = os.path.join(d, "libresdet.so")
    if not os.path.lexists(l): os.symlink(build_lib(cfg), l)
    return dict(LD_LIBRARY_PATH=d, PYTHONPATH=f"{REPO}/bindings/python", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", OPENBLAS_NUM_THREADS="1", **kw)
PY = [Cfg("rel-still", True, readers="still", san="rel"), Cfg("rel-kiss-still", False, readers="still", san="rel"), Cfg("rel-kiss-native-LL-px3000", False, "L", "L", pixmax=3000, range=5, readers="native", san="rel")]

@plan("C23", "differential monitor of the Python modules against the C interface of the same build, guard pages, memcheck and allocation accounting", "distinct inputs with candidates (hash of samples, method and parameters, or of results and history)",
      note="Random images in every accepted type of argument, sequential analyses, image reading, seeking, indexing, lookups, invalid parameters and uses after closing; the bindings' process is observed by guard pages around arguments, by valgrind for a part of the cases, and by the allocator's statistics.",
      floor=["results_compared", "frames_compared", "errors_expected", "indices", "uses_after_close", "leak_loops", "pil_sequences", "pil_mismatched", "invalid_parameters", "interim_results", "bulk_reads", "kept_frames"])
def c23(ctx, res):
    prebuild(*PY, VG_KISS)
    ns = [(8000, 160000), (8000, 160000), (4000, 80000)]
    run_jobs(ctx, [py(ctx, "h_py", "c23", ctx.n(*n), a, python=VENV, env=bindings_env(ctx, a)) for a, n in zip(PY, ns)] +
                  [py(ctx, "h_py", "c23", ctx.n(240, 6000), VG_KISS, python=VENV, env=bindings_env(ctx, VG_KISS, PYTHONMALLOC="malloc"), prefix=(*VG, "--error-exitcode=98"), memcheck=1)], res)

def build_js():
    """A directory with the bindings, compiled from TypeScript, the library for wasm32 and the runtime that stands in for Emscripten's."""
    w = f"{VERIF}/harness/wasm"
    mts = f"{REPO}/bindings/emscripten/resdet.mts"
    h = hashlib.sha256(headers_hash().encode())
    files = [os.path.join(d, f) for d, _, fs in sorted(os.walk(f"{REPO}/lib")) for f in sorted(fs) if f.endswith(".c")]
    files += [os.path.join(d, f) for d, _, fs in sorted(os.walk(w)) for f in sorted(fs)] + [mts, f"{REPO}/bindings/emscripten/exported_functions.txt"]
    for f in files: h.update(f.encode()); h.update(open(f, "rb").read())
    def make(t):
        os.mkdir(t)
        try:
            core._run(["bash", f"{w}/build.sh", REPO, f"{t}/libresdet.wasm"], "building for wasm32")
            core._run(["/opt/veriftools/node/node_modules/.bin/esbuild", mts, "--format=esm", "--target=es2022", f"--outfile={t}/resdet.mjs", "--log-level=warning"], "compiling resdet.mts")
            shutil.copy(f"{w}/libresdet.mjs", t)
        except BaseException: shutil.rmtree(t, ignore_errors=True); raise
    return core._once(f"{BUILD}/js/{h.hexdigest()[:24]}", make)

@plan("C25", "differential monitor of the JavaScript module against the C interface of the same wasm32 build, over an allocator with guard zones, quarantine, accounting and faults", "distinct inputs with candidates (hash of samples and arguments, or of results and history)",
      note="libresdet is built for wasm32 with clang and a minimal C library instead of Emscripten's, whose runtime methods are stood in for by harness/wasm/libresdet.mjs; reading images is not part of the module.",
      floor=["results_compared", "errors_expected", "interim_results", "lookups", "allocation_faults", "analyses_collected", "memory_growths", "sources_enlarged"])
def c25(ctx, res):
    j = Job(f"{VERIF}/harness/h_js.mjs", "C25", "c25", ctx.n(16000, 400000), [], "none", opts=dict(dir=build_js()), prefix=("node", "--expose-gc"))
    run_jobs(ctx, [j], res)

# ---------------------------------------------------------------- for replays
def configs():
    cs = {}
    def walk(v):
        if isinstance(v, Cfg): cs.setdefault(v.name, v)
        elif isinstance(v, (list, tuple)):
            for x in v: walk(x)
    for v in list(globals().values()): walk(v)
    return cs
def find_cfg(name):
    try: return configs()[name]
    except KeyError: raise HarnessError("no configuration " + name)
def replay_job(ctx, d):
    cfgs, opts, env = [find_cfg(n) for n in d["cfgs"]], d["opts"] or {}, None
    m = re.match(r"(.*)-(asan|msan|tsan|none|rel|fence)-[0-9a-f]+$", d["exe"])
    if m: exe, san = harness(*m.groups()), m.group(2)
    else:
        exe, san = f"{VERIF}/harness/{d['exe']}", "none"
        for k, v in opts.items():
            t = re.match(r"(resdet|imgread|stat|profile)-(.*)-[0-9a-f]{24}$", os.path.basename(str(v)))
            if t: opts[k] = build_tool(find_cfg(t.group(2)), t.group(1))
        if "dir" in opts: opts["dir"] = build_js()
        if "shim" in opts: opts["shim"] = memshim()
        env = TOOL_ENV
        if d["exe"] == "h_py.py": env = bindings_env(ctx, cfgs[0], **({"PYTHONMALLOC": "malloc"} if "memcheck" in opts else {}))
    return Job(exe, d["property"], d["mode"], d["count"], cfgs, san, opts, env=env, prefix=d.get("prefix", ()))
def setup():
    prebuild(*[c for c in configs().values() if c not in [b for _, b in CLI]])
    for n, san in (("h_analysis", "asan"), ("h_analysis", "none"), ("h_reader", "asan"), ("h_av", "asan"), ("h_mem", "asan"), ("h_avmem", "fence"), ("h_reader", "fence"), ("h_fault", "fence"), ("h_reader", "none"), ("h_thread", "tsan"), ("h_thread", "fence")): harness(n, san)
    for _, b in CLI: build_tool(b, "resdet")
    for _, b in CLI[:3]:
        for t in ("imgread", "stat", "profile"): build_tool(b, t)
    build_js()
