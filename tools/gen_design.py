"""Writes DESIGN.md (figures of the quick tier from the last evidence)."""
import json,glob,os
H='''# Runtime monitoring of 0x09/resdet

Everything here runs the code of `/repo`'s working tree and watches the executions: sanitizers (AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, ThreadSanitizer), valgrind's memcheck, an allocator whose blocks end at inaccessible pages, and monitors and oracles of our own for the behavioural properties. No property is decided by proof or model checking, and none is declared not applicable: every guarantee found is observable in executions of this single-process library.

## Parts

| file | |
|---|---|
| `check.py PROP [quick\\|thorough]` | one check; also `--setup`, `--replay FILE` |
| `vlib/core.py` | builds `/repo`'s sources into `/verif/.build` (keyed by the contents of source, headers and flags, so an unchanged file is not built twice and a changed one always is), runs shards, attributes crashes and hangs to cases, known findings |
| `vlib/props.py` | per property: build configurations, workloads, counters that must not stay zero (`floor`) |
| `harness/h_analysis.cpp` | C02, C06 to C14 |
| `harness/h_reader.cpp`, `files.hpp` | C01, C04, C15 to C21, C26, C28; generator of files together with their samples |
| `harness/h_av.cpp`, `avgen.hpp` | C17 with sequences encoded by FFmpeg's encoders |
| `harness/h_fault.cpp`, `h_avmem.cpp` | C03 |
| `harness/h_thread.cpp` | C05 |
| `harness/h_cli.py`, `h_tools.py` | C22, C24, C29 |
| `harness/h_py.py` | C23 |
| `harness/h_js.mjs`, `harness/wasm/` | C25 |
| `harness/h_mem.cpp`, `memshim.c` | C27 |
| `harness/guard.hpp` | allocator with guard pages and block accounting, linked into library builds with `--wrap` |
| `tools/gen_manifest.py` | writes `MANIFEST.json` |
| `tools/seed.sh ID` | verifies a planted bug (demo both ways, stable tests) and runs its check |

The harnesses hold no library code: they `dlopen` several builds of it (fftw or KISS FFT; coefficients and intermediates in float, double or long double; size limits; default ranges; omitted readers; compiled with sanitizers, with gcc -O3, or with guarded allocation) and pick one per case. A case is determined by (property, seed, configuration, index), so every violation has a replay file (`check.py --replay`). A crash, sanitizer report or stall is attributed to the case noted in a shared page before each step; after it the shard continues behind that case. A stall is believed only if the case stalls again alone with twice the time (100 s, then 200 s; normal cases take milliseconds).

What a check *observed* is in its evidence file: evaluations, distinct nontrivial ones (by hash of input and outcome), the counters of the monitors (frames, samples compared, candidates decided exactly, faults hit, interleavings, seeks, ...) and samples. A check whose `floor` counters are zero ends with status 2: a workload that no longer reaches its subject is not a pass.

No hooks were needed in `/repo` (MANIFEST.json's `hooks` is empty): allocation, streams and FFTW's entry points are interposed at link time.

## Properties and how they are decided

Common oracle limits: floating point. The library's coefficients have rounding errors, so whether two coefficients differ in sign may be undecidable from outside. The reference model computes the DCT in long double and yields, per candidate, an *interval* of confidences: a comparison closer than the error bound of the build's precision (4 eps (log2 w + log2 h + 4) times the norm) counts for neither or either side. Most candidates have an interval of one point (`candidates_exact`), and those are compared to within the resolution of a float.

'''
rows={
'C01':('Sanitizers + guard pages + memcheck over mutated files','Files of every format are generated (headers with variants, comments, depths, chroma layouts, PNG chunks, JPEG scans, AVI, TIFF, GIF, TGA, BMP) and mutated structurally (header numbers, lengths, truncation, splices, bit flips) or left valid, and read through every reader, by name, type and reader, from files, redirected standard input and pipes delivering random portions, with random orders of read, seek and bulk calls. Oracles: sanitizer reports; frame buffers ending at guard pages; buffers poisoned before each read, whose every sample must be written by a successful read (and defined, under memcheck); the error returned agrees with what was delivered; hang monitor.','uninstrumented libpng, libjpeg, FFmpeg and MagickWand are watched only where they touch the library\'s and the caller\'s buffers (guarded allocation)'),
'C02':('Sanitizers + memcheck over generated analyses','Random sizes (1x1, one-pixel lines, powers of two, primes, up to several thousands long), 13 kinds of images including NaN, infinities, denormals and huge values, all methods, ranges up to SIZE_MAX, thresholds, filters, 7 configurations; results must be defined under memcheck and finite.','inside FFTW only the library\'s buffers are watched'),
'C03':('Fault enumeration','The history (open, read, seek, bulk, analyse, detect on random files) runs once counting the allocations and reads; then once for every k with the k-th failing, and once with all from the k-th failing. Allocations of the library, libpng, libjpeg and libc\'s streams are replaced; reads fail through `fopencookie`; fopen and FFTW\'s allocation and planning are interposed. In the readers using FFmpeg and MagickWand, every own allocation fails (`h_avmem`, whose own blocks are accounted), reads of FFmpeg\'s file protocol fail or are interrupted, and each call of these libraries\' functions fails (`--wrap`, under AddressSanitizer and LeakSanitizer) with differing errors, after which the history goes on: frames delivered later must be among the image\'s. Oracle: error reported (ENOMEM for own allocations), outputs nulled, everything released (block and stream accounting), success only with the very results of the undisturbed run, an analysis still yields the results of its accepted images.','allocations made inside FFmpeg and MagickWand do not fail: FFmpeg itself was seen to crash or to continue silently then'),
'C04':('Leak and descriptor accounting','Random histories of calls, including failing ones, over valid, mutated, missing files and standard input (in child processes); after each history the numbers of blocks (guarded allocator), open descriptors and LeakSanitizer\'s recoverable check must be as before; standard input must still be open; closing NULL is exercised.','blocks third-party libraries keep for the process lifetime are suppressed by name'),
'C05':('ThreadSanitizer + interference oracle','2 to 8 threads run random histories, each also run alone beforehand; results must be bit-identical; delays are injected at allocation and read points; the order in which threads pass them is hashed to count distinct interleavings. TSan observes the library with the bundled transform; with FFTW (its planner made thread safe as its documentation demands) results are compared.','libpng and libjpeg are not instrumented'),
'C06':('Shape monitor','Every list returned by any random analysis is checked for order, bounds, distinctness, the last element, completeness at threshold 0, absent lists for dimensions not requested and failures.',''),
'C07':('Reference model','Independent long double DCT and the four methods\' definitions from the documentation; interval comparison as above; elongated images with more than 65535 counts and huge magnitudes included.','comparisons within rounding are accepted either way'),
'C08':('End-to-end recovery oracle','Textured sources (noise, blobs, edges) of at least 84 pixels enlarged by whole factors per dimension (repetition or linear interpolation); each method with default parameters must rank the source first among non-multiples with 95%; through bulk, sequential, file and command line.','the statement is statistical in nature; its margins were measured over 100 000 images and hold for sources of this kind'),
'C09':('History oracle','Every frame is analysed alone; the results after any history must be the mean (to float resolution), in any order, split over calls, from files, with refused images and interim queries in between; sequences of up to 66 000 frames.',''),
'C10':('Bitwise comparison of histories','The same analysis again after others, interleaved with others, with dirtied memory, differently aligned read-only pages, changed and freed parameters, and in a child process; all results must be bit-identical.',''),
'C11':('Subset oracle','Filtered against unfiltered results of the same input.','one known finding, see below'),
'C12':('Argument matrix','All combinations of missing arguments, boundary values, sizes at and beyond PIXEL_MAX in builds with limits of 97, 1000 and 4096 and the overflow edge of size_t, with the documented error for each; outputs poisoned beforehand; valid combinations must be accepted.','images of many gigabytes are not allocated'),
'C13':('Metamorphic oracle','Scaling by powers of two, negation, transposition, flips, added constants; results must agree except where the reference model\'s interval shows that rounding decides.',''),
'C14':('Differential over 13 builds','The same image in all configurations; each must lie in its precision\'s interval, and lists must agree outside of it.',''),
'C15':('Exact decoding oracle','Samples are known from generating the file; every delivered sample must be the float nearest to the definition; frames in order, then a clean end.',''),
'C16':('Exact decoding oracle','PNG samples from an own encoder (all colour types, depths, interlacing, filters, ancillary chunks); JPEG luma from the coefficients decoded without conversion by libjpeg\'s reference (islow) transform.',''),
'C17':('Differential decoding oracle','Generated still formats and AVI compared with the definition; sequences encoded with FFmpeg\'s encoders (16 combinations of codec and pixel format, 8 containers, B-frames, groups, other streams) compared exactly if lossless, else by brightness order; frames changing size must be refused.','swscale\'s rounding between pixel formats (at most 1.5 of 255) and limited range are accepted; MagickWand pages of different sizes are outside the statement; formats whose probing depends on the extension are used by name only'),
'C18':('History oracle','Random sequences of reads and seeks against a model that only reads; progress callback arguments; past the end; regular files and pipes.',''),
'C19':('Differential oracle','All ways of reading the same bytes, and detection on files against detection on pixels.',''),
'C20':('Exact outcome oracle over damage','Cuts at chosen structural points or random bytes and corrupted headers with the frame at which the error must appear; poisoned buffers.','damage that leaves a valid file is recognised by the generator; checks of PNG checksums are libpng\'s'),
'C21':('Lookup oracle','Names, types, extensions in random case, with suffixes and prefixes, in builds with different readers; all error codes.',''),
'C22':('Differential monitor of the tool','Random options (valid, boundary, invalid) and inputs; expected output is computed through the library from the documented form; exit status and streams are compared; the tool itself is an ASan/UBSan build.',''),
'C23':('Differential monitor of the Python modules','Every accepted kind of argument with random layout and type, sequential analyses, images, indices, invalid parameters, use after closing, compared with ctypes calls of our own; guard pages around buffers, memcheck, allocator statistics for leaks.','lists and arrays shorter than the dimensions passed along with them are errors of the caller'),
'C24':('Round trip and differential monitors','imgread\'s dump read back bit for bit; stat and profile against the library\'s results.',''),
'C25':('Differential monitor of the JavaScript module','The TypeScript module is compiled with esbuild and runs in node over the library built for wasm32 with clang; an allocator with guard zones, quarantine, accounting and faults underneath; memory growth at random allocations; garbage collection of analyses.','Emscripten is absent: its runtime methods (cwrap, HEAP views, addFunction...) are stood in for by `harness/wasm/libresdet.mjs`'),
'C26':('Differential monitor of the process locale','Each input is analysed, read, parsed and looked up once in the C locale and again in others, set for the process or the thread: decimal points which are not periods, Turkish case pairs, Arabic-script digits and multibyte encodings. Tool outputs are compared under LC_ALL too.','Locales are compiled with localedef into .build/locale from the sources installed here; MagickWand inputs only use the locales ImageMagick itself works in'),
'C27':('Allocation monitor over long histories','AddressSanitizer\'s allocation hooks count the bytes live between calls and the most during each. Over long sequences of reads, seeks, analyses, refusals, interim queries, lookups and calls after the end the bytes live late must equal those live early; one call, one open image and one analysis stay within bounds per pixel; whole-file detection takes no more for many frames than for three. The tools run with a preloaded allocator which reports their peak.','FFmpeg may grow by 200 bytes per frame; MagickWand reads all frames on opening and is not measured; growth slower than one allocation per about 30 calls is missed'),
'C28':('Monitor of process-wide state','Every call of the public interface is wrapped: what else the process can observe (standard streams, locale, floating point control words, environment, directory, umask, signals, limits, timers, rand(), another file\'s position, files in the directory) is recorded before and compared after, over the workloads of C01, C04, C15, C18, C20 and C21 and analyses of denormal, infinite and NaN samples.','FFmpeg\'s own log on standard error is excepted, so is what libraries keep to themselves'),
'C29':('Differential monitor of the script','visualize.sh runs under bash with the real resdet and stand-ins for spec, identify and magick, which record their arguments and pass on data; the lines drawn are compared with the sizes the library finds for the same file and options.','spec and ImageMagick are not installed, so what they make of the arguments is not observed'),
}
out=H
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man={c['property'] if 'property' in c else c.get('id'):c for c in json.load(open('/verif/MANIFEST.json')).get('checks',[])}
cost={}
for p in props:
    i=p['id']; t,how,lim=rows[i]
    ev={}
    try: ev=json.load(open(f'/verif/evidence/{i}.json'))
    except Exception: pass
    out+=f"### {i} {p['title']}\n{t}. {how}"
    if lim: out+=f" *Limits:* {lim[0].upper()+lim[1:]}."
    if ev.get('tier')=='quick': out+=f" *Quick tier:* {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct, about {max(1,round(ev['wall_s']))} s on 8 cores."
    out+="\n\n"
out+=open('/verif/tools/design_tail.md').read()
out+="\n## Planted bugs\n\nEach is in `seeded/<id>` with a demonstration; all of them compile, pass the stable tests and are caught by the quick check of their property.\n\n| id | property | manifests with | caught |\n|---|---|---|---|\n"
missed={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    out+=f"| {i} | {m['property']} | {m['needs']} | {missed.get(i,'yes')} |\n"
open('/verif/DESIGN.md','w').write(out)
