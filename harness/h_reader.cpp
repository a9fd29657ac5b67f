// Workloads and oracles for the image readers (C01, C04, C15-C21).
#include "files.hpp"
#include <sys/syscall.h>
#ifdef WITH_AV
#include <fstream>
#include "avgen.hpp"
#endif
#include "guard.hpp"
#include <sys/wait.h>
#include <dirent.h>
#include <signal.h>
#include <poll.h>
#include <inttypes.h>
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
extern "C" void __lsan_disable(void) __attribute__((weak)); extern "C" void __lsan_enable(void) __attribute__((weak));

static const uint32_t SENT = 0x7fa5a5a5;
static void sentinel(float* p, size_t n) { for(size_t i = 0; i < n; i++) memcpy(p+i,&SENT,4); }
static size_t unwritten(const float* p, size_t n) { for(size_t i = 0; i < n; i++) { uint32_t u; memcpy(&u,p+i,4); if(u == SENT) return i; } return SIZE_MAX; }
static bool veq(float a, float b, double tol) { if(memcmp(&a,&b,4) == 0) return true; if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if(std::isinf(a) || std::isinf(b)) return a == b; return fabs((double)a-b) <= tol*std::max(1.,fabs((double)b)); }
static size_t mismatch(const float* p, const Frame& f, double tol) { for(size_t i = 0; i < f.size(); i++) if(!veq(p[i],f[i],tol)) return i; return SIZE_MAX; }
static int nfds() { int n = 0; if(DIR* d = opendir("/proc/self/fd")) { while(readdir(d)) n++; closedir(d); } return n; }
static bool has(Ctx& c, const char* r) { return c.opt["readers"].find(r) != string::npos; } // readers built in: native, png, ffmpeg, magick

struct Img { // an open image with everything the oracles need
	const Api& a; RDImage* im = NULL; size_t w = 77, h = 77; float* buf = NULL; RDError e = 99; bool own = false;
	Img(Ctx& c, const Api& a_, const char* fn, const char* type, const char* reader, bool askbuf): a(a_) {
		buf = (float*)0x10;
		im = reader ? a.resdet_open_image_with_reader(fn,reader,&w,&h,askbuf ? &buf : NULL,&e) : a.resdet_open_image(fn,type,&w,&h,askbuf ? &buf : NULL,&e);
		if(!im) { if(!e) c.fail("open-no-error","open failed without an error"); if(w || h || (askbuf && buf)) c.fail("open-outputs","failed open left %zux%zu %p",w,h,(void*)buf); buf = NULL; }
		else {
			if(e) c.fail("open-error-set","open succeeded with error %d",e);
			if(!w || !h) c.fail("open-dims","opened with %zux%zu",w,h);
			if(askbuf && (!buf || buf == (float*)0x10)) { c.fail("open-buffer","no buffer"); buf = NULL; }
			if(!askbuf) { if(buf != (float*)0x10) c.fail("open-buffer","buffer touched"); if(w*h > (256u<<20)) { a.resdet_close_image(im); im = NULL; buf = NULL; } else { buf = (float*)malloc(w*h*4); own = true; } }
		}
	}
	bool read(Ctx& c) { // into a buffer full of sentinels
		if(w*h < (16u<<20)) sentinel(buf,w*h); e = 99; bool r = a.resdet_read_image_frame(im,buf,&e);
		if(r && e) c.fail("read-error-set","frame delivered with error %d",e);
		if(r && w*h < (16u<<20)) { size_t u = unwritten(buf,w*h); if(u != SIZE_MAX) c.fail("unwritten-sample","sample %zu of %zux%zu was not written",u,w,h); }
		if(r) c.add("frames_read");
		if(r && w*h < (16u<<20)) defined(c,buf,w*h*4,"frame");
		return r;
	}
	void close() { if(im) a.resdet_close_image(im); im = NULL; if(own) free(buf); else rd_free(buf); buf = NULL; }
	~Img() { close(); }
};

// ---- valid files of every format -------------------------------------------------------------------
enum { PGM, PFM, Y4M, PNG, JPEG, NKINDS };
static bool colors = false; // also JPEGs which cannot be converted
static File gen(Rng& r, int kind, size_t big, size_t maxframes = 4) {
	size_t w = fdim(r,big), h = fdim(r,big); if(r.chance(1,20)) { w = r.in(1,300); h = r.in(1,3); } else if(r.chance(1,20)) { h = r.in(1,300); w = r.in(1,3); }
	if(maxframes > 3 && (kind == PFM || kind == Y4M) && r.chance(1,40)) { w = r.in(1,6); h = r.in(1,6); maxframes = r.in(20,r.chance(1,2) ? 600 : 80); } // long sequences
	switch(kind) { case PGM: return gen_pgm(r,w,h); case PFM: return gen_pfm(r,w,h,r.in(1,maxframes)); case Y4M: return gen_y4m(r,w,h,r.in(r.chance(1,20) ? 0 : 1,maxframes)); case PNG: return gen_png(r,w,h); default: return gen_jpeg(r,w,h,colors && r.chance(1,4) ? (int)r.in(JRGB,JYCCK) : -1); }
}
static File gen_generic(Rng& r, int kind) { Canon canon; size_t w = r.in(2,24), h = r.in(2,24); switch(kind%11) { case 0: return gen_tga(r,w,h); case 1: return gen_tif(r,w,h); case 2: return gen_bmp(r,w,h); case 3: return gen_avi(r,r.in(4,12)*4,r.in(8,24),r.in(1,5)); case 4: case 5: return gen_gif(r,w,h,r.in(1,5));
	case 6: { File f = gen_png(r,w,h,PNG_COLOR_TYPE_GRAY,8); return f; } case 7: return gen_pfm(r,w,h,r.in(1,3),false,false,1);
	case 8: { vector<File> v; for(int n = r.in(2,4); n--;) { File f = gen_pgm(r,w,h); v.push_back(f); } return concat(v); } case 10: { vector<File> v; int k = r.below(4); bool png = k > 1, sized = r.chance(1,2); for(int n = r.in(2,4); n--;) { File f = !k ? gen_pfm(r,w,h,1,false,false,1) : png ? r.chance(1,2) ? gen_png(r,w,h) : gen_png(r,w,h,PNG_COLOR_TYPE_GRAY,8) : gen_pgm(r,w,h); v.push_back(f); if(sized && r.chance(1,2)) w = r.in(1,40); if(sized && r.chance(1,2)) h = r.in(1,40); } File f = concat(v); f.desc += " of differing size"; return f; } default: return gen_y4m(r,w*2,h*2,r.in(1,4),8); } }
static int kindcount(Ctx& c) { return has(c,"png") ? NKINDS : 3; }
static string fname(Ctx& c, const File& f) { return "f." + f.ext; }

// ---- standard input --------------------------------------------------------------------------------
struct Sum { int32_t open_err, last_err, nread; uint64_t w, h, n, hash; int32_t fd0; int32_t bad; };
static uint64_t hframe(uint64_t h, const float* p, size_t n) { return hash_bytes(p,n*4,h); }
// runs fn in a child whose standard input is the file (portions empty) or a pipe delivering the given portions
static bool with_stdin(Ctx& c, const string& fn, const string& bytes, const vector<size_t>& portions, void* out, size_t outlen, const std::function<void(void*)>& body) {
	int in[2] = {-1,-1}, res[2]; if(pipe(res)) return false; if(!portions.empty() && pipe(in)) return false;
	fflush(NULL); pid_t pid = fork();
	if(!pid) {
		::close(res[0]); int fd = portions.empty() ? open(fn.c_str(),O_RDONLY) : in[0]; dup2(fd,0); if(fd) ::close(fd); if(!portions.empty()) ::close(in[1]);
		unsigned ve = VALGRIND_COUNT_ERRORS; body(out); if(VALGRIND_COUNT_ERRORS != ve) _exit(98); ssize_t k = write(res[1],out,outlen); (void)k; fflush(NULL); _exit(0);
	}
	::close(res[1]); if(!portions.empty()) ::close(in[0]);
	signal(SIGPIPE,SIG_IGN);
	size_t at = 0; for(size_t i = 0; !portions.empty() && at < bytes.size(); i++) { size_t n = std::min(portions[i%portions.size()],bytes.size()-at); ssize_t k = write(in[1],bytes.data()+at,n); if(k <= 0) break; at += k; if(i < 4) sched_yield(); }
	if(!portions.empty()) ::close(in[1]);
	size_t got = 0; while(got < outlen) { ssize_t k = ::read(res[0],(char*)out+got,outlen-got); if(k <= 0) break; got += k; }
	::close(res[0]); int st = 0; waitpid(pid,&st,0); c.add("stdin_runs");
	if(got != outlen || !WIFEXITED(st) || WEXITSTATUS(st)) { c.fail("stdin-crash","reading standard input: child ended with status %x",st); return false; }
	return true;
}
static vector<size_t> portions(Rng& r, size_t total) { vector<size_t> p; switch(r.below(4)) { case 0: p.push_back(total+1); break; case 1: for(int i = 0; i < 5; i++) p.push_back(r.in(1,7)); if(total > 4000) p.push_back(r.in(100,5000)); break; case 2: p.push_back(r.in(1,200)+total/50); break; default: for(int i = 0; i < 6; i++) p.push_back(r.in(1,4096)); } return p; }

// ---- C15, C16 -----------------------------------------------------------------------------------------
// reads all frames and compares them with what the file holds
static void expect_frames(Ctx& c, const Api& a, const File& f, const char* fn, const char* type, const char* reader, double tol) {
	Rng r = c.rng(99); Img im(c,a,fn,type,reader,r.chance(1,2));
	if(!im.im) return c.fail("valid-refused","%s (%s): error %d",f.desc.c_str(),reader ? reader : "by name",im.e);
	if(im.w != f.w || im.h != f.h) return c.fail("dimensions","%s: read as %zux%zu",f.desc.c_str(),im.w,im.h);
	for(size_t k = 0; k < f.frames.size(); k++) {
		if(!im.read(c)) return c.fail("frame-missing","%s: frame %zu of %zu: error %d",f.desc.c_str(),k,f.frames.size(),im.e);
		size_t m = mismatch(im.buf,f.frames[k],tol); if(m != SIZE_MAX) return c.fail("sample","%s: frame %zu, x %zu, y %zu: %.9g instead of %.9g",f.desc.c_str(),k,m%f.w,m/f.w,im.buf[m],f.frames[k][m]);
		c.add("samples_compared",f.w*f.h);
	}
	for(int i = 0; i < 2; i++) { if(im.read(c)) return c.fail("frame-extra","%s: more than %zu frames",f.desc.c_str(),f.frames.size()); if(im.e) return c.fail("eof-error","%s: error %d at the end",f.desc.c_str(),im.e); }
	c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size()));
}
static void decode(Ctx& c, int kind) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; size_t big = c.thorough() ? 120 : 60;
	File f = kind == PFM && r.chance(1,4) ? gen_pfm(r,fdim(r,big),fdim(r,big),r.in(1,3),false,true,1) : gen(r,kind,big,5); c.what("[%s] %s",a.name.c_str(),f.desc.c_str()); string fn = fname(c,f); save(fn,f.bytes);
	expect_frames(c,a,f,fn.c_str(),NULL,NULL,f.tol);
	// the same in bulk
	float* b = (float*)8; size_t n = 9, w = 9, h = 9; RDError e = a.resdet_read_image(fn.c_str(),NULL,&b,&n,&w,&h);
	if(f.frames.empty()) { if(e ? b != NULL : n != 0) c.fail("bulk-empty","error %d, %zu frames",e,n); rd_free(b); }
	else if(e) c.fail("bulk-error","%s: error %d",f.desc.c_str(),e);
	else { if(n != f.frames.size() || w != f.w || h != f.h) c.fail("bulk-dims","%s: %zu frames of %zux%zu",f.desc.c_str(),n,w,h); else for(size_t k = 0; k < n; k++) { size_t m = mismatch(b+k*w*h,f.frames[k],f.tol); if(m != SIZE_MAX) { c.fail("bulk-sample","%s: frame %zu sample %zu",f.desc.c_str(),k,m); break; } } rd_free(b); }
	if(r.chance(1,6)) { // from standard input
		Sum s; memset(&s,0,sizeof s); auto p = r.chance(1,2) ? portions(r,f.bytes.size()) : vector<size_t>();
		if(with_stdin(c,fn,f.bytes,p,&s,sizeof s,[&](void* o) { Sum* q = (Sum*)o; Img im(c,a,"-",f.ext.c_str(),NULL,true); q->open_err = im.e; q->w = im.w; q->h = im.h; q->bad = 0; if(im.im) while(im.read(c)) { if(q->n < f.frames.size() && mismatch(im.buf,f.frames[q->n],f.tol) != SIZE_MAX) q->bad++; q->n++; } q->last_err = im.e; im.close(); q->fd0 = fcntl(0,F_GETFD); }))
			if(s.open_err || s.last_err || s.n != f.frames.size() || s.bad || s.w != f.w || s.h != f.h) c.fail("stdin-frames","%s from %s: open %d, end %d, %" PRIu64 " frames, %d wrong",f.desc.c_str(),p.empty() ? "a file" : "a pipe",s.open_err,s.last_err,s.n,s.bad);
	}
	c.sample("%s: all samples as specified",f.desc.c_str());
}
static void c15(Ctx& c) { decode(c,c.cur%3); }
static void c16(Ctx& c) { decode(c,c.cur%3 == 2 ? JPEG : PNG); }

// ---- C17 -----------------------------------------------------------------------------------------------
#ifdef WITH_AV
// an encoded sequence: all frames in order, with the samples they were made from
static void c17av(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[0]; AvFile f = gen_av(r,"av",c.cur/12%NAVKINDS); c.what("%s",f.desc.c_str()); if(!f.ok) { c.add("encodings_failed"); return; }
	string fn = "av."+f.ext; size_t n = f.frames.size();
	// index of the original closest to what was read
	auto judge = [&](const float* p, size_t k, char* t, size_t tn) { double best = 1e9, own = 0; size_t bi = 0; for(size_t i = 0; i < n; i++) { double d = 0; for(size_t j = 0; j < f.frames[i].size(); j++) d += fabs(p[j]-f.frames[i][j]); d /= f.frames[i].size(); if(i == k) own = d; if(d < best) { best = d; bi = i; } }
		if(f.lossless) { size_t m = mismatch(p,f.frames[k],f.tol); if(m == SIZE_MAX) return true; snprintf(t,tn,"frame %zu sample %zu: %g instead of %g (closest to frame %zu)",k,m,p[m],f.frames[k][m],bi); return false; }
		if(own < .05 && own <= best+.02) return true; snprintf(t,tn,"frame %zu is off by %g on average, closest to frame %zu (%g)",k,own,bi,best); return false; };
	char t[300] = "";
	{ Img im(c,a,fn.c_str(),NULL,r.chance(1,2) ? NULL : "FFmpeg",r.chance(1,2)); if(!im.im) return c.fail("encoded-refused","%s: error %d",f.desc.c_str(),im.e); if(im.w != f.w || im.h != f.h) return c.fail("dimensions","%zux%zu",im.w,im.h);
	  size_t k = 0; for(; im.read(c); k++) { if(k >= n) return c.fail("frame-extra","more than %zu frames",n); if(!judge(im.buf,k,t,sizeof t)) return c.fail("encoded-sample","%s",t); } if(k != n || im.e) return c.fail("frame-count","%zu of %zu frames, error %d",k,n,im.e); if(im.read(c) || im.e) c.fail("eof-again","read after the end: error %d",im.e); }
	{ float* b = NULL; size_t bn, bw, bh; RDError e = a.resdet_read_image(fn.c_str(),NULL,&b,&bn,&bw,&bh); if(e || bn != n || bw != f.w || bh != f.h) c.fail("bulk","error %d, %zu of %zu frames",e,bn,n); else for(size_t k = 0; k < n; k++) if(!judge(b+k*bw*bh,k,t,sizeof t)) { c.fail("bulk-sample","%s",t); break; } rd_free(b); }
	{ Img im(c,a,fn.c_str(),NULL,"FFmpeg",true); if(!im.im) return c.fail("encoded-refused","again: error %d",im.e); size_t pos = 0; // reads and seeks
	  for(int i = 0; i < 6; i++) { if(r.chance(1,2)) { bool ok = im.read(c); if(ok != (pos < n)) { c.fail("seek-read","at frame %zu of %zu: %d, error %d",pos,n,ok,im.e); break; } if(ok && !judge(im.buf,pos++,t,sizeof t)) { c.fail("seek-sample","%s",t); break; } } else { uint64_t z = r.in(0,n/2+1); RDError e; bool ok = a.resdet_seek_frame(im.im,z,NULL,NULL,&e); if(ok != (z <= n-pos) || e) { c.fail("seek","by %" PRIu64 " at %zu of %zu: %d, error %d",z,pos,n,ok,e); break; } pos = std::min<size_t>(n,pos+z); } } }
	c.add("encoded_sequences"); c.add("encoded_frames",n); if(f.audio) c.add("other_streams"); c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size())); c.sample("%s: %zu frames in order",f.desc.c_str(),n); unlink(fn.c_str());
}
// reads fail while FFmpeg reads an image: either nothing changes or an error is reported. Its file protocol calls this.
static bool g_arm, g_pers, g_hit, g_intr; static uint64_t g_nread, g_rfail; static size_t g_portion;
extern "C" __attribute__((visibility("default"))) ssize_t read(int fd, void* b, size_t n) {
	if(g_arm) { g_nread++; if(g_rfail && (g_pers ? g_nread >= g_rfail : g_nread == g_rfail)) { g_hit = true; errno = g_intr ? EINTR : EIO; return -1; } n = std::min(n,g_portion); }
	return syscall(SYS_read,fd,b,n);
}
static void c03av(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[0]; string fn, desc; size_t n; { Canon canon; if(r.chance(1,3)) { static const int kinds[] = {3,4,7,8,9}; File f = gen_generic(r,kinds[r.below(5)]); fn = "io."+f.ext; save(fn,f.bytes); desc = f.desc; n = f.frames.size(); } else { AvFile f = gen_av(r,"io",c.cur%NAVKINDS); if(!f.ok) { c.add("encodings_failed"); return; } fn = "io."+f.ext; desc = f.desc; n = f.frames.size(); } }
	c.what("%s",desc.c_str()); bool bulk = r.chance(1,4), from = r.chance(1,4); uint64_t skip = r.chance(1,3) ? r.in(0,n) : 0; g_portion = r.chance(1,4) ? 1<<20 : r.in(200,9000);
	struct Log { vector<uint64_t> h; bool open = false, err = false; int code = 0; uint64_t d = 0; }; (void)from;
	auto run = [&]() { Log l; g_nread = 0; g_hit = false; g_arm = true;
		if(bulk) { float* b = NULL; size_t bn = 9, bw = 9, bh = 9; RDError e = a.resdet_read_image(fn.c_str(),NULL,&b,&bn,&bw,&bh); g_arm = false; l.open = !e; l.err = e; l.code = e; if(!e) { l.d = bw<<20|bh; for(size_t k = 0; k < bn; k++) l.h.push_back(hframe(1,b+k*bw*bh,bw*bh)); } else if(b) c.fail("io-bulk-buffer","%s: buffer with error %d",desc.c_str(),e); rd_free(b); return l; }
		{ Img im(c,a,fn.c_str(),NULL,"FFmpeg",true); l.open = im.im; l.err = im.e; l.code = im.e; if(im.im) { l.d = im.w<<20|im.h;
			if(skip) { RDError e = RDEOK; bool ok = a.resdet_seek_frame(im.im,skip,NULL,NULL,&e); l.h.push_back(ok); if(e) { l.err = true; l.code = e; } }
			if(!l.err) { int k = 0; while(im.read(c) && k++ < 100) l.h.push_back(hframe(1,im.buf,im.w*im.h)); if(im.e) { l.err = true; l.code = im.e; } } } }
		g_arm = false; return l; };
	g_rfail = 0; Log ref = run(); uint64_t reads = g_nread; if(!ref.open || ref.err) return c.fail("io-valid-refused","%s in portions of %zu: error %d",desc.c_str(),g_portion,ref.code);
	for(int i = 0; i < 6; i++) { g_intr = i == 5; g_pers = !g_intr && r.chance(1,2); g_rfail = 1+r.below(reads); Log l = run(); c.add("av_read_faults"); if(!g_hit) continue; c.add("av_faults_hit");
		bool same = l.open == ref.open && !l.err && l.d == ref.d && l.h == ref.h;
		if(g_intr && !same) { c.fail("io-interrupted","%s: read %" PRIu64 " of %" PRIu64 " interrupted: error %d, %zu of %zu frames",desc.c_str(),g_rfail,reads,l.code,l.h.size(),ref.h.size()); break; }
		if(l.err) c.add("av_errors_reported"); else if(same) c.add("av_successes_compared");
		if(!l.err && !same) { c.fail("io-silent","%s%s: read %" PRIu64 " of %" PRIu64 " failed %s: no error, %zu of %zu frames%s",desc.c_str(),bulk ? " in bulk" : "",g_rfail,reads,g_pers ? "and the following" : "once",l.h.size(),ref.h.size(),l.open ? "" : ", not opened"); break; }
		if(l.err && l.code > 7) { c.fail("io-code","error %d",l.code); break; } }
	c.nontrivial(hash_bytes(desc.data(),desc.size(),r.next())); c.sample("%s: %" PRIu64 " reads",desc.c_str(),reads); unlink(fn.c_str());
}
#else
static void c17av(Ctx& c) {}
static void c03av(Ctx& c) {}
#endif
// calls of FFmpeg's and MagickWand's functions fail: the error is reported at once, frames are right or not delivered, nothing leaks
#ifdef WITH_AV
static bool g_api, g_apers, g_ahit, g_anull; static uint64_t g_napi, g_afail; static int g_acode; static const char* g_aname = "";
static bool api_fails(const char* fn) { if(!g_api) return false; g_napi++; if(!g_afail || (g_apers ? g_napi < g_afail : g_napi != g_afail)) return false; if(!g_ahit) g_aname = fn; g_ahit = true; return true; }
#define API extern "C" __attribute__((visibility("default")))
API AVFrame* __wrap_av_frame_alloc(void) { if(api_fails("av_frame_alloc")) { g_anull = true; return NULL; } return av_frame_alloc(); }
API AVPacket* __wrap_av_packet_alloc(void) { if(api_fails("av_packet_alloc")) { g_anull = true; return NULL; } return av_packet_alloc(); }
API AVCodecContext* __wrap_avcodec_alloc_context3(const AVCodec* d) { if(api_fails("avcodec_alloc_context3")) { g_anull = true; return NULL; } return avcodec_alloc_context3(d); }
API int __wrap_avformat_open_input(AVFormatContext** f, const char* u, const AVInputFormat* i, AVDictionary** o) { if(api_fails("avformat_open_input")) { avformat_free_context(*f); *f = NULL; return g_acode; } return avformat_open_input(f,u,i,o); }
API int __wrap_avformat_find_stream_info(AVFormatContext* f, AVDictionary** o) { return api_fails("avformat_find_stream_info") ? g_acode : avformat_find_stream_info(f,o); }
API int __wrap_av_find_best_stream(AVFormatContext* f, enum AVMediaType t, int a, int b, const AVCodec** d, int fl) { return api_fails("av_find_best_stream") ? g_acode : av_find_best_stream(f,t,a,b,d,fl); }
API int __wrap_avcodec_parameters_to_context(AVCodecContext* x, const AVCodecParameters* p) { return api_fails("avcodec_parameters_to_context") ? g_acode : avcodec_parameters_to_context(x,p); }
API int __wrap_avcodec_open2(AVCodecContext* x, const AVCodec* d, AVDictionary** o) { return api_fails("avcodec_open2") ? g_acode : avcodec_open2(x,d,o); }
API int __wrap_avcodec_send_packet(AVCodecContext* x, const AVPacket* p) { return api_fails("avcodec_send_packet") ? g_acode : avcodec_send_packet(x,p); }
API int __wrap_avcodec_receive_frame(AVCodecContext* x, AVFrame* f) { if(api_fails("avcodec_receive_frame")) { av_frame_unref(f); return g_acode; } return avcodec_receive_frame(x,f); }
API int __wrap_av_read_frame(AVFormatContext* f, AVPacket* p) { if(api_fails("av_read_frame")) { av_packet_unref(p); return g_acode; } return av_read_frame(f,p); }
API void* __wrap_sws_alloc_context(void) { if(api_fails("sws_alloc_context")) { g_anull = true; return NULL; } static void*(*q)(void) = (void*(*)(void))dlsym(dlopen("libswscale.so.7",RTLD_NOW),"sws_alloc_context"); return q(); }
API int __wrap_sws_init_context(void* s, void* a, void* b) { if(api_fails("sws_init_context")) return g_acode; static int(*q)(void*,void*,void*) = (int(*)(void*,void*,void*))dlsym(dlopen("libswscale.so.7",RTLD_NOW),"sws_init_context"); return q(s,a,b); }
API int __wrap_sws_scale_frame(void* s, AVFrame* d, const AVFrame* f) { if(api_fails("sws_scale_frame")) return g_acode; static int(*q)(void*,AVFrame*,const AVFrame*) = (int(*)(void*,AVFrame*,const AVFrame*))dlsym(dlopen("libswscale.so.7",RTLD_NOW),"sws_scale_frame"); return q(s,d,f); }
API unsigned __wrap_MagickExportImagePixels(void* w, ssize_t x, ssize_t y, size_t n, size_t m, const char* map, int t, void* p) { if(api_fails("MagickExportImagePixels")) return 0; static unsigned(*q)(void*,ssize_t,ssize_t,size_t,size_t,const char*,int,void*) = (unsigned(*)(void*,ssize_t,ssize_t,size_t,size_t,const char*,int,void*))dlsym(dlopen("libMagickWand-6.Q16.so.7",RTLD_NOW),"MagickExportImagePixels"); return q(w,x,y,n,m,map,t,p); }
static void c03api(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[0]; string fn, desc; bool magick = c.cur%4 == 3 && has(c,"magick"); static bool each; static int batch;
	{ Canon canon; if(!magick && r.chance(1,4)) { size_t w = r.in(4,20), h = r.in(4,20); string s; for(int n = r.in(2,5); n--;) { static const int T[] = {PNG_COLOR_TYPE_GRAY,PNG_COLOR_TYPE_RGB,PNG_COLOR_TYPE_GRAY_ALPHA}; png_colorless = true; s += gen_png(r,w,h,T[r.below(3)],r.chance(1,2) ? 8 : 16).bytes; png_colorless = false; } fn = "api.png"; save(fn,s); desc = "PNG sequence of changing formats"; } // the scaler is set up again
	  else if(magick || r.chance(1,3)) { static const int kinds[] = {3,4,7,8,9}; File f = gen_generic(r,kinds[r.below(magick ? 3 : 5)]); fn = "api."+f.ext; save(fn,f.bytes); desc = f.desc; if(magick && (f.ext == "avi" || f.ext == "y4m")) { unlink(fn.c_str()); return; } } else { AvFile f = gen_av(r,"api",c.cur/4%NAVKINDS); if(!f.ok) { c.add("encodings_failed"); return; } fn = "api."+f.ext; desc = f.desc; } }
	const char* rd = magick ? "MagickWand" : "FFmpeg"; uint64_t skip = r.chance(1,3) ? r.below(4) : 0; bool bulk = r.chance(1,5); c.what("%s by %s",desc.c_str(),rd);
	struct Log { vector<uint64_t> h, late; bool open = false; RDError e = 0; };
	auto run = [&]() { Log l; g_napi = 0; g_ahit = g_anull = false; g_aname = "";
		if(bulk && !magick) { float* b = (float*)8; size_t n = 9, w = 9, h = 9; g_api = true; l.e = a.resdet_read_image(fn.c_str(),NULL,&b,&n,&w,&h); g_api = false; l.open = !l.e; if(!l.e) { for(size_t k = 0; k < n; k++) l.h.push_back(hframe(1,b+k*w*h,w*h)); rd_free(b); } else if(b) { c.fail("api-outputs","bulk read with error %d left a buffer",l.e); } return l; }
		g_api = true; Img im(c,a,fn.c_str(),NULL,rd,true); l.open = im.im; l.e = im.e;
		if(im.im) { int late = 0; RDError e = 0; if(skip) { e = 99; a.resdet_seek_frame(im.im,skip,NULL,NULL,&e); l.e = e; }
			for(int k = 0; k < 120 && late < 4; k++) { bool ok = im.read(c); if(ok && im.e) c.fail("api-error-on-success","error %d",im.e); if(ok) (l.e ? l.late : l.h).push_back(hframe(1,im.buf,im.w*im.h)); else if(!l.e) l.e = im.e; if(l.e) late++; if(!ok && !l.e) break; } }
		g_api = false; return l; };
	g_afail = 0; Log ref = run(); uint64_t calls = g_napi; if(!ref.open || ref.e) return c.fail("api-valid-refused","%s by %s: error %d",desc.c_str(),rd,ref.e);
	uint64_t mask = calls <= 24 ? calls : 24; if(!calls) return;
	vector<uint64_t> all = ref.h; if(skip) { uint64_t z = skip; skip = 0; bool bk = bulk; bulk = false; all = run().h; skip = z; bulk = bk; }
	for(uint64_t i = 0; i < mask; i++) { g_afail = calls <= 24 || i < 12 ? i+1 : 1+r.below(calls); g_apers = r.chance(1,4); static const int codes[] = {AVERROR(EIO),AVERROR(ENOMEM),AVERROR_INVALIDDATA,AVERROR(EINVAL),AVERROR_DECODER_NOT_FOUND}; g_acode = codes[r.below(5)]; uint64_t k = g_afail; c.what("%s by %s: call %" PRIu64 " of %" PRIu64 " fails%s with %d",desc.c_str(),rd,k,calls,g_apers ? " like all later ones" : "",g_acode); Log l = run(); g_afail = 0; if(!g_ahit) continue;
		c.add("api_faults"); string fnm = g_aname; char t[400]; snprintf(t,sizeof t,"%s by %s%s: call %" PRIu64 " of %" PRIu64 " (%s) failed%s with %d",desc.c_str(),rd,bulk ? " in bulk" : "",k,calls,fnm.c_str(),g_apers ? " like all later ones" : "",g_acode);
		if(!l.e) { c.fail("api-silent:"+fnm,"%s: no error, %zu of %zu frames",t,l.h.size(),ref.h.size()); break; }
		if(l.e > 7 || (g_anull && l.e != RDENOMEM && l.e != -ENOMEM)) { c.fail("api-code:"+fnm,"%s: error %d",t,l.e); break; }
		bool cut = fnm == "av_read_frame" || fnm == "avcodec_send_packet"; // what is decoded from incomplete data isn't known
		if(!bulk && !cut) { if(l.h.size() > ref.h.size() || !std::equal(l.h.begin(),l.h.end(),ref.h.begin())) { c.fail("api-frames:"+fnm,"%s: the %zu frames before aren't those expected",t,l.h.size()); break; }
			for(auto h: l.late) { c.add("late_frames"); if(std::find(all.begin(),all.end(),h) == all.end()) { c.fail("api-late:"+fnm,"%s: error %d, a frame delivered afterwards isn't one of the image's",t,l.e); break; } } } }
	g_apers = false; c.nontrivial(hash_bytes(desc.data(),desc.size(),r.next())); c.sample("%s by %s: %" PRIu64 " calls",desc.c_str(),rd,calls); unlink(fn.c_str());
	if(__lsan_do_recoverable_leak_check && (each || c.replay || ++batch%12 == 0 || c.cur+c.step >= c.count)) { c.add("leak_checks"); if(__lsan_do_recoverable_leak_check()) { c.fail(each || c.replay ? "leak" : "leak-in-batch","memory was not released after a failed call (by this case or one of the 11 before it in its shard); report on standard error"); each = true; } }
}
#else
static void c03api(Ctx& c) {}
#endif
#ifdef WITH_MEM
// allocations fail in the readers which use FFmpeg and MagickWand: those the library makes itself
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void __libc_free(void*); void* __libc_memalign(size_t,size_t); }
static volatile bool g_mem; static bool g_mpers, g_mown; static uint64_t g_nmem, g_nown, g_mfail; static int g_mhit; static bool g_ownhit; static uintptr_t g_lo, g_hi;
static void* g_held[256]; static int g_nheld; // what the library itself allocated and holds
static bool mem_fails(void* caller) { if(!g_mem) return false; bool own = (uintptr_t)caller >= g_lo && (uintptr_t)caller < g_hi; g_nmem++; g_nown += own; if(g_mown && !own) return false; uint64_t n = g_mown ? g_nown : g_nmem; if(!g_mfail || (g_mpers ? n < g_mfail : n != g_mfail)) return false; g_mhit++; g_ownhit |= own; errno = ENOMEM; return true; }
static void* mem_own(void* p, void* caller) { if(g_mem && p && (uintptr_t)caller >= g_lo && (uintptr_t)caller < g_hi && g_nheld < 256) g_held[g_nheld++] = p; return p; }
static void mem_gone(void* p) { for(int i = 0; i < g_nheld; i++) if(g_held[i] == p) { g_held[i] = g_held[--g_nheld]; return; } }
#define CALLER __builtin_return_address(0)
extern "C" {
__attribute__((visibility("default"))) void* malloc(size_t n) { if(mem_fails(CALLER)) return NULL; void* p = mem_own(__libc_malloc(n),CALLER); if(g_mem && p) memset(p,0xa5,n); return p; }
__attribute__((visibility("default"))) void* calloc(size_t a, size_t b) { if(mem_fails(CALLER)) return NULL; return mem_own(__libc_calloc(a,b),CALLER); }
__attribute__((visibility("default"))) void* realloc(void* q, size_t n) { if(mem_fails(CALLER)) return NULL; if(q && g_nheld) mem_gone(q); return mem_own(__libc_realloc(q,n),CALLER); }
__attribute__((visibility("default"))) void free(void* p) { if(p && g_nheld) mem_gone(p); __libc_free(p); }
__attribute__((visibility("default"))) int posix_memalign(void** o, size_t al, size_t n) { if(mem_fails(CALLER)) return ENOMEM; *o = __libc_memalign(al,n); return *o ? 0 : ENOMEM; }
}
static void own_range(const Api& a) { Dl_info di; if(!dladdr((void*)a.resdetect,&di)) return; g_lo = g_hi = 0; FILE* f = fopen("/proc/self/maps","r"); char l[4400],path[4200]; while(f && fgets(l,sizeof l,f)) { unsigned long lo,hi; *path = 0; if(sscanf(l,"%lx-%lx %*s %*s %*s %*s %4199s",&lo,&hi,path) >= 2 && !strcmp(path,di.dli_fname)) { if(!g_lo || lo < g_lo) g_lo = lo; if(hi > g_hi) g_hi = hi; } } if(f) fclose(f); }
static void c03mem(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[0]; string fn, desc; own_range(a); bool magick = c.cur%4 == 3 && has(c,"magick"); if(!g_lo) return c.fail("harness","where the library lies is unknown");
	{ Canon canon; if(magick || r.chance(1,3)) { static const int kinds[] = {3,4,7,8,9}; File f = gen_generic(r,kinds[r.below(magick ? 4 : 5)]); fn = "mem."+f.ext; save(fn,f.bytes); desc = f.desc; if(magick && (f.ext == "avi" || f.ext == "y4m")) { unlink(fn.c_str()); return; } } else { AvFile f = gen_av(r,"mem",c.cur/4%NAVKINDS); if(!f.ok) { c.add("encodings_failed"); return; } fn = "mem."+f.ext; desc = f.desc; } }
	const char* rd = magick ? "MagickWand" : "FFmpeg"; bool bulk = !magick && r.chance(1,4), ask = r.chance(3,4); uint64_t skip = r.chance(1,4) ? r.below(4) : 0; c.what("%s by %s",desc.c_str(),rd);
	struct Log { uint64_t h[128]; int n; bool open, ended; RDError e; size_t w, hh; };
	auto run = [&](Log& l) { memset(&l,0,sizeof l); g_nmem = g_nown = 0; g_mhit = 0; g_ownhit = false; g_nheld = 0; float* b = (float*)16; size_t n = 9; RDError e = 99; l.w = l.hh = 9;
		if(bulk) { g_mem = true; e = a.resdet_read_image(fn.c_str(),NULL,&b,&n,&l.w,&l.hh); g_mem = false; l.open = !e; l.e = e; if(!e) for(size_t k = 0; k < n && k < 128; k++) l.h[l.n++] = hframe(1,b+k*l.w*l.hh,l.w*l.hh); else if(b) c.fail("mem-outputs","bulk read failed with %d, left %p",e,(void*)b); if(!e) free(b); }
		else { g_mem = true; RDImage* im = a.resdet_open_image_with_reader(fn.c_str(),rd,&l.w,&l.hh,ask ? &b : NULL,&e); g_mem = false; l.open = im; l.e = e;
			if(!im) { if(!e) c.fail("mem-no-error","open failed without an error"); if(l.w || l.hh || (ask && b)) c.fail("mem-outputs","open failed with %d, left %zux%zu %p",e,l.w,l.hh,(void*)b); }
			else { if(!ask) b = (float*)__libc_malloc(l.w*l.hh*4); bool ok = true;
				if(skip) { e = 99; g_mem = true; ok = a.resdet_seek_frame(im,skip,NULL,NULL,&e); g_mem = false; l.h[l.n++] = ok; l.e = e; }
				while(!l.e && l.n < 120) { sentinel(b,l.w*l.hh); e = 99; g_mem = true; ok = a.resdet_read_image_frame(im,b,&e); g_mem = false; l.e = e; if(ok && e) c.fail("mem-error-on-success","frame read with error %d",e); if(!ok) break; l.h[l.n++] = hframe(1,b,l.w*l.hh); }
				g_mem = true; a.resdet_close_image(im); g_mem = false; free(b); } }
		if(g_nheld) c.fail("mem-leak","%s by %s: %d blocks the library allocated were not released (%s)",desc.c_str(),rd,g_nheld,g_mhit ? "an allocation failed" : "without a fault"); g_nheld = 0; };
	static Log ref, l; g_mfail = 0; run(ref); run(ref); uint64_t nmem = g_nmem, nown = g_nown; if(!ref.open || ref.e) return c.fail("mem-valid-refused","%s by %s: error %d",desc.c_str(),rd,ref.e);
	auto same = [&]() { return l.open == ref.open && !l.e && l.w == ref.w && l.hh == ref.hh && l.n == ref.n && !memcmp(l.h,ref.h,sizeof l.h); };
	// every allocation of the library itself
	for(uint64_t k = 1; k <= nown; k++) for(int pers = 0; pers < 2; pers++) { c.what("%s by %s: own allocation %" PRIu64 " of %" PRIu64 " fails%s",desc.c_str(),rd,k,nown,pers ? " like all later ones" : ""); g_mown = true; g_mfail = k; g_mpers = pers; run(l); g_mfail = 0; if(!g_mhit) continue; c.add("mem_own_faults");
		if(l.e != RDENOMEM) { c.fail("mem-own","%s by %s%s: own allocation %" PRIu64 " of %" PRIu64 " failed: error %d, %d of %d frames",desc.c_str(),rd,bulk ? " in bulk" : "",k,nown,l.e,l.n,ref.n); break; } }
	c.nontrivial(hash_bytes(desc.data(),desc.size(),r.next())); c.sample("%s by %s: %" PRIu64 " allocations, %" PRIu64 " of them by the library itself",desc.c_str(),rd,nmem,nown); unlink(fn.c_str());
}
#else
static void c03mem(Ctx& c) {}
#endif
// sequences of one size in differing formats of pixels, and colours
static void c17color(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[0]; Canon canon; size_t w = r.in(4,20), h = r.in(4,20);
	if(r.chance(1,2)) { // the pixel format changes from image to image; RGB may be converted at limited range
		vector<File> v; string s; for(int n = r.in(2,5); n--;) { static const int T[] = {PNG_COLOR_TYPE_GRAY,PNG_COLOR_TYPE_RGB,PNG_COLOR_TYPE_GRAY_ALPHA,PNG_COLOR_TYPE_RGB}; int t = r.below(4); png_colorless = true; File f = gen_png(r,w,h,T[t],t == 2 || r.chance(1,2) ? 8 : 16); png_colorless = false; s += f.bytes; v.push_back(f); c.what("%s",f.desc.c_str()); }
		string d; for(auto& f : v) d += f.desc+", "; save("fmt.png",s); c.what("%s",d.c_str()); Img im(c,a,"fmt.png",NULL,"FFmpeg",true); if(!im.im) return c.fail("valid-refused","%s error %d",d.c_str(),im.e); size_t k = 0;
		while(im.read(c)) { if(k >= v.size()) return c.fail("frame-extra","%s",d.c_str()); Frame lim = v[k].frames[0]; for(auto& x : lim) x = (16+219*x)/255; size_t m = mismatch(im.buf,v[k].frames[0],.012); if(m != SIZE_MAX && mismatch(im.buf,lim,.012) != SIZE_MAX) return c.fail("format-change","%s frame %zu sample %zu: %g instead of %g",d.c_str(),k,m,im.buf[m],v[k].frames[0][m]); k++; }
		if(k != v.size() || im.e) c.fail("frame-count","%s %zu frames, error %d",d.c_str(),k,im.e); c.add("format_changes"); return;
	}
	string s; num(s,"P6\n%zu %zu\n255\n",w,h); vector<unsigned char> px(w*h*3); for(size_t i = 0; i < w*h; i++) { int k = i < 4 ? i : (int)r.below(6); for(int j = 0; j < 3; j++) px[i*3+j] = k < 3 ? (j == k ? 255 : 0) : k == 3 ? 0 : r.below(256); } s.append((char*)px.data(),px.size()); save("col.ppm",s);
	for(auto rd : {"FFmpeg","MagickWand"}) { c.what("PPM %zux%zu by %s",w,h,rd); Img im(c,a,"col.ppm",NULL,rd,true); if(!im.im || im.w != w || im.h != h || !im.read(c)) { c.fail("valid-refused","PPM by %s: error %d",rd,im.e); continue; }
		if(!(im.buf[1] > im.buf[0]+.05 && im.buf[0] > im.buf[2]+.02 && im.buf[2] > im.buf[3]+.02)) c.fail("color-weights","%s: red %g, green %g, blue %g, black %g",rd,im.buf[0],im.buf[1],im.buf[2],im.buf[3]);
		for(size_t i = 0; i < w*h; i++) { double e = 0; for(int j = 0; j < 3; j++) e += (im.buf[j]-im.buf[3])*px[i*3+j]/255.; if(fabs(im.buf[i]-im.buf[3]-e) > .03) { c.fail("color-mixture","%s: %d %d %d gives %g, its components %g",rd,px[i*3],px[i*3+1],px[i*3+2],im.buf[i],e); break; } } c.add("color_images"); }
}
static void c17(Ctx& c) {
	if(c.cur%12 == 11) return c17av(c);
	if(c.cur%24 == 10) return c17color(c);
	Rng r = c.rng(); const Api& a = c.apis[0]; int kind = c.cur%11; string fn;
	if(kind == 10) { // a stream of images of differing size
		vector<File> v; size_t w = r.in(4,20), h = r.in(4,20); int n = r.in(2,4), odd = r.in(1,n-1); bool png = r.chance(1,2); File all; string s; for(int i = 0; i < n; i++) { size_t ww = w+(i >= odd ? r.in(1,9) : 0), hh = h+(i >= odd && r.chance(1,2) ? r.in(1,9) : 0); if(i >= odd && r.chance(1,3)) { ww = w-1; } Canon canon; File f = png ? gen_png(r,ww,hh,PNG_COLOR_TYPE_GRAY,8) : gen_pgm(r,ww,hh); s += f.bytes; v.push_back(f); }
		fn = png ? "chg.png" : "chg.pgm"; save(fn,s); c.what("%d concatenated images, size changes at %d",n,odd);
		Img im(c,a,fn.c_str(),NULL,"FFmpeg",true); if(!im.im) return; size_t k = 0; // probing may have settled on any of the sizes; frames of the other sizes are never delivered
		while(im.read(c)) { if(k >= v.size()) { c.fail("frame-extra","more than %zu frames",v.size()); break; } if(v[k].w != im.w || v[k].h != im.h) { c.fail("size-change","frame %zu of %zux%zu was delivered as %zux%zu",k,v[k].w,v[k].h,im.w,im.h); break; } if(mismatch(im.buf,v[k].frames[0],1e-5) != SIZE_MAX) { c.fail("size-change-sample","frame %zu differs",k); break; } k++; }
		if(k < v.size()) { if(v[k].w == im.w && v[k].h == im.h) c.fail("size-change-early","only %zu frames before the change at %d",k,odd); else if(!im.e) c.fail("size-change-silent","the size change was not reported"); }
		c.add("size_changes"); return;
	}
	File f = gen_generic(r,kind); fn = "g."+f.ext; save(fn,f.bytes); c.what("%s",f.desc.c_str());
	bool pal = f.ext == "gif" || f.ext == "bmp";
	bool maxval = f.ext == "pgm"; // other maximum values than 255 are scaled to 8 bits
	for(int k = 0; k < 2; k++) {
		const char* rd = k ? "MagickWand" : "FFmpeg"; if(k ? !has(c,"magick") : !has(c,"ffmpeg")) continue;
		if(k && (f.ext == "avi" || f.ext == "y4m")) continue;
		if(f.ext == "pfm" && !k && f.bytes.find("-") > 30) {} // either byte order
		c.what("%s by %s",f.desc.c_str(),rd);
		if(pal && !k) { // FFmpeg converts palettes at limited range: compare after undoing that
			File g = f; for(auto& fr : g.frames) for(auto& x : fr) x = (16+219*x)/255; Img im(c,a,fn.c_str(),NULL,rd,true); if(!im.im) { c.fail("valid-refused","%s: %d",f.desc.c_str(),im.e); continue; }
			if(im.w != f.w || im.h != f.h) { c.fail("dimensions","%zux%zu",im.w,im.h); continue; } size_t n = 0; bool bad = false; while(im.read(c)) { if(n < f.frames.size() && mismatch(im.buf,g.frames[n],.008) != SIZE_MAX && mismatch(im.buf,f.frames[n],.008) != SIZE_MAX) { size_t m = mismatch(im.buf,g.frames[n],.008); c.fail("sample","frame %zu sample %zu: %g, expected %g",n,m,im.buf[m],g.frames[n][m]); bad = true; break; } n++; }
			if(!bad && (n != f.frames.size() || im.e)) c.fail("frame-count","%zu of %zu frames, error %d",n,f.frames.size(),im.e); c.add("palette_images");
		}
		else expect_frames(c,a,f,fn.c_str(),NULL,rd,maxval ? .005 : f.ext == "pfm" && k ? 1e-4 : 2e-5);
		if(!k && r.chance(1,3)) { // not seekable
			Sum s; memset(&s,0,sizeof s); auto p = portions(r,f.bytes.size()); double tol = pal ? .2 : maxval ? .005 : 2e-5; if(f.ext != "tga" && f.ext != "tif") if(with_stdin(c,fn,f.bytes,p,&s,sizeof s,[&](void* o) { Sum* q = (Sum*)o; Img im(c,a,"-",NULL,"FFmpeg",true); q->open_err = im.e; q->w = im.w; q->h = im.h; if(im.im && im.w == f.w && im.h == f.h) while(im.read(c)) { if(q->n < f.frames.size() && mismatch(im.buf,f.frames[q->n],tol) != SIZE_MAX) q->bad++; q->n++; } q->last_err = im.e; }))
				if(s.open_err || s.w != f.w || s.h != f.h || s.n != f.frames.size() || s.bad) c.fail("ffmpeg-pipe","open %d, %" PRIu64 " frames of %" PRIu64 "x%" PRIu64 ", %d wrong",s.open_err,s.n,s.w,s.h,s.bad);
		}
	}
	c.sample("%s by FFmpeg and MagickWand",f.desc.c_str());
}

// ---- C18 -----------------------------------------------------------------------------------------------
static vector<uint64_t>* g_seen; static void* g_ctx; static bool g_ctxok; static void on_progress(void* x, uint64_t n) { if(x != g_ctx) g_ctxok = false; g_seen->push_back(n); }
struct SeekOps { int n; struct { uint64_t seek; bool read, prog; } op[40]; };
// returns an empty string or what went wrong; runs in this process or in a child reading standard input
static string seek_history(Ctx& c, const Api& a, const File& f, const char* fn, const char* type, const char* reader, const SeekOps& ops, const vector<Frame>& frames, double tol, uint64_t* nseek) {
	char t[400]; Img im(c,a,fn,type,reader,true); if(!im.im) { snprintf(t,sizeof t,"open failed: %d",im.e); return t; }
	uint64_t pos = 0, n = frames.size(); string hist;
	for(int i = 0; i < ops.n; i++) {
		auto& o = ops.op[i];
		if(o.read) {
			bool r = im.read(c); hist += r ? " read" : " read(end)"; if(r != (pos < n)) { snprintf(t,sizeof t,"after%s: %s at frame %" PRIu64 " of %" PRIu64 ", error %d",hist.c_str(),r ? "read succeeded" : "read failed",pos,n,im.e); return t; }
			if(!r && im.e) { snprintf(t,sizeof t,"after%s: error %d at the end",hist.c_str(),im.e); return t; }
			if(r) { size_t m = mismatch(im.buf,frames[pos],tol); if(m != SIZE_MAX) { snprintf(t,sizeof t,"after%s: frame %" PRIu64 " expected, sample %zu is %g instead of %g",hist.c_str(),pos,m,im.buf[m],frames[pos][m]); return t; } pos++; }
		}
		else {
			vector<uint64_t> seen; g_seen = &seen; int dummy; g_ctx = &dummy; g_ctxok = true; RDError e = 99; bool r = a.resdet_seek_frame(im.im,o.seek,o.prog ? on_progress : NULL,o.prog ? g_ctx : NULL,&e); (*nseek)++;
			char q[60]; snprintf(q,sizeof q," seek(%" PRIu64 ")%s",o.seek,r ? "" : "=end"); hist += q; uint64_t skipped = std::min(o.seek,n-pos); bool want = o.seek <= n-pos;
			if(r != want || e) { snprintf(t,sizeof t,"after%s: seek of %" PRIu64 " at frame %" PRIu64 " of %" PRIu64 " gave %d, error %d",hist.c_str(),o.seek,pos,n,r,e); return t; }
			if(o.prog) { bool ok = seen.size() == skipped && g_ctxok; for(size_t k = 0; k < seen.size() && ok; k++) ok = seen[k] == k+1; if(!ok) { snprintf(t,sizeof t,"after%s: %zu progress calls (last %" PRIu64 ") for %" PRIu64 " frames, context %s",hist.c_str(),seen.size(),seen.empty() ? 0 : seen.back(),skipped,g_ctxok ? "ok" : "wrong"); return t; } }
			pos += skipped;
		}
	}
	return "";
}
static SeekOps seek_ops(Rng& r, size_t n) { SeekOps o; o.n = r.in(1,14); for(int i = 0; i < o.n; i++) { o.op[i].read = r.chance(1,2); o.op[i].prog = r.chance(2,3); o.op[i].seek = r.chance(1,5) ? 0 : r.chance(1,12) ? (r.chance(1,3) ? UINT64_MAX : r.chance(1,2) ? ((uint64_t)r.in(1,3)<<r.in(31,33))+r.below(3) : r.next()) : r.in(0,r.chance(1,3) ? n+1 : 2); } return o; }
static void c18(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; File f; const char* reader = NULL; double tol; int nk = kindcount(c); bool generic = has(c,"ffmpeg") && c.cur%4 == 3;
	if(generic) { static const int kinds[] = {3,4,8,9,7}; f = gen_generic(r,kinds[r.below(5)]); bool mg = has(c,"magick") && r.chance(1,2) && f.ext != "avi" && f.ext != "y4m"; reader = mg ? "MagickWand" : "FFmpeg"; }
	else f = gen(r,r.chance(2,3) ? r.in(PFM,Y4M) : r.below(nk),24,r.chance(1,4) ? 12 : 5);
	c.what("[%s] %s %s",a.name.c_str(),f.desc.c_str(),reader ? reader : ""); string fn = fname(c,f); save(fn,f.bytes); vector<Frame> frames = f.frames; tol = f.tol;
	if(generic) { // as that reader delivers them one by one
		Img im(c,a,fn.c_str(),NULL,reader,true); if(!im.im) return c.fail("valid-refused","%d",im.e); size_t n = frames.size(); frames.clear(); while(im.read(c)) frames.push_back(Frame(im.buf,im.buf+im.w*im.h)); tol = 0; if(frames.size() != n || im.e) return c.fail("frame-count","%zu of %zu frames, error %d",frames.size(),n,im.e); c.add("generic_sequences"); }
	for(int i = 0; i < 3; i++) {
		SeekOps o = seek_ops(r,frames.size()); uint64_t ns = 0; string s = seek_history(c,a,f,fn.c_str(),NULL,reader,o,frames,tol,&ns); if(!s.empty()) { c.fail("seek","%s: %s",f.desc.c_str(),s.c_str()); break; } c.add("seeks",ns); c.add("operations",o.n);
	}
	if(r.chance(1,5) && !(reader && !strcmp(reader,"MagickWand"))) { // from standard input, seekable or not
		SeekOps o = seek_ops(r,frames.size()); struct { char msg[500]; uint64_t ns; } res; memset(&res,0,sizeof res); auto p = r.chance(2,3) ? portions(r,f.bytes.size()) : vector<size_t>();
		if(with_stdin(c,fn,f.bytes,p,&res,sizeof res,[&](void* x) { auto* q = (decltype(&res))x; string s = seek_history(c,a,f,"-",reader ? NULL : f.ext.c_str(),reader,o,frames,tol,&q->ns); snprintf(q->msg,sizeof q->msg,"%s",s.c_str()); }) && *res.msg) c.fail("seek-stdin","%s from %s: %s",f.desc.c_str(),p.empty() ? "a file" : "a pipe",res.msg);
		c.add("seeks_stdin",res.ns);
	}
	c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size())); c.sample("%s: random histories of reads and seeks",f.desc.c_str());
}

// ---- C19 -----------------------------------------------------------------------------------------------
static string recase(Rng& r, string s) { int k = r.below(4); for(auto& ch : s) ch = k == 0 ? ch : k == 1 ? toupper(ch) : k == 2 ? tolower(ch) : r.chance(1,2) ? toupper(ch) : tolower(ch); return s; }
static void c19(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; int nk = kindcount(c), kind = r.below(nk); File f = gen(r,kind,40,4); if(f.frames.empty()) return;
	static const char* rn[] = {"PGM","PFM","Y4M","libpng","libjpeg"};
	c.what("[%s] %s",a.name.c_str(),f.desc.c_str());
	string lead = r.chance(1,3) ? "-" : "", byname = lead+(r.chance(1,4) ? "" : "x.y")+"."+recase(r,f.ext), noext = lead+"data"+std::to_string(r.below(9)), wrong = lead+"w."+(r.chance(1,2) ? "pfm" : "y4m"); save(byname,f.bytes); save(noext,f.bytes); save(wrong,f.bytes);
	struct Way { const char* how; string fn; const char* type; const char* reader; }; string rcase = recase(r,rn[kind]), tcase = recase(r,f.ext);
	vector<Way> ways = {{"extension",byname,NULL,NULL},{"type",noext,tcase.c_str(),NULL},{"type over name",wrong,tcase.c_str(),NULL},{"MIME type",noext,f.mime.c_str(),NULL},{"MIME type over name",wrong,f.mime.c_str(),NULL},{"reader",noext,NULL,rn[kind]},{"reader in other case",wrong,NULL,rcase.c_str()}};
	uint64_t ref = 0; size_t n0 = 0;
	for(auto& w : ways) {
		Img im(c,a,w.fn.c_str(),w.type,w.reader,r.chance(1,2)); if(!im.im) { c.fail("way-refused","by %s (%s %s %s): error %d",w.how,w.fn.c_str(),w.type ? w.type : "-",w.reader ? w.reader : "-",im.e); continue; }
		if(im.w != f.w || im.h != f.h) { c.fail("way-dims","by %s: %zux%zu",w.how,im.w,im.h); continue; }
		uint64_t h = 1; size_t n = 0; while(im.read(c)) { h = hframe(h,im.buf,im.w*im.h); n++; } if(im.e) c.fail("way-error","by %s: error %d",w.how,im.e);
		if(&w == &ways[0]) { ref = h; n0 = n; if(n != f.frames.size()) c.fail("frame-count","%zu of %zu",n,f.frames.size()); } else if(h != ref || n != n0) c.fail("way-differs","by %s: %zu frames, %s",w.how,n,h != ref ? "other samples" : "");
		c.add("ways_compared");
		if(!w.reader) { float* b = NULL; size_t bn = 9, bw = 9, bh = 9; RDError e = a.resdet_read_image(w.fn.c_str(),w.type,&b,&bn,&bw,&bh); if(e) c.fail("bulk-error","by %s: %d",w.how,e); else { uint64_t q = 1; for(size_t k = 0; k < bn; k++) q = hframe(q,b+k*bw*bh,bw*bh); if(q != ref || bn != n0 || bw != f.w || bh != f.h) c.fail("bulk-differs","by %s: %zu frames",w.how,bn); } rd_free(b); c.add("ways_compared"); }
	}
	for(int k = 0; k < 2; k++) if(r.chance(1,3)) { // standard input
		auto p = k ? portions(r,f.bytes.size()) : vector<size_t>(); Sum s; memset(&s,0,sizeof s); s.hash = 1; int how = r.below(3), bulk = r.chance(1,3);
		if(with_stdin(c,noext,f.bytes,p,&s,sizeof s,[&](void* o) { Sum* q = (Sum*)o; const char* type = how == 0 ? tcase.c_str() : f.mime.c_str();
			if(bulk) { float* b; size_t n, w, h; q->open_err = a.resdet_read_image("-",type,&b,&n,&w,&h); if(!q->open_err) { q->n = n; q->w = w; q->h = h; for(size_t i = 0; i < n; i++) q->hash = hframe(q->hash,b+i*w*h,w*h); rd_free(b); } }
			else { Img im(c,a,"-",how == 2 ? NULL : type,how == 2 ? rcase.c_str() : NULL,true); q->open_err = im.e; q->w = im.w; q->h = im.h; if(im.im) while(im.read(c)) { q->hash = hframe(q->hash,im.buf,im.w*im.h); q->n++; } q->last_err = im.e; im.close(); }
			q->fd0 = fcntl(0,F_GETFD); }))
			if(s.open_err || s.last_err || s.n != n0 || s.hash != ref || s.w != f.w || s.h != f.h || s.fd0 < 0) c.fail("stdin-differs","from %s (%s): open %d, end %d, %" PRIu64 " frames of %" PRIu64 "x%" PRIu64 ", samples %s, stdin %s",k ? "a pipe" : "a file",bulk ? "bulk" : "frames",s.open_err,s.last_err,s.n,s.w,s.h,s.hash == ref ? "same" : "differ",s.fd0 < 0 ? "closed" : "open");
		c.add("ways_compared");
	}
	// detection from the file equals detection on its frames
	const char* ms[] = {"sign","mag","orig","zerox"}; RDMethod* m = a.resdet_get_method(ms[r.below(4)]); RDParameters* q = a.resdet_alloc_default_parameters(); a.resdet_parameters_set_range(q,r.in(1,6)); a.resdet_parameters_set_threshold(q,r.chance(1,2) ? 0 : r.unit());
	RDResolution* rw[3],* rh[3]; size_t cw[3], ch[3]; RDError e[3]; float* b = NULL; size_t bn, bw, bh;
	e[0] = a.resdetect_file(byname.c_str(),NULL,&rw[0],&cw[0],&rh[0],&ch[0],m,q); e[1] = a.resdetect_file(wrong.c_str(),f.mime.c_str(),&rw[1],&cw[1],&rh[1],&ch[1],m,q);
	RDError re = a.resdet_read_image(noext.c_str(),f.ext.c_str(),&b,&bn,&bw,&bh); if(re) c.fail("bulk-error","%d",re); e[2] = re ? re : a.resdetect(b,bn,bw,bh,&rw[2],&cw[2],&rh[2],&ch[2],m,q);
	if(e[0] != e[2] || e[1] != e[2]) c.fail("detect-error","file %d, typed file %d, frames %d",e[0],e[1],e[2]);
	else if(!e[2]) for(int i = 0; i < 2; i++) if(cw[i] != cw[2] || ch[i] != ch[2] || memcmp(rw[i],rw[2],0)) c.fail("detect-differs","%zu/%zu entries from the file, %zu/%zu from its frames",cw[i],ch[i],cw[2],ch[2]); else for(int d = 0; d < 2; d++) for(size_t k = 0; k < (d ? ch : cw)[i]; k++) { auto& x = (d ? rh : rw)[i][k]; auto& y = (d ? rh : rw)[2][k]; if(x.index != y.index || x.confidence != y.confidence) { c.fail("detect-differs","entry %zu: %zu:%g vs %zu:%g",k,x.index,x.confidence,y.index,y.confidence); break; } }
	for(int i = 0; i < 3; i++) if(!e[i] && !(i == 2 && re)) { rd_free(rw[i]); rd_free(rh[i]); }
	rd_free(b); free(q); c.add("detections_compared"); c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size())); c.sample("%s by %zu ways",f.desc.c_str(),ways.size()); 
	unlink(byname.c_str());
}

// ---- C20 -----------------------------------------------------------------------------------------------
// a file which must be refused, after delivering the first `good` frames
static void expect_refusal(Ctx& c, const Api& a, const File& f, const string& bytes, const char* type, int good, const char* why, bool maybe_clean = false) {
	string fn = "bad."+f.ext; save(fn,bytes); c.what("[%s] %s, %s, %zu bytes, %d good frames",a.name.c_str(),f.desc.c_str(),why,bytes.size(),good);
	c.add("damaged_files");
	{ Img im(c,a,fn.c_str(),type,NULL,true);
	  if(im.im) {
		if(good < 0) { c.fail("header-accepted","%s: %s was opened",f.desc.c_str(),why); return; }
		int k = 0; bool wrong = false; while(im.read(c)) { if(k >= good) { c.fail("partial-frame","%s: %s: frame %d delivered",f.desc.c_str(),why,k); wrong = true; break; } if(k < (int)f.frames.size() && (im.w != f.w || im.h != f.h || mismatch(im.buf,f.frames[k],f.tol) != SIZE_MAX)) { c.fail("good-frame-differs","%s: %s: frame %d",f.desc.c_str(),why,k); wrong = true; break; } k++; }
		if(!wrong && k < good) c.fail("good-frame-lost","%s: %s: %d of %d intact frames, error %d",f.desc.c_str(),why,k,good,im.e);
		if(!wrong && !im.e) c.fail("damage-silent","%s: %s: no error",f.desc.c_str(),why);
	  }
	  else if(good > 0) c.fail("open-refused","%s: %s: open failed with %d despite %d intact frames",f.desc.c_str(),why,im.e,good);
	  else if(im.e > 7 || im.e == 0) c.fail("error-code","%s: error %d",why,im.e);
	}
	float* b = (float*)8; size_t n = 5, w = 5, h = 5; RDError e = a.resdet_read_image(fn.c_str(),type,&b,&n,&w,&h); if(!e) { c.fail("bulk-accepted","%s: %s",f.desc.c_str(),why); rd_free(b); } else if(b) c.fail("bulk-buffer","%s: %s: buffer with error %d",f.desc.c_str(),why,e);
	RDResolution* rw = (RDResolution*)8,* rh = (RDResolution*)8; size_t cw = 5, ch = 5; e = a.resdetect_file(fn.c_str(),type,&rw,&cw,&rh,&ch,NULL,NULL); if(!e) { c.fail("detect-accepted","%s: %s",f.desc.c_str(),why); rd_free(rw); rd_free(rh); } else if(rw || rh || cw || ch) c.fail("detect-outputs","%s: %s: outputs with error %d",f.desc.c_str(),why,e);
	Rng r = c.rng(5); if(good >= 0 && r.chance(1,12) && (f.ext == "y4m" || f.ext == "pfm")) { // seeking towards and over the damage in a stream
		struct { char msg[300]; } z; memset(&z,0,sizeof z); auto p = portions(r,bytes.size()+1); uint64_t s0 = r.next();
		if(with_stdin(c,fn,bytes,p,&z,sizeof z,[&](void* o) { auto* q = (decltype(&z))o; Rng r2(s0); Img im(c,a,"-",f.ext.c_str(),NULL,true); if(!im.im) { if(good > 0) snprintf(q->msg,sizeof q->msg,"open: %d",im.e); return; } int pos = 0;
			for(int i = 0; i < 8; i++) { bool rd = r2.chance(1,2); int n = rd ? 1 : r2.in(0,good+2); RDError e = 99; bool ok = rd ? im.read(c) : a.resdet_seek_frame(im.im,n,NULL,NULL,&e); if(rd) e = im.e; bool want = pos+n <= good;
				if(ok != want || (ok ? e != 0 : e == 0)) { snprintf(q->msg,sizeof q->msg,"%s %d at frame %d: %d, error %d",rd ? "reading" : "seeking by",n,pos,ok,e); return; } if(!ok) return; pos += n; if(rd && pos <= (int)f.frames.size() && mismatch(im.buf,f.frames[pos-1],f.tol) != SIZE_MAX) { snprintf(q->msg,sizeof q->msg,"frame %d differs",pos-1); return; } } }) && *z.msg) c.fail("damage-seek","%s: %s: %s",f.desc.c_str(),why,z.msg); c.add("damage_seeks"); }
	if(r.chance(1,12)) { Sum s; memset(&s,0,sizeof s); auto p = portions(r,bytes.size()+1); if(with_stdin(c,fn,bytes,p,&s,sizeof s,[&](void* o) { Sum* q = (Sum*)o; Img im(c,a,"-",f.ext.c_str(),NULL,true); q->open_err = im.e; if(im.im) { while(im.read(c)) q->n++; q->last_err = im.e; } })) if((!s.open_err && !s.last_err) || (int)s.n > std::max(good,0)) c.fail("stdin-accepted","%s: %s from a pipe: %" PRIu64 " frames, errors %d %d",f.desc.c_str(),why,s.n,s.open_err,s.last_err); }
	c.nontrivial(hash_bytes(bytes.data(),bytes.size()));
}
static string subst(const string& s, const string& from, const string& to) { size_t p = s.find(from); return p == string::npos ? s : s.substr(0,p)+to+s.substr(p+from.size()); }
static void c20(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; int nk = has(c,"png") ? 4 : 3, kind = c.cur/c.apis.size()%nk; File f; do f = gen(r,kind,24,4); while(f.frames.empty()); string B = f.bytes;
	int what = r.below(4);
	if(what < 2) { // cut short
		if(kind == PNG) return expect_refusal(c,a,f,B.substr(0,r.below(B.size())),NULL,B.size() < 9 ? -1 : 0,"truncated");
		size_t k = r.below(f.frames.size()); auto sp = f.span[k]; size_t prev = k ? f.end[k-1] : f.header;
		if(r.chance(1,3)) { size_t cut = r.below(f.header); // in the header
			return expect_refusal(c,a,f,B.substr(0,cut),NULL,-1,"truncated in the header"); }
		if(sp.first > prev+1 && r.chance(1,3)) { size_t cut = r.in(prev+1,sp.first-1); return expect_refusal(c,a,f,B.substr(0,cut),NULL,k,"truncated in a frame header"); }
		size_t cut = r.chance(1,4) ? sp.second-1 : r.chance(1,4) ? sp.first : r.in(sp.first,sp.second-1);
		return expect_refusal(c,a,f,B.substr(0,cut),NULL,k,"truncated in the samples");
	}
	char t[300]; string h;
	if(what == 2 && kind == PGM) {
		static const char* bad[] = {"P4\n%zu %zu\n255\n","P6\n%zu %zu\n255\n","P2\n%zu %zu\n255\n","p5\n%zu %zu\n255\n","P5\n0 %zu\n255\n","P5\n%zu 0\n255\n","P5\n%zu %zu\n0\n","P5\n%zu %zu\n256\n","P5\n%zu %zu\n65535\n","P5\n%zu\n255\nx\n","P5\nx%zu %zu\n255\n","P5\n%zu %zu\nabc\n","P5\n%zu %zu\n255x","Q5\n%zu %zu\n255\n","\n","P5\n99999999999 99999999999\n255\n","P5\n18446744073709551615 3\n255\n","P5","P5\n%zu %zu\n4294967297\n","P5\n%zu %zu\n-1\n","P5\n%zu %zu\n18446744073709551615\n","P5\n%zu %zu\n-255\n","P5\n4294967296 4294967297\n255\n"};
		snprintf(t,sizeof t,bad[r.below(sizeof bad/sizeof*bad)],f.w,f.h); string why = string("header ")+t; for(auto& ch : why) if(ch == '\n') ch = '|'; return expect_refusal(c,a,f,t+(strlen(t) < 3 ? "" : B.substr(f.header)),NULL,-1,why.c_str()); }
	if(what == 2 && kind == PFM) {
		static const char* bad[] = {"P5\n%zu %zu\n-1.0\n","Pg\n%zu %zu\n-1.0\n","pf\n%zu %zu\n-1.0\n","Pf\n0 %zu\n-1.0\n","Pf\n%zu 0\n-1.0\n","Pf\n%zu\n-1.0\nx\n","Pf\n%zu %zu\nabc\n","Pf\n%zu %zu\n-1.0x","PF","Pf\n99999999999 99999999999\n-1.0\n","Pf\n18446744073709551615 2\n1\n","Pf\n%zu %zux","Pf\n4611686018427387905 4\n-1\n"};
		snprintf(t,sizeof t,bad[r.below(sizeof bad/sizeof*bad)],f.w,f.h); string why = string("header ")+t; for(auto& ch : why) if(ch == '\n') ch = '|';
		if(f.frames.size() > 1 && r.chance(1,2)) { size_t k = r.in(1,f.frames.size()-1); return expect_refusal(c,a,f,B.substr(0,f.end[k-1])+t+B.substr(f.span[k].first),NULL,k,("later "+why).c_str()); }
		return expect_refusal(c,a,f,t+(strlen(t) < 3 ? "" : B.substr(f.header)),NULL,-1,why.c_str()); }
	if(what == 2 && kind == Y4M) {
		static const char* bad[] = {"YUV4MPEG W%zu H%zu\n","YUV4MPEG2\nW%zu H%zu\n","YUV4MPEG2 W%zu\n","YUV4MPEG2 H%zu\n","YUV4MPEG2 W0 H%zu\n","YUV4MPEG2 W%zu H0\n","YUV4MPEG2 Wx H%zu\n","YUV4MPEG2 W%zu H%zu C410\n","YUV4MPEG2 W%zu H%zu C420p7\n","YUV4MPEG2 W%zu H%zu C420p17\n","YUV4MPEG2 W%zu H%zu C444p0\n","YUV4MPEG2 W%zu H%zu Cmono7\n","YUV4MPEG2 W%zu H%zu Cmono32\n","YUV4MPEG2 W%zu H%zu","YUV4MPEG2 W99999999999 H99999999999\n","YUV4MPEG2 W%zu H%zu Crgb\n","yuv4mpeg2 W%zu H%zu\n","YUV4MPEG2 W%zu H18446744073709551615\n","YUV4MPEG2 W4294967296 H4294967296\n","YUV4MPEG2 W%zu H%zu C422p4294967304\n"};
		int bi = r.below(sizeof bad/sizeof*bad); snprintf(t,sizeof t,bad[bi],f.w,f.h); string why = string("header ")+t; for(auto& ch : why) if(ch == '\n') ch = '|'; if(bi == 19) return;
		// the header must fail on its own: a missing newline would make the reader take the frame for a parameter
		return expect_refusal(c,a,f,t+(strchr(t,'\n') ? B.substr(f.header) : ""),NULL,-1,why.c_str()); }
	if(what == 3 && kind == Y4M) { size_t k = r.below(f.frames.size()), at = k ? f.end[k-1] : f.header; string q = B; static const char* fr[] = {"FRAMX","frame","Frame","XXXXX","\0\0\0\0\0","FRAM\n"}; q.replace(at,5,fr[r.below(6)],5); if(q.compare(at,5,"FRAME") == 0) return; return expect_refusal(c,a,f,q,NULL,k,"frame marker"); }
	if(what == 3 && kind == PFM && f.frames.size() > 1) { // another size later on
		size_t k = r.in(1,f.frames.size()-1); size_t gw = f.w, gh = f.h; switch(r.below(6)) { case 0: gw++; break; case 1: gh++; break; case 2: std::swap(gw,gh); break; // also of the same area
			case 3: gw *= gh; gh = 1; break; case 4: if(gh%2 == 0) { gh /= 2; gw *= 2; } else if(gw%2 == 0) { gw /= 2; gh *= 2; } break; default: if(gw > 1) gw--; else gh += r.in(1,9); } if(gw == f.w && gh == f.h) gw++;
		File g = gen_pfm(r,gw,gh,1); return expect_refusal(c,a,f,B.substr(0,f.end[k-1])+g.bytes+B.substr(f.end[k-1]),NULL,k,gw*gh == f.w*f.h ? "frame of another size, same area" : "frame of another size"); }
	if(kind == PNG) { string q = B; int k = r.below(5);
		if(k == 0) { q[r.below(8)] ^= 1<<r.below(8); return expect_refusal(c,a,f,q,NULL,-1,"signature"); }
		if(k == 1) { q[r.in(8,32)] ^= 1<<r.below(7); return expect_refusal(c,a,f,q,NULL,0,"IHDR damaged"); }
		if(k == 2) { size_t p = q.find("IDAT"); if(p == string::npos) return; size_t len = (unsigned char)q[p-4]<<24|(unsigned char)q[p-3]<<16|(unsigned char)q[p-2]<<8|(unsigned char)q[p-1]; if(!len) return; q[p+4+r.below(len)] ^= 1<<r.below(8); return expect_refusal(c,a,f,q,NULL,0,"IDAT damaged"); }
		if(k == 3) { size_t p = q.find("IDAT"); uint32_t z[2] = {0,0}; q.replace(16+4*r.below(2),4,4,'\0'); uint32_t crc = crc32(0,(Bytef*)q.data()+12,17); q.replace(29,4,be(crc,4)); return expect_refusal(c,a,f,q,NULL,-1,"zero dimension"); }
		return expect_refusal(c,a,f,q.substr(0,q.size()-12),NULL,0,"IEND missing"); }
	// another format altogether
	{ int other; do other = r.below(nk); while(other == kind); File g; do g = gen(r,other,20,2); while(g.frames.empty()); File x = f; x.frames.clear(); x.desc += " holding "+g.desc; return expect_refusal(c,a,x,g.bytes,NULL,-1,"another format"); }
}

// ---- C21 -----------------------------------------------------------------------------------------------
static void c21(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; bool generic = has(c,"ffmpeg"), magick = has(c,"magick"); c.what("[%s] lookups",a.name.c_str());
	// methods
	RDMethod* m = a.resdet_methods(); std::set<string> seen; static const float T[] = {.55f,.40f,.64f,.5f}; static const char* N[] = {"sign","mag","orig","zerox"};
	if(!m || a.resdet_methods() != m) c.fail("methods-unstable","list moves"); int k = 0; for(; m[k].name; k++) { if(a.resdet_get_method(m[k].name) != m+k) c.fail("method-lookup","%s",m[k].name); if(!seen.insert(m[k].name).second) c.fail("method-duplicate","%s",m[k].name); if(!(m[k].threshold > 0 && m[k].threshold <= 1) || !m[k].func) c.fail("method-entry","%s: threshold %g",m[k].name,m[k].threshold); if(k > 20) break; }
	for(int i = 0; i < 4; i++) { RDMethod* x = a.resdet_get_method(N[i]); if(!x || strcmp(x->name,N[i]) || x->threshold != T[i]) c.fail("method-missing","%s",N[i]); string copy = N[i]; if(a.resdet_get_method(copy.c_str()) != x) c.fail("method-lookup","by another string"); }
	if(a.resdet_get_method(NULL) != m) c.fail("method-default","the first method is not the default");
	for(auto s : {"","sig","signx","SIGN","zero","mags","orig "}) if(!seen.count(s) && a.resdet_get_method(s)) c.fail("method-unknown","'%s' found",s);
	if(!a.resdet_libversion() || !*a.resdet_libversion() || a.resdet_default_range() != a.default_range) c.fail("constants","version or default range");
	// errors
	int max = a.resdet_get_max_error(); if(max < RDENOIMG) c.fail("max-error","%d",max); std::set<string> texts;
	for(int e = 0; e <= max; e++) { const char* s = a.resdet_error_str(e); if(!s) c.fail("error-text","%d has none",e); else if(e && (!*s || !texts.insert(s).second)) c.fail("error-text","%d: '%s'",e,s); }
	for(int e : {max+1,max+2,max+1000,INT_MAX,(int)(max+1+r.below(1000000))}) if(a.resdet_error_str(e)) c.fail("error-text","%d has a description",e);
	for(int e : {ENOENT,EACCES,ENOMEM,EIO,EISDIR,(int)r.in(1,133)}) { const char* s = a.resdet_error_str(-e); string t = s ? s : ""; if(!s || t != strerror(e)) c.fail("system-error","%d: '%s'",-e,s ? s : "NULL"); }
	for(int e : {INT_MIN,INT_MIN+1,-100000,-(int)r.below(INT_MAX)-1}) if(!a.resdet_error_str(e)) c.fail("system-error","%d has no description",e);
	// readers
	const char* const* L = a.resdet_list_image_readers(); if(!L || a.resdet_list_image_readers() != L) c.fail("readers-unstable","list moves");
	vector<string> want = {"PGM","PFM","Y4M"}, got; if(has(c,"png")) { want.push_back("libjpeg"); want.push_back("libpng"); } if(generic) want.push_back("FFmpeg"); if(magick) want.push_back("MagickWand");
	if(c.opt.count("omit")) { for(size_t i = 0; i < want.size();) { string u = want[i]; for(auto& ch : u) ch = tolower(ch); if(c.opt["omit"].find(u) != string::npos) want.erase(want.begin()+i); else i++; } }
	for(int i = 0; L[i] && i < 50; i++) got.push_back(L[i]); { auto x = got, y = want; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(x != y) { string s; for(auto& z : got) s += z+" "; c.fail("readers-list","%s",s.c_str()); } }
	size_t w, h; RDError e; float* b;
	for(auto s : {"","PG","PGMX","jpeg","none","PGM ","libtiff","Y\x14M"}) { e = 9; b = (float*)8; w = h = 4; RDImage* im = a.resdet_open_image_with_reader("nofile",s,&w,&h,&b,&e); if(im || e != RDEUNSUPP || w || h || b) c.fail("reader-unknown","'%s': error %d",s,e); }
	for(auto& s : got) { string u = recase(r,s); e = 9; a.resdet_open_image_with_reader("does-not-exist",u.c_str(),&w,&h,NULL,&e); if(e == RDEUNSUPP || e == RDEPARAM || e == 9 || !e) c.fail("reader-lookup","%s: error %d",u.c_str(),e); }
	// selection: which reader opens what. The samples tell dedicated readers from general ones.
	static const char* EXT[] = {"pgm","pfm","y4m","png","jpg","jpeg"}; static const char* MIME[] = {"image/x-portable-graymap","image/x-portable-floatmap","video/yuv4mpeg","image/png","image/jpeg","image/jpeg"};
	auto omitted = [&](int k) { static const char* o[] = {"pgm","pfm","y4m","x","x","x"}; return c.opt.count("omit") && c.opt["omit"].find(o[k]) != string::npos; };
	int nk = has(c,"png") ? 5 : 3; int kind = r.below(nk); if(omitted(kind)) kind = (kind+1)%3; if(omitted(kind)) kind = (kind+1)%3; if(omitted(kind)) return;
	File f; size_t fw = r.in(2,12), fh = r.in(2,12);
	switch(kind) { case 0: { unsigned mx = r.in(1,200); f.w = fw; f.h = fh; f.ext = "pgm"; num(f.bytes,"P5\n%zu %zu\n%u\n",fw,fh,mx); Frame fr(fw*fh); for(auto& x : fr) { int v = r.in(0,255); f.bytes += (char)v; x = v/(float)mx; } f.frames.push_back(fr); f.tol = 1e-5; break; } // above the maximum: only the dedicated reader does not clip
		case 1: do f = gen_pfm(r,fw,fh,1,false); while(f.bytes[1] != 'F'); break; // mean instead of luma weights
		case 2: f = gen_y4m(r,fw,fh,1,r.below(2)); break; // full instead of limited range
		case 3: f = gen_png(r,fw,fh,PNG_COLOR_TYPE_RGB,8); break; default: f = gen_jpeg(r,fw,fh); }
	auto opens = [&](const string& fn, const char* type, const char* how) { c.what("[%s] %s as %s, type %s",a.name.c_str(),f.desc.c_str(),fn.c_str(),type ? type : "-"); save(fn,f.bytes); Img im(c,a,fn.c_str(),type,NULL,true); if(!im.im) c.fail("selection-refused","%s: error %d",how,im.e); else if(!im.read(c) || mismatch(im.buf,f.frames[0],f.tol) != SIZE_MAX) c.fail("selection-reader","%s: another reader was used",how); im.close(); unlink(fn.c_str()); c.add("selections"); };
	string ext = kind == 4 && r.chance(1,2) ? EXT[5] : EXT[kind]; int o; do o = r.below(5); while(o == kind); string other = EXT[o];
	opens("s."+recase(r,ext),NULL,"extension in any case"); opens("-s."+ext,NULL,"name with a leading dash"); opens("-."+ext,NULL,"dash as the name"); opens("-x",ext.c_str(),"type, name with a leading dash"); opens("a.b."+other+"."+recase(r,ext),NULL,"text after the last dot"); opens("noext",recase(r,ext).c_str(),"type"); opens("n."+other,ext.c_str(),"type over name"); opens("n."+other,MIME[kind],"MIME type over name"); opens("noext",MIME[kind],"MIME type");
	if(o < nk && !omitted(o)) { // the wrong dedicated reader refuses
		string fn = "q."+recase(r,other); c.what("[%s] %s as %s",a.name.c_str(),f.desc.c_str(),fn.c_str()); save(fn,f.bytes); Img im(c,a,fn.c_str(),NULL,NULL,false); if(im.im) c.fail("selection-wrong","%s opened a %s file",other.c_str(),ext.c_str()); im.close(); unlink(fn.c_str());
		fn = "q."+ext; save(fn,f.bytes); Img i2(c,a,fn.c_str(),r.chance(1,2) ? other.c_str() : MIME[o],NULL,false); if(i2.im) c.fail("selection-wrong","type %s opened a %s file",other.c_str(),ext.c_str()); i2.close(); unlink(fn.c_str()); c.add("selections",2);
	}
	if(!generic) for(auto t : {"","gif","webm","pg","pgmx","pn","image/gif","image/PNG","text/plain","/","png/","p"}) { save("u.pgm",f.bytes); e = 9; w = h = 3; b = (float*)8; if(a.resdet_open_image("u.pgm",t,&w,&h,&b,&e) || e != RDEUNSUPP || w || h || b) c.fail("unsupported","type '%s': error %d",t,e); c.add("selections"); }
	if(!generic) for(auto t : {"noextension","x.","x.y\x14m","x.unknown",".","x.pgm.bak","pgm","png","-pfm"}) { save(strcmp(t,".") ? t : "dotless",f.bytes); e = 9; if(a.resdet_open_image(t,NULL,&w,&h,NULL,&e) || e != RDEUNSUPP) c.fail("unsupported","name '%s': error %d",t,e); c.add("selections"); }
	if(generic && c.cur%3 == 0) { // general readers take what no dedicated reader does
		File g = gen_generic(r,r.chance(1,2) ? 0 : 4); string fn = (r.chance(1,3) ? "-gen." : "gen.")+recase(r,g.ext); save(fn,g.bytes); c.what("%s",g.desc.c_str()); Img im(c,a,fn.c_str(),NULL,NULL,true); if(!im.im || !im.read(c)) c.fail("generic-refused","%s: error %d",g.desc.c_str(),im.e); im.close(); unlink(fn.c_str()); c.add("generic_selected"); }
	if(generic && r.chance(1,4)) { // PNG under a MIME type no table lists
		File g = gen_png(r,6,6,PNG_COLOR_TYPE_GRAY,8); save("m.dat",g.bytes); if(magick) { Img im(c,a,"m.dat","image/unknown",NULL,true); if(!im.im) c.fail("generic-mime","error %d",im.e); im.close(); } }
	c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size())); c.sample("[%s] lookups; %s selected by name, type and MIME type",a.name.c_str(),f.desc.c_str());
}

// ---- C01, C04 ------------------------------------------------------------------------------------------
static string mutate(Rng& r, const File& f, const File& g) {
	string s = f.bytes; int n = r.chance(1,3) ? 1 : r.in(1,6);
	while(n--) {
		if(s.empty()) { s += (char)r.below(256); continue; }
		size_t hd = std::min<size_t>(s.size(),r.chance(1,2) ? 80 : s.size()), at = r.below(hd);
		switch(r.below(11)) {
			case 0: s[at] ^= 1<<r.below(8); break;
			case 1: s[at] = r.below(256); break;
			case 2: s = s.substr(0,r.below(s.size()+1)); break;
			case 3: s.erase(at,r.in(1,8)); break;
			case 4: s.insert(at,string(r.in(1,8),(char)r.below(256))); break;
			case 5: { size_t len = r.in(1,40); s.insert(at,s.substr(r.below(s.size()),len)); break; }
			case 6: { if(!g.bytes.empty()) { size_t q = r.below(g.bytes.size()); s = s.substr(0,at)+g.bytes.substr(q); } break; }
			case 7: { // a number becomes another
				size_t p = s.find_first_of("0123456789",at); if(p == string::npos || p > 400) break; size_t q = p; while(q < s.size() && isdigit(s[q])) q++; static const char* nn[] = {"0","1","2","3","255","256","65535","65536","99999","2147483647","2147483648","4294967295","4294967296","18446744073709551615","18446744073709551616","-1","9223372036854775808","99999999999999999999999"}; string v = r.chance(1,2) ? std::to_string(r.below(40)) : nn[r.below(18)]; s = s.substr(0,p)+v+s.substr(q); break; }
			case 8: { if(s.size() > 8) { uint32_t v = r.chance(1,2) ? r.below(70000) : r.chance(1,2) ? ~0u : 1u<<r.below(32); string b = r.chance(1,2) ? le(v,4) : be(v,4); s.replace(std::min(at,s.size()-4),4,b); } break; }
			case 9: { if(s.size() > 33 && !s.compare(1,3,"PNG")) { int k = r.below(7); if(k < 2) s.replace(16+4*k,4,be(r.chance(1,2) ? r.below(3000) : r.next(),4)); else s[22+k] = r.below(17); s.replace(29,4,be(crc32(0,(Bytef*)s.data()+12,17),4)); } else s += string(r.in(1,100),(char)r.below(256)); break; }
			case 10: s += s.substr(r.below(s.size())); break;
		}
	}
	return s;
}
// random calls on an open image; everything the oracles in Img check
static void random_calls(Ctx& c, const Api& a, const char* fn, const char* type, const char* reader, Rng& r) {
	Img im(c,a,fn,type,reader,r.chance(2,3)); if(!im.im) { c.add("opens_refused"); return; } c.add("opens_ok");
	if(im.w*im.h > (64u<<20)) { // too large to keep reading; one read must still end
		if(r.chance(1,4)) im.read(c); return; }
	int n = r.in(0,12); if(r.chance(1,2)) n = 40; int fails = 0;
	for(int i = 0; i < n && fails < 4; i++) {
		if(r.chance(3,4)) { if(!im.read(c)) fails++; }
		else { vector<uint64_t> seen; g_seen = &seen; g_ctx = &seen; RDError e = 99; bool ok = a.resdet_seek_frame(im.im,r.chance(1,9) ? r.next() : r.in(0,3),r.chance(1,2) ? on_progress : NULL,r.chance(1,2) ? &seen : NULL,r.chance(1,4) ? NULL : &e); if(!ok) fails++; c.add("seeks"); }
	}
}
static void fuzz(Ctx& c, bool valid_too) {
	colors = true;
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; int nk = kindcount(c); bool gen3 = has(c,"ffmpeg") && r.chance(1,6);
	File f = gen3 ? gen_generic(r,std::min<int>(r.below(15),10)) : gen(r,r.below(nk),32,3), g = gen(r,r.below(nk),16,2); string s = valid_too && r.chance(1,3) ? f.bytes : r.chance(1,40) ? string(r.below(60),(char)r.below(256)) : mutate(r,f,g);
	bool encoded = false;
#ifdef WITH_AV
	if(has(c,"ffmpeg") && r.chance(1,10)) { AvFile v = gen_av(r,"z",r.below(NAVKINDS)); if(v.ok) { encoded = gen3 = true; f = v; { std::ifstream in("z."+v.ext,std::ios::binary); s.assign(std::istreambuf_iterator<char>(in),{}); } int m = r.below(3); if(m == 1) s.resize(r.below(s.size()+1)); else if(m) for(int n = r.in(1,9); n--;) s[r.below(s.size())] = r.below(256); c.add("encoded_sequences"); if(v.audio) c.add("other_streams"); } }
#endif
	string fn = "z."+f.ext; save(fn,s); static const char* RD[] = {"PGM","PFM","Y4M","libpng","libjpeg","FFmpeg","MagickWand"}; int nr = has(c,"magick") ? 7 : has(c,"ffmpeg") ? 6 : has(c,"png") ? 5 : 3;
	const char* reader = NULL; int native = f.ext == "pgm" ? 0 : f.ext == "pfm" ? 1 : f.ext == "y4m" ? 2 : f.ext == "png" ? 3 : f.ext.substr(0,2) == "jp" ? 4 : 5;
	if(gen3) reader = encoded || f.ext == "avi" || !has(c,"magick") || r.chance(1,2) ? "FFmpeg" : "MagickWand"; else if(r.chance(1,12)) reader = RD[r.below(std::min(nr,5))]; else if(r.chance(1,25) && nr > 5) reader = r.chance(1,2) && f.ext != "y4m" ? "MagickWand" : "FFmpeg";
	if(reader && !strcmp(reader,"MagickWand") && nr < 7) reader = NULL; if(gen3 && !reader) reader = "FFmpeg";
	c.what("[%s] %s by %s, %zu bytes",a.name.c_str(),f.desc.c_str(),reader ? reader : "name",s.size());
	int fd0 = nfds(); size_t live0 = guard_live();
	random_calls(c,a,fn.c_str(),NULL,reader,r);
	if(!reader && r.chance(1,2)) { float* b = (float*)8; size_t n, w, h; RDError e = a.resdet_read_image(fn.c_str(),NULL,&b,&n,&w,&h); if(e ? b != NULL : !b) c.fail("bulk-outputs","error %d buffer %p",e,(void*)b); if(!e) { if(n*w*h < (16u<<20)) { volatile float t = 0; for(size_t i = 0; i < n*w*h; i++) t = b[i]; } rd_free(b); } c.add("bulk_reads"); }
	if(!reader && r.chance(1,3) && s.size() < 100000) { RDResolution* rw,* rh; size_t cw, ch, w = 0, h = 0; RDError e; RDImage* im = a.resdet_open_image(fn.c_str(),NULL,&w,&h,NULL,&e); a.resdet_close_image(im); if(w*h < (1u<<20)) { e = a.resdetect_file(fn.c_str(),NULL,&rw,&cw,&rh,&ch,a.resdet_methods()+r.below(4),NULL); if(e ? rw || rh || cw || ch : !rw || !rh) c.fail("detect-outputs","error %d",e); if(!e) { rd_free(rw); rd_free(rh); c.add("detections"); } } }
	if(nfds() != fd0) c.fail("fd-leak","%d file descriptors before, %d after",fd0,nfds());
	if(guard_live() != live0) c.fail("block-leak","%zu blocks before, %zu after",live0,guard_live());
	if(!reader && r.chance(1,valid_too ? 6 : 15)) { struct { int fd0, fds; size_t blocks; } q = {0,0,0}; auto p = r.chance(1,2) ? portions(r,s.size()+1) : vector<size_t>(); Rng r2 = r;
		if(with_stdin(c,fn,s,p,&q,sizeof q,[&](void* o) { auto* z = (decltype(&q))o; int b4 = nfds(); size_t l4 = guard_live(); random_calls(c,a,"-",f.ext.c_str(),NULL,r2); z->fds = nfds()-b4; z->blocks = guard_live()-l4; z->fd0 = fcntl(0,F_GETFD); })) { if(q.fds) c.fail("fd-leak-stdin","%d more descriptors",q.fds); if(q.blocks) c.fail("block-leak-stdin","%zu more blocks",q.blocks); if(q.fd0 < 0) c.fail("stdin-closed","standard input was closed"); } }
	c.nontrivial(hash_bytes(s.data(),s.size())); if(r.chance(1,50)) c.sample("%s, %zu bytes",f.desc.c_str(),s.size());
}
static void c01(Ctx& c) { fuzz(c,false); }
static void c04(Ctx& c) {
	static bool each = false; static uint64_t batch = 0;
	Rng r = c.rng(3); const Api& a = c.apis[c.cur%c.apis.size()];
	fuzz(c,true);
	// failing opens
	int fd0 = nfds(); size_t live0 = guard_live(); size_t w, h; RDError e; float* b;
	for(auto fn : {"missing.pgm","missing.pfm","missing.y4m","missing.png","missing.jpg",".","/dev/null"}) if(r.chance(1,4)) { b = NULL; RDImage* im = a.resdet_open_image(fn,r.chance(1,2) && *fn != 'm' ? (r.chance(1,2) ? "pgm" : "pfm") : *fn != 'm' ? "y4m" : NULL,&w,&h,&b,&e); if(im) c.fail("open-missing","%s opened",fn); a.resdet_close_image(im); c.add("failed_opens"); }
	{ b = NULL; RDImage* im = a.resdet_open_image("x.pgm",NULL,NULL,&h,&b,&e); a.resdet_close_image(im); im = a.resdet_open_image_with_reader("x.pgm","nope",&w,&h,&b,&e); a.resdet_close_image(im); }
	// analyses, complete, incomplete and failing
	{ size_t W = r.in(1,60), H = r.in(1,60); vector<float> px(W*H); for(auto& x : px) x = r.unit(); if(r.chance(1,4)) px[r.below(W*H)] = NAN; RDParameters* q = r.chance(1,2) ? a.resdet_alloc_default_parameters() : NULL; if(q) a.resdet_parameters_set_range(q,r.in(1,20)); RDAnalysis* an = a.resdet_create_analysis(a.resdet_methods()+r.below(4),r.chance(1,9) ? 0 : W,H,q,&e);
	  for(int i = r.in(0,3); i > 0; i--) { if(an) a.resdet_analyze_image(an,px.data()); RDResolution* rw,* rh; size_t cw, ch; if(!a.resdet_analysis_results(an,&rw,&cw,&rh,&ch)) { rd_free(rw); rd_free(rh); } if(r.chance(1,4)) a.resdet_analysis_results(an,&rw,&cw,&rh,NULL); }
	  a.resdet_destroy_analysis(an); RDResolution* rw,* rh; size_t cw, ch; if(!a.resdetect(px.data(),1,W,H,&rw,&cw,&rh,&ch,a.resdet_methods()+r.below(4),q)) { rd_free(rw); rd_free(rh); } rd_free(q); a.resdet_destroy_analysis(NULL); a.resdet_close_image(NULL); c.add("analyses",2); }
	if(nfds() != fd0) c.fail("fd-leak","%d file descriptors before, %d after",fd0,nfds());
	if(guard_live() != live0) c.fail("block-leak","%zu blocks before, %zu after",live0,guard_live());
	// memory: conservation of everything reachable
	if(__lsan_do_recoverable_leak_check && (each || c.replay || ++batch%12 == 0 || c.cur+c.step >= c.count)) {
		// dead pointers in registers and on the stack must not hide a block
		c.add("leak_checks"); if(__lsan_do_recoverable_leak_check()) { c.fail(each || c.replay ? "leak" : "leak-in-batch","memory was not released (by this case or one of the 11 before it in its shard); report on standard error"); each = true; fprintf(c.out,""); }
	}
}

// ---- C26: the same in another locale; files are generated and judged in the C locale
static void c26(Ctx& c) {
	static auto& L = *new vector<std::pair<string,locale_t>>; static int points = 0;
	if(L.empty()) { setenv("LOCPATH",c.opt["locpath"].c_str(),1); string s = c.opt["locales"]; for(size_t i = 0; i < s.size();) { size_t j = s.find(',',i); if(j == string::npos) j = s.size(); string n = s.substr(i,j-i); if(__lsan_disable) __lsan_disable(); locale_t l = newlocale(LC_ALL_MASK,n.c_str(),0); if(__lsan_enable) __lsan_enable(); if(!l) { fprintf(stderr,"HARNESS locale %s\n",n.c_str()); _exit(3); } L.push_back({n,l}); i = j+1; }
		for(auto& a : c.apis) api_in_locale(a); }
	auto& l = L[c.cur%L.size()]; { locale_t o = uselocale(l.second); char b[16]; snprintf(b,sizeof b,"%.1f",.5); if(b[1] != '.') points++, c.add("other_decimal_points"); if(tolower('I') != 'i') c.add("other_cases"); uselocale(o); }
	static void(*const M[])(Ctx&) = {c15,c15,c20,c18,c19,c21,c16,c17}; int m = c.cur/L.size()%(has(c,"ffmpeg") ? 8 : has(c,"png") ? 7 : 6);
	string pre = c.keyprefix; c.keyprefix = l.first+":"; g_loc = l.second; M[m](c); g_loc = 0; c.keyprefix = pre; c.add("in_other_locales");
}

// ---- C28: what else the process can observe, before and after every call
#include <fenv.h>
#include <stdio_ext.h>
#include <sys/time.h>
#include <sys/resource.h>
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak)); extern char** environ;
static const char* FN[] = {
#define X(f) #f,
	RD_FUNCS(X)
#undef X
};
struct World { mode_t mask; string cwd, locale, dir; locale_t tl; unsigned csr; unsigned short cw; uint64_t env, rnd, sig, blocked, lim; int fl[3]; off_t at, out, err; size_t pend; itimerval it; };
static char g_rand[128]; static int g_sentinel = -1, g_outfd = -1, g_errfd = -1; static bool g_loud; static Ctx* g_c; static World g_w; static uint64_t g_ncalls;
static World world() {
	World w; w.mask = umask(0); umask(w.mask); char b[4400]; w.cwd = getcwd(b,sizeof b) ? b : "?"; w.locale = setlocale(LC_ALL,NULL); w.tl = uselocale((locale_t)0);
	__asm__ volatile("stmxcsr %0" : "=m"(w.csr)); w.csr &= ~0x3fu; __asm__ volatile("fnstcw %0" : "=m"(w.cw)); w.env = hash_bytes(&environ,sizeof environ); for(char** e = environ; *e; e++) w.env = hash_bytes(*e,strlen(*e),w.env);
	w.rnd = hash_bytes(g_rand,sizeof g_rand); w.sig = 1; for(int i = 1; i <= 64; i++) { struct sigaction s; memset(&s,0,sizeof s); if(sigaction(i,NULL,&s)) continue; void* h = (void*)s.sa_sigaction; w.sig = hash_bytes(&h,sizeof h,w.sig); w.sig = hash_bytes(&s.sa_flags,sizeof s.sa_flags,w.sig); w.sig = hash_bytes(&s.sa_mask,8,w.sig); }
	sigset_t m; sigemptyset(&m); sigprocmask(SIG_BLOCK,NULL,&m); memcpy(&w.blocked,&m,8); w.lim = 1; for(int i = 0; i < 16; i++) { rlimit l; memset(&l,0,sizeof l); getrlimit((__rlimit_resource)i,&l); w.lim = hash_bytes(&l,sizeof l,w.lim); }
	for(int i = 0; i < 3; i++) w.fl[i] = fcntl(i,F_GETFL)|fcntl(i,F_GETFD)<<24; w.at = lseek(g_sentinel,0,SEEK_CUR); struct stat st; w.out = fstat(g_outfd,&st) ? -1 : st.st_size; w.err = fstat(g_errfd,&st) ? -1 : st.st_size; w.pend = __fpending(stdout)+__fpending(stderr); getitimer(ITIMER_REAL,&w.it);
	if(DIR* d = opendir(".")) { vector<string> v; while(dirent* e = readdir(d)) if(e->d_name[0] != '.' && !stat(e->d_name,&st)) { char t[200]; snprintf(t,sizeof t,"%s %lld %o %lld.%09ld;",e->d_name,(long long)st.st_size,st.st_mode,(long long)st.st_mtim.tv_sec,st.st_mtim.tv_nsec); v.push_back(t); } closedir(d); std::sort(v.begin(),v.end()); for(auto& x : v) w.dir += x; }
	return w;
}
static void around(int id, bool after) {
	if(!after) { g_w = world(); return; }
	World w = world(); Ctx& c = *g_c; g_ncalls++; const World& o = g_w; string fn = FN[id];
	#define SAME(x,what) if(!(w.x == o.x)) c.fail("changed:" what ":"+fn,"%s changed " what,fn.c_str())
	SAME(mask,"the umask"); SAME(cwd,"the working directory"); SAME(locale,"the locale"); SAME(tl,"the thread's locale"); SAME(csr,"the floating point environment"); SAME(cw,"the x87 control word"); SAME(env,"the environment"); SAME(rnd,"the random number generator"); SAME(sig,"signal handlers"); SAME(blocked,"blocked signals"); SAME(lim,"resource limits");
	for(int i = 0; i < 3; i++) SAME(fl[i],"flags of a standard stream"); SAME(at,"the position of another file"); SAME(dir,"files"); if(w.it.it_value.tv_sec && !o.it.it_value.tv_sec) c.fail("changed:timer:"+fn,"timer");
	SAME(out,"standard output"); if(!g_loud) SAME(err,"standard error"); if(!g_loud || w.pend < o.pend) SAME(pend,"the standard streams' buffers");
}
static void c28(Ctx& c) {
	if(g_sentinel < 0) {
		g_c = &c; signal(SIGPIPE,SIG_IGN); if(c.out == stdout) c.out = fdopen(dup(1),"w"); g_loud = has(c,"ffmpeg"); // FFmpeg logs on its own
		if(!c.replay) { if(__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)dup(2)); g_outfd = memfd_create("out",0); g_errfd = memfd_create("err",0); fflush(NULL); dup2(g_outfd,1); dup2(g_errfd,2); }
		g_sentinel = memfd_create("other",0); if(write(g_sentinel,"0123456789",10) != 10) _exit(3); lseek(g_sentinel,5,SEEK_SET); initstate(7,g_rand,sizeof g_rand); umask(027); fesetround(FE_TONEAREST); for(auto& a : c.apis) api_in_locale(a);
	}
	Rng r = c.rng(17); struct { bool on = false; void set(int m) { fesetround(m); on = m != FE_TONEAREST; } } rm; int m = r.below(10);
	g_around = around; colors = false; uint64_t before = g_ncalls;
	if(m < 3) { // images of all kinds of numbers
		const Api& a = c.apis[c.cur%c.apis.size()]; size_t w = r.in(1,70), h = r.in(1,70), n = r.in(1,3); vector<float> px(w*h*n); int k = r.below(6); for(auto& x : px) x = k == 0 ? ldexpf(r.unit(),-r.in(120,149)) : k == 1 ? ldexpf(r.unit()-.5,r.in(-140,127)) : k == 2 && r.chance(1,50) ? (r.chance(1,2) ? NAN : INFINITY) : r.unit(); c.what("[%s] detecting in %zux%zu, kind %d",a.name.c_str(),w,h,k);
		RDParameters* q = r.chance(1,2) ? a.resdet_alloc_default_parameters() : NULL; if(q) { a.resdet_parameters_set_range(q,r.in(0,20)); a.resdet_parameters_set_threshold(q,r.unit()*1.1); a.resdet_parameters_set_compression_filter(q,r.in(0,33)); }
		RDResolution* rw,* rh; size_t cw, ch; RDMethod* me = a.resdet_methods()+r.below(4); RDError e; if(!a.resdetect(px.data(),n,w,h,&rw,&cw,&rh,&ch,me,q)) { free(rw); free(rh); } if(RDAnalysis* an = a.resdet_create_analysis(me,w,h,q,&e)) { for(size_t i = 0; i < n; i++) a.resdet_analyze_image(an,px.data()+i*w*h); if(!a.resdet_analysis_results(an,&rw,&cw,&rh,&ch)) { free(rw); free(rh); } a.resdet_destroy_analysis(an); } free(q); c.add("detections"); c.nontrivial(hash_bytes(px.data(),px.size()*4));
	}
	else { static void(*const M[])(Ctx&) = {c01,c01,c04,c15,c18,c20,c21}; M[m-3](c); }
	g_around = NULL; c.add("calls_observed",g_ncalls-before);
}

int main(int argc, char** argv) {
	static std::map<string,void(*)(Ctx&)> modes = {{"c01",c01},{"c04",c04},{"c15",c15},{"c16",c16},{"c17",c17},{"c18",c18},{"cav",c17av},{"c03av",c03av},{"c03mem",c03mem},{"c03api",c03api},{"c19",c19},{"c20",c20},{"c21",c21},{"c26",c26},{"c28",c28}};
	return drive(argc,argv,[](Ctx& c) { if(!modes.count(c.mode) || c.apis.empty()) { fprintf(stderr,"HARNESS mode\n"); _exit(3); } if(!c.opt.count("readers")) c.opt["readers"] = "native"; },[](Ctx& c) { modes[c.mode](c); });
}
