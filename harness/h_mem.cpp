// C27: what is allocated between calls and at most during them, as seen by the sanitizer's allocation hooks.
#include "avgen.hpp"
#include <sys/wait.h>
#include <atomic>
#include <sanitizer/allocator_interface.h>
static std::atomic<long> g_live(0), g_peak(0); static std::atomic<uint64_t> g_events(0);
static void on_malloc(const volatile void* p, size_t n) { long l = g_live += (long)n; long k = g_peak; while(l > k && !g_peak.compare_exchange_weak(k,l)); g_events++; }
static void on_free(const volatile void* p) { if(p) { g_live -= (long)__sanitizer_get_allocated_size(p); g_events++; } }
static long live() { return g_live; }
static void mark() { g_peak = g_live.load(); }

static bool has(Ctx& c, const char* r) { return c.opt["readers"].find(r) != string::npos; }
static uint64_t g_prog; static void progress(void*, uint64_t n) { g_prog += n; }
static const char* METHODS[] = {"sign","mag","orig","zerox"};

struct Seq { File f; string fn; bool av = false; };
static bool sequence(Ctx& c, Rng& r, size_t n, Seq& q) {
	if(has(c,"ffmpeg") && c.cur%2) { AvFile f = gen_av(r,"m",c.cur/2%NAVKINDS,n); if(!f.ok) { c.add("encodings_failed"); return false; } q.f = f; q.fn = "m."+f.ext; q.av = true; return true; }
	size_t w = r.in(24,72), h = r.in(24,72); n += r.below(n/2); q.f = r.chance(1,2) ? gen_pfm(r,w,h,n) : gen_y4m(r,w,h,n); q.fn = "m."+q.f.ext; save(q.fn,q.f.bytes); return true;
}
// what stays allocated must not grow from the early to the late part of a history
static void steady(Ctx& c, const string& key, const vector<long>& v, long tol, const char* what) {
	size_t n = v.size(); if(n < 12) return;
	long early = *std::max_element(v.begin()+n/4,v.begin()+n/2), late = *std::min_element(v.begin()+n*3/4,v.end());
	c.add("histories_measured"); c.add("calls_measured",n);
	if(late-early > tol) c.fail(key,"%s: %ld bytes more are allocated in the last quarter of %zu calls than in the second (%ld, %ld)",what,late-early,n,early,late);
}
static void reading(Ctx& c, Rng& r) {
	const Api& a = c.apis[c.cur%c.apis.size()]; Seq q; if(!sequence(c,r,r.in(40,80),q)) return; const File& f = q.f; c.what("[%s] reading %s",a.name.c_str(),f.desc.c_str());
	size_t w, h; float* b = NULL; RDError e; bool ask = r.chance(1,2), pipe = !q.av && r.chance(1,4); int kind = r.below(4); // 0: read, 1: seek, else both
	int in = -1, fds[2]; pid_t pid = 0;
	if(pipe) { if(::pipe(fds)) return; fflush(NULL); pid = fork(); if(!pid) { signal(SIGPIPE,SIG_DFL); ::close(fds[0]); size_t at = 0; while(at < f.bytes.size()) { ssize_t k = write(fds[1],f.bytes.data()+at,f.bytes.size()-at); if(k <= 0) break; at += k; } _exit(0); } ::close(fds[1]); in = dup(0); dup2(fds[0],0); ::close(fds[0]); clearerr(stdin); }
	mark(); long before = live();
	RDImage* im = a.resdet_open_image(pipe ? "-" : q.fn.c_str(),f.ext.c_str(),&w,&h,ask ? &b : NULL,&e);
	if(!im) c.fail("refused","%s: error %d",f.desc.c_str(),e);
	else {
		vector<float> own; if(!ask) own.resize(w*h); float* buf = ask ? b : own.data(); vector<long> v; v.reserve(2000); size_t frames = 0; long spike = 0, base = live();
		for(;;) {
			long l = live(); mark(); bool ok; size_t k = 1;
			if(kind == 0 || (kind > 1 && r.chance(1,2))) ok = a.resdet_read_image_frame(im,buf,&e); else { k = kind > 1 ? r.in(0,2) : 1; ok = a.resdet_seek_frame(im,k,r.chance(1,2) ? progress : NULL,NULL,&e); }
			if(frames > 2) spike = std::max(spike,g_peak-l);
			if(!ok) break; frames += k; v.push_back(live());
		}
		if(e) c.fail("read-error","%s: error %d after %zu frames",f.desc.c_str(),e,frames); else if(frames+1 < f.frames.size()) c.fail("frames","%zu frames of %zu",frames,f.frames.size());
		steady(c,"grows-per-frame",v,q.av ? 24000+200*(long)frames : 0,f.desc.c_str()); c.add("frames_measured",frames);
		if(!q.av && spike > (long)(w*h*16+16384)) c.fail("spike","%s: %ld bytes allocated meanwhile by one call",f.desc.c_str(),spike);
		if(!q.av && base-before > (long)(w*h*12+32768)) c.fail("open-size","%s: %ld bytes held by the open image",f.desc.c_str(),base-before);
		v.clear(); for(int i = 0; i < 60; i++) { if(r.chance(1,2)) a.resdet_read_image_frame(im,buf,&e); else a.resdet_seek_frame(im,r.chance(1,2) ? 0 : r.in(1,5),NULL,NULL,&e); v.push_back(live()); } steady(c,"grows-at-end",v,q.av ? 4000 : 0,(f.desc+" after its end").c_str()); c.add("calls_after_end",60);
		a.resdet_close_image(im); free(b);
	}
	if(pipe) { dup2(in,0); ::close(in); clearerr(stdin); int st; while(waitpid(pid,&st,0) < 0 && errno == EINTR); c.add("pipes"); }
	c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size(),kind)); unlink(q.fn.c_str()); c.sample("%s: steady over all calls",f.desc.c_str());
}
static RDError feed(const Api& a, RDAnalysis* an, vector<float>& im) { return a.resdet_analyze_image(an,im.data()); }
static void analysing(Ctx& c, Rng& r) {
	const Api& a = c.apis[c.cur%c.apis.size()]; size_t w = r.in(1,160), h = r.in(1,160); bool lng = r.chance(1,5); if(lng) { w = r.in(600,2500); h = r.in(1,4); if(r.chance(1,2)) std::swap(w,h); }
	int m = r.below(4); RDMethod* me = a.resdet_get_method(METHODS[m]); RDParameters* p = NULL; if(r.chance(1,2)) { p = a.resdet_alloc_default_parameters(); a.resdet_parameters_set_range(p,r.in(1,24)); a.resdet_parameters_set_threshold(p,r.unit()*.5); if(r.chance(1,3)) a.resdet_parameters_set_compression_filter(p,r.in(0,6)); }
	c.what("[%s] analysing %zux%zu %s",a.name.c_str(),w,h,METHODS[m]);
	vector<float> im(w*h), bad; for(auto& x : im) x = r.unit(); bad = im; bad[r.below(w*h)] = NAN; RDError e; size_t n = lng ? 13 : w*h > 8000 ? 20 : r.in(24,120);
	{ RDAnalysis* x = a.resdet_create_analysis(me,w,h,p,&e); if(!x) { free(p); return c.fail("create","error %d",e); } feed(a,x,im); a.resdet_destroy_analysis(x); } // FFTW remembers how it planned
	mark(); long before = live(), bound = (long)(w*h*(16*2)+(w+h)*1024+65536);
	RDAnalysis* an = a.resdet_create_analysis(me,w,h,p,&e); if(!an) { free(p); return c.fail("create","error %d",e); }
	vector<long> v; v.reserve(n*2); size_t ok = 0;
	for(size_t i = 0; i < n; i++) {
		int k = r.below(6); if(!i) k = 5;
		if(k == 0) { if(feed(a,an,bad) == 0) c.fail("nan-accepted","accepted"); c.add("refused"); }
		else if(k == 1) { RDResolution* x = NULL,* y = NULL; size_t cx, cy; bool bx = r.chance(3,4), by = r.chance(3,4); e = a.resdet_analysis_results(an,bx ? &x : NULL,bx ? &cx : NULL,by ? &y : NULL,by ? &cy : NULL); if(e) c.fail("results","error %d",e); else if((x && cx > w) || (y && cy > h)) c.fail("results-size","%zu, %zu results",cx,cy); else { size_t have = (x ? __sanitizer_get_allocated_size(x) : 0)+(y ? __sanitizer_get_allocated_size(y) : 0); if(have > 24*(w+h+2)) c.fail("results-bytes","%zu bytes of results",have); } free(x); free(y); c.add("interim_queries"); }
		else { if((e = feed(a,an,im))) c.fail("analyze","error %d",e); ok++; }
		v.push_back(live());
	}
	if(g_peak-before > bound) c.fail("analysis-size","at most %ld bytes were allocated, for %zux%zu (bound %ld)",g_peak-before,w,h,bound);
	c.maxima["permille"] = std::max<uint64_t>(c.maxima["permille"],(g_peak-before)*1000/bound);
	steady(c,"grows-per-image",v,0,"analysis"); a.resdet_destroy_analysis(an); long rest = live()-before-(long)(v.capacity()*8); (void)rest;
	// in one call: independent of the number of images
	size_t k = r.in(20,40); if(lng || w*h > 8000) k = 7; vector<float> seq; for(size_t i = 0; i < k; i++) seq.insert(seq.end(),im.begin(),im.end());
	long pk[2]; for(int s = 0; s < 2; s++) { RDResolution* x,* y; size_t cx, cy; mark(); long l = live(); e = a.resdetect(seq.data(),s ? k : 2,w,h,&x,&cx,&y,&cy,me,p); if(e) c.fail("resdetect","error %d",e); pk[s] = g_peak-l; free(x); free(y); }
	if(pk[1]-pk[0] > 4096) c.fail("resdetect-grows","%ld bytes for 2 images, %ld for %zu",pk[0],pk[1],k); c.add("one_shot_compared");
	free(p); c.add("images_analysed",ok); c.nontrivial(hash_bytes(im.data(),im.size()*4,m)); c.sample("analysis of %zux%zu: steady over %zu calls",w,h,n);
}
static void files(Ctx& c, Rng& r) {
	const Api& a = c.apis[c.cur%c.apis.size()]; Seq q; if(!sequence(c,r,r.in(40,60),q)) return; const File& f = q.f; c.what("[%s] detecting in %s",a.name.c_str(),f.desc.c_str());
	size_t n = f.frames.size(), w = f.w, h = f.h; long fs = w*h*4; RDMethod* me = a.resdet_get_method(METHODS[r.below(4)]); RDResolution* x,* y; size_t cx, cy; RDError e;
	// as many frames as there are, and (for files which can be cut) the first three
	long pk[2] = {0,0}; e = a.resdetect_file(q.fn.c_str(),NULL,&x,&cx,&y,&cy,me,NULL); free(x); free(y); if(e) return c.fail("detect","%s: error %d",f.desc.c_str(),e);
	for(int s = q.av ? 1 : 0; s < 2; s++) { if(!q.av) save(q.fn,s ? f.bytes : f.bytes.substr(0,f.end[2])); mark(); long l = live(); e = a.resdetect_file(q.fn.c_str(),NULL,&x,&cx,&y,&cy,me,NULL); pk[s] = g_peak-l; free(x); free(y); if(e) c.fail("detect","%s: error %d",f.desc.c_str(),e); }
	if(!q.av && pk[1]-pk[0] > 4096) c.fail("detect-grows","%s: %ld bytes for 3 frames, %ld for %zu",f.desc.c_str(),pk[0],pk[1],n);
	c.add("detections_compared"); c.add("frames_measured",n);
	// all frames at once: hardly more than the frames
	if(r.chance(1,2)) { float* b; size_t bn, bw, bh; mark(); long l = live(); e = a.resdet_read_image(q.fn.c_str(),NULL,&b,&bn,&bw,&bh); long p = g_peak-l; if(e || bn != n) c.fail("bulk","error %d, %zu frames",e,bn); else { size_t got = __sanitizer_get_allocated_size(b); if(got > (2*n+4)*fs+64) c.fail("bulk-size","%s: %zu bytes for %zu frames",f.desc.c_str(),got,n); if(!q.av && p > 4*(long)(n+2)*fs+(long)(w*h*16)+32768) c.fail("bulk-peak","%s: up to %ld bytes for %zu frames",f.desc.c_str(),p,n); } free(b); c.add("bulk_reads"); }
	c.nontrivial(hash_bytes(f.bytes.data(),f.bytes.size(),7)); unlink(q.fn.c_str());
}
static void lookups(Ctx& c, Rng& r) {
	const Api& a = c.apis[c.cur%c.apis.size()]; c.what("[%s] lookups and refusals",a.name.c_str()); File f = gen_pgm(r,9,9); save("l.pgm",f.bytes); save("l.txt","nothing to see"); vector<long> v; v.reserve(400); int first = r.below(7);
	for(int i = 0; i < 240; i++) { // any mixture, also failing ones
		size_t w, h; float* b = NULL; RDError e; RDResolution* x,* y; size_t cx, cy; int k = r.chance(2,3) ? first : r.below(7);
		switch(k) { case 0: a.resdet_get_method(r.chance(1,2) ? METHODS[r.below(4)] : "none"); a.resdet_methods(); break; case 1: a.resdet_list_image_readers(); a.resdet_error_str(r.in(-3,12)); a.resdet_libversion(); break;
		case 2: if(RDImage* im = a.resdet_open_image("l.txt","pgm",&w,&h,&b,&e)) a.resdet_close_image(im); break; case 3: if(RDImage* im = a.resdet_open_image_with_reader("l.pgm",r.chance(1,2) ? "PGM" : "nosuch",&w,&h,&b,&e)) { a.resdet_close_image(im); } free(b); break;
		case 4: if(RDAnalysis* an = a.resdet_create_analysis(NULL,r.chance(1,2) ? 0 : SIZE_MAX/2,9,NULL,&e)) a.resdet_destroy_analysis(an); break; case 5: e = a.resdetect_file(r.chance(1,2) ? "l.txt" : "missing.pgm","pgm",&x,&cx,&y,&cy,NULL,NULL); break;
		default: { RDParameters* p = a.resdet_alloc_default_parameters(); if(a.resdet_parameters_set_threshold(p,9) == 0) c.fail("threshold","9 accepted"); free(p); } }
		v.push_back(live());
	}
	steady(c,"grows-per-call",v,0,"lookups and refusals"); c.add("lookups",240); unlink("l.pgm"); unlink("l.txt");
}
static void c27(Ctx& c) { Rng r = c.rng(); static bool on = false; if(!on) { for(const char* k : {"refused","interim_queries","frames_measured","histories_measured","calls_measured","calls_after_end","lookups","one_shot_compared"}) c.add(k,0); __sanitizer_install_malloc_and_free_hooks(on_malloc,on_free); on = true; } uint64_t ev = g_events; switch(r.below(10)) { case 0: lookups(c,r); break; case 1: case 2: files(c,r); break; case 3: case 4: case 5: analysing(c,r); break; default: reading(c,r); } c.add("allocation_events",g_events-ev); }
int main(int argc, char** argv) { return drive(argc,argv,[](Ctx& c) { if(c.apis.empty()) _exit(3); if(!c.opt.count("readers")) c.opt["readers"] = "native"; },[](Ctx& c) { c27(c); if(getenv("MEMDBG")) fprintf(stderr,"%d permille\n",(int)c.maxima["permille"]); }); }
