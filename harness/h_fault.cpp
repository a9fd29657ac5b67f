// Fault enumeration for C03: every allocation and every read of the stream made during a history fails once, and from there on.
// The harness executable replaces the process's allocator, and the builds' fopen and FFTW calls are wrapped by the linker.
#include "files.hpp"
#include <malloc.h>
#include <inttypes.h>
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void __libc_free(void*); void* __libc_memalign(size_t,size_t);
}
// ---- the allocator ----------------------------------------------------------------------------------
static volatile bool in_lib = false;          // only what the library does is counted
static uint64_t n_alloc, fail_alloc, fail_second; static bool persistent; // fail_alloc: number of the failing allocation, 0: none
static int n_failed; static void* fail_caller; static void* callers[16]; static int ncallers; static bool io_failed;
static const size_t TAB = 1<<16; static void* live[TAB]; static size_t nlive; // allocated by library calls and not released
static void live_add(void* p) { if(!p) return; size_t h = ((uintptr_t)p>>4)*0x9e3779b1u%TAB; while(live[h] && live[h] != (void*)1) h = (h+1)%TAB; live[h] = p; nlive++; }
static bool live_del(void* p) { size_t h = ((uintptr_t)p>>4)*0x9e3779b1u%TAB; for(size_t i = 0; i < TAB && live[h]; i++, h = (h+1)%TAB) if(live[h] == p) { live[h] = (void*)1; nlive--; return true; } return false; }
static bool failing(void* caller) { n_alloc++; bool f = fail_alloc && (persistent ? n_alloc >= fail_alloc : n_alloc == fail_alloc || n_alloc == fail_second); if(f) { if(!n_failed++) fail_caller = caller; int i = 0; while(i < ncallers && callers[i] != caller) i++; if(i == ncallers && i < 16) callers[ncallers++] = caller; errno = ENOMEM; } return f; }
#define CALLER __builtin_return_address(0)
extern "C" {
__attribute__((visibility("default"))) void* malloc(size_t n) { if(!in_lib) return __libc_malloc(n); if(failing(CALLER)) return NULL; void* p = __libc_malloc(n); if(p) memset(p,0xa5,n); live_add(p); return p; }
__attribute__((visibility("default"))) void* calloc(size_t a, size_t b) { if(!in_lib) return __libc_calloc(a,b); if(failing(CALLER)) return NULL; void* p = __libc_calloc(a,b); live_add(p); return p; }
__attribute__((visibility("default"))) void* realloc(void* q, size_t n) { if(!in_lib) { if(q) live_del(q); return __libc_realloc(q,n); } if(failing(CALLER)) return NULL; if(q) live_del(q); void* p = __libc_realloc(q,n); live_add(p); return p; }
__attribute__((visibility("default"))) void free(void* p) { if(!p) return; if(nlive) live_del(p); __libc_free(p); }
}
// ---- FFTW: its own allocations succeed, the library's requests to it fail --------------------------------
#define FFTW_WRAP(P,R) extern "C" __attribute__((visibility("default"))) R* __wrap_##P##_alloc_real(size_t n) { if(in_lib && failing(CALLER)) return NULL; bool o = in_lib; in_lib = false; static R*(*f)(size_t); if(!f) f = (R*(*)(size_t))dlsym(RTLD_DEFAULT,#P "_alloc_real"); R* p = f(n); in_lib = o; if(o) live_add(p); return p; } \
	extern "C" __attribute__((visibility("default"))) void __wrap_##P##_free(void* p) { if(p) live_del(p); static void(*f)(void*); if(!f) f = (void(*)(void*))dlsym(RTLD_DEFAULT,#P "_free"); bool o = in_lib; in_lib = false; f(p); in_lib = o; } \
	extern "C" __attribute__((visibility("default"))) void* __wrap_##P##_plan_r2r_2d(int a, int b, R* i, R* o, int k, int l, unsigned fl) { if(in_lib && failing(NULL)) return NULL; bool q = in_lib; in_lib = false; static void*(*f)(int,int,R*,R*,int,int,unsigned); if(!f) f = (decltype(f))dlsym(RTLD_DEFAULT,#P "_plan_r2r_2d"); void* p = f(a,b,i,o,k,l,fl); in_lib = q; return p; } \
	extern "C" __attribute__((visibility("default"))) void __wrap_##P##_execute(void* p) { bool q = in_lib; in_lib = false; static void(*f)(void*); if(!f) f = (void(*)(void*))dlsym(RTLD_DEFAULT,#P "_execute"); f(p); in_lib = q; } \
	extern "C" __attribute__((visibility("default"))) void __wrap_##P##_destroy_plan(void* p) { bool q = in_lib; in_lib = false; static void(*f)(void*); if(!f) f = (void(*)(void*))dlsym(RTLD_DEFAULT,#P "_destroy_plan"); f(p); in_lib = q; }
FFTW_WRAP(fftwf,float) FFTW_WRAP(fftw,double)
// ---- files: streams over memory --------------------------------------------------------------------------
static const string* file_bytes; static uint64_t n_read, fail_read; static int open_streams; static size_t portion; static bool seekable; static uint64_t n_open, fail_open;
struct Cookie { const string* s; size_t at; };
static ssize_t ck_read(void* c, char* b, size_t n) { Cookie* k = (Cookie*)c; n_read++; if(fail_read && (persistent ? n_read >= fail_read : n_read == fail_read)) { io_failed = true; errno = EIO; return -1; } n = std::min(std::min(n,portion),k->s->size()-std::min(k->at,k->s->size())); memcpy(b,k->s->data()+k->at,n); k->at += n; return n; }
static int ck_seek(void* c, off64_t* o, int wh) { Cookie* k = (Cookie*)c; if(!seekable) { errno = ESPIPE; return -1; } int64_t t = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (int64_t)k->at+*o : (int64_t)k->s->size()+*o; if(t < 0) { errno = EINVAL; return -1; } k->at = t; *o = t; return 0; }
static int ck_close(void* c) { open_streams--; bool o = in_lib; in_lib = false; delete (Cookie*)c; in_lib = o; return 0; }
extern "C" __attribute__((visibility("default"))) FILE* __wrap_fopen(const char* fn, const char* mode) {
	n_open++; if(fail_open == n_open) { errno = EMFILE; return NULL; } if(!file_bytes) { errno = ENOENT; return NULL; }
	bool o = in_lib; in_lib = false; Cookie* k = new Cookie{file_bytes,0}; in_lib = o; if(o && failing(NULL)) { in_lib = false; delete k; in_lib = o; errno = ENOMEM; return NULL; }
	cookie_io_functions_t io = {ck_read,NULL,ck_seek,ck_close}; in_lib = false; FILE* f = fopencookie(k,"rb",io); in_lib = o; if(f) { open_streams++; if(seekable) setvbuf(f,NULL,_IOFBF,512); } return f;
}
struct Lib { Lib() { in_lib = true; } ~Lib() { in_lib = false; } };
#define LIB(x) ({ in_lib = true; auto r_ = (x); in_lib = false; r_; })
#define LIBV(x) do { in_lib = true; x; in_lib = false; } while(0)

// ---- histories -----------------------------------------------------------------------------------------------
struct Out { string call; bool ok; RDError e; uint64_t hash; string detail; };
typedef vector<Out> Log;
static uint64_t hres(RDResolution* r, size_t n, uint64_t h) { vector<std::pair<float,size_t>> v; for(size_t i = 0; i < n; i++) v.push_back({-r[i].confidence,r[i].index}); std::sort(v.begin(),v.end()); for(auto& x : v) { h = hash_bytes(&x.first,4,h); h = hash_bytes(&x.second,sizeof x.second,h); } return mix(h,n); }
struct Plan { int kind; string fn; File f; vector<vector<float>> imgs; size_t w, h; int method; size_t range; int thr; int filter; vector<int> ops; bool askbuf; };
static const Api* A; static Ctx* C; static bool leaks_only;
static void bad(const char* key, const char* fmt, ...) { char b[600]; if(leaks_only && strncmp(key,"leak",4)) return; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); C->fail(key,"%s",b); }
static RDMethod* meth(int i) { return i < 0 ? NULL : A->resdet_methods()+i; }
static uint64_t H0 = 0xcbf29ce484222325ull;
// skip: image whose analysis is left out (what a refused image must amount to)
static Log run(const Plan& p, int skip = -1) {
	Log log; RDParameters* q = NULL; auto put = [&](const char* n, bool ok, RDError e, uint64_t h) { log.push_back({n,ok,e,h,""}); };
	if(p.thr >= 0 || p.range) { q = LIB(A->resdet_alloc_default_parameters()); put("alloc_parameters",q,q ? RDEOK : RDENOMEM,0); if(!q) return log; if(p.range) A->resdet_parameters_set_range(q,p.range); if(p.thr >= 0) A->resdet_parameters_set_threshold(q,p.thr/100.f); A->resdet_parameters_set_compression_filter(q,p.filter); }
	auto fin = [&]() { LIBV(free(q)); };
	if(p.kind == 0) { // sequential analysis
		RDError e = 99; RDAnalysis* an = LIB(A->resdet_create_analysis(meth(p.method),p.w,p.h,q,&e)); put("create",an,e,0); if(!an) { fin(); return log; } if(e) bad("error-on-success","create succeeded with error %d",e);
		auto results = [&](const char* n) { for(int t = 0; t < 2; t++) { RDResolution* rw = (RDResolution*)1,* rh = (RDResolution*)1; size_t cw = 7, ch = 7; e = LIB(A->resdet_analysis_results(an,&rw,&cw,&rh,&ch)); if(e) { if(rw || rh || cw || ch) bad("outputs","results failed with %d, left %p %zu %p %zu",e,(void*)rw,cw,(void*)rh,ch); put(n,false,e,0); if(e == RDENOIMG) return; } else { put(n,true,e,mix(hres(rw,cw,H0),hres(rh,ch,H0))); LIBV(free(rw)); LIBV(free(rh)); return; } } };
		for(size_t i = 0; i < p.imgs.size(); i++) { if((int)i == skip) continue; vector<float> im = p.imgs[i]; e = LIB(A->resdet_analyze_image(an,im.data())); put("analyze",!e,e,i); if(memcmp(im.data(),p.imgs[i].data(),im.size()*4)) bad("pixels-changed","by a failing analysis"); if(p.ops[i]) results("interim"); }
		uint64_t fa = fail_alloc, fs = fail_second; bool pers = persistent; if(p.ops.back() == 2) { fail_alloc = fail_second = 0; } results("results"); fail_alloc = fa; fail_second = fs; persistent = pers;
		LIBV(A->resdet_destroy_analysis(an)); fin(); return log;
	}
	if(p.kind == 1) { // one-shot on memory
		vector<float> all; for(auto& i : p.imgs) all.insert(all.end(),i.begin(),i.end()); RDResolution* rw = (RDResolution*)1,* rh = (RDResolution*)1; size_t cw = 7, ch = 7; RDError e = LIB(A->resdetect(all.data(),p.imgs.size(),p.w,p.h,&rw,&cw,&rh,&ch,meth(p.method),q));
		if(e && (rw || rh || cw || ch)) bad("outputs","resdetect failed with %d, left %p %zu %p %zu",e,(void*)rw,cw,(void*)rh,ch); put("resdetect",!e,e,e ? 0 : mix(hres(rw,cw,H0),hres(rh,ch,H0))); if(!e) { LIBV(free(rw)); LIBV(free(rh)); } fin(); return log;
	}
	if(p.kind == 2) { // one-shot on a file
		RDResolution* rw = (RDResolution*)1,* rh = (RDResolution*)1; size_t cw = 7, ch = 7; RDError e = LIB(A->resdetect_file(p.fn.c_str(),NULL,&rw,&cw,&rh,&ch,meth(p.method),q));
		if(e && (rw || rh || cw || ch)) bad("outputs","resdetect_file failed with %d, left %p %zu %p %zu",e,(void*)rw,cw,(void*)rh,ch); put("resdetect_file",!e,e,e ? 0 : mix(hres(rw,cw,H0),hres(rh,ch,H0))); if(!e) { LIBV(free(rw)); LIBV(free(rh)); } fin(); return log;
	}
	if(p.kind == 3) { // bulk read
		float* b = (float*)1; size_t n = 7, w = 7, h = 7; RDError e = LIB(A->resdet_read_image(p.fn.c_str(),NULL,&b,&n,&w,&h)); if(e && b) bad("outputs","bulk read failed with %d, left %p",e,(void*)b); put("read_image",!e,e,e ? 0 : mix(hash_bytes(b,n*w*h*4),n)); if(!e) LIBV(free(b)); fin(); return log;
	}
	// frame by frame
	size_t w = 7, h = 7; float* b = (float*)1; RDError e = 99; RDImage* im = LIB(A->resdet_open_image(p.fn.c_str(),NULL,&w,&h,p.askbuf ? &b : NULL,&e)); put("open",im,e,mix(w,h));
	if(!im) { if(w || h || (p.askbuf && b)) bad("outputs","open failed with %d, left %zux%zu %p",e,w,h,(void*)b); fin(); return log; }
	vector<float> own; float* t = b; if(!p.askbuf) { own.resize(w*h); t = own.data(); }
	for(int op : p.ops) {
		e = 99; bool ok; if(op < 0) { ok = LIB(A->resdet_read_image_frame(im,t,&e)); put("read",ok,e,ok ? hash_bytes(t,w*h*4) : 0); } else { ok = LIB(A->resdet_seek_frame(im,op,NULL,NULL,&e)); put("seek",ok,e,op); }
		if(ok && e) bad("error-on-success","call succeeded with error %d",e);
		if(!ok && e) break;
	}
	LIBV(A->resdet_close_image(im)); if(p.askbuf) LIBV(free(b)); fin(); return log;
}
static string where(void* caller) { Dl_info di; if(!caller || !dladdr(caller,&di) || !di.dli_fname) return "?"; char cmd[1200],out[300] = ""; snprintf(cmd,sizeof cmd,"addr2line -f -e '%s' 0x%lx 2>/dev/null",di.dli_fname,(unsigned long)((char*)caller-(char*)di.dli_fbase-1)); if(FILE* f = popen(cmd,"r")) { if(!fgets(out,sizeof out,f)) *out = 0; pclose(f); } out[strcspn(out,"\n")] = 0; return out; }
// what wrong results after several failures are attributed to: the failure which cannot be reported, if it is among them
static string blame() { string r = "?"; for(int i = 0; i < ncallers; i++) { string w = where(callers[i]); if(!i || w == "kf_bfly_generic") r = w; } return r; }
static bool own_caller(void* caller) { Dl_info di,dl; if(!caller) return false; return dladdr(caller,&di) && dladdr((void*)A->resdetect,&dl) && di.dli_fbase == dl.dli_fbase; }

static void check(const Plan& p, const Log& base, const char* what) {
	C->add("faults"); Log l = run(p); uint64_t fa = fail_alloc, fr = fail_read; void* caller = fail_caller; bool injected = n_failed || io_failed || fail_open; bool own = own_caller(caller); bool onlyalloc = n_failed && !io_failed;
	fail_alloc = fail_second = fail_read = fail_open = 0; persistent = false;
	if(injected) C->add("faults_hit"); else C->add("faults_not_reached");
	if(nlive) bad("leak","%s: %zu blocks were not released (allocation in %s failed)",what,nlive,where(caller).c_str());
	if(open_streams) bad("leak-stream","%s: %d streams were not closed",what,open_streams);
	memset(live,0,sizeof live); nlive = 0; open_streams = 0;
	bool failed = false, oneskip = false; int skip = -1; size_t bi = 0;
	for(size_t i = 0; i < l.size(); i++) {
		if(l[i].ok) {
			if(!failed) { if(i >= base.size() || base[i].call != l[i].call || base[i].ok != l[i].ok || base[i].hash != l[i].hash) { string key = "silently-wrong:"+(io_failed ? string("read") : blame()); bad(key.c_str(),"%s: call %zu (%s) succeeded with another result (failed in %s)",what,i,l[i].call.c_str(),where(caller).c_str()); return; } C->add("successes_compared"); }
			continue;
		}
		if(l[i].e == RDEOK) { // a clean end, or absence of images
			if(!failed && (i >= base.size() || base[i].ok || base[i].e)) { string key = "silent-end:"+(io_failed ? string("read") : blame()); bad(key.c_str(),"%s: call %zu (%s) reported a clean end, error 0",what,i,l[i].call.c_str()); return; }
			continue;
		}
		if(!failed && i < base.size() && base[i].call == l[i].call && !base[i].ok && base[i].e == l[i].e) continue; // fails without the fault, too
		bool first = !failed; if(first) C->add("errors_reported"); failed = true;
		if(first && onlyalloc && own && fa && l[i].e != RDENOMEM && l[i].e != RDENOIMG) { string key = "error-kind:"+where(caller); bad(key.c_str(),"%s: call %zu (%s) failed with %d after an allocation failed in %s",what,i,l[i].call.c_str(),l[i].e,where(caller).c_str()); return; }
		if(l[i].call == "analyze") { if(skip >= 0 && skip != (int)l[i].hash) oneskip = true; skip = (int)l[i].hash; }
	}
	if(injected && !failed && l.size() < base.size()) bad("silent-stop","%s: the history ended early without an error",what);
	// the images before and after a refused one still count
	if(p.kind == 0 && skip >= 0 && !oneskip) {
		int nc = ncallers; void* cs[16]; memcpy(cs,callers,sizeof cs); Log e = run(p,skip); ncallers = nc; memcpy(callers,cs,sizeof cs); memset(live,0,sizeof live); nlive = 0; const Out* fin = e.size() && e.back().ok ? &e.back() : NULL,* got = l.size() && l.back().ok ? &l.back() : NULL;
		if(fin && got && fin->call == "results" && got->call == "results") { C->add("refused_images"); if(fin->hash != got->hash) { string key = "refused-image:"+blame(); bad(key.c_str(),"%s: results after image %d was refused are not those of the others",what,skip); } }
	}
}
static void reset() { n_alloc = n_read = n_open = 0; fail_alloc = fail_second = fail_read = fail_open = 0; persistent = false; n_failed = 0; io_failed = false; fail_caller = NULL; ncallers = 0; memset(live,0,sizeof live); nlive = 0; open_streams = 0; }

static void c03(Ctx& c) {
	Rng r = c.rng(leaks_only ? 7 : 0); A = &c.apis[c.cur%c.apis.size()]; C = &c; Plan p; p.kind = r.below(6); if(p.kind > 4) p.kind = r.chance(1,2) ? 0 : 4; p.method = r.in(-1,3); p.range = r.chance(1,2) ? r.in(1,6) : 0; p.thr = r.chance(1,2) ? r.below(60) : -1; p.filter = r.chance(1,5) ? r.below(3) : 0; p.askbuf = r.chance(2,3); p.w = r.in(1,40); p.h = r.chance(1,4) ? p.w : r.in(1,40); file_bytes = NULL;
	seekable = r.chance(1,2); switch(r.below(4)) { case 0: portion = SIZE_MAX; break; case 1: portion = r.in(20,200); break; case 2: portion = r.in(1,7); break; default: portion = 512; }
	string desc;
	if(p.kind < 2) { int n = r.in(1,4); if(r.chance(1,12)) { p.w = r.in(100,200); p.h = r.in(3,30); p.thr = 0; } for(int i = 0; i < n; i++) { vector<float> v(p.w*p.h); for(auto& x : v) x = r.unit(); if(p.kind == 0 && r.chance(1,10)) v[r.below(v.size())] = NAN; p.imgs.push_back(v); p.ops.push_back(r.chance(1,3)); } if(r.chance(1,2)) p.ops.back() = 2; num(desc,"%s of %d images of %zux%zu",p.kind ? "one-shot detection" : "analysis",n,p.w,p.h); }
	else {
		bool png = c.opt["readers"].find("png") != string::npos; int k = r.below(png ? 5 : 3); size_t w = r.in(1,30), h = r.in(1,20); if(k == 3 && r.chance(1,2)) { w = r.in(1,60); }
		switch(k) { case 0: p.f = gen_pgm(r,w,h); break; case 1: p.f = gen_pfm(r,w,h,r.in(1,4)); break; case 2: p.f = gen_y4m(r,w,h,r.in(1,4)); break; case 3: p.f = gen_png(r,w,h); break; default: p.f = gen_jpeg(r,w,h); }
		if(r.chance(1,10) && k < 3) p.f.bytes.resize(r.below(p.f.bytes.size()+1));
		p.fn = "m."+p.f.ext; file_bytes = &p.f.bytes; for(int i = r.in(1,6); i > 0; i--) p.ops.push_back(r.chance(3,4) ? -1 : (int)r.in(0,2)); num(desc,"%s of %s, %s",p.kind == 2 ? "detection" : p.kind == 3 ? "bulk read" : "reading",p.f.desc.c_str(),seekable ? "seekable" : "not seekable");
	}
	num(desc,", method %d, range %zu, threshold %d",p.method,p.range,p.thr);
	c.what("[%s] %s",A->name.c_str(),desc.c_str());
	reset(); run(p); // what is allocated once for the process
	reset(); Log base = run(p); uint64_t na = n_alloc, nr = n_read, no = n_open;
	if(nlive) bad("leak-without-fault","%zu blocks",nlive);
	{ reset(); Log again = run(p); if(again.size() != base.size()) bad("not-deterministic","history lengths"); else for(size_t i = 0; i < base.size(); i++) if(base[i].hash != again[i].hash || base[i].e != again[i].e) bad("not-deterministic","call %zu",i); if(n_alloc != na || n_read != nr) c.add("varying_counts"); }
	uint64_t cap = c.thorough() ? 400 : 60; char what[200];
	auto points = [&](uint64_t n) { vector<uint64_t> v; if(n <= cap) for(uint64_t i = 1; i <= n; i++) v.push_back(i); else { for(uint64_t i = 1; i <= cap/2; i++) v.push_back(i); for(uint64_t i = 0; i < cap/2; i++) v.push_back(r.in(cap/2+1,n)); } return v; };
	for(uint64_t k : points(na)) for(int pers = 0; pers < 3; pers++) { reset(); fail_alloc = k; persistent = pers == 1; if(pers == 2) fail_second = k+r.in(1,6); snprintf(what,sizeof what,"allocation %" PRIu64 " of %" PRIu64 "%s",k,na,pers == 1 ? " and all later ones" : ""); if(pers == 2) snprintf(what,sizeof what,"allocations %" PRIu64 " and %" PRIu64 " of %" PRIu64,k,fail_second,na); c.what("[%s] %s; %s",A->name.c_str(),desc.c_str(),what); check(p,base,what); c.add("allocation_faults"); }
	for(uint64_t k : points(nr)) for(int pers = 0; pers < 2; pers++) { reset(); fail_read = k; persistent = pers; snprintf(what,sizeof what,"read %" PRIu64 " of %" PRIu64 "%s",k,nr,pers ? " and all later ones" : ""); c.what("[%s] %s; %s",A->name.c_str(),desc.c_str(),what); check(p,base,what); c.add("read_faults"); }
	for(uint64_t k = 1; k <= no; k++) { reset(); fail_open = k; snprintf(what,sizeof what,"fopen %" PRIu64,k); c.what("[%s] %s; %s",A->name.c_str(),desc.c_str(),what); check(p,base,what); c.add("open_faults"); }
	reset(); c.nontrivial(mix(hash_bytes(desc.data(),desc.size()),mix(na,nr)));
	c.sample("%s: %" PRIu64 " allocations and %" PRIu64 " reads failed one by one and from there on",desc.c_str(),na,nr);
}
int main(int argc, char** argv) {
	return drive(argc,argv,[](Ctx& c) { if(c.apis.empty()) _exit(3); dlopen("libfftw3f.so.3",RTLD_NOW|RTLD_GLOBAL); dlopen("libfftw3.so.3",RTLD_NOW|RTLD_GLOBAL); },[](Ctx& c) { leaks_only = c.mode == "c04"; c03(c); });
}
