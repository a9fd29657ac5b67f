// Shared by all harnesses: random numbers, loading a build of libresdet, reporting, the case loop.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <climits>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <dlfcn.h>
#include <locale.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>
#include <valgrind/memcheck.h>
extern "C" {
#include "resdet_api.h"
}

using std::vector; using std::string;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed): s(seed) { next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27))*0x94d049bb133111ebull; return z ^ (z>>31); }
	uint64_t below(uint64_t n) { return n ? next()%n : 0; }
	int64_t in(int64_t a, int64_t b) { return a + (int64_t)below(b-a+1); } // inclusive
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	double unit() { return (next()>>11) * (1.0/9007199254740992.0); }
	double gauss() { double u = unit()+1e-300, v = unit(); return sqrt(-2*log(u))*cos(6.283185307179586*v); }
	template<class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a*0x9e3779b97f4a7c15ull ^ (b+0x7f4a7c15)); return r.next(); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) { const unsigned char* c = (const unsigned char*)p; for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; } return h; }

// ---- a build of the library -------------------------------------------------------------------
struct Api {
	string name;
	void* handle;
#define RD_FUNCS(X) X(resdet_libversion) X(resdet_error_str) X(resdet_get_max_error) X(resdet_methods) X(resdet_get_method) X(resdet_default_range) \
	X(resdet_alloc_default_parameters) X(resdet_parameters_set_range) X(resdet_parameters_set_threshold) X(resdet_parameters_set_compression_filter) \
	X(resdet_open_image) X(resdet_open_image_with_reader) X(resdet_read_image_frame) X(resdet_seek_frame) X(resdet_close_image) X(resdet_read_image) \
	X(resdet_list_image_readers) X(resdet_create_analysis) X(resdet_analyze_image) X(resdet_analysis_results) X(resdet_destroy_analysis) X(resdetect) X(resdetect_file)
#define X(f) decltype(&::f) f;
	RD_FUNCS(X)
#undef X
	double eps, ieps;   // relative precision of the coefficients and of the methods' arithmetic
	bool fftw;
	size_t pixel_max, default_range;
};
// spec: name=path;key=value;...   (keys: eps, fftw, pixmax, range)
inline Api load_api(const string& spec) {
	Api a; a.eps = 1.2e-7; a.ieps = 2.3e-16; a.fftw = false; a.pixel_max = SIZE_MAX; a.default_range = 12;
	size_t eq = spec.find('='), sc = spec.find(';');
	a.name = spec.substr(0,eq);
	string path = spec.substr(eq+1,sc == string::npos ? sc : sc-eq-1);
	while(sc != string::npos) {
		size_t nx = spec.find(';',sc+1); string kv = spec.substr(sc+1,nx == string::npos ? nx : nx-sc-1);
		size_t e = kv.find('='); string k = kv.substr(0,e), v = kv.substr(e+1);
		if(k == "eps") a.eps = strtod(v.c_str(),NULL);
		if(k == "ieps") a.ieps = strtod(v.c_str(),NULL);
		if(k == "fftw") a.fftw = v == "1";
		if(k == "pixmax") a.pixel_max = strtoull(v.c_str(),NULL,10);
		if(k == "range") a.default_range = strtoull(v.c_str(),NULL,10);
		sc = nx;
	}
	a.handle = dlopen(path.c_str(),RTLD_NOW|RTLD_LOCAL);
	if(!a.handle) { fprintf(stderr,"HARNESS dlopen: %s\n",dlerror()); _exit(3); }
#define X(f) a.f = (decltype(a.f))dlsym(a.handle,#f); if(!a.f) { fprintf(stderr,"HARNESS missing symbol %s\n",#f); _exit(3); }
	RD_FUNCS(X)
#undef X
	return a;
}

// calls in another locale than the harness's, or observed
static void(*g_around)(int fn, bool after);
static locale_t g_loc;
enum {
#define X(f) LOC_##f,
	RD_FUNCS(X)
#undef X
};
template<int ID, class F> struct InLocale;
template<int ID, class R, class... A> struct InLocale<ID,R(*)(A...)> {
	static inline R(*real)(A...);
	static R call(A... a) { struct S { locale_t o; S() { if(g_around) g_around(ID,false); o = g_loc ? uselocale(g_loc) : (locale_t)0; } ~S() { if(o) uselocale(o); if(g_around) g_around(ID,true); } } s; return real(a...); }
};
inline void api_in_locale(Api& a) {
#define X(f) { typedef InLocale<LOC_##f,decltype(&::f)> W; W::real = a.f; a.f = W::call; }
	RD_FUNCS(X)
#undef X
}

// ---- reporting ----------------------------------------------------------------------------------
struct Progress { volatile uint64_t idx; volatile uint64_t active; char what[4000]; };
struct Ctx {
	string prop, mode, tier, workdir; uint64_t seed = 1; uint64_t first = 0, count = 0, step = 1; bool replay = false;
	vector<Api> apis;
	std::map<string,string> opt;
	FILE* out = stdout;
	Progress* prog = NULL; Progress local;
	std::map<string,uint64_t> counters; std::map<string,uint64_t> maxima;
	vector<uint64_t> distinct; vector<string> samples;
	uint64_t cur = 0, evals = 0; std::map<string,int> nviol; // reports per key: one kind must not hide another
	void what(const char* fmt, ...) __attribute__((format(printf,2,3))) { va_list ap; va_start(ap,fmt); vsnprintf(prog->what,sizeof(prog->what),fmt,ap); va_end(ap); }
	string keyprefix;
	void fail(const string& key_, const char* fmt, ...) __attribute__((format(printf,3,4))) {
		string key = keyprefix+key_;
		char b[3000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof(b),fmt,ap); va_end(ap);
		for(char* c = b; *c; c++) if(*c == '\n' || *c == '\t') *c = ' ';
		string w = prog->what; for(char& c : w) if(c == '\n' || c == '\t') c = ' ';
		if(++nviol[key] <= 6 && nviol.size() <= 60) { fprintf(out,"V\t%s\t%llu\t%s [case: %s]\n",key.c_str(),(unsigned long long)cur,b,w.c_str()); fflush(out); }
	}
	void add(const char* c, uint64_t n = 1) { counters[c] += n; }
	void nontrivial(uint64_t h) { distinct.push_back(h); }
	void sample(const char* fmt, ...) __attribute__((format(printf,2,3))) {
		if(samples.size() >= 4) return; char b[900]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof(b),fmt,ap); va_end(ap); for(char* c = b; *c; c++) if(*c == '\n' || *c == '\t') *c = ' '; samples.push_back(b);
	}
	Rng rng(uint64_t salt = 0) { return Rng(mix(mix(mix(seed,hash_bytes(prop.data(),prop.size())),apis.empty() ? 0 : hash_bytes(apis[0].name.data(),apis[0].name.size())),mix(cur,salt+1))); }
	bool thorough() const { return tier == "thorough"; }
};

// under memcheck: what the library hands out must have been computed from initialised values
inline void defined(Ctx& c, const void* p, size_t n, const char* what) { if(RUNNING_ON_VALGRIND) { c.add("buffers_checked_defined"); uintptr_t a = VALGRIND_CHECK_MEM_IS_DEFINED(p,n); if(a) c.fail("uninitialised","%s: byte %zu of %zu depends on uninitialised memory",what,(size_t)(a-(uintptr_t)p),n); } }

inline int drive(int argc, char** argv, const std::function<void(Ctx&)>& init, const std::function<void(Ctx&)>& one) {
	Ctx c; string outp, progp, distp; c.prog = &c.local; memset(&c.local,0,sizeof(c.local));
	for(int i = 1; i < argc; i++) {
		string a = argv[i]; size_t e = a.find('='); string k = a.substr(0,e), v = e == string::npos ? "" : a.substr(e+1);
		if(k == "prop") c.prop = v; else if(k == "mode") c.mode = v; else if(k == "tier") c.tier = v; else if(k == "seed") c.seed = strtoull(v.c_str(),NULL,10);
		else if(k == "first") c.first = strtoull(v.c_str(),NULL,10); else if(k == "count") c.count = strtoull(v.c_str(),NULL,10); else if(k == "step") c.step = strtoull(v.c_str(),NULL,10);
		else if(k == "lib") c.apis.push_back(load_api(v)); else if(k == "out") outp = v; else if(k == "progress") progp = v; else if(k == "distinct") distp = v;
		else if(k == "work") c.workdir = v; else if(k == "replay") c.replay = true;
		else c.opt[k] = v;
	}
	if(!outp.empty()) { c.out = fopen(outp.c_str(),"a"); if(!c.out) { fprintf(stderr,"HARNESS cannot open %s\n",outp.c_str()); return 3; } }
	if(!progp.empty()) {
		int fd = open(progp.c_str(),O_RDWR|O_CREAT,0644);
		if(fd < 0 || ftruncate(fd,sizeof(Progress)) < 0) return 3;
		c.prog = (Progress*)mmap(NULL,sizeof(Progress),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);
	}
	if(!c.workdir.empty() && chdir(c.workdir.c_str())) { fprintf(stderr,"HARNESS chdir\n"); return 3; }
	// nothing here may fill the disk
	struct rlimit rl = {512u<<20,512u<<20}; setrlimit(RLIMIT_FSIZE,&rl); signal(SIGXFSZ,SIG_IGN);
	init(c);
	for(uint64_t i = c.first; i < c.count; i += c.step) {
		c.cur = i; c.prog->idx = i; c.prog->active = 1; c.prog->what[0] = 0;
		unsigned errors = VALGRIND_COUNT_ERRORS;
		one(c); c.evals++;
		if(RUNNING_ON_VALGRIND) { c.add("memcheck_cases"); if(VALGRIND_COUNT_ERRORS != errors) c.fail("memcheck","%u errors reported by memcheck, see the replay",(unsigned)VALGRIND_COUNT_ERRORS-errors); }
		c.prog->active = 2;
	}
	c.prog->active = 0;
	fprintf(c.out,"C\tevaluations\t%llu\n",(unsigned long long)c.evals);
	for(auto& k : c.counters) fprintf(c.out,"C\t%s\t%llu\n",k.first.c_str(),(unsigned long long)k.second);
	for(auto& s : c.samples) fprintf(c.out,"S\t%s\n",s.c_str());
	if(!distp.empty()) { FILE* f = fopen(distp.c_str(),"ab"); if(f) { fwrite(c.distinct.data(),8,c.distinct.size(),f); fclose(f); } }
	fprintf(c.out,"E\tdone\n"); fflush(c.out);
	return 0;
}
