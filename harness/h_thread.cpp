// Concurrent histories for C05: threads with their own images, analyses and parameters against the results of each alone.
#include "files.hpp"
#include <thread>
#include <atomic>
#include <pthread.h>
#include <sched.h>
static std::atomic<int> races{0};
extern "C" __attribute__((visibility("default"))) void __tsan_on_report(void*) { races.fetch_add(1,std::memory_order_relaxed); }
// the builds' allocations and reads pass through here, so that threads are interrupted inside calls
static thread_local uint64_t yrng = 0; static thread_local int yrate = 0;
static std::atomic<uint64_t> tickets{0}; static const size_t NT = 4096; static unsigned char* order; // relaxed: must not order the threads for the race detector
static thread_local int me = -1;
static void point() { if(me < 0) return; yrng = yrng*6364136223846793005ull+1442695040888963407ull; uint64_t t = tickets.fetch_add(1,std::memory_order_relaxed); if(t < NT) __atomic_store_n(&order[t],(unsigned char)me,__ATOMIC_RELAXED); if(yrate && (yrng>>33)%yrate == 0) { if((yrng>>40)%8 == 0) usleep((yrng>>45)%60); else sched_yield(); } }
extern "C" {
__attribute__((visibility("default"))) void* __wrap_malloc(size_t n) { point(); return malloc(n); }
__attribute__((visibility("default"))) void* __wrap_calloc(size_t a, size_t b) { point(); return calloc(a,b); }
__attribute__((visibility("default"))) void __wrap_free(void* p) { point(); free(p); }
__attribute__((visibility("default"))) size_t __wrap_fread(void* p, size_t a, size_t b, FILE* f) { size_t r = fread(p,a,b,f); point(); return r; }
}
static void on_progress(void*, uint64_t) { point(); }

struct Op { int kind; int file; int method; size_t range; int thr, filter; size_t w, h; uint64_t seed; };
struct Hist { vector<Op> ops; vector<File>* files; string dir; };
static uint64_t hres(RDResolution* r, size_t n, uint64_t h) { for(size_t i = 0; i < n; i++) { h = hash_bytes(&r[i].confidence,sizeof r[i].confidence,h); h = hash_bytes(&r[i].index,sizeof r[i].index,h); } return mix(h,n); }
static vector<uint64_t> play(const Api& a, const Hist& H) {
	vector<uint64_t> out; // an image and an analysis stay open over several operations
	RDImage* im = NULL; float* b = NULL; size_t w = 0, h = 0; RDAnalysis* an = NULL; size_t aw = 0, ah = 0; RDParameters* q = NULL; RDError e = 0;
	for(auto& o : H.ops) {
		Rng r(o.seed); uint64_t v = o.kind; point();
		switch(o.kind) {
			case 0: { vector<float> px(o.w*o.h); for(auto& x : px) x = r.unit(); if(r.chance(1,12)) px[0] = INFINITY; RDParameters* p = a.resdet_alloc_default_parameters(); a.resdet_parameters_set_range(p,o.range); a.resdet_parameters_set_threshold(p,o.thr/100.f); a.resdet_parameters_set_compression_filter(p,o.filter); RDResolution* rw,* rh; size_t cw, ch; e = a.resdetect(px.data(),1,o.w,o.h,&rw,&cw,&rh,&ch,a.resdet_methods()+o.method,p); v = mix(v,e); if(!e) v = mix(hres(rw,cw,v),hres(rh,ch,v)); free(rw); free(rh); free(p); break; }
			case 1: { a.resdet_destroy_analysis(an); free(q); q = a.resdet_alloc_default_parameters(); a.resdet_parameters_set_range(q,o.range); a.resdet_parameters_set_threshold(q,o.thr/100.f); an = a.resdet_create_analysis(a.resdet_methods()+o.method,aw = o.w,ah = o.h,q,&e); a.resdet_parameters_set_range(q,o.range+1); v = mix(v,e); break; }
			case 2: case 3: if(an) { vector<float> px(aw*ah); for(auto& x : px) x = r.gauss(); v = mix(v,a.resdet_analyze_image(an,px.data())); } break;
			case 4: { RDResolution* rw,* rh; size_t cw, ch; e = a.resdet_analysis_results(an,&rw,&cw,&rh,&ch); v = mix(v,e); if(!e) v = mix(hres(rw,cw,v),hres(rh,ch,v)); free(rw); free(rh); break; }
			case 5: { a.resdet_close_image(im); free(b); b = NULL; string fn = H.dir+"/"+std::to_string(o.file)+"."+(*H.files)[o.file].ext; im = a.resdet_open_image(fn.c_str(),NULL,&w,&h,&b,&e); v = mix(mix(v,e),mix(w,h)); break; }
			case 6: case 7: if(im) { bool ok = a.resdet_read_image_frame(im,b,&e); v = mix(v,e+1000*ok); if(ok) v = hash_bytes(b,w*h*4,v); } break;
			case 8: if(im) { bool ok = a.resdet_seek_frame(im,o.w%3,on_progress,NULL,&e); v = mix(v,e+1000*ok); } break;
			case 9: { string fn = H.dir+"/"+std::to_string(o.file)+"."+(*H.files)[o.file].ext; float* p; size_t n, W, h2; static const char* T[][2] = {{"pgm","image/x-portable-graymap"},{"pfm","image/x-portable-floatmap"},{"y4m","video/yuv4mpeg"},{"png","image/png"},{"jpg","image/jpeg"}}; const char* ty = NULL; for(auto& t : T) if(!(o.seed%3) && (*H.files)[o.file].ext == t[0]) ty = t[1]; e = a.resdet_read_image(fn.c_str(),ty,&p,&n,&W,&h2); v = mix(v,e); if(!e) v = hash_bytes(p,n*W*h2*4,v); free(p); break; }
			case 10: { string fn = H.dir+"/"+std::to_string(o.file)+"."+(*H.files)[o.file].ext; RDResolution* rw,* rh; size_t cw, ch; e = a.resdetect_file(fn.c_str(),NULL,&rw,&cw,&rh,&ch,a.resdet_methods()+o.method,NULL); v = mix(v,e); if(!e) v = mix(hres(rw,cw,v),hres(rh,ch,v)); free(rw); free(rh); break; }
			case 11: { static const char* N[] = {"sign","mag","orig","zerox","nope"}; v = mix(v,a.resdet_get_method(N[o.method]) ? 1 : 0); v = mix(v,a.resdet_default_range()); for(const char* const* l = a.resdet_list_image_readers(); *l; l++) v = hash_bytes(*l,strlen(*l),v); const char* s = a.resdet_error_str(o.file%8); if(s) v = hash_bytes(s,strlen(s),v); s = a.resdet_libversion(); v = hash_bytes(s,strlen(s),v); break; }
			case 12: { RDImage* x = a.resdet_open_image_with_reader((H.dir+"/missing").c_str(),"pgm",&aw+0,&ah+0,NULL,&e); v = mix(v,e); a.resdet_close_image(x); a.resdet_destroy_analysis(an); an = NULL; break; }
		}
		out.push_back(v);
	}
	a.resdet_close_image(im); free(b); a.resdet_destroy_analysis(an); free(q); return out;
}
static void c05(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; vector<File> files; bool png = c.opt["readers"].find("png") != string::npos; char dir[4100]; if(!getcwd(dir,sizeof dir)) return;
	int nf = 3; for(int i = 0; i < nf; i++) { size_t w = r.in(1,24), h = r.in(1,16); File f; switch(r.below(png ? 5 : 3)) { case 0: f = gen_pgm(r,w,h); break; case 1: f = gen_pfm(r,w,h,r.in(1,5)); break; case 2: f = gen_y4m(r,w,h,r.in(1,5)); break; case 3: f = gen_png(r,w,h); break; default: f = gen_jpeg(r,w,h); } if(r.chance(1,5)) f.bytes.resize(f.bytes.size()*r.below(100)/100); save(std::to_string(i)+"."+f.ext,f.bytes); files.push_back(f); }
	int nt = r.in(2,c.thorough() ? 8 : 5); bool same = r.chance(1,3); vector<Hist> H(nt); int nops = r.in(6,30);
	for(int t = 0; t < nt; t++) { H[t].files = &files; H[t].dir = dir; if(same && t) { H[t].ops = H[0].ops; continue; } for(int i = 0; i < nops; i++) { Op o; o.kind = r.below(13); o.file = r.below(nf); o.method = r.below(4); o.range = r.in(1,8); o.thr = r.below(100); o.filter = r.chance(1,4) ? r.in(1,4) : 0; o.w = r.in(1,40); o.h = r.in(1,40); o.seed = r.next(); H[t].ops.push_back(o); } }
	c.what("[%s] %d threads, %d operations each%s",a.name.c_str(),nt,nops,same ? ", the same in all" : "");
	vector<vector<uint64_t>> alone(nt), got(nt); if(!order) order = (unsigned char*)malloc(NT);
	int rate = r.pick(vector<int>{0,2,5,20}); uint64_t s0 = r.next(); int before = races;
	// concurrently first, so that what is initialised on first use is initialised by racing threads
	tickets = 0; memset(order,0xff,NT); pthread_barrier_t bar; pthread_barrier_init(&bar,NULL,nt); vector<std::thread> th;
	for(int t = 0; t < nt; t++) th.emplace_back([&,t]() { me = t; yrate = rate; yrng = mix(s0,t); pthread_barrier_wait(&bar); got[t] = play(a,H[t]); me = -1; });
	for(auto& x : th) x.join(); pthread_barrier_destroy(&bar);
	size_t nt2 = std::min<size_t>(tickets,NT); int sw = 0; for(size_t i = 1; i < nt2; i++) sw += order[i] != order[i-1]; c.add("switches",sw); c.add("scheduling_points",tickets); c.nontrivial(hash_bytes(order,nt2));
	for(int t = 0; t < nt; t++) { alone[t] = play(a,H[t]); for(size_t i = 0; i < alone[t].size(); i++) { c.add("results_compared"); if(alone[t][i] != got[t][i]) { c.fail("interference","thread %d of %d: operation %zu (kind %d) gave another result than alone",t,nt,i,H[t].ops[i].kind); break; } } }
	if(races != before) c.fail("data-race","%d races reported, see the end of the log of the replay",(int)races-before);
	c.add("threads",nt); c.sample("%d threads, %d operations each: %d switches observed",nt,nops,sw);
}
int main(int argc, char** argv) {
	return drive(argc,argv,[](Ctx& c) { if(c.apis.empty()) _exit(3); if(c.opt.count("fftwsafe")) { for(auto l : {"libfftw3f_threads.so.3","libfftw3_threads.so.3"}) { void* h = dlopen(l,RTLD_NOW|RTLD_GLOBAL); const char* fn = strstr(l,"3f") ? "fftwf_make_planner_thread_safe" : "fftw_make_planner_thread_safe"; void(*f)(void) = h ? (void(*)(void))dlsym(h,fn) : NULL; if(f) { f(); c.add("planners_made_safe"); } else { fprintf(stderr,"HARNESS no %s\n",fn); _exit(3); } } } },c05);
}
