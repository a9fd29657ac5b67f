// Workloads and oracles for the analysis half of the library (C02, C06-C14).
#include <malloc.h>
#include "common.hpp"
#include <sys/wait.h>
#include <complex>

typedef long double ld;
struct Px { size_t w, h; vector<float> v; };
struct P { size_t range = 0; float thr = -1; int filt = 0; };       // 0 / negative: library default
typedef vector<RDResolution> List;
struct Out { RDError e = 0; List w, h; bool hasw = false, hash = false; };

static const char* METHODS[] = {"sign","mag","orig","zerox"};
static const float THRESH[] = {.55f,.40f,.64f,.5f};

// pixels in their own heap block of exactly the right size, so that overruns are visible
struct Block { float* p; size_t n; Block(const float* s, size_t n_): n(n_) { p = (float*)malloc(n*4+!n); memcpy(p,s,n*4); } ~Block() { free(p); } Block(const Block&) = delete; };

// ---- inputs -------------------------------------------------------------------------------------
static const char* KINDS[] = {"uniform","gauss","8bit","repeat","linear","ramp","const","checker","impulse","waves","binary","scaled","dark","band-limited"};
enum { NK = 14 };
static Px gen(Rng& r, size_t w, size_t h, int kind, string* desc = NULL) {
	Px p{w,h,vector<float>(w*h)}; auto& v = p.v; size_t n = w*h;
	if(desc) *desc = KINDS[kind];
	switch(kind) {
		case 0: for(auto& x : v) x = r.unit(); break;
		case 1: for(auto& x : v) x = .5+.2*r.gauss(); break;
		case 2: for(auto& x : v) x = r.below(256)/255.f; break;
		case 3: case 4: { // enlarged
			size_t sw = r.in(1,w), sh = r.in(1,h); if(r.chance(1,2)) { sw = (w+1)/2; sh = (h+1)/2; }
			vector<double> s(sw*sh); for(auto& x : s) x = r.below(256)/255.;
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
				double fx = (x+.5)*sw/w-.5, fy = (y+.5)*sh/h-.5;
				if(kind == 3) v[y*w+x] = s[std::min<size_t>(sh-1,(size_t)(y*sh/h))*sw+std::min<size_t>(sw-1,x*sw/w)];
				else {
					auto cl = [](double a, size_t m) { return (size_t)(a < 0 ? 0 : a > m-1 ? m-1 : a); };
					double x0 = floor(fx), y0 = floor(fy), ax = fx-x0, ay = fy-y0;
					#define S(X,Y) s[cl(Y,sh)*sw+cl(X,sw)]
					v[y*w+x] = (S(x0,y0)*(1-ax)+S(x0+1,y0)*ax)*(1-ay)+(S(x0,y0+1)*(1-ax)+S(x0+1,y0+1)*ax)*ay;
					#undef S
				}
			}
			break; }
		case 5: for(size_t i = 0; i < n; i++) v[i] = ((i%w)+.7*(i/w))/(double)(w+h); break;
		case 6: { float c = r.chance(1,3) ? 0 : r.unit(); for(auto& x : v) x = c; break; }
		case 7: { size_t a = r.in(1,4), b = r.in(1,4); for(size_t i = 0; i < n; i++) v[i] = ((i%w)/a+(i/w)/b)%2; break; }
		case 8: { size_t k = r.in(1,6); for(size_t i = 0; i < k; i++) v[r.below(n)] = r.unit()*2-1; break; }
		case 9: { double a = r.unit()*3, b = r.unit()*3, c = r.unit()*6; for(size_t i = 0; i < n; i++) v[i] = .5+.5*sin(a*(i%w)+b*(i/w)+c); break; }
		case 10: for(auto& x : v) x = r.below(2); break;
		case 11: { float s = ldexpf(1,r.chance(1,4) ? r.in(60,104) : r.in(-12,12)); for(auto& x : v) x = r.unit()*s*(r.chance(1,2) ? 1 : -1); break; }
		case 12: for(auto& x : v) x = r.chance(1,20) ? r.unit() : 0; break;
		case 13: { // from few of the lowest frequencies: the other coefficients are as small as samples can make them
			size_t sw = r.in(1,std::min<size_t>(w,24)), sh = r.in(1,std::min<size_t>(h,24)); if(r.chance(1,2) && w < 60 && h < 60) { sw = (w+1)/2; sh = (h+1)/2; } vector<double> f(sw*sh), t(sw*h), cw(4*w), ch(4*h); double pw = r.unit();
			for(size_t i = 0; i < sw*sh; i++) f[i] = r.gauss()/pow(1+i%sw+i/sw,pw); for(size_t i = 0; i < 4*w; i++) cw[i] = cos(M_PI*i/(2*w)); for(size_t i = 0; i < 4*h; i++) ch[i] = cos(M_PI*i/(2*h));
			for(size_t y = 0; y < h; y++) for(size_t u = 0; u < sw; u++) { double s = 0; for(size_t k = 0; k < sh; k++) s += f[k*sw+u]*ch[(2*y+1)*k%(4*h)]; t[y*sw+u] = s; }
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) { double s = 0; for(size_t u = 0; u < sw; u++) s += t[y*sw+u]*cw[(2*x+1)*u%(4*w)]; v[y*w+x] = s; }
			break; }
	}
	return p;
}
static size_t rnd_dim(Rng& r, size_t big) {
	switch(r.below(8)) { case 0: return r.in(1,8); case 1: return r.in(1,30); case 2: return r.in(20,30); case 3: return 1u<<r.in(0,6); case 4: return r.in(30,big); default: return r.in(2,64); }
}
static void rnd_dims(Rng& r, size_t big, size_t& w, size_t& h) {
	w = rnd_dim(r,big); h = rnd_dim(r,big);
	if(r.chance(1,6)) h = w;
	if(r.chance(1,14)) { w = r.in(1,3*big); h = r.in(1,3); }
	else if(r.chance(1,14)) { h = r.in(1,3*big); w = r.in(1,3); }
}
// counters, strides and transform lengths beyond 16 bits
static void long_dims(Rng& r, size_t& w, size_t& h) {
	static const size_t L[] = {2048,2500,4096,5600,6144,7000,8192,8400,9600,10935,12000,15000,16384,20000,24000}, X[] = {32768,33000,36000,65536,66000,72000};
	if(r.chance(1,4)) { w = X[r.below(6)]; h = r.in(3,r.chance(1,3) ? 16 : 6); } else { w = L[r.below(15)]; h = r.in(2,30); }
	if(r.chance(2,3)) std::swap(w,h);
}
static size_t eff_range(const Api& a, int m, const P& p) { return m == 3 ? 1 : p.range ? p.range : a.default_range; }
// ranges whose multiples wrap around
static size_t huge_range(Rng& r) { switch(r.below(4)) { case 0: return SIZE_MAX-r.below(3); case 1: return (size_t)r.next()|1; case 2: return ((size_t)1<<r.in(15,63))-r.below(3)+r.below(3); default: return ((size_t)1<<63)+r.below(200); } }
static P rnd_params(Rng& r, size_t w, size_t h, bool filt = false) {
	P p;
	switch(r.below(6)) { case 0: p.range = 0; break; case 1: p.range = 1; break; case 2: p.range = r.in(1,24); break; case 3: p.range = r.in(1,(std::max(w,h)+1)/2+1); break; default: p.range = r.in(1,std::max<size_t>(1,std::min(w,h)/3)); }
	if(r.chance(1,40)) p.range = huge_range(r);
	switch(r.below(6)) { case 0: p.thr = -1; break; case 1: p.thr = r.unit(); break; case 2: p.thr = r.below(1025)/1024.f; break; case 3: p.thr = r.chance(1,2) ? .5 : 1; break; default: p.thr = 0; }
	if(filt && r.chance(2,3)) p.filt = r.chance(2,3) ? r.in(0,6) : r.in(0,31);
	return p;
}
static string pstr(int m, const P& p) { char b[96]; snprintf(b,sizeof b,"%s range=%zu thr=%g filter=%d",METHODS[m],p.range,p.thr,p.filt); return b; }

// ---- running the library -------------------------------------------------------------------------
static RDParameters* mkparams(Ctx& c, const Api& a, const P& p) {
	if(!p.range && p.thr < 0 && !p.filt) return NULL;
	RDParameters* q = a.resdet_alloc_default_parameters();
	if(!q) { c.fail("params-alloc","resdet_alloc_default_parameters returned NULL"); return NULL; }
	RDError e = 0;
	if(p.range && (e = a.resdet_parameters_set_range(q,p.range))) c.fail("set-range","set_range(%zu) failed: %d",p.range,e);
	if(p.thr >= 0 && (e = a.resdet_parameters_set_threshold(q,p.thr))) c.fail("set-threshold","set_threshold(%g) failed: %d",p.thr,e);
	if(p.filt && (e = a.resdet_parameters_set_compression_filter(q,p.filt))) c.fail("set-filter","set_filter(%d) failed: %d",p.filt,e);
	return q;
}
static RDMethod* method(Ctx& c, const Api& a, int m) {
	RDMethod* x = a.resdet_get_method(METHODS[m]);
	if(!x) c.fail("method-missing","method %s not found",METHODS[m]);
	return x;
}
static void take(Ctx& c, Out& o, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch, bool askw, bool askh) {
	o.hasw = rw; o.hash = rh;
	if(o.e) { if(rw || rh || cw || ch) c.fail("error-with-output","error %d but outputs %p/%zu %p/%zu",o.e,(void*)rw,cw,(void*)rh,ch); }
	else if((askw && !rw) || (askh && !rh)) c.fail("missing-list","success without a result list");
	if(RUNNING_ON_VALGRIND) for(int k = 0; k < 2; k++) for(size_t i = 0; i < (k ? ch : cw) && (k ? rh : rw) && !o.e; i++) { defined(c,&(k ? rh : rw)[i].index,sizeof rw->index,"index"); defined(c,&(k ? rh : rw)[i].confidence,sizeof rw->confidence,"confidence"); }
	if(rw) o.w.assign(rw,rw+cw);
	if(rh) o.h.assign(rh,rh+ch);
	free(rw); free(rh);
}
static Out results(Ctx& c, const Api& a, RDAnalysis* an, bool askw = true, bool askh = true) {
	Out o; RDResolution* rw = (RDResolution*)0x10,* rh = (RDResolution*)0x10; size_t cw = 77, ch = 77;
	o.e = a.resdet_analysis_results(an,askw ? &rw : NULL,askw ? &cw : NULL,askh ? &rh : NULL,askh ? &ch : NULL);
	take(c,o,askw ? rw : NULL,askw ? cw : 0,askh ? rh : NULL,askh ? ch : 0,askw,askh);
	return o;
}
// the caller's parameters are only read
struct Kept { RDParameters* q; string b; Kept(RDParameters* q) : q(q), b(q ? string((char*)q,malloc_usable_size(q)) : "") {} bool same() { return !q || !memcmp(q,b.data(),b.size()); } };
static RDAnalysis* create(Ctx& c, const Api& a, int m, size_t w, size_t h, const P& p, RDError* err = NULL) {
	RDParameters* q = mkparams(c,a,p); Kept kept(q); RDError e = 55;
	RDAnalysis* an = a.resdet_create_analysis(method(c,a,m),w,h,q,&e);
	if(!kept.same()) c.fail("params-modified","create_analysis changed the caller's parameters");
	if((e != 0) != !an) c.fail("create-inconsistent","create_analysis returned %p with error %d",(void*)an,e);
	free(q);
	if(err) *err = e; else if(!an) c.fail("create-failed","create_analysis %zux%zu failed: %d",w,h,e);
	return an;
}
// bulk detection of frames which lie back to back
static Out bulk(Ctx& c, const Api& a, int m, const vector<Px>& f, const P& p, bool askw = true, bool askh = true) {
	Out o; size_t w = f[0].w, h = f[0].h; vector<float> all; for(auto& x : f) all.insert(all.end(),x.v.begin(),x.v.end());
	Block b(all.data(),all.size());
	RDParameters* q = mkparams(c,a,p); Kept kept(q);
	RDResolution* rw = (RDResolution*)0x10,* rh = (RDResolution*)0x10; size_t cw = 77, ch = 77;
	o.e = a.resdetect(b.p,f.size(),w,h,askw ? &rw : NULL,askw ? &cw : NULL,askh ? &rh : NULL,askh ? &ch : NULL,method(c,a,m),q);
	if(!kept.same()) c.fail("params-modified","resdetect changed the caller's parameters");
	free(q);
	if(memcmp(b.p,all.data(),all.size()*4)) c.fail("pixels-modified","resdetect modified the image");
	take(c,o,askw ? rw : NULL,askw ? cw : 0,askh ? rh : NULL,askh ? ch : 0,askw,askh);
	return o;
}
static Out seq(Ctx& c, const Api& a, int m, const vector<Px>& f, const P& p) {
	Out o; RDAnalysis* an = create(c,a,m,f[0].w,f[0].h,p); if(!an) { o.e = -999; return o; }
	for(auto& x : f) { Block b(x.v.data(),x.v.size()); RDError e = a.resdet_analyze_image(an,b.p); if(e) { o.e = e; break; } if(memcmp(b.p,x.v.data(),x.v.size()*4)) c.fail("pixels-modified","analyze_image modified the image"); }
	if(!o.e) o = results(c,a,an);
	a.resdet_destroy_analysis(an);
	return o;
}
static Out detect(Ctx& c, const Api& a, int m, const Px& f, const P& p) { return bulk(c,a,m,{f},p); }
static bool same_list(const List& a, const List& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(a[i].index != b[i].index || memcmp(&a[i].confidence,&b[i].confidence,4)) return false; return true; }
static bool same(const Out& a, const Out& b) { return a.e == b.e && a.hasw == b.hasw && a.hash == b.hash && same_list(a.w,b.w) && same_list(a.h,b.h); }
static string str(const List& l) { string s; char b[64]; for(size_t i = 0; i < l.size() && i < 12; i++) { snprintf(b,sizeof b,"%s%zu:%.7g",i ? " " : "",l[i].index,l[i].confidence); s += b; } snprintf(b,sizeof b," (%zu)",l.size()); return s+b; }
static string diff(const Out& a, const Out& b) {
	char t[200]; if(a.e != b.e) { snprintf(t,sizeof t,"error %d vs %d",a.e,b.e); return t; }
	for(int d = 0; d < 2; d++) { auto& x = d ? a.h : a.w; auto& y = d ? b.h : b.w; if(x.size() != y.size()) { snprintf(t,sizeof t,"%s: %zu vs %zu entries",d ? "height" : "width",x.size(),y.size()); return t; }
		for(size_t i = 0; i < x.size(); i++) if(x[i].index != y[i].index || memcmp(&x[i].confidence,&y[i].confidence,4)) { snprintf(t,sizeof t,"%s entry %zu: %zu:%.9g vs %zu:%.9g",d ? "height" : "width",i,x[i].index,x[i].confidence,y[i].index,y[i].confidence); return t; } }
	return "lists missing";
}
static uint64_t hash_out(const Out& o) { uint64_t h = 7; for(auto l : {&o.w,&o.h}) for(auto& x : *l) { h = hash_bytes(&x.index,sizeof x.index,h); h = hash_bytes(&x.confidence,4,h); } return h; }

// confidences by size for a complete list (threshold 0)
static std::map<size_t,float> bysize(const List& l) { std::map<size_t,float> m; for(auto& x : l) if(x.confidence >= 0) m[x.index] = x.confidence; return m; }

// the shape every list has
static void check_shape(Ctx& c, const char* dim, const List& l, size_t len, size_t range, float thr, int filt) {
	if(l.empty()) return c.fail("empty-list","%s: empty list",dim);
	if(l.back().index != len || l.back().confidence != -1) return c.fail("last-entry","%s: last entry is %zu:%g, expected %zu:-1 (%s)",dim,l.back().index,l.back().confidence,len,str(l).c_str());
	std::set<size_t> seen;
	bool span = range < (len+1)/2;
	for(size_t i = 0; i+1 < l.size(); i++) {
		auto& x = l[i];
		if(!span) return c.fail("range-too-big","%s: results for length %zu with range %zu: %s",dim,len,range,str(l).c_str());
		if(x.index < range || x.index > len-range-1+0 ) if(x.index < range || x.index+range >= len+0) return c.fail("index-bounds","%s: size %zu outside [%zu,%zu)",dim,x.index,range,len-range);
		if(!seen.insert(x.index).second) return c.fail("duplicate","%s: size %zu listed twice",dim,x.index);
		if(!(x.confidence >= thr-1e-7) || !(x.confidence >= 0) || !(x.confidence <= 1+1e-6)) return c.fail("confidence-bounds","%s: size %zu has confidence %.9g, threshold %g",dim,x.index,x.confidence,thr);
		if(x.confidence < l[i+1].confidence) return c.fail("not-sorted","%s: entry %zu: %.9g before %.9g",dim,i,x.confidence,l[i+1].confidence);
	}
	if(thr == 0 && !filt && span && l.size()-1 != len-2*range) c.fail("incomplete","%s: %zu entries at threshold 0, expected %zu",dim,l.size()-1,len-2*range);
}
static float eff_thr(int m, const P& p) { return p.thr < 0 ? THRESH[m] : p.thr; }

// ---- the reference model ----------------------------------------------------------------------------
struct Ref { size_t w, h; vector<ld> F; double norm; };
static const vector<ld>& costab(size_t n) {
	static std::map<size_t,vector<ld>> t; auto& v = t[n];
	if(v.empty()) { if(t.size() > 400 || (n > 4000 && t.size() > 20)) { t.clear(); return costab(n); } v.resize(4*n); for(size_t i = 0; i < 4*n; i++) v[i] = cosl(M_PIl*i/(2*n)); } // period 4n of cos(pi*i/2n)
	return v;
}
// DCT-II of n values: directly, or for lengths with small prime factors through a complex DFT of the reordered values (Makhoul)
typedef std::complex<ld> cld;
static size_t maxprime(size_t n) { size_t m = 1; for(size_t p = 2; n > 1; p++) while(n%p == 0) { n /= p; m = p; } return m; }
static void dft(const cld* in, size_t st, cld* out, size_t n, size_t N, const vector<ld>& c) { // c: costab of N, whose entry 4k is the real part of the root k
	if(n == 1) { *out = *in; return; }
	size_t p = 2; while(n%p) p++;
	size_t q = n/p; vector<cld> t(n);
	for(size_t i = 0; i < p; i++) dft(in+i*st,st*p,&t[i*q],q,N,c);
	auto root = [&](size_t k) { k = k*(N/n)%N; return cld(c[4*k],-c[(4*k+3*N)%(4*N)]); };
	for(size_t k = 0; k < n; k++) { cld s = 0; for(size_t i = 0; i < p; i++) s += t[i*q+k%q]*root(i*k%n); out[k] = s; }
}
static void dct1(const ld* x, size_t n, size_t st, ld* out, size_t ost) {
	auto& c = costab(n);
	if(n < 100 || maxprime(n) > 20) { for(size_t u = 0; u < n; u++) { ld s = 0; size_t k = u, d = 2*u; for(size_t i = 0; i < n; i++) { s += x[i*st]*c[k]; k += d; if(k >= 4*n) k -= 4*n; } out[u*ost] = 2*s; } return; }
	vector<cld> v(n), V(n); for(size_t i = 0; i < n; i++) v[i] = i < (n+1)/2 ? x[2*i*st] : x[(2*(n-1-i)+1)*st];
	dft(v.data(),1,V.data(),n,n,c);
	for(size_t k = 0; k < n; k++) out[k*ost] = 2*(V[k].real()*c[k]+V[k].imag()*c[(k+3*n)%(4*n)]); // sin(a) = cos(a+3pi/2), V*exp(-ia)
}
static Ref dct(const Px& p) {
	Ref r{p.w,p.h,vector<ld>(p.w*p.h),0}; size_t w = p.w, h = p.h; vector<ld> t(w*h), x(p.v.begin(),p.v.end());
	for(size_t y = 0; y < h; y++) dct1(&x[y*w],w,1,&t[y*w],1);
	for(size_t u = 0; u < w; u++) dct1(&t[u],h,w,&r.F[u],w);
	ld n = 0; for(auto f : r.F) n += f*f; r.norm = sqrtl(n); return r;
}
struct Iv { double lo, hi; };
// the possible confidences of every candidate of one dimension, given the precision of the library's transform
static vector<Iv> ref_conf(const Ref& f, bool vert, int m, size_t range, double eps, double ieps) {
	size_t len = vert ? f.h : f.w, n = vert ? f.w : f.h;
	vector<Iv> out; if(range >= (len+1)/2) return out;
	double tol = 4*eps*(log2(f.w+1.)+log2(f.h+1.)+4)*f.norm;
	auto at = [&](size_t y, size_t x) { return (double)(vert ? f.F[x*f.w+y] : f.F[y*f.w+x]); };
	vector<double> sum; double mtol = tol+ieps*(n+2*range+8)*f.norm;
	if(m == 2) { sum.resize(len); for(size_t y = 0; y < n; y++) for(size_t x = 0; x < len; x++) sum[x] += fabs(at(y,x)); for(auto& s : sum) s /= n; }
	for(size_t x = range; x < len-range; x++) {
		size_t lo = 0, hi = 0;
		if(m == 3) {
			for(size_t y = 0; y < n; y++) {
				double l = at(y,x-1), c = at(y,x), r = at(y,x+1);
				bool dl = (c-l > 2*tol && r-c > 2*tol && l < -tol && r > tol) || (l-c > 2*tol && c-r > 2*tol && l > tol && r < -tol);
				bool no = (l > tol && r > tol) || (l < -tol && r < -tol) || c < std::min(l,r)-2*tol || c > std::max(l,r)+2*tol;
				if(dl) lo++; if(!no) hi++;
			}
			out.push_back({lo/(double)n,hi/(double)n}); continue;
		}
		for(size_t y = 0; y < n; y++) for(size_t i = 1; i <= range; i++) {
			double l = at(y,x-i), r = at(y,x+i);
			bool diff = (l < -tol && r > tol) || (l > tol && r < -tol), same = (l < -tol && r < -tol) || (l > tol && r > tol);
			if(m == 1) {
				if(diff && fabs(l)+tol < 2*(fabs(r)-tol) && (fabs(r)-tol > 1.2e-7 || fabs(l)-tol > 1.2e-7*4*ieps)) lo++; // a ratio of almost 0 is not told from 0
				if(!same && fabs(l)-tol <= 2*std::max(fabs(r)+tol,1.2e-7)) hi++;
			}
			else { if(diff) lo++; if(!same) hi++; }
		}
		double a = lo/((double)n*range), b = hi/((double)n*range);
		if(m == 2) {
			double left = 0, right = 0, mid = sum[x]*range, e = 2*range*mtol;
			for(size_t i = 1; i <= range; i++) { left += sum[x-i]; right += sum[x+i]; }
			double d = fabs(left-right), g = std::min(std::min(left,right)-mid,std::min(fabs(left-mid),fabs(right-mid))-d);
			if(g < 4*e) a = 0;
			if(g < -4*e) b = 0;
		}
		out.push_back({a,b});
	}
	return out;
}
// compares one list against the reference; frames: intervals of every frame
static void check_ref(Ctx& c, const Api& a, const char* dim, const List& l, size_t len, size_t range, float thr, const vector<vector<Iv>>& fr) {
	if(range >= (len+1)/2) { if(l.size() != 1) c.fail("ref-small","[%s] %s: %zu entries for length %zu range %zu",a.name.c_str(),dim,l.size(),len,range); return; }
	std::map<size_t,float> m; for(auto& x : l) if(x.confidence >= 0 && x.index != len) m[x.index] = x.confidence;
	for(size_t i = 0; i < fr[0].size(); i++) {
		double lo = 0, hi = 0; for(auto& f : fr) { lo += f[i].lo; hi += f[i].hi; } lo /= fr.size(); hi /= fr.size();
		size_t x = range+i; auto it = m.find(x);
		c.add("candidates_compared"); if(lo == hi) c.add("candidates_exact");
		bool exact = lo == hi && fr.size() == 1 && ldexp(thr,10) == floor(ldexp(thr,10)) && (double)thr == lo;
		if(it == m.end()) { if(lo > thr+1e-6 || exact) return c.fail("ref-missing","[%s] %s: %zu not listed, expected confidence %.9g..%.9g, threshold %.9g",a.name.c_str(),dim,x,lo,hi,thr); }
		else {
			if(hi < thr-1e-6) return c.fail("ref-listed","[%s] %s: %zu listed with %.9g, expected %.9g..%.9g below threshold %.9g",a.name.c_str(),dim,x,it->second,lo,hi,thr);
			if(it->second < lo-1e-6 || it->second > hi+1e-6) return c.fail("ref-confidence","[%s] %s: %zu has confidence %.9g, expected %.9g..%.9g",a.name.c_str(),dim,x,it->second,lo,hi);
			if(exact) c.add("exact_thresholds");
		}
		if(lo > .05) c.add("candidates_positive");
	}
}

// ---- C02 ----------------------------------------------------------------------------------------
static void hostile(Rng& r, Px& p, bool& finite) {
	size_t n = p.v.size(); finite = true;
	switch(r.below(7)) {
		case 0: p.v[r.below(n)] = NAN; finite = false; break;
		case 1: p.v[r.chance(1,2) ? n-1 : r.below(n)] = r.chance(1,2) ? INFINITY : -INFINITY; finite = false; break;
		case 2: for(auto& x : p.v) x = r.chance(1,2) ? FLT_MAX : -FLT_MAX; break;
		case 3: for(auto& x : p.v) { uint32_t b = r.next(); memcpy(&x,&b,4); if(!std::isfinite(x)) x = 0; } break;
		case 4: for(auto& x : p.v) { uint32_t b = r.below(1<<23); memcpy(&x,&b,4); } break;
		case 5: for(auto& x : p.v) x = r.chance(1,2) ? 0.f : -0.f; break;
		default: break;
	}
}
static void c02(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,c.thorough() ? 200 : 90,w,h); int m = r.below(4); P p = rnd_params(r,w,h,true);
	if(r.chance(1,12)) p.range = huge_range(r);
	string k; Px img = gen(r,w,h,r.below(NK),&k); bool fin; hostile(r,img,fin);
	c.what("[%s] %zux%zu %s finite=%d %s",a.name.c_str(),w,h,k.c_str(),fin,pstr(m,p).c_str());
	RDError e; RDAnalysis* an = create(c,a,m,w,h,p,&e);
	if(!an) return c.fail("create-failed","create failed: %d",e);
	int frames = r.in(0,3); bool any = false;
	if(r.chance(1,5)) { Out o = results(c,a,an); if(o.e != RDENOIMG) c.fail("noimg","results before images: %d",o.e); }
	for(int i = 0; i < frames; i++) {
		Block b(img.v.data(),img.v.size()); e = a.resdet_analyze_image(an,b.p);
		if(fin ? e != 0 : e != RDEINVAL) c.fail("analyze-error","analyze_image: %d (finite=%d)",e,fin);
		if(!e) any = true;
		if(memcmp(b.p,img.v.data(),img.v.size()*4)) c.fail("pixels-modified","image modified");
		if(r.chance(1,3)) { bool aw = r.chance(2,3); Out o = results(c,a,an,aw,!aw || r.chance(1,2)); if(o.e != (any ? 0 : RDENOIMG)) c.fail("results-error","results: %d",o.e); }
		c.add("images");
	}
	Out o = results(c,a,an); if(o.e != (any ? 0 : RDENOIMG)) c.fail("results-error","results: %d",o.e);
	if(!o.e) { check_shape(c,"width",o.w,w,eff_range(a,m,p),eff_thr(m,p),p.filt); check_shape(c,"height",o.h,h,eff_range(a,m,p),eff_thr(m,p),p.filt); }
	a.resdet_destroy_analysis(an);
	Out b = bulk(c,a,m,{img},p); if(fin ? b.e != 0 : b.e != RDEINVAL) c.fail("resdetect-error","resdetect: %d",b.e);
	c.add("candidates",o.w.size()+o.h.size()); c.nontrivial(mix(hash_bytes(img.v.data(),img.v.size()*4),m*1000003+p.range)); c.sample("%s",c.prog->what);
}

// ---- C06 ----------------------------------------------------------------------------------------
static void c06(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,c.thorough() ? 220 : 110,w,h); int m = r.below(4); if(r.chance(1,12)) { w = r.in(200,r.chance(1,4) ? 8000 : 1500); h = r.in(1,4); if(r.chance(1,2)) std::swap(w,h); c.add("elongated_images"); } P p = rnd_params(r,w,h,r.chance(1,3));
	string k; vector<Px> f; int n = r.in(1,2); for(int i = 0; i < n; i++) f.push_back(gen(r,w,h,r.below(NK),&k));
	c.what("[%s] %zux%zu x%d %s %s",a.name.c_str(),w,h,n,k.c_str(),pstr(m,p).c_str());
	size_t range = eff_range(a,m,p); float thr = eff_thr(m,p);
	Out o = r.chance(1,2) ? bulk(c,a,m,f,p) : seq(c,a,m,f,p);
	if(o.e) return c.fail("detect-error","error %d",o.e);
	check_shape(c,"width",o.w,w,range,thr,p.filt); check_shape(c,"height",o.h,h,range,thr,p.filt);
	c.add("entries",o.w.size()+o.h.size());
	// only one dimension requested: the other outputs are untouched, the list is the same
	bool askw = r.chance(1,2); Out q = bulk(c,a,m,f,p,askw,!askw);
	if(q.e || q.hasw != askw || q.hash == askw) c.fail("one-dimension","asked for %s only: error %d",askw ? "width" : "height",q.e);
	else if(askw ? !same_list(q.w,o.w) : !same_list(q.h,o.h)) c.fail("one-dimension","list differs when requested alone");
	// neither
	Out z = bulk(c,a,m,f,p,false,false); if(z.e) c.fail("no-dimension","error %d",z.e);
	// failing detections yield nothing
	vector<Px> g = f; g.push_back(f[0]); g.back().v[r.below(w*h)] = NAN; Out bad = bulk(c,a,m,g,p); if(bad.e != RDEINVAL || bad.hasw || bad.hash) c.fail("nan-frame","error %d",bad.e);
	if(o.w.size()+o.h.size() > 3) { c.nontrivial(hash_out(o)); c.sample("%s -> w: %s h: %s",c.prog->what,str(o.w).c_str(),str(o.h).c_str()); }
}

// ---- C07, C14 --------------------------------------------------------------------------------------
static void ref_all(Ctx& c, Rng& r, bool defaults, bool cross) {
	size_t w, h; rnd_dims(r,c.thorough() ? 110 : 72,w,h); string k; int nf = r.chance(1,5) ? r.in(2,3) : 1; vector<Px> f; vector<Ref> ref;
	bool lng = c.cur%(cross ? 50 : 200) == 7; if(lng) { long_dims(r,w,h); nf = 1; c.add("elongated_images"); }
	float huge = r.chance(1,8) ? ldexpf(1,r.in(40,100)) : 1;
	for(int i = 0; i < nf; i++) { f.push_back(gen(r,w,h,lng ? r.below(5) : r.below(NK),&k)); for(auto& x : f.back().v) if(huge != 1 && fabsf(x) < 1e4) x *= huge; } if(huge != 1) k += " huge";
	int m0 = r.below(4);
	for(auto& x : f) ref.push_back(dct(x));
	uint64_t hh = 1;
	for(int mm = 0; mm < (cross ? 1 : 2); mm++) {
		int m = (m0+mm)%4; P p = rnd_params(r,w,h); if(cross && !p.range) p.range = 12; if(lng) { p.range = r.in(1,std::min<size_t>(24,(std::min(w,h)+1)/2)); if(r.chance(1,3) && std::min(w,h) > 4) p.range = (std::min(w,h)-1)/2; if(r.chance(1,2)) p.thr = 0; } if(defaults && r.chance(1,3)) p = P();
		vector<Out> outs; vector<std::pair<const Api*,std::pair<vector<Iv>,vector<Iv>>>> ivs;
		for(size_t ai = 0; ai < c.apis.size(); ai++) {
			const Api& a = c.apis[ai]; if(!cross && ai != c.cur%c.apis.size()) continue;
			c.what("[%s] %zux%zu x%d %s %s",a.name.c_str(),w,h,nf,k.c_str(),pstr(m,p).c_str());
			size_t range = eff_range(a,m,p); float thr = eff_thr(m,p);
			Out o = nf == 1 && r.chance(1,2) ? detect(c,a,m,f[0],p) : seq(c,a,m,f,p);
			if(o.e) { c.fail("detect-error","error %d",o.e); continue; }
			vector<vector<Iv>> iw, ih; for(auto& x : ref) { iw.push_back(ref_conf(x,false,m,range,a.eps,a.ieps)); ih.push_back(ref_conf(x,true,m,range,a.eps,a.ieps)); }
			check_ref(c,a,"width",o.w,w,range,thr,iw); check_ref(c,a,"height",o.h,h,range,thr,ih);
			if(cross && !outs.empty()) {
				c.add("builds_compared");
				for(int d = 0; d < 2; d++) { // sizes above the threshold by more than rounding may explain must agree
					auto x = bysize(d ? outs[0].h : outs[0].w), y = bysize(d ? o.h : o.w); size_t same = 0; for(auto& e : x) if(y.count(e.first) && y[e.first] == e.second) same++;
					c.add("entries_identical",same); c.add("entries_total",x.size());
				}
			}
			outs.push_back(o); hh = mix(hh,hash_out(o));
			if(!mm && (cross ? ai == 0 : true)) c.sample("%s -> w: %s",c.prog->what,str(o.w).c_str());
		}
	}
	if(w > 3 || h > 3) c.nontrivial(hh);
}
static void c07(Ctx& c) { Rng r = c.rng(); ref_all(c,r,true,false); }
static void c14(Ctx& c) {
	Rng r = c.rng(); ref_all(c,r,false,true);
	if(c.cur%4 == 0) { // larger images, where the direct comparison is tight even without the reference
		size_t w = r.in(100,260), h = r.in(100,260); Px f = gen(r,w,h,r.below(3)); int m = r.below(4); P p; p.range = r.in(1,16); p.thr = 0;
		std::map<size_t,float> b0[2];
		for(size_t i = 0; i < c.apis.size(); i++) {
			c.what("[%s vs %s] %zux%zu noise %s",c.apis[i].name.c_str(),c.apis[0].name.c_str(),w,h,pstr(m,p).c_str());
			Out o = detect(c,c.apis[i],m,f,p); if(o.e) { c.fail("detect-error","error %d",o.e); continue; }
			for(int d = 0; d < 2; d++) {
				auto x = bysize(d ? o.h : o.w); if(!i) { b0[d] = x; continue; }
				if(x.size() != b0[d].size()) { c.fail("build-sizes","%zu vs %zu candidates",x.size(),b0[d].size()); continue; }
				size_t off = 0; double worst = 0; for(auto& e : x) { double q = fabs(e.second-b0[d][e.first]); if(q > .02) off++; worst = std::max(worst,q); }
				// orig's gate is a comparison of means: single candidates may fall on either side
				if(m == 2 ? off > 2 : off > 0) c.fail("build-confidence","%zu candidates differ by more than 2%%, worst %g",off,worst);
				c.add("large_candidates_compared",x.size());
			}
		}
	}
}

// ---- C08 ----------------------------------------------------------------------------------------
static Px texture(Rng& r, size_t w, size_t h, int kind) {
	Px p{w,h,vector<float>(w*h)};
	vector<double> v(w*h); for(auto& x : v) x = r.unit();
	if(kind == 1) { // detail on top of smooth structure
		double a = r.unit()*.3, b = r.unit()*.3; for(size_t i = 0; i < w*h; i++) v[i] = .4*v[i]+.3+.3*sin(a*(i%w))*cos(b*(i/w)); }
	if(kind == 2) { // coloured noise
		for(size_t y = 0; y < h; y++) for(size_t x = 1; x < w; x++) v[y*w+x] = .35*v[y*w+x-1]+.65*v[y*w+x];
		for(size_t y = 1; y < h; y++) for(size_t x = 0; x < w; x++) v[y*w+x] = .35*v[(y-1)*w+x]+.65*v[y*w+x];
	}
	if(kind == 3) { // hard edged blocks and detail
		for(int k = 0; k < 60; k++) { size_t x0 = r.below(w), y0 = r.below(h), x1 = std::min(w,x0+(size_t)r.in(2,20)), y1 = std::min(h,y0+(size_t)r.in(2,20)); double d = r.unit()-.5; for(size_t y = y0; y < y1; y++) for(size_t x = x0; x < x1; x++) v[y*w+x] += d; }
		for(auto& x : v) x = std::min(1.,std::max(0.,x));
	}
	for(size_t i = 0; i < w*h; i++) p.v[i] = round(v[i]*255)/255.;
	return p;
}
static Px enlarge(const Px& s, size_t kx, size_t ky, bool lin) {
	size_t w = s.w*kx, h = s.h*ky; Px p{w,h,vector<float>(w*h)};
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
		if(!lin) { p.v[y*w+x] = s.v[y/ky*s.w+x/kx]; continue; }
		double fx = (x+.5)/kx-.5, fy = (y+.5)/ky-.5, x0 = floor(fx), y0 = floor(fy), ax = fx-x0, ay = fy-y0;
		auto cl = [](double q, size_t n) { return (size_t)(q < 0 ? 0 : q > n-1 ? n-1 : q); };
		auto S = [&](double X, double Y) { return (double)s.v[cl(Y,s.h)*s.w+cl(X,s.w)]; };
		p.v[y*w+x] = (S(x0,y0)*(1-ax)+S(x0+1,y0)*ax)*(1-ay)+(S(x0,y0+1)*(1-ax)+S(x0+1,y0+1)*ax)*ay;
	}
	return p;
}
static bool write_pgm(const char* fn, const Px& p) { FILE* f = fopen(fn,"wb"); if(!f) return false; fprintf(f,"P5\n%zu %zu\n255\n",p.w,p.h); for(float x : p.v) fputc((int)lrintf(x*255),f); return fclose(f) == 0; }
static bool write_pfm(const char* fn, const vector<Px>& fr) { FILE* f = fopen(fn,"wb"); if(!f) return false; for(auto& p : fr) { fprintf(f,"Pf\n%zu %zu\n-1.0\n",p.w,p.h); for(size_t y = p.h; y-- > 0;) fwrite(p.v.data()+y*p.w,4,p.w,f); } return fclose(f) == 0; }
static Out fromfile(Ctx& c, const Api& a, int m, const char* fn, const char* type, const P& p) {
	Out o; RDParameters* q = mkparams(c,a,p); RDResolution* rw = (RDResolution*)0x10,* rh = (RDResolution*)0x10; size_t cw = 7, ch = 7;
	o.e = a.resdetect_file(fn,type,&rw,&cw,&rh,&ch,method(c,a,m),q); free(q); take(c,o,rw,cw,rh,ch,true,true); return o;
}
static void found(Ctx& c, const char* how, const char* dim, const List& l, size_t src, size_t factor) {
	if(factor == 1) return;
	size_t pos = 0; float conf = -2; for(size_t i = 0; i < l.size(); i++) if(l[i].index == src && l[i].confidence >= 0) { pos = i; conf = l[i].confidence; }
	if(conf < .95f) return c.fail("source-not-found","%s: %s %zu (x%zu) has confidence %g: %s",how,dim,src,factor,conf,str(l).c_str());
	for(size_t i = 0; i < l.size() && l[i].confidence > conf; i++) if(l[i].index%src) return c.fail("outranked","%s: %s %zu (%g) outranked by %zu (%g)",how,dim,src,conf,l[i].index,l[i].confidence);
	c.add("sources_recovered");
}
static void c08(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()]; bool lin = r.chance(1,2);
	size_t sw = r.in(84,c.thorough() ? 150 : 130), sh = r.in(84,c.thorough() ? 150 : 130), kx, ky;
	do { kx = r.in(1,4); ky = r.in(1,4); } while(kx*ky == 1 || (lin && (kx == 1 || ky == 1) && false));
	int kind = r.below(4); Px img = enlarge(texture(r,sw,sh,kind),kx,ky,lin); P p;
	for(int m = 0; m < 4; m++) {
		c.what("[%s] source %zux%zu (texture %d) x%zu,%zu %s, method %s",a.name.c_str(),sw,sh,kind,kx,ky,lin ? "linear" : "repeated",METHODS[m]);
		Out o = detect(c,a,m,img,p); if(o.e) { c.fail("detect-error","error %d",o.e); continue; }
		found(c,"bulk","width",o.w,sw,kx); found(c,"bulk","height",o.h,sh,ky);
		Out s = seq(c,a,m,{img},p); if(!same(s,o)) c.fail("sequential-differs","sequential: %s",diff(s,o).c_str());
		if(m == (int)(c.cur%4)) {
			write_pfm("c08.pfm",{img}); Out f = fromfile(c,a,m,"c08.pfm",NULL,p); if(!same(f,o)) c.fail("file-differs","PFM file: %s",diff(f,o).c_str());
			if(!lin) { write_pgm("c08.pgm",img); Out g = fromfile(c,a,m,"c08.pgm",NULL,p); if(g.e) c.fail("file-error","PGM file: %d",g.e); else { found(c,"PGM file","width",g.w,sw,kx); found(c,"PGM file","height",g.h,sh,ky); } }
			c.add("files_detected");
		}
		c.nontrivial(hash_out(o)); if(!m) c.sample("%s -> w: %s h: %s",c.prog->what,str(o.w).c_str(),str(o.h).c_str());
	}
}

// ---- C09 ----------------------------------------------------------------------------------------
// long sequences of small images, drawn from a few
static void c09long(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w = r.in(2,14), h = r.in(2,14); int m = r.below(4); P p = rnd_params(r,w,h,r.chance(1,4)), p0 = p; p0.thr = 0; p0.filt = 0;
	size_t n = r.chance(1,8) ? r.in(65530,66000) : r.chance(1,2) ? r.in(250,600) : r.in(8,140), k = r.in(1,4); if(n > 5000) { w = r.in(2,5); h = r.in(2,5); }
	string kd; vector<Px> f; for(size_t i = 0; i < k; i++) f.push_back(gen(r,w,h,r.below(NK),&kd));
	c.what("[%s] %zux%zu, %zu frames, %s",a.name.c_str(),w,h,n,pstr(m,p).c_str());
	vector<Out> one; for(auto& x : f) { one.push_back(detect(c,a,m,x,p0)); if(one.back().e) return c.fail("detect-error","%d",one.back().e); }
	vector<size_t> cnt(k); vector<uint8_t> pick(n); for(auto& x : pick) { x = r.below(k); cnt[x]++; }
	std::map<size_t,double> mean[2]; for(size_t i = 0; i < k; i++) for(int d = 0; d < 2; d++) for(auto& e : bysize(d ? one[i].h : one[i].w)) mean[d][e.first] += e.second*(double)cnt[i]/n;
	vector<float> all(n*w*h); for(size_t i = 0; i < n; i++) memcpy(&all[i*w*h],f[pick[i]].v.data(),w*h*4);
	auto judge = [&](const Out& o, const char* how) { for(int d = 0; d < 2; d++) { auto got = bysize(d ? o.h : o.w); if(got.size() != mean[d].size()) { c.fail("mean-sizes","%s: %zu vs %zu candidates",how,got.size(),mean[d].size()); continue; } for(auto& e : mean[d]) { c.add("means_compared"); if(!got.count(e.first) || fabs(got[e.first]-e.second) > 2e-6) { c.fail("mean-long","%s: %zu frames: %s %zu has %.9g, the mean is %.9g",how,n,d ? "height" : "width",e.first,got.count(e.first) ? got[e.first] : -1,e.second); break; } } } };
	RDParameters* q = mkparams(c,a,p0); Out o; RDResolution* rw = (RDResolution*)8,* rh = (RDResolution*)8; size_t cw = 5, ch = 5;
	o.e = a.resdetect(all.data(),n,w,h,&rw,&cw,&rh,&ch,method(c,a,m),q); take(c,o,rw,cw,rh,ch,true,true); free(q);
	if(o.e) return c.fail("detect-error","bulk: %d",o.e); judge(o,"bulk");
	RDAnalysis* an = create(c,a,m,w,h,p0); if(!an) return; size_t ask = r.below(n);
	for(size_t i = 0; i < n; i++) { RDError e = a.resdet_analyze_image(an,&all[i*w*h]); if(e) { c.fail("detect-error","frame %zu: %d",i,e); break; } if(i == ask) { Out x = results(c,a,an); if(x.e) c.fail("interim","after %zu images: %d",i+1,x.e); } }
	Out s = results(c,a,an); a.resdet_destroy_analysis(an); if(s.e) c.fail("detect-error","sequential: %d",s.e); else if(!same(s,o)) c.fail("sequential-differs","%zu frames: %s",n,diff(s,o).c_str());
	c.add("long_sequences"); c.add("frames",n); c.nontrivial(hash_out(o)); c.sample("%s",c.prog->what);
}
static void c09(Ctx& c) {
	if(c.cur/c.apis.size()%40 == 39) return c09long(c);
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,c.thorough() ? 110 : 70,w,h); int m = r.below(4); P p = rnd_params(r,w,h,r.chance(1,4)), p0 = p; p0.thr = 0; p0.filt = 0;
	int n = r.in(1,7); vector<Px> f; string k; for(int i = 0; i < n; i++) f.push_back(gen(r,w,h,r.below(NK),&k));
	c.what("[%s] %zux%zu, %d frames, %s",a.name.c_str(),w,h,n,pstr(m,p).c_str());
	size_t range = eff_range(a,m,p); float thr = eff_thr(m,p);
	Out all = bulk(c,a,m,f,p); if(all.e) return c.fail("detect-error","error %d",all.e);
	// mean of the frames
	Out full = bulk(c,a,m,f,p0); std::map<size_t,double> mean[2];
	for(auto& x : f) { Out o = detect(c,a,m,x,p0); for(int d = 0; d < 2; d++) for(auto& e : bysize(d ? o.h : o.w)) mean[d][e.first] += e.second/(double)n; c.add("frames"); }
	for(int d = 0; d < 2; d++) {
		auto got = bysize(d ? full.h : full.w); const char* dim = d ? "height" : "width";
		if(got.size() != mean[d].size()) { c.fail("mean-sizes","%s: %zu vs %zu candidates",dim,got.size(),mean[d].size()); continue; }
		for(auto& e : mean[d]) { c.add("means_compared"); if(!got.count(e.first) || fabs(got[e.first]-e.second) > 1e-6) { c.fail("mean","%s: %zu has %.9g, the mean over the frames is %.9g",dim,e.first,got.count(e.first) ? got[e.first] : -1,e.second); break; } }
		if(!p.filt) { auto lst = bysize(d ? all.h : all.w); for(auto& e : got) { bool in = lst.count(e.first); if(in ? lst[e.first] != e.second || e.second < thr-1e-6 : e.second > thr+1e-6) { c.fail("threshold-list","%s: %zu with %.9g is %slisted at threshold %.9g",dim,e.first,e.second,in ? "" : "not ",thr); break; } } }
	}
	// one by one, with queries and refused images in between
	RDAnalysis* an = create(c,a,m,w,h,p); if(!an) return; size_t refused = 0, queries = 0;
	for(int i = 0; i <= n; i++) {
		while(r.chance(1,3)) {
			Px bad = f[r.below(n)]; size_t at = r.chance(1,3) ? bad.v.size()-1 : r.below(bad.v.size()); bad.v[at] = r.chance(1,3) ? NAN : r.chance(1,2) ? INFINITY : -INFINITY;
			Block b(bad.v.data(),bad.v.size()); RDError e = a.resdet_analyze_image(an,b.p); if(e != RDEINVAL) c.fail("refusal","image with %g at %zu: error %d",bad.v[at],at,e); refused++;
		}
		while(r.chance(1,3)) { Out o = results(c,a,an); queries++; if(o.e != (i ? 0 : RDENOIMG)) c.fail("interim","results after %d images: %d",i,o.e);
			if(i && !o.e && r.chance(1,2)) { Out e = bulk(c,a,m,vector<Px>(f.begin(),f.begin()+i),p); if(!same(o,e)) c.fail("interim-differs","after %d of %d images: %s",i,n,diff(o,e).c_str()); } }
		if(i < n) { Block b(f[i].v.data(),f[i].v.size()); RDError e = a.resdet_analyze_image(an,b.p); if(e) c.fail("detect-error","frame %d: %d",i,e); }
	}
	Out o = results(c,a,an); a.resdet_destroy_analysis(an); c.add("refused",refused); c.add("interim_queries",queries);
	if(!same(o,all)) c.fail("sequential-differs","sequential vs bulk: %s",diff(o,all).c_str());
	// order
	vector<Px> g = f; for(size_t i = g.size(); i > 1; i--) std::swap(g[i-1],g[r.below(i)]);
	Out perm = bulk(c,a,m,g,p0);
	for(int d = 0; d < 2; d++) { auto x = bysize(d ? perm.h : perm.w), y = bysize(d ? full.h : full.w); bool bad = x.size() != y.size(); for(auto& e : y) if(!bad && (!x.count(e.first) || fabs(x[e.first]-e.second) > 1e-6)) bad = true; if(bad) c.fail("order","results depend on the order of the frames"); }
	if(r.chance(1,3)) { write_pfm("c09.pfm",f); Out q = fromfile(c,a,m,"c09.pfm",r.chance(1,2) ? "pfm" : NULL,p); if(!same(q,all)) c.fail("file-differs","file: %s",diff(q,all).c_str()); c.add("files");
		// a refused image in the file fails the whole
		if(r.chance(1,2)) { g = f; g[r.below(n)].v[0] = NAN; write_pfm("c09.pfm",g); q = fromfile(c,a,m,"c09.pfm",NULL,p); if(q.e != RDEINVAL) c.fail("file-refusal","NaN frame in file: %d",q.e); } }
	if(n > 1) { c.nontrivial(hash_out(full)); c.sample("%s (refused %zu, queries %zu) -> w: %s",c.prog->what,refused,queries,str(o.w).c_str()); }
}

// ---- C10 ----------------------------------------------------------------------------------------
struct Guard { // pixels which must not be written, ending right before an unmapped page
	char* m; size_t len; float* p;
	Guard(const vector<float>& v, size_t misalign) { size_t pg = 4096, need = v.size()*4+misalign*4; len = (need+pg-1)/pg*pg; m = (char*)mmap(NULL,len+pg,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); p = (float*)(m+len-v.size()*4-misalign*4); memcpy(p,v.data(),v.size()*4); mprotect(m+len,pg,PROT_NONE); mprotect(m,len,PROT_READ); }
	~Guard() { munmap(m,len+4096); }
};
static void c10(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,c.thorough() ? 160 : 100,w,h); int m = r.below(4); P p = rnd_params(r,w,h,r.chance(1,3));
	int n = r.in(1,3); string k; vector<Px> f; for(int i = 0; i < n; i++) f.push_back(gen(r,w,h,r.below(NK),&k));
	c.what("[%s] %zux%zu %d frames %s %s",a.name.c_str(),w,h,n,k.c_str(),pstr(m,p).c_str());
	Out first = bulk(c,a,m,f,p); if(first.e) return c.fail("detect-error","error %d",first.e);
	if(!same(first,bulk(c,a,m,f,p))) c.fail("repeat","second run differs");
	// other work before and in between; parameters changed and freed after creation; pixels read-only
	RDParameters* q = a.resdet_alloc_default_parameters(); if(!q) return c.fail("params-alloc","NULL");
	if(p.range) a.resdet_parameters_set_range(q,p.range); if(p.thr >= 0) a.resdet_parameters_set_threshold(q,p.thr); if(p.filt) a.resdet_parameters_set_compression_filter(q,p.filt);
	{ // the same parameters, used for several methods
		Kept kept(q); const char* fn = "q.pfm"; bool file = r.chance(1,10); if(file) write_pfm(fn,f);
		for(int i = 0, om = r.below(4); i < 3; i++, om = i == 2 ? m : r.below(4)) { RDResolution* rw,* rh; size_t cw, ch; Out x, y; vector<float> all; for(auto& z : f) all.insert(all.end(),z.v.begin(),z.v.end());
			x.e = file && !i ? a.resdetect_file(fn,NULL,&rw,&cw,&rh,&ch,method(c,a,om),q) : a.resdetect(all.data(),n,w,h,&rw,&cw,&rh,&ch,method(c,a,om),q); take(c,x,rw,cw,rh,ch,true,true); if(!kept.same()) c.fail("params-modified","by method %s",METHODS[om]);
			if(file && !i) continue; P pp = p; y = bulk(c,a,om,f,pp); if(!same(x,y)) c.fail("shared-params","method %s after others with the same parameters: %s",METHODS[om],diff(x,y).c_str()); }
		c.add("shared_parameters"); }
	RDError e; RDAnalysis* an = a.resdet_create_analysis(method(c,a,m),w,h,q,&e); if(!an) { free(q); return c.fail("create-failed","%d",e); }
	bool keep = r.chance(1,2); a.resdet_parameters_set_range(q,r.in(1,50)); a.resdet_parameters_set_threshold(q,r.unit()); a.resdet_parameters_set_compression_filter(q,r.in(0,8)); if(!keep) { free(q); q = NULL; }
	int others = 0;
	for(int i = 0; i < n; i++) {
		while(r.chance(1,2)) { size_t ow, oh; rnd_dims(r,90,ow,oh); if(r.chance(1,4)) { ow = w; oh = h; } int om = r.below(4); P op = rnd_params(r,ow,oh,true); Px x = gen(r,ow,oh,r.below(NK));
			Out z = r.chance(1,2) ? detect(c,a,om,x,op) : seq(c,a,om,{x,x},op); if(z.e) c.fail("detect-error","interleaved %zux%zu: %d",ow,oh,z.e); others++; }
		Guard g(f[i].v,r.below(8)); if((e = a.resdet_analyze_image(an,g.p))) c.fail("detect-error","%d",e);
		while(r.chance(1,3)) { if(r.chance(1,2)) results(c,a,an); else { RDAnalysis* u = create(c,a,r.below(4),r.in(1,40),r.in(1,40),P()); a.resdet_destroy_analysis(u); } }
	}
	Out o = results(c,a,an), o2 = results(c,a,an); a.resdet_destroy_analysis(an); free(q);
	if(!same(o,first)) c.fail("interleaved","differs after other analyses: %s",diff(o,first).c_str());
	if(!same(o,o2)) c.fail("requery","second query differs");
	// in a fresh process image the answer is the same (the library has no hidden history)
	if(r.chance(1,8)) {
		int fd[2]; if(pipe(fd) == 0) { fflush(NULL); pid_t pid = fork(); if(!pid) { close(fd[0]); Out z = bulk(c,a,m,f,p); uint64_t hs = hash_out(z); ssize_t k = write(fd[1],&hs,8); (void)k; _exit(0); }
			close(fd[1]); uint64_t hs = 0; ssize_t k = read(fd[0],&hs,8); close(fd[0]); int st; waitpid(pid,&st,0); if(k != 8 || hs != hash_out(first)) c.fail("fork","differs in a child process"); c.add("children"); }
	}
	c.add("interleaved_analyses",others); c.add("runs_compared",4); if(first.w.size()+first.h.size() > 2) { c.nontrivial(hash_out(first)); c.sample("%s, %d other analyses in between -> w: %s",c.prog->what,others,str(first.w).c_str()); }
}

// ---- C11 ----------------------------------------------------------------------------------------
static void c11(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,c.thorough() ? 256 : 130,w,h); int m = r.below(4); P p = rnd_params(r,w,h); p.filt = 0; if(r.chance(2,3)) p.thr = 0; if(r.chance(1,3)) { w = std::min<size_t>(256,(w+7)/8*8); }
	int n = r.in(1,2); vector<Px> f; string k; for(int i = 0; i < n; i++) f.push_back(gen(r,w,h,r.below(NK),&k));
	int v = r.chance(1,10) ? 0 : r.chance(4,5) ? r.in(1,6) : r.in(7,31);
	c.what("[%s] %zux%zu x%d filter %d %s",a.name.c_str(),w,h,n,v,pstr(m,p).c_str());
	Out base = bulk(c,a,m,f,p); P pf = p; pf.filt = v; Out o;
	if(v) o = r.chance(1,2) ? bulk(c,a,m,f,pf) : seq(c,a,m,f,pf);
	else { // a value of 0 set explicitly
		RDParameters* q = a.resdet_alloc_default_parameters(); RDError e; if(p.range) a.resdet_parameters_set_range(q,p.range); if(p.thr >= 0) a.resdet_parameters_set_threshold(q,p.thr);
		a.resdet_parameters_set_compression_filter(q,3); if((e = a.resdet_parameters_set_compression_filter(q,0))) c.fail("set-filter","0: %d",e);
		vector<float> all; for(auto& x : f) all.insert(all.end(),x.v.begin(),x.v.end()); RDResolution* rw,* rh; size_t cw, ch; o.e = a.resdetect(all.data(),n,w,h,&rw,&cw,&rh,&ch,method(c,a,m),q); free(q); take(c,o,rw,cw,rh,ch,true,true);
	}
	if(base.e || o.e) return c.fail("detect-error","%d %d",base.e,o.e);
	size_t range = eff_range(a,m,p);
	for(int d = 0; d < 2; d++) {
		const char* dim = d ? "height" : "width"; size_t len = d ? h : w; auto& L = d ? o.h : o.w; auto& B = d ? base.h : base.w;
		if(L.empty() || L.back().index != len || L.back().confidence != -1) { c.fail("input-size","%s: the input size is missing: %s",dim,str(L).c_str()); continue; }
		for(size_t i = 0; i+1 < L.size(); i++) if(L[i].confidence < L[i+1].confidence) { c.fail("not-sorted","%s: not sorted",dim); break; }
		std::map<size_t,float> x = bysize(L), y = bysize(B);
		if(x.size() != L.size()-1) { c.fail("duplicate","%s: duplicate entries",dim); continue; }
		bool bad = false; for(auto& e : x) if(!y.count(e.first) || y[e.first] != e.second) { c.fail("not-subset","%s: %zu:%g is not among the unfiltered results",dim,e.first,e.second); bad = true; break; }
		if(bad) continue;
		if(!v) { if(x.size() != y.size()) c.fail("zero-filters","%s: a value of 0 removed results",dim); continue; }
		// documented: what is removed are the multiples of length/2^v, to the nearest pixel
		bool asdoc = true, asknown = true; size_t wit = 0;
		for(auto& e : y) {
			bool kept = x.count(e.first); double step = ldexp((double)len,-v), q = e.first/step, near = fabs(q-round(q))*step;
			if(kept ? near < 1e-6 : near > .5+1e-6) { asdoc = false; wit = e.first; }
			uint64_t i = e.first-range; if(kept != (v < 31 ? i%(1ull<<v) == 0 : i%(1ull<<v) == 0)) asknown = false;
		}
		c.add("entries",y.size()); c.add("removed",y.size()-x.size());
		if(!asdoc) {
			if(asknown) { c.add("known_offset_multiples"); c.fail("filter-keeps-multiples-of-2^v-from-lower-bound","%s %zu: %zu of %zu entries kept, e.g. wrong for %zu",dim,len,x.size(),y.size(),wit); }
			else c.fail("filter-set","%s %zu, value %d: removed set is neither the documented one nor the known deviation, e.g. %zu; kept %s",dim,len,v,wit,str(L).c_str());
		}
		else c.add("as_documented");
		if(y.size()) c.nontrivial(mix(hash_out(o),len*64+v));
	}
	c.sample("%s -> w: %s",c.prog->what,str(o.w).c_str());
}

// ---- C12 ----------------------------------------------------------------------------------------
#define EXPECT(key,got,want,...) do { RDError g_ = (got); c.add("refusals_checked"); if(g_ != (want)) { char t_[300]; snprintf(t_,sizeof t_,__VA_ARGS__); c.fail(key,"%s: error %d, expected %d",t_,g_,(int)(want)); } } while(0)
static void c12(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,40,w,h); int m = r.below(4); size_t lim = a.pixel_max;
	if(w*h > lim) { w = 1+w%(size_t)sqrt((double)lim); h = 1+h%std::max<size_t>(1,lim/w); while(w*h > lim) h = 1; }
	Px f = gen(r,w,h,r.below(3)); RDMethod* M = r.chance(1,3) ? NULL : method(c,a,m);
	c.what("[%s] %zux%zu %s",a.name.c_str(),w,h,METHODS[m]);
	RDResolution* const JW = (RDResolution*)0x10; RDResolution* rw,* rh; size_t cw, ch;
	#define RESET() (rw = rh = JW, cw = ch = 99)
	#define NULLED(key,W,CW,H,CH) do { if((W && rw) || (CW && cw) || (H && rh) || (CH && ch) || (!(W) && rw != JW) || (!(CW) && cw != 99) || (!(H) && rh != JW) || (!(CH) && ch != 99)) c.fail(key,"outputs after refusal: %p %zu %p %zu",(void*)rw,cw,(void*)rh,ch); } while(0)
	// a pointer without a count
	for(int k = 0; k < 3; k++) {
		bool nw = k != 1, nh = k != 0; // which counts are missing
		RESET(); EXPECT("missing-count",a.resdetect(f.v.data(),1,w,h,&rw,nw ? NULL : &cw,&rh,nh ? NULL : &ch,M,NULL),RDEPARAM,"resdetect without count (%d)",k); NULLED("missing-count-outputs",1,!nw,1,!nh);
		RESET(); EXPECT("missing-count",a.resdetect_file("/nonexistent/x.pgm",NULL,&rw,nw ? NULL : &cw,&rh,nh ? NULL : &ch,M,NULL),RDEPARAM,"resdetect_file without count (%d)",k); NULLED("missing-count-outputs",1,!nw,1,!nh);
	}
	RESET(); EXPECT("null-image",a.resdetect(NULL,1,w,h,&rw,&cw,&rh,&ch,M,NULL),RDEPARAM,"resdetect(NULL)"); NULLED("null-image-outputs",1,1,1,1);
	RESET(); EXPECT("no-images",a.resdetect(f.v.data(),0,w,h,&rw,&cw,&rh,&ch,M,NULL),RDENOIMG,"resdetect of 0 images"); NULLED("no-images-outputs",1,1,1,1);
	size_t zw = r.chance(1,2) ? 0 : w, zh = zw ? 0 : r.chance(1,2) ? 0 : h;
	RESET(); EXPECT("zero-dims",a.resdetect(f.v.data(),1,zw,zh,&rw,&cw,&rh,&ch,M,NULL),RDEINVAL,"resdetect %zux%zu",zw,zh); NULLED("zero-dims-outputs",1,1,1,1);
	RESET(); EXPECT("null-filename",a.resdetect_file(NULL,r.chance(1,2) ? "pgm" : NULL,&rw,&cw,&rh,&ch,M,NULL),RDEPARAM,"resdetect_file(NULL)"); NULLED("null-filename-outputs",1,1,1,1);
	RESET(); EXPECT("enoent",a.resdetect_file("does-not-exist.pgm",NULL,&rw,&cw,&rh,&ch,M,NULL),-ENOENT,"resdetect_file of a missing file"); NULLED("enoent-outputs",1,1,1,1);
	RESET(); EXPECT("unsupported",a.resdetect_file("x.pgm","no/such",&rw,&cw,&rh,&ch,M,NULL),c.opt["generic"] == "1" ? a.resdetect_file("does-not-exist.pgm",NULL,NULL,NULL,NULL,NULL,M,NULL) : RDEUNSUPP,"resdetect_file of an unsupported type"); NULLED("unsupported-outputs",1,1,1,1);
	// analysis
	RDError e = 44; RDAnalysis* an;
	an = a.resdet_create_analysis(M,zw,zh,NULL,&e); EXPECT("create-zero",e,RDEINVAL,"create %zux%zu",zw,zh); if(an) c.fail("create-zero","not NULL");
	if(a.resdet_create_analysis(M,zw,zh,NULL,NULL)) c.fail("create-zero","not NULL without error pointer");
	an = a.resdet_create_analysis(M,w,h,NULL,NULL); if(!an) { c.fail("create-noerror","creating without an error pointer failed"); return; } a.resdet_destroy_analysis(an);
	an = a.resdet_create_analysis(M,w,h,NULL,&e); EXPECT("create",e,RDEOK,"create %zux%zu",w,h); if(!an) return;
	RESET(); EXPECT("results-noimg",a.resdet_analysis_results(an,&rw,&cw,&rh,&ch),RDENOIMG,"results without images"); NULLED("results-noimg-outputs",1,1,1,1);
	RESET(); EXPECT("results-count",a.resdet_analysis_results(an,&rw,NULL,&rh,&ch),RDEPARAM,"results without width count"); NULLED("results-count-outputs",1,0,1,1);
	RESET(); EXPECT("results-count",a.resdet_analysis_results(an,&rw,&cw,&rh,NULL),RDEPARAM,"results without height count"); NULLED("results-count-outputs",1,1,1,0);
	RESET(); EXPECT("results-null",a.resdet_analysis_results(NULL,&rw,&cw,&rh,&ch),RDEPARAM,"results of NULL"); NULLED("results-null-outputs",1,1,1,1);
	EXPECT("analyze-null",a.resdet_analyze_image(NULL,f.v.data()),RDEPARAM,"analyze without analysis"); EXPECT("analyze-null",a.resdet_analyze_image(an,NULL),RDEPARAM,"analyze without image");
	RESET(); EXPECT("results-noimg",a.resdet_analysis_results(an,&rw,&cw,&rh,&ch),RDENOIMG,"results after refusals");
	EXPECT("analyze",a.resdet_analyze_image(an,f.v.data()),RDEOK,"analyze");
	// every combination of present and absent outputs
	for(int k = 0; k < 16; k++) { // a count without a list is fine
		bool W = k&1, CW = k&2, H = k&4, CH = k&8; RESET(); RDError want = (W && !CW) || (H && !CH) ? RDEPARAM : RDEOK;
		e = a.resdet_analysis_results(an,W ? &rw : NULL,CW ? &cw : NULL,H ? &rh : NULL,CH ? &ch : NULL); EXPECT("results-combination",e,want,"results with outputs %d",k);
		if(!e) { if((W && (!rw || !cw)) || (H && (!rh || !ch)) || (!W && CW && cw) || (!H && CH && ch)) c.fail("results-combination","outputs %d: %p %zu %p %zu",k,(void*)rw,cw,(void*)rh,ch); if(W) free(rw); if(H) free(rh); } else NULLED("results-combination-outputs",W,CW,H,CH);
		RESET(); e = a.resdetect(f.v.data(),1,w,h,W ? &rw : NULL,CW ? &cw : NULL,H ? &rh : NULL,CH ? &ch : NULL,M,NULL); EXPECT("resdetect-combination",e,want,"resdetect with outputs %d",k);
		if(!e) { if((W && (!rw || !cw)) || (H && (!rh || !ch)) || (!W && CW && cw) || (!H && CH && ch)) c.fail("resdetect-combination","outputs %d",k); if(W) free(rw); if(H) free(rh); } else NULLED("resdetect-combination-outputs",W,CW,H,CH);
	}
	a.resdet_destroy_analysis(an); a.resdet_destroy_analysis(NULL); a.resdet_close_image(NULL);
	// parameters: refused values change nothing, accepted ones take effect
	RDParameters* q = a.resdet_alloc_default_parameters(), * d = a.resdet_alloc_default_parameters(); if(!q || !d) return c.fail("params-alloc","NULL");
	P p; p.range = r.in(1,12); p.thr = r.below(1025)/1024.f; p.filt = r.in(1,6);
	EXPECT("set-range",a.resdet_parameters_set_range(q,p.range),RDEOK,"range %zu",p.range); EXPECT("set-threshold",a.resdet_parameters_set_threshold(q,p.thr),RDEOK,"threshold %g",p.thr); EXPECT("set-filter",a.resdet_parameters_set_compression_filter(q,p.filt),RDEOK,"filter %d",p.filt);
	auto det = [&](RDParameters* x) { Out o; o.e = a.resdetect(f.v.data(),1,w,h,&rw,&cw,&rh,&ch,M,x); take(c,o,rw,cw,rh,ch,true,true); return o; };
	Out before = det(q), def = det(d), none = det(NULL); if(!same(def,none)) c.fail("default-params","default parameters differ from none: %s",diff(def,none).c_str());
	float badthr[] = {-1,-.001f,1.0001f,nextafterf(1,2),-nextafterf(0,1),2,INFINITY,-INFINITY,NAN,-NAN,(float)(1+r.unit()*100+1e-3),(float)-(r.unit()*100+1e-3)};
	for(float t : badthr) EXPECT("bad-threshold",a.resdet_parameters_set_threshold(q,t),RDEPARAM,"threshold %g",t);
	EXPECT("bad-range",a.resdet_parameters_set_range(q,0),RDEPARAM,"range 0");
	for(int v = 32; v < 256; v += r.in(1,40)) EXPECT("bad-filter",a.resdet_parameters_set_compression_filter(q,v),RDEPARAM,"filter %d",v);
	EXPECT("bad-filter",a.resdet_parameters_set_compression_filter(q,32),RDEPARAM,"filter 32"); EXPECT("bad-filter",a.resdet_parameters_set_compression_filter(q,255),RDEPARAM,"filter 255");
	EXPECT("null-params",a.resdet_parameters_set_range(NULL,3),RDEPARAM,"range of NULL"); EXPECT("null-params",a.resdet_parameters_set_threshold(NULL,.5),RDEPARAM,"threshold of NULL"); EXPECT("null-params",a.resdet_parameters_set_compression_filter(NULL,3),RDEPARAM,"filter of NULL");
	for(float t : badthr) a.resdet_parameters_set_threshold(d,t); a.resdet_parameters_set_range(d,0); a.resdet_parameters_set_compression_filter(d,32+r.below(200)); Out def2 = det(d); if(!same(def,def2)) c.fail("params-changed","refused values changed default parameters: %s",diff(def,def2).c_str());
	Out after = det(q); if(!same(before,after)) c.fail("params-changed","refused values changed the parameters: %s",diff(before,after).c_str());
	for(float t : {0.f,1.f,-0.f,1e-30f}) EXPECT("good-threshold",a.resdet_parameters_set_threshold(q,t),RDEOK,"threshold %g",t);
	for(int v : {0,1,31}) { EXPECT("good-filter",a.resdet_parameters_set_compression_filter(q,v),RDEOK,"filter %d",v); Out o = det(q); if(o.e) c.fail("good-filter","filter %d: detection failed: %d",v,o.e); }
	for(size_t v : {(size_t)1,SIZE_MAX,SIZE_MAX/2,(size_t)1<<32}) { EXPECT("good-range",a.resdet_parameters_set_range(q,v),RDEOK,"range %zu",v); Out o = det(q); if(o.e) c.fail("good-range","range %zu: detection failed: %d",v,o.e); }
	free(q); free(d);
	// size limits
	size_t over[][2] = {{SIZE_MAX,SIZE_MAX},{SIZE_MAX,2},{2,SIZE_MAX},{SIZE_MAX/2+1,2},{(size_t)1<<32,(size_t)1<<32},{(size_t)1<<62,1},{1,(size_t)1<<62},{SIZE_MAX/16+1,16}};
	for(auto& x : over) { RESET(); EXPECT("overflow",a.resdetect(f.v.data(),1,x[0],x[1],&rw,&cw,&rh,&ch,M,NULL),RDETOOBIG,"%zux%zu",x[0],x[1]); NULLED("overflow-outputs",1,1,1,1); e = 9; if(a.resdet_create_analysis(M,x[0],x[1],NULL,&e)) c.fail("overflow","create not NULL"); EXPECT("overflow",e,RDETOOBIG,"create %zux%zu",x[0],x[1]); }
	if(lim < 10000000) {
		vector<std::pair<size_t,size_t>> ok, no; for(size_t x = 1; x <= lim; x++) if(r.chance(1,std::max<size_t>(1,lim/20))) { ok.push_back({x,lim/x}); no.push_back({x,lim/x+1}); } ok.push_back({lim,1}); ok.push_back({1,lim}); no.push_back({lim+1,1}); no.push_back({1,lim+1}); no.push_back({lim,2});
		vector<float> big(2*lim+1,.5f);
		for(auto& x : ok) { c.what("[%s] at limit: %zux%zu of %zu",a.name.c_str(),x.first,x.second,lim); RESET(); EXPECT("at-limit",a.resdetect(big.data(),1,x.first,x.second,&rw,&cw,&rh,&ch,M,NULL),RDEOK,"%zux%zu of %zu",x.first,x.second,lim); if(rw != JW) free(rw); if(rh != JW) free(rh); c.add("limit_accepted"); }
		for(auto& x : no) { RESET(); EXPECT("over-limit",a.resdetect(big.data(),1,x.first,x.second,&rw,&cw,&rh,&ch,M,NULL),RDETOOBIG,"%zux%zu of %zu",x.first,x.second,lim); NULLED("over-limit-outputs",1,1,1,1); c.add("limit_refused"); }
		// files at and over the limit, in total as well as per frame
		size_t fw = r.in(1,std::min<size_t>(lim,30)), fh = lim/fw; bool exact = r.chance(1,2); if(!exact) fh++; if(fw*fh < 4000) {
			Px im{fw,fh,vector<float>(fw*fh)}; for(size_t i = 0; i < im.v.size(); i++) im.v[i] = (i%256)/255.f; c.what("[%s] file %zux%zu of %zu",a.name.c_str(),fw,fh,lim);
			for(int t = 0; t < 2; t++) { const char* fn = t ? "l.pfm" : "l.pgm"; if(t) write_pfm(fn,{im}); else write_pgm(fn,im); float* b = (float*)8; size_t gw = 5, gh = 5, n = 5; RDError want = fw*fh <= lim ? RDEOK : RDETOOBIG;
				e = 7; RDImage* im2 = a.resdet_open_image(fn,NULL,&gw,&gh,&b,&e); EXPECT("file-limit",e,want,"open %s %zux%zu of %zu",fn,fw,fh,lim); if(e && (im2 || b || gw || gh)) c.fail("file-limit-outputs","%p %p %zu %zu",(void*)im2,(void*)b,gw,gh); if(!e) { if(gw != fw || gh != fh) c.fail("file-dims","%zux%zu",gw,gh); free(b); a.resdet_close_image(im2); }
				b = (float*)8; n = 5; e = a.resdet_read_image(fn,NULL,&b,&n,&gw,&gh); EXPECT("file-limit",e,want,"read %s %zux%zu of %zu",fn,fw,fh,lim); if(e) { if(b) c.fail("file-limit-outputs","buffer on error"); } else { if(n != 1) c.fail("file-limit","%zu frames",n); free(b); } c.add("limit_files"); } }
		// a sequence exactly filling the limit is read, one more frame is too big
		size_t sw = r.in(1,20), sh = r.in(1,20); size_t cap = lim/(sw*sh); if(cap && cap*sw*sh < 4000 && cap < 200) { vector<Px> s; for(size_t i = 0; i < cap; i++) { Px q2{sw,sh,vector<float>(sw*sh,(float)i)}; s.push_back(q2); } size_t gw, gh, n; float* b;
			c.what("[%s] sequence of %zu %zux%zu, limit %zu",a.name.c_str(),cap,sw,sh,lim);
			write_pfm("s.pfm",s); e = a.resdet_read_image("s.pfm",NULL,&b,&n,&gw,&gh); EXPECT("sequence-limit",e,RDEOK,"%zu frames of %zux%zu, limit %zu",cap,sw,sh,lim); if(!e) { if(n != cap) c.fail("sequence-limit","%zu of %zu frames",n,cap); free(b); }
			s.push_back(s[0]); write_pfm("s.pfm",s); b = (float*)8; e = a.resdet_read_image("s.pfm",NULL,&b,&n,&gw,&gh); EXPECT("sequence-over",e,RDETOOBIG,"%zu frames of %zux%zu, limit %zu",cap+1,sw,sh,lim); if(e ? b != NULL : true) c.fail("sequence-over","buffer returned"); if(!e) free(b);
			RESET(); EXPECT("sequence-detect",a.resdetect_file("s.pfm",NULL,&rw,&cw,&rh,&ch,M,NULL),RDEOK,"detecting frame by frame"); if(rw != JW) free(rw); if(rh != JW) free(rh); c.add("limit_sequences"); }
	}
	// readers
	size_t gw = 5, gh = 5; float* b = (float*)8; e = 9;
	if(a.resdet_open_image(NULL,"pgm",&gw,&gh,&b,&e)) c.fail("open-null","not NULL"); EXPECT("open-null",e,RDEPARAM,"open_image(NULL)"); if(gw || gh || b) c.fail("open-null-outputs","%zu %zu %p",gw,gh,(void*)b);
	b = (float*)8; gw = gh = 5; a.resdet_open_image("x.pgm",NULL,NULL,&gh,&b,&e); EXPECT("open-nodims",e,RDEPARAM,"open without width"); if(gh || b) c.fail("open-nodims-outputs","%zu %p",gh,(void*)b);
	b = (float*)8; gw = gh = 5; a.resdet_open_image("x.pgm",NULL,&gw,NULL,&b,&e); EXPECT("open-nodims",e,RDEPARAM,"open without height"); if(gw || b) c.fail("open-nodims-outputs","%zu %p",gw,(void*)b);
	b = (float*)8; gw = gh = 5; a.resdet_open_image_with_reader(NULL,"PGM",&gw,&gh,&b,&e); EXPECT("openr-null",e,RDEPARAM,"open_with_reader(NULL)"); if(gw || gh || b) c.fail("openr-null-outputs","");
	b = (float*)8; gw = gh = 5; a.resdet_open_image_with_reader("x.pgm",NULL,&gw,&gh,&b,&e); EXPECT("openr-null",e,RDEPARAM,"open_with_reader without reader"); if(gw || gh || b) c.fail("openr-null-outputs","");
	b = (float*)8; gw = gh = 5; a.resdet_open_image_with_reader("x.pgm","PGM",NULL,&gh,&b,&e); EXPECT("openr-nodims",e,RDEPARAM,"open_with_reader without width"); if(gh || b) c.fail("openr-nodims-outputs","");
	b = (float*)8; gw = gh = 5; a.resdet_open_image_with_reader("x.pgm","PGM",&gw,NULL,&b,&e); EXPECT("openr-nodims",e,RDEPARAM,"open_with_reader without height"); if(gw || b) c.fail("openr-nodims-outputs","");
	b = (float*)8; gw = gh = 5; a.resdet_open_image("missing.pfm",NULL,&gw,&gh,&b,&e); EXPECT("open-missing",e,-ENOENT,"open of a missing file"); if(gw || gh || b) c.fail("open-missing-outputs","");
	a.resdet_open_image("missing.pfm",NULL,&gw,&gh,NULL,NULL); a.resdet_open_image_with_reader("missing.pfm","PFM",&gw,&gh,NULL,NULL);
	e = 9; float tmp[4]; if(a.resdet_read_image_frame(NULL,tmp,&e)) c.fail("read-null","true"); EXPECT("read-null",e,RDEPARAM,"read_image_frame(NULL)"); e = 9; if(a.resdet_seek_frame(NULL,1,NULL,NULL,&e)) c.fail("seek-null","true"); EXPECT("seek-null",e,RDEPARAM,"seek_frame(NULL)");
	a.resdet_read_image_frame(NULL,tmp,NULL); a.resdet_seek_frame(NULL,0,NULL,NULL,NULL);
	if(w*h <= lim) { write_pgm("ok.pgm",f); RDImage* im = a.resdet_open_image("ok.pgm",NULL,&gw,&gh,NULL,&e); EXPECT("open-nobuf",e,RDEOK,"open without a buffer"); if(im) { e = 9; if(a.resdet_read_image_frame(im,NULL,&e)) c.fail("read-nobuf","true"); EXPECT("read-nobuf",e,RDEPARAM,"read without a buffer"); float* px = (float*)malloc(gw*gh*4); if(!a.resdet_read_image_frame(im,px,NULL)) c.fail("read-noerror","reading without an error pointer failed"); free(px); a.resdet_close_image(im); } }
	c.nontrivial(mix(w*1000+h,m*7+(M == NULL)+c.cur%c.apis.size()*31)); c.sample("%s: all refusals as documented",c.prog->what);
}

// ---- C13 ----------------------------------------------------------------------------------------
// lists equal except where the reference says rounding may decide
static void sym_cmp(Ctx& c, const char* what, const char* dim, const List& A, const List& B, const vector<Iv>& s1, const vector<Iv>& s2, size_t range, size_t skip_upto = 0) {
	auto x = bysize(A), y = bysize(B);
	if(x.size() != y.size()) return c.fail(string("sym-")+what,"%s: %zu vs %zu candidates",dim,x.size(),y.size());
	for(auto& e : x) {
		size_t i = e.first-range; if(e.first <= skip_upto) continue; if(!y.count(e.first) || i >= s1.size()) return c.fail(string("sym-")+what,"%s: %zu missing",dim,e.first);
		double slack = std::max(s1[i].hi,s2[i].hi)-std::min(s1[i].lo,s2[i].lo);
		// both must lie within what rounding allows; where it allows nothing they are equal
		c.add("candidates_compared"); if(slack == 0) c.add("candidates_exact");
		if(fabs(e.second-y[e.first]) > slack+1e-6) return c.fail(string("sym-")+what,"%s: %zu has %.9g vs %.9g (rounding allows %.3g)",dim,e.first,e.second,y[e.first],slack);
	}
}
static void c13(Ctx& c) {
	Rng r = c.rng(); const Api& a = c.apis[c.cur%c.apis.size()];
	size_t w, h; rnd_dims(r,c.thorough() ? 110 : 72,w,h); int m = r.below(4); P p; p.thr = 0; if(r.chance(2,3)) p.range = r.in(1,std::max<size_t>(1,std::min<size_t>(24,std::min(w,h)/2)));
	string k; int kind; do kind = r.below(NK); while(kind == 11); Px f = gen(r,w,h,kind,&k);
	for(auto& x : f.v) x = rintf(x*4096)/4096; // so that constants can be added exactly
	size_t range = eff_range(a,m,p); Ref R = dct(f); auto iw = ref_conf(R,false,m,range,a.eps,a.ieps), ih = ref_conf(R,true,m,range,a.eps,a.ieps);
	c.what("[%s] %zux%zu %s %s",a.name.c_str(),w,h,k.c_str(),pstr(m,p).c_str());
	Out o = detect(c,a,m,f,p); if(o.e) return c.fail("detect-error","%d",o.e);
	{ float s = ldexpf(r.chance(1,2) ? 1 : -1,r.chance(1,2) ? r.in(-8,8) : r.in(-100,90)); Px g = f; for(auto& x : g.v) x *= s; Out q = detect(c,a,m,g,p); Ref R2 = R; for(auto& x : R2.F) x *= s; R2.norm *= fabs(s); auto jw = ref_conf(R2,false,m,range,a.eps,a.ieps), jh = ref_conf(R2,true,m,range,a.eps,a.ieps); sym_cmp(c,"scale","width",o.w,q.w,iw,jw,range); sym_cmp(c,"scale","height",o.h,q.h,ih,jh,range); }
	{ Px g = f; for(auto& x : g.v) x = -x; Out q = detect(c,a,m,g,p); sym_cmp(c,"negate","width",o.w,q.w,iw,iw,range); sym_cmp(c,"negate","height",o.h,q.h,ih,ih,range); }
	{ Px g{h,w,vector<float>(w*h)}; for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) g.v[x*h+y] = f.v[y*w+x]; Out q = detect(c,a,m,g,p); sym_cmp(c,"transpose","width",o.w,q.h,iw,iw,range); sym_cmp(c,"transpose","height",o.h,q.w,ih,ih,range); }
	{ Px g = f; for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) g.v[(h-1-y)*w+x] = f.v[y*w+x]; Out q = detect(c,a,m,g,p); sym_cmp(c,"vflip","width",o.w,q.w,iw,iw,range); if(m != 3) sym_cmp(c,"vflip","height",o.h,q.h,ih,ih,range); }
	{ Px g = f; for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) g.v[y*w+w-1-x] = f.v[y*w+x]; Out q = detect(c,a,m,g,p); sym_cmp(c,"hflip","height",o.h,q.h,ih,ih,range); if(m != 3) sym_cmp(c,"hflip","width",o.w,q.w,iw,iw,range); }
	{ float k2 = r.in(-8,8)/4.f; Px g = f; for(auto& x : g.v) x += k2; Out q = detect(c,a,m,g,p); Ref R2 = R; R2.F[0] += 4.L*k2*w*h; ld n = 0; for(auto x : R2.F) n += x*x; R2.norm = sqrtl(n); auto jw = ref_conf(R2,false,m,range,a.eps,a.ieps), jh = ref_conf(R2,true,m,range,a.eps,a.ieps); sym_cmp(c,"constant","width",o.w,q.w,iw,jw,range,range); sym_cmp(c,"constant","height",o.h,q.h,ih,jh,range,range); }
	c.add("transformations",6); if(o.w.size()+o.h.size() > 3) { c.nontrivial(hash_out(o)); c.sample("%s -> w: %s",c.prog->what,str(o.w).c_str()); }
}

int main(int argc, char** argv) {
	static std::map<string,void(*)(Ctx&)> modes = {{"c02",c02},{"c06",c06},{"c07",c07},{"c08",c08},{"c09",c09},{"c10",c10},{"c11",c11},{"c12",c12},{"c13",c13},{"c14",c14}};
	return drive(argc,argv,[](Ctx& c) { if(!modes.count(c.mode) || c.apis.empty()) { fprintf(stderr,"HARNESS mode\n"); _exit(3); } },[](Ctx& c) { modes[c.mode](c); });
}
