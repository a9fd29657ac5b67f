// Generators of image files together with the frames they hold.
#pragma once
#include "common.hpp"
#include <png.h>
#include <jpeglib.h>
#include <zlib.h>
#include <setjmp.h>

typedef vector<float> Frame;
struct File {
	string bytes, ext, mime, desc; size_t w = 0, h = 0; vector<Frame> frames; double tol = 0;
	size_t header = 0;             // bytes before the first frame's samples (for PFM and Y4M: before the first frame)
	vector<std::pair<size_t,size_t>> span;  // luma/sample bytes of every frame: [begin, end); what follows up to the next frame is chroma or nothing
	vector<size_t> end;            // end of every frame including chroma
};
inline void num(string& s, const char* f, ...) { char b[200]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); s += b; }
inline size_t fdim(Rng& r, size_t big) { switch(r.below(6)) { case 0: return r.in(1,4); case 1: return r.in(1,big); case 2: return 1u<<r.in(0,5); default: return r.in(1,24); } }
// plain headers, for readers which guess the format from them
static bool canonical = false;
struct Canon { bool old = canonical; Canon() { canonical = true; } ~Canon() { canonical = old; } };
inline string ws(Rng& r) { if(canonical) return "\n"; static const char* w[] = {" ","\n","\t","  "," \n","\r\n","\n\t "}; return r.chance(2,3) ? (r.chance(1,2) ? " " : "\n") : w[r.below(7)]; }
inline string comments(Rng& r) { string s; if(canonical) return s; int n = r.chance(1,3) ? r.in(1,3) : 0; while(n--) { s += "#"; for(int k = r.in(0,30); k > 0; k--) s += (char)(r.chance(1,8) ? "#P5 \t9"[r.below(6)] : r.in(32,126)); s += "\n"; } return s; }

// a decimal number, sometimes with leading zeros
inline string dec(Rng& r, size_t n) { return (canonical || !r.chance(1,10) ? "" : string(r.in(1,3),'0'))+std::to_string(n); }
inline File gen_pgm(Rng& r, size_t w, size_t h) {
	File f; f.ext = "pgm"; f.mime = "image/x-portable-graymap"; f.w = w; f.h = h; unsigned max = canonical || r.chance(1,2) ? 255 : r.in(1,255);
	string& s = f.bytes; s = "P5" + ws(r) + comments(r); s += dec(r,w)+ws(r)+dec(r,h)+ws(r)+dec(r,max); s += canonical ? '\n' : " \n\t\r"[r.below(4)];
	f.header = s.size(); Frame fr(w*h); for(auto& x : fr) { unsigned v = r.in(0,max); s += (char)v; x = v/(float)max; }
	f.frames.push_back(fr); f.span.push_back({f.header,s.size()}); f.end.push_back(s.size()); f.tol = 1e-6; num(f.desc,"PGM %zux%zu max %u",w,h,max); return f;
}
inline void put32(string& s, float v, bool le) { unsigned char b[4]; memcpy(b,&v,4); if(!le) { std::swap(b[0],b[3]); std::swap(b[1],b[2]); } s.append((char*)b,4); }
// special: NaN and infinity among the samples
inline File gen_pfm(Rng& r, size_t w, size_t h, size_t n, bool mixed = true, bool special = false, int force = 0) {
	File f; f.ext = "pfm"; f.mime = "image/x-portable-floatmap"; f.w = w; f.h = h; string& s = f.bytes; int fmt = r.below(2), le = r.below(2);
	bool mix = mixed && r.chance(1,2);
	if(force == 1) fmt = 0; // grayscale only
	for(size_t k = 0; k < n; k++) {
		if(mix && k) { if(force != 1) fmt = r.below(2); le = r.below(2); }
		s += fmt ? "PF" : "Pf"; s += ws(r) + comments(r); static const char* mag[] = {"1","1.0","1.000000","0.5","2.25","1e3","+1.0"}; const char* m = mag[canonical ? 1 : r.below(le ? 6 : 7)];
		s += dec(r,w)+ws(r)+dec(r,h)+ws(r)+(le ? "-" : "")+m; s += canonical ? '\n' : "\n \t"[r.below(3)];
		if(!k) f.header = s.size();
		size_t b = s.size(); Frame fr(w*h);
		for(size_t y = h; y-- > 0;) for(size_t x = 0; x < w; x++) {
			float v[3]; for(auto& q : v) { q = !canonical && r.chance(1,8) ? ldexpf(r.unit()-.5,r.in(-30,30)) : r.unit(); if(special && r.chance(1,6)) { uint32_t u = r.chance(1,3) ? 0x7fc00000|(r.next()&0x3fffff) : r.chance(1,2) ? 0x7f800000 : 0x80000000; memcpy(&q,&u,4); } }
			put32(s,v[0],le); if(fmt) { put32(s,v[1],le); put32(s,v[2],le); }
			fr[y*w+x] = fmt ? (v[0]+v[1]+v[2])/3 : v[0];
		}
		f.frames.push_back(fr); f.span.push_back({b,s.size()}); f.end.push_back(s.size());
	}
	f.tol = mix || fmt ? 2e-6 : 0; num(f.desc,"PFM %zux%zu x%zu %s%s%s",w,h,n,mix ? "mixed" : fmt ? "RGB" : "gray",le ? " le" : " be",special ? " special" : ""); return f;
}
struct Csp { const char* name; int cw, ch, planes, depth; }; // chroma subsampling, chroma planes
static const Csp CSP[] = {{"420jpeg",2,2,2,8},{"420paldv",2,2,2,8},{"420mpeg2",2,2,2,8},{"420",2,2,2,8},{"411",4,1,2,8},{"422",2,1,2,8},{"444",1,1,2,8},{"444alpha",1,1,3,8},{"mono",1,1,0,8},
	{"420p9",2,2,2,9},{"420p10",2,2,2,10},{"420p12",2,2,2,12},{"420p14",2,2,2,14},{"420p16",2,2,2,16},{"422p10",2,1,2,10},{"422p16",2,1,2,16},{"444p9",1,1,2,9},{"444p12",1,1,2,12},{"444p16",1,1,2,16},{"mono9",1,1,0,9},{"mono10",1,1,0,10},{"mono12",1,1,0,12},{"mono16",1,1,0,16},{"",2,2,2,8}};
inline File gen_y4m(Rng& r, size_t w, size_t h, size_t n, int csp = -1) {
	File f; f.ext = "y4m"; f.mime = "video/yuv4mpeg"; f.w = w; f.h = h; const Csp& c = CSP[csp < 0 ? r.below(sizeof CSP/sizeof*CSP) : csp]; string& s = f.bytes;
	vector<string> par; par.push_back("W"+dec(r,w)); par.push_back("H"+dec(r,h)); if(*c.name) par.push_back(string("C")+c.name);
	static const char* opt[] = {"F25:1","F30000:1001","Ip","It","I?","A1:1","A0:0","XYSCSS=420JPEG","XCOLORRANGE=FULL","XSOMETHING-W5-H7"};
	for(auto o : opt) if(r.chance(1,3)) par.push_back(o);
	if(r.chance(1,2)) for(size_t i = par.size(); i > 1; i--) std::swap(par[i-1],par[r.below(i)]);
	s = "YUV4MPEG2"; for(auto& p : par) { s += " "; if(r.chance(1,20)) s += " "; s += p; } if(r.chance(1,10)) s += " "; s += "\n"; f.header = s.size();
	size_t bw = (c.depth+7)/8; float max = (1u<<c.depth)-1; size_t chroma = c.planes*((w+c.cw-1)/c.cw)*((h+c.ch-1)/c.ch)*bw;
	for(size_t k = 0; k < n; k++) {
		s += "FRAME"; if(r.chance(1,4)) s += r.chance(1,2) ? " Ip" : " Xfoo=FRAME I1pp"; s += "\n"; size_t b = s.size(); Frame fr(w*h);
		for(auto& x : fr) { unsigned v = r.below(1u<<c.depth); s += (char)(v&255); if(bw > 1) s += (char)(v>>8); x = v/max; }
		f.span.push_back({b,s.size()}); for(size_t i = 0; i < chroma; i++) s += (char)(r.chance(1,9) ? "FRAME\n"[i%6] : r.below(256)); f.frames.push_back(fr); f.end.push_back(s.size());
	}
	f.tol = 1e-6; num(f.desc,"Y4M %zux%zu x%zu C%s",w,h,n,c.name); return f;
}
static bool png_colorless = false; // RGB images with equal components
static void png_app(png_structp p, png_bytep d, png_size_t n) { ((string*)png_get_io_ptr(p))->append((char*)d,n); }
static void png_nofl(png_structp) {}
inline File gen_png(Rng& r, size_t w, size_t h, int type = -1, int depth = -1) {
	static const int T[] = {PNG_COLOR_TYPE_GRAY,PNG_COLOR_TYPE_RGB,PNG_COLOR_TYPE_PALETTE,PNG_COLOR_TYPE_GRAY_ALPHA,PNG_COLOR_TYPE_RGB_ALPHA};
	if(type < 0) type = T[r.below(5)];
	if(depth < 0) depth = type == PNG_COLOR_TYPE_GRAY ? 1<<r.in(0,4) : type == PNG_COLOR_TYPE_PALETTE ? 1<<r.in(0,3) : r.chance(1,2) ? 16 : 8;
	bool inter = r.chance(1,2), trns = !canonical && !(type&PNG_COLOR_MASK_ALPHA) && r.chance(1,3);
	File f; f.ext = "png"; f.mime = "image/png"; f.w = w; f.h = h;
	png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING,NULL,NULL,NULL); png_infop in = png_create_info_struct(p);
	png_set_write_fn(p,&f.bytes,png_app,png_nofl); png_set_IHDR(p,in,w,h,depth,type,inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE,0,0);
	png_set_compression_level(p,r.in(0,9)); if(r.chance(1,2)) png_set_filter(p,0,1<<r.in(3,7)); else png_set_filter(p,0,PNG_ALL_FILTERS); if(r.chance(1,3)) png_set_compression_buffer_size(p,r.in(16,300));
	png_color pal[256]; size_t np = 1u<<std::min(depth,8); if(np > 2) np = r.in(2,np);
	if(type == PNG_COLOR_TYPE_PALETTE) { for(auto& c : pal) { c.red = r.below(256); c.green = r.below(256); c.blue = r.below(256); } png_set_PLTE(p,in,pal,np); }
	if(trns) { png_byte al[256]; for(auto& a : al) a = r.below(256); png_color_16 tc; memset(&tc,0,sizeof tc); unsigned m = (1u<<depth)-1; tc.gray = r.below(m+1); tc.red = r.below(m+1); tc.green = r.below(m+1); tc.blue = r.below(m+1);
		if(type == PNG_COLOR_TYPE_PALETTE) png_set_tRNS(p,in,al,r.in(1,np),NULL); else png_set_tRNS(p,in,NULL,0,&tc); }
	if(!canonical) switch(r.below(4)) { case 0: png_set_gAMA(p,in,.1+r.unit()*2); break; case 1: png_set_sRGB(p,in,0); break; } if(!canonical && r.chance(1,4)) { png_color_16 bg; memset(&bg,0,sizeof bg); png_set_bKGD(p,in,&bg); }
	if(r.chance(1,4)) { png_text t; memset(&t,0,sizeof t); t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = (char*)"Comment"; t.text = (char*)"hello"; png_set_text(p,in,&t,1); }
	png_write_info(p,in);
	int ch = type == PNG_COLOR_TYPE_GRAY || type == PNG_COLOR_TYPE_PALETTE ? 1 : type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : type == PNG_COLOR_TYPE_RGB ? 3 : 4;
	size_t row = (w*ch*depth+7)/8; string img(row*h,0); Frame fr(w*h);
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
		unsigned v[4]; for(int k = 0; k < ch; k++) { v[k] = type == PNG_COLOR_TYPE_PALETTE ? r.below(np) : r.below(1u<<depth); if(png_colorless && k && k < 3 && type&PNG_COLOR_MASK_COLOR) v[k] = v[0];
			size_t bit = (x*ch+k)*depth; if(depth == 16) { img[y*row+(x*ch+k)*2] = v[k]>>8; img[y*row+(x*ch+k)*2+1] = v[k]; } else img[y*row+bit/8] |= v[k]<<(8-depth-bit%8); }
		auto n8 = [&](unsigned q) { return depth == 16 ? (q>>8)/255. : q/(double)((1u<<depth)-1); };
		fr[y*w+x] = type == PNG_COLOR_TYPE_PALETTE ? (pal[v[0]].red+pal[v[0]].green+pal[v[0]].blue)/765. : type&PNG_COLOR_MASK_COLOR ? (n8(v[0])+n8(v[1])+n8(v[2]))/3 : n8(v[0]);
	}
	vector<png_bytep> rows(h); for(size_t y = 0; y < h; y++) rows[y] = (png_bytep)&img[y*row]; png_write_image(p,rows.data()); png_write_end(p,in); png_destroy_write_struct(&p,&in);
	f.frames.push_back(fr); f.span.push_back({0,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = 2e-6; num(f.desc,"PNG %zux%zu type %d depth %d%s%s",w,h,type,depth,inter ? " interlaced" : "",trns ? " tRNS" : ""); return f;
}
// the components' colour models: those which hold a luminance, and those which no reader of grayscale can convert
enum JKind { JGRAY, JYCC, JRGB, JCMYK, JYCCK };
inline File gen_jpeg(Rng& r, size_t w, size_t h, int jk = -1) {
	if(jk < 0) jk = r.chance(1,2) ? JYCC : r.chance(1,4) ? JRGB : JGRAY; bool color = jk != JGRAY, prog = r.chance(1,2), arith = r.chance(1,8), q16 = !prog && r.chance(1,12); int q = q16 ? r.in(1,8) : r.in(10,100);
	static const J_COLOR_SPACE IN[] = {JCS_GRAYSCALE,JCS_RGB,JCS_RGB,JCS_CMYK,JCS_CMYK}, AS[] = {JCS_GRAYSCALE,JCS_YCbCr,JCS_RGB,JCS_CMYK,JCS_YCCK}; static const char* NAME[] = {"gray","YCbCr","RGB","CMYK","YCCK"};
	File f; f.ext = r.chance(1,2) ? "jpg" : "jpeg"; f.mime = "image/jpeg"; f.w = w; f.h = h;
	jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char* out = NULL; unsigned long len = 0; jpeg_mem_dest(&c,&out,&len);
	c.image_width = w; c.image_height = h; c.input_components = jk == JGRAY ? 1 : jk >= JCMYK ? 4 : 3; c.in_color_space = IN[jk]; jpeg_set_defaults(&c); jpeg_set_colorspace(&c,AS[jk]); jpeg_set_quality(&c,q,!q16); if(prog) jpeg_simple_progression(&c); if(arith) c.arith_code = TRUE;
	// subsampling, sometimes of another component than usual; a single component's factors have no effect
	int hs = r.in(1,2), vs = r.in(1,2), which = jk == JRGB || jk >= JCMYK ? (r.chance(1,2) ? -1 : (int)r.below(c.input_components)) : r.chance(1,10) ? r.below(c.input_components) : 0; if(c.input_components < 4 && r.chance(1,12)) (r.chance(1,2) ? hs : vs) = 4;
	for(int i = 0; i < c.input_components; i++) { c.comp_info[i].h_samp_factor = i == which ? hs : 1; c.comp_info[i].v_samp_factor = i == which ? vs : 1; }
	if(r.chance(1,3)) c.restart_interval = r.in(1,5); if(r.chance(1,3) && !arith) c.optimize_coding = TRUE; if(r.chance(1,6)) { c.density_unit = 1; c.X_density = 72; c.Y_density = 36; }
	jpeg_start_compress(&c,TRUE); if(r.chance(1,4)) { string t(r.in(0,300),'c'); jpeg_write_marker(&c,JPEG_COM,(const JOCTET*)t.data(),t.size()); }
	vector<unsigned char> row(w*c.input_components); double ph = r.unit()*6; bool smooth = r.chance(1,2);
	for(size_t y = 0; y < h; y++) { for(size_t x = 0; x < row.size(); x++) row[x] = smooth ? 128+90*sin(x*.2+ph)*cos(y*.15)+r.below(16) : r.below(256); JSAMPROW rr = row.data(); jpeg_write_scanlines(&c,&rr,1); }
	jpeg_finish_compress(&c); jpeg_destroy_compress(&c); f.bytes.assign((char*)out,len); free(out);
	if(jk < JCMYK) { // the luminance according to the decoder's luma plane, without colour conversion
		jpeg_decompress_struct d; d.err = jpeg_std_error(&e); jpeg_create_decompress(&d); jpeg_mem_src(&d,(unsigned char*)f.bytes.data(),f.bytes.size()); jpeg_read_header(&d,TRUE); d.out_color_space = jk == JYCC ? JCS_YCbCr : IN[jk]; jpeg_start_decompress(&d);
		int nc = d.output_components; vector<unsigned char> o(w*nc); Frame fr; while(d.output_scanline < d.output_height) { JSAMPROW rr = o.data(); jpeg_read_scanlines(&d,&rr,1); for(size_t x = 0; x < w; x++) fr.push_back(jk == JRGB ? (.299f*o[x*3]+.587f*o[x*3+1]+.114f*o[x*3+2])/255.f : o[x*nc]/255.f); } jpeg_finish_decompress(&d); jpeg_destroy_decompress(&d);
		f.frames.push_back(fr);
	}
	f.span.push_back({0,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = jk == JRGB ? .51/255 : 2e-6; num(f.desc,"JPEG %zux%zu %s%s%s q%d%s, component %d %dx%d",w,h,NAME[jk],prog ? " progressive" : "",arith ? " arithmetic" : "",q,q16 ? " 16 bit tables" : "",which,hs,vs); return f;
}
inline string le(uint64_t v, int n) { string s; while(n--) { s += (char)v; v >>= 8; } return s; }
inline string be(uint64_t v, int n) { string s; while(n--) s += (char)(v>>(8*n)); return s; }
// formats without a dedicated reader, 8 bit grayscale
inline File gen_tga(Rng& r, size_t w, size_t h) { File f; f.ext = "tga"; f.mime = ""; f.w = w; f.h = h; f.bytes = string("\0\0\3\0\0\0\0\0\0\0\0\0",12)+le(w,2)+le(h,2)+"\x08\x20"; Frame fr(w*h); for(auto& x : fr) { int v = r.below(256); f.bytes += (char)v; x = v/255.; } f.frames.push_back(fr); f.span.push_back({18,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = 1e-5; num(f.desc,"TGA %zux%zu",w,h); return f; }
inline File gen_tif(Rng& r, size_t w, size_t h) {
	File f; f.ext = "tif"; f.w = w; f.h = h; Frame fr(w*h); string d; for(auto& x : fr) { int v = r.below(256); d += (char)v; x = v/255.; } if(d.size()%2) d += '\0'; struct { int t, y; size_t v; } e[] = {{256,3,w},{257,3,h},{258,3,8},{259,3,1},{262,3,1},{273,4,8},{277,3,1},{278,3,h},{279,4,w*h}};
	f.bytes = "II"+le(42,2)+le(8+d.size(),4)+d+le(9,2); for(auto& x : e) f.bytes += le(x.t,2)+le(x.y,2)+le(1,4)+le(x.v,4); f.bytes += le(0,4); f.frames.push_back(fr); f.span.push_back({8,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = 1e-5; num(f.desc,"TIFF %zux%zu",w,h); return f;
}
inline File gen_bmp(Rng& r, size_t w, size_t h) { File f; f.ext = "bmp"; f.w = w; f.h = h; size_t st = (w+3)/4*4; f.bytes = "BM"+le(1078+st*h,4)+le(0,4)+le(1078,4)+le(40,4)+le(w,4)+le(h,4)+le(1,2)+le(8,2)+le(0,4)+le(st*h,4)+le(2835,4)+le(2835,4)+le(256,4)+le(256,4); for(int i = 0; i < 256; i++) f.bytes += le(i*0x10101,4); Frame fr(w*h); for(size_t y = h; y-- > 0;) for(size_t x = 0; x < st; x++) { int v = x < w ? r.below(256) : 0; f.bytes += (char)v; if(x < w) fr[y*w+x] = v/255.; } f.frames.push_back(fr); f.span.push_back({1078,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = 1e-5; num(f.desc,"BMP %zux%zu",w,h); return f; }
inline string chunk(const char* id, const string& d) { return id+le(d.size(),4)+d+(d.size()%2 ? string(1,0) : ""); }
// uncompressed grayscale AVI
inline File gen_avi(Rng& r, size_t w, size_t h, size_t n) {
	File f; f.ext = "avi"; f.w = w; f.h = h; size_t st = w; string movi = "movi", idx;
	for(size_t k = 0; k < n; k++) { string d; Frame fr(w*h); for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) { int v = r.below(256); d += (char)v; fr[y*w+x] = v/255.; } idx += "00dc"+le(16,4)+le(movi.size(),4)+le(d.size(),4); movi += chunk("00dc",d); f.frames.push_back(fr); }
	string avih = le(40000,4)+le(0,4)+le(0,4)+le(16,4)+le(n,4)+le(0,4)+le(1,4)+le(st*h,4)+le(w,4)+le(h,4)+string(16,0);
	string strh = "vidsY800"+le(0,4)+le(0,4)+le(0,4)+le(1,4)+le(25,4)+le(0,4)+le(n,4)+le(st*h,4)+le(~0u,4)+le(0,4)+le(0,2)+le(0,2)+le(w,2)+le(h,2);
	string strf = le(40,4)+le(w,4)+le(h,4)+le(1,2)+le(8,2)+"Y800"+le(st*h,4)+string(16,0);
	string body = "AVI "+chunk("LIST","hdrl"+chunk("avih",avih)+chunk("LIST","strl"+chunk("strh",strh)+chunk("strf",strf)))+chunk("LIST",movi)+chunk("idx1",idx);
	f.bytes = "RIFF"+le(body.size(),4)+body; f.span.push_back({0,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = 1e-5; num(f.desc,"AVI Y800 %zux%zu x%zu",w,h,n); return f;
}
// an animated GIF without compression (codes of 9 bits with regular clears)
inline File gen_gif(Rng& r, size_t w, size_t h, size_t n) {
	File f; f.ext = "gif"; f.mime = "image/gif"; f.w = w; f.h = h; f.bytes = "GIF89a"+le(w,2)+le(h,2)+"\xf7"+le(0,2); for(int i = 0; i < 256; i++) f.bytes += string(3,(char)i);
	for(size_t k = 0; k < n; k++) {
		f.bytes += string("\x21\xf9\x04\x04",4)+le(10,2)+string(2,0)+","+le(0,4)+le(w,2)+le(h,2)+string(1,0)+"\x08"; string bits; uint64_t acc = 0; int nb = 0; auto code = [&](unsigned c) { acc |= (uint64_t)c<<nb; nb += 9; while(nb >= 8) { bits += (char)acc; acc >>= 8; nb -= 8; } };
		Frame fr(w*h); for(size_t i = 0; i < w*h; i++) { if(i%200 == 0) code(256); int v = r.below(256); code(v); fr[i] = v/255.; } code(257); if(nb) bits += (char)acc;
		for(size_t i = 0; i < bits.size(); i += 255) { string b = bits.substr(i,255); f.bytes += (char)b.size()+b; } f.bytes += '\0'; f.frames.push_back(fr);
	}
	f.bytes += ";"; f.span.push_back({0,f.bytes.size()}); f.end.push_back(f.bytes.size()); f.tol = 1e-5; num(f.desc,"GIF %zux%zu x%zu",w,h,n); return f;
}
// concatenated images of one kind
inline File concat(const vector<File>& v) { File f = v[0]; for(size_t i = 1; i < v.size(); i++) { f.bytes += v[i].bytes; f.frames.push_back(v[i].frames[0]); } f.span.clear(); f.end.clear(); num(f.desc," (%zu concatenated)",v.size()); return f; }
inline bool save(const string& fn, const string& b) { FILE* f = fopen(fn.c_str(),"wb"); if(!f) return false; bool ok = fwrite(b.data(),1,b.size(),f) == b.size(); return fclose(f) == 0 && ok; }
