// Sequences encoded with FFmpeg's own encoders: delayed and reordered frames, other streams in between.
#pragma once
#include "files.hpp"
extern "C" {
#include <libavformat/avformat.h>
#include <libavcodec/avcodec.h>
#include <libavutil/opt.h>
#include <libavutil/channel_layout.h>
}
struct AvKind { const char* enc; AVPixelFormat fmt; bool lossless, bframes; const char* ext[5]; };
static const AvKind AVKINDS[] = {
	{"ffv1",AV_PIX_FMT_GRAY8,true,false,{"mkv","avi","nut"}}, {"png",AV_PIX_FMT_GRAY8,true,false,{"mov","mkv"}}, {"rawvideo",AV_PIX_FMT_GRAY8,true,false,{"nut","avi"}},
	{"ffvhuff",AV_PIX_FMT_YUV420P,true,false,{"avi","mkv"}}, {"utvideo",AV_PIX_FMT_YUV422P,true,false,{"avi","mkv"}}, {"huffyuv",AV_PIX_FMT_YUV422P,true,false,{"avi"}}, {"ffv1",AV_PIX_FMT_YUV444P,true,false,{"mkv","nut"}},
	{"libx264",AV_PIX_FMT_YUV420P,true,true,{"mkv","mp4","avi","nut"}}, {"libx264",AV_PIX_FMT_YUV420P,false,true,{"mkv","mp4"}},
	{"mpeg4",AV_PIX_FMT_YUV420P,false,true,{"avi","mkv","mp4","nut"}}, {"mpeg2video",AV_PIX_FMT_YUV420P,false,true,{"mkv","nut"}}, {"mpeg1video",AV_PIX_FMT_YUV420P,false,true,{"mkv","nut"}},
	{"mjpeg",AV_PIX_FMT_YUVJ420P,false,false,{"avi","mov"}}, {"flv",AV_PIX_FMT_YUV420P,false,false,{"flv"}}, {"libvpx",AV_PIX_FMT_YUV420P,false,false,{"webm"}}, {"magicyuv",AV_PIX_FMT_GRAY8,true,false,{"avi","mkv"}},
};
static const int NAVKINDS = sizeof AVKINDS/sizeof*AVKINDS;
inline bool av_drain(AVFormatContext* f, AVCodecContext* c, AVStream* s) {
	AVPacket* p = av_packet_alloc(); int e; while(!(e = avcodec_receive_packet(c,p))) { av_packet_rescale_ts(p,c->time_base,s->time_base); p->stream_index = s->index; if(!p->duration) p->duration = av_rescale_q(1,c->time_base,s->time_base); if(av_interleaved_write_frame(f,p)) return false; }
	av_packet_free(&p); return e == AVERROR(EAGAIN) || e == AVERROR_EOF;
}
struct AvFile : File { bool lossless = false, audio = false, ok = false; int levels = 0; };
// writes the file as name plus its extension
inline AvFile gen_av(Rng& r, const string& name, int kind, size_t atleast = 0) {
	av_log_set_level(AV_LOG_QUIET);
	const AvKind& k = AVKINDS[kind]; AvFile f; int ne = 0; while(ne < 5 && k.ext[ne]) ne++; f.ext = k.ext[r.below(ne)]; f.w = r.in(2,12)*8; f.h = r.in(2,8)*8; f.lossless = k.lossless; f.tol = k.fmt == AV_PIX_FMT_GRAY8 ? 2e-5 : .006; // the scaler rounds between formats
	
	size_t n = r.in(1,r.chance(1,4) ? 30 : 12); if(atleast) { n = atleast+r.below(atleast/2); f.w = std::max<size_t>(f.w,64); f.h = std::max<size_t>(f.h,48); } int bf = k.bframes ? r.in(0,3) : 0, gop = r.in(1,15); string e = f.ext; f.audio = (e == "mkv" || e == "avi" || e == "mov" || e == "nut") && r.chance(1,2); bool first = r.chance(1,2);
	string fn = name+"."+f.ext; num(f.desc,"%s %s %zux%zu x%zu, %d B-frames, group of %d%s",k.enc,f.ext.c_str(),f.w,f.h,n,bf,gop,f.audio ? first ? ", after audio" : ", with audio" : "");
	AVFormatContext* o = NULL; if(avformat_alloc_output_context2(&o,NULL,NULL,fn.c_str()) < 0) return f;
	const AVCodec* enc = avcodec_find_encoder_by_name(k.enc); if(!enc) { avformat_free_context(o); return f; }
	AVCodecContext* c = avcodec_alloc_context3(enc),* ac = NULL; AVStream* s = NULL,* as = NULL; c->width = f.w; c->height = f.h; c->pix_fmt = k.fmt; c->time_base = {1,25}; c->framerate = {25,1}; c->max_b_frames = bf; c->gop_size = gop; c->bit_rate = 3000000; c->thread_count = 1; c->strict_std_compliance = FF_COMPLIANCE_EXPERIMENTAL;
	if(!strcmp(k.enc,"mjpeg")) c->color_range = AVCOL_RANGE_JPEG;
	if(!strcmp(k.enc,"libx264")) { av_opt_set(c->priv_data,"preset","veryfast",0); av_opt_set(c->priv_data,"qp",k.lossless ? "0" : "18",0); if(k.lossless) av_opt_set(c->priv_data,"x264-params","log=-1:qp=0:chroma-qp-offset=0",0); else av_opt_set(c->priv_data,"x264-params","log=-1",0); if(r.chance(1,3)) av_opt_set_int(c->priv_data,"rc-lookahead",r.in(0,10),0); }
	if(!strcmp(k.enc,"libvpx")) { av_opt_set(c->priv_data,"deadline","realtime",0); av_opt_set_int(c->priv_data,"cpu-used",8,0); if(r.chance(1,2)) { av_opt_set_int(c->priv_data,"auto-alt-ref",1,0); av_opt_set_int(c->priv_data,"lag-in-frames",r.in(1,8),0); } }
	if(o->oformat->flags&AVFMT_GLOBALHEADER) c->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
	AVFrame* fr = NULL,* af = NULL; bool good = true;
	auto video = [&]() { good = good && avcodec_open2(c,enc,NULL) >= 0 && (s = avformat_new_stream(o,NULL)) && avcodec_parameters_from_context(s->codecpar,c) >= 0; if(good) { s->time_base = c->time_base; s->avg_frame_rate = c->framerate; } };
	auto audio = [&]() { const AVCodec* ae = avcodec_find_encoder(AV_CODEC_ID_PCM_S16LE); ac = avcodec_alloc_context3(ae); ac->sample_fmt = AV_SAMPLE_FMT_S16; ac->sample_rate = 8000; av_channel_layout_default(&ac->ch_layout,1); ac->time_base = {1,8000}; good = good && avcodec_open2(ac,ae,NULL) >= 0 && (as = avformat_new_stream(o,NULL)) && avcodec_parameters_from_context(as->codecpar,ac) >= 0; if(good) as->time_base = ac->time_base; };
	if(f.audio && first) audio();
	video();
	if(f.audio && !first) audio();
	bool open = false; if(good) { good = avio_open(&o->pb,fn.c_str(),AVIO_FLAG_WRITE) >= 0; open = good; } if(good) good = avformat_write_header(o,NULL) >= 0;
	if(good) { fr = av_frame_alloc(); fr->width = f.w; fr->height = f.h; fr->format = k.fmt; fr->color_range = c->color_range; good = av_frame_get_buffer(fr,0) >= 0; }
	// brightness steps in an order which tells any two frames apart
	int step = 30; vector<int> base; for(size_t i = 0; i < n; i++) { int b; do b = 40+step*(int)r.below(6); while(i && b == base[i-1]); base.push_back(b); }
	for(size_t i = 0; i < n && good; i++) {
		good = av_frame_make_writable(fr) >= 0; Frame p(f.w*f.h); int ph = r.below(60), gx = r.below(3), gy = r.below(3);
		for(size_t y = 0; y < f.h; y++) for(size_t x = 0; x < f.w; x++) { int v = k.lossless ? (int)r.in(16,235) : base[i]+(int)(((x*gx+y*gy+ph)%60) > 29 ? 59-(x*gx+y*gy+ph)%60 : (x*gx+y*gy+ph)%60)/2; fr->data[0][y*fr->linesize[0]+x] = v; p[y*f.w+x] = (c->color_range == AVCOL_RANGE_JPEG ? 16+219*v/255.f : v)/255.f; } // the scaler keeps to the limited range
		if(k.fmt != AV_PIX_FMT_GRAY8) for(int q = 1; q < 3; q++) for(size_t y = 0; y < (k.fmt == AV_PIX_FMT_YUV420P || k.fmt == AV_PIX_FMT_YUVJ420P ? f.h/2 : f.h); y++) memset(fr->data[q]+y*fr->linesize[q],k.lossless ? r.in(16,240) : 128,k.fmt == AV_PIX_FMT_YUV444P ? f.w : f.w/2);
		f.frames.push_back(p); fr->pts = i; good = good && avcodec_send_frame(c,fr) >= 0 && av_drain(o,c,s);
		if(good && f.audio) { AVPacket* ap = av_packet_alloc(); av_new_packet(ap,640); for(int q = 0; q < 640; q++) ap->data[q] = r.below(256); ap->stream_index = as->index; ap->pts = ap->dts = i*320; ap->duration = 320; av_packet_rescale_ts(ap,ac->time_base,as->time_base); good = av_interleaved_write_frame(o,ap) >= 0; av_packet_free(&ap); }
	}
	if(good) { avcodec_send_frame(c,NULL); good = av_drain(o,c,s); }
	if(good) good = av_write_trailer(o) >= 0;
	if(open) avio_closep(&o->pb);
	av_frame_free(&fr); avcodec_free_context(&c); avcodec_free_context(&ac); avformat_free_context(o);
	if(good) { FILE* q = fopen(fn.c_str(),"rb"); char b[65536]; size_t z; while(q && (z = fread(b,1,sizeof b,q))) f.bytes.append(b,z); if(q) fclose(q); }
	f.ok = good && !f.bytes.empty(); return f;
}
