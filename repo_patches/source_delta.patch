From ebcac15171a8217c0c39c904b34cdf4cc1c58fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 01/39] fix: read interlaced PNGs

png_set_interlace_handling has to be called before png_read_update_info,
otherwise libpng raises an error and the image was reported as invalid.
---
 lib/image/libpng.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..30b9980 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -16,6 +16,7 @@ static void pngerr_warning_fn(png_structp png_ptr, png_const_charp warning_msg)
 struct libpng_context {
 	FILE* f;
 	bool eof;
+	int passes;
 	png_structp png_ptr;
 	png_infop info_ptr;
 };
@@ -94,6 +95,9 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	// must be requested before the row transformations are initialized below
+	ctx->passes = png_set_interlace_handling(ctx->png_ptr);
+
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
@@ -122,9 +126,7 @@ static bool libpng_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto end;
 	}
 
-	int passes = png_set_interlace_handling(ctx->png_ptr);
-
-	for(int i = 0; i < passes; i++) {
+	for(int i = 0; i < ctx->passes; i++) {
 		unsigned char* it = imagec;
 		for(size_t y = 0; y < height; y++, it += width * channels)
 			png_read_row(ctx->png_ptr,it,NULL);
-- 
2.43.0


From 6b2aa40017f1f7dee091ce5837a9037ca64aec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 02/39] fix: reject files which are not valid PGMs in the PGM
 reader

The result of matching the "P5" magic was not checked, so other formats were
read as PGM, a maximum value of 0 led to division by zero, and values over 65535
were wrapped when scanned as a uint16_t.
---
 lib/image/pgm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..1fc26ab 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -5,7 +5,6 @@
 
 #include "image.h"
 
-#include <inttypes.h>
 #include <ctype.h>
 
 struct pgm_context {
@@ -50,16 +49,22 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	char format;
+	unsigned long depth;
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fscanf(ctx->f,"P%c",&format) != 1 ||
+	   format != '5' ||
+	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %lu",width,height,&depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   !depth ||
+	   depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
 	}
+	ctx->depth = depth;
 
 	return ctx;
 
-- 
2.43.0


From c096e0a6ee3f6e953cefa64156a8d6b35540c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 03/39] fix: keep the PFM header state when seeking to offset 0

Seeking by 0 frames, or failing to seek, right after a header was read made the
next read treat pixel data as a header and fail.
---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From c7bdfec98a06d43a77c8c13ef36efbfaeb188019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 04/39] fix: seek over PFM sequences which mix grayscale and
 RGB frames

The size to skip was determined once from the current frame rather than from the
header of each frame skipped.
---
 lib/image/pfm.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..a6976a5 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,11 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
-
+	// grayscale and RGB frames may be mixed in a sequence
+	size_t planesize = width*height*sizeof(float);
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = planesize <= (size_t)LONG_MAX/3 && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(planesize))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,7 +185,9 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
-		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
+		for(int planes = ctx->format == 'F' ? 3 : 1; planes && !*error; planes--)
+			*error = resdet_fskip(ctx->f,planesize,buf);
+		if(*error) {
 			ret = false;
 			break;
 		}
-- 
2.43.0


From 134333237a08d0bfd0ea0f917a5af5e015ac59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 05/39] fix: size the chroma planes of 4:1:1 Y4M correctly

4:1:1 has a quarter of the columns and all of the rows, which differs from 4:2:0
unless the dimensions are suitable multiples.
---
 lib/image/y4m.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..abbc11c 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,8 +86,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
 		else if(!strncmp(csp,"444",3))
-- 
2.43.0


From aa231d3cf4f5f65924f6cc903121068c72e746be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/39] fix: account for the alpha plane of 444alpha Y4M

The prefix match for "444" came first, so the alpha plane was not skipped.
---
 lib/image/y4m.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index abbc11c..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -92,10 +92,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From a41ce1fca33a348ec9eabda890d57cd230ff75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 07/39] fix: keep the libjpeg error manager alive while the
 image is open

It was a compound literal in the scope of the open function, so errors or warnings
while reading the image used a dangling pointer.
---
 lib/image/libjpeg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..ed91c9e 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -18,6 +18,7 @@ struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr err;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,11 +48,12 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->err = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->err;
 
 	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
 		*error = RDEINVAL;
-- 
2.43.0


From 90126643f67988faabaddebff62b63e1f5a94551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 08/39] fix: apply PIXEL_MAX to the dimensions of Y4M images
 only

The size of the 4 potential planes was counted against PIXEL_MAX, so Y4M images over a
quarter of the limit were rejected.
---
 lib/image/y4m.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index fd2c85e..0387207 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -72,7 +72,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 
 	if(!(*width && *height))
 		goto invalid;
-	if(resdet_dims_exceed_limit(*width,*height,4,unsigned char)) {
+	if(resdet_dims_exceed_limit(*width,*height,1,unsigned char[4])) {
 		*error = RDETOOBIG;
 		goto error;
 	}
-- 
2.43.0


From 503ad84e52b0f3323924556219155f50a642685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 09/39] fix: allow resdet_read_image to reach the size limit

An image sequence was rejected if the buffer for one more frame would have exceeded the
limit, even when there was no such frame.
---
 lib/image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 6fb0ac3..b4e7c97 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -228,7 +228,9 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 		(*nimages)++;
 
 		if(resdet_dims_exceed_limit(*width,*height,*nimages+1,float)) {
-			error = RDETOOBIG;
+			// only an error if there is another frame to read
+			if(resdet_seek_frame(image,1,NULL,NULL,&error))
+				error = RDETOOBIG;
 			break;
 		}
 
-- 
2.43.0


From af3bd20219d3765cda41cac8626924b419dfec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 10/39] fix: free both halves of a partially allocated KISS FFT
 plan

The dimensions are not set yet if an allocation fails, so the vertical resources leaked.
---
 lib/transform/kiss_fft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..5a93cee 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -85,7 +85,7 @@ void resdet_free_plan(resdet_plan* p) {
 	if(p) {
 		free(p->cfg[0]);
 		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->shift[1] != p->shift[0]) {
 			free(p->cfg[1]);
 			free(p->shift[1]);
 		}
-- 
2.43.0


From dab10c6a8a27a819dc4bfac83342e43a8bd76496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 11/39] fix: avoid signed overflow in resdet_error_str

---
 lib/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.c b/lib/util.c
index 4cdaaaf..6d52e41 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -70,7 +70,7 @@ static const char* const RDErrStr[] = {
 RESDET_API const char* resdet_error_str(RDError e) {
 
 	if(e < 0)
-		return strerror(-e);
+		return strerror(e == INT_MIN ? INT_MAX : -e); // -INT_MIN is not representable
 
 	if(e > resdet_get_max_error())
 		return NULL;
-- 
2.43.0


From 494dbcc08674f869d672a6eecbd813a196d10f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 12/39] fix: report the right error when the FFmpeg reader
 fails to open

A misplaced parenthesis replaced the error code with 1, and a nonnegative stream index
could be taken for an error, overriding RDENOMEM.
---
 lib/image/ffmpeg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..848aa9a 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -76,7 +76,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 		*error = RDENOMEM;
 		goto error;
 	}
-	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar) < 0))
+	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar)) < 0)
 		goto error;
 
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
@@ -109,7 +109,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	return ctx;
 
 error:
-	if(averr)
+	if(averr < 0)
 		*error = rderror_from_averror(averr);
 
 	ffmpeg_reader_close(ctx);
-- 
2.43.0


From 1be4e19393822dad71129e07235e8540eb13a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 13/39] fix: handle changes of frame size and format in the
 FFmpeg reader

The scaler was only set up for the parameters found when opening the file, so frames with
other dimensions or another pixel format caused out of bounds reads and garbage output.
---
 lib/image/ffmpeg.c | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 848aa9a..c44dcf3 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -16,6 +16,7 @@ struct ffmpeg_context {
 	AVCodecContext* codec;
 	int stream_index;
 	struct SwsContext* sws;
+	int sws_format;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
 };
@@ -47,6 +48,21 @@ static void ffmpeg_reader_close(void* reader_ctx) {
 
 #define little_endian() (union { int i; char c; }){1}.c
 
+static int init_sws(struct ffmpeg_context* ctx, int width, int height, int format) {
+	sws_freeContext(ctx->sws);
+	if(!(ctx->sws = sws_alloc_context()))
+		return AVERROR(ENOMEM);
+
+	av_opt_set_int(ctx->sws, "srcw", width, 0);
+	av_opt_set_int(ctx->sws, "srch", height, 0);
+	av_opt_set_int(ctx->sws, "src_format", format, 0);
+	av_opt_set_int(ctx->sws, "dstw", width, 0);
+	av_opt_set_int(ctx->sws, "dsth", height, 0);
+	av_opt_set_int(ctx->sws, "dst_format", little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE, 0);
+	ctx->sws_format = format;
+	return sws_init_context(ctx->sws,NULL,NULL);
+}
+
 static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
 	struct ffmpeg_context* ctx = malloc(sizeof(*ctx));
 	if(!ctx) {
@@ -82,22 +98,20 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
 		goto error;
 
-	if(!(ctx->sws = sws_alloc_context()) ||
-	   !(ctx->frame = av_frame_alloc()) ||
+	if(!(ctx->frame = av_frame_alloc()) ||
 	   !(ctx->swsframe = av_frame_alloc()) ||
 	   !(ctx->packet = av_packet_alloc())) {
 		*error = RDENOMEM;
 		goto error;
 	}
 
-	av_opt_set_int(ctx->sws, "srcw", ctx->codec->width, 0);
-	av_opt_set_int(ctx->sws, "srch", ctx->codec->height, 0);
-	av_opt_set_int(ctx->sws, "src_format", ctx->codec->pix_fmt, 0);
-	av_opt_set_int(ctx->sws, "dstw", ctx->codec->width, 0);
-	av_opt_set_int(ctx->sws, "dsth", ctx->codec->height, 0);
-	av_opt_set_int(ctx->sws, "dst_format", little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE, 0);
-	if((averr = sws_init_context(ctx->sws,NULL,NULL)) < 0)
+	if((averr = init_sws(ctx,ctx->codec->width,ctx->codec->height,ctx->codec->pix_fmt)) < 0) {
+		if(!ctx->sws) {
+			*error = RDENOMEM;
+			averr = 0;
+		}
 		goto error;
+	}
 
 	ctx->frame->width = ctx->codec->width;
 	ctx->frame->height = ctx->codec->height;
@@ -137,7 +151,19 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
-	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
+	if(averr)
+		goto averror;
+
+	// the decoder may output frames which differ from what the scaler was set up for
+	if(ctx->swsframe->width < 0 || (size_t)ctx->swsframe->width != width ||
+	   ctx->swsframe->height < 0 || (size_t)ctx->swsframe->height != height) {
+		*error = RDEINVAL;
+		return false;
+	}
+	if(ctx->swsframe->format != ctx->sws_format && (averr = init_sws(ctx,width,height,ctx->swsframe->format)) < 0)
+		goto averror;
+
+	if((averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
 	for(size_t y = 0; y < height; y++)
-- 
2.43.0


From 11e1a49b34084592e21723b473309df3a681e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 14/39] fix: raise for invalid parameters in the Python
 bindings

Errors from the parameter setters were ignored, silently analyzing with the defaults.
---
 bindings/python/resdet.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4f7f154..cdffd72 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -299,12 +299,19 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
     rdparameters = libresdet.resdet_alloc_default_parameters()
+    err = Error.OK
     if "range" in parameters:
-        libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
+        # ctypes wraps integers which don't fit the C type
+        value = parameters["range"]
+        err = err or (libresdet.resdet_parameters_set_range(rdparameters, value) if ctypes.c_size_t(value).value == value else Error.PARAM)
     if "threshold" in parameters:
-        libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
+        err = err or libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
     if "compression_filter" in parameters:
-        libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+        value = parameters["compression_filter"]
+        err = err or (libresdet.resdet_parameters_set_compression_filter(rdparameters, value) if ctypes.c_uint8(value).value == value else Error.PARAM)
+    if err:
+        libc.free(rdparameters)
+        raise _rderror_to_exception(int(err))
 
     return rdparameters
 
-- 
2.43.0


From 77aed921347932a70f031f46bcef6b666734333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 15/39] fix: allocate all images of ImageBuffer.with_dimensions

---
 bindings/python/resdet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index cdffd72..a7034b3 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,7 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
+        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
         imagebuffer.width = width
         imagebuffer.height = height
         imagebuffer.nimages = nimages
-- 
2.43.0


From 865904bb0b61e96296a9c274519050fd9405be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 16/39] fix: raise IndexError for negative ImageBuffer indices

These read memory before the buffer.
---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index a7034b3..fc89b2f 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -119,16 +119,16 @@ class ImageBuffer:
                 raise Exception("Too many coordinates for image: {index}")
             if len(index) < 3:
                 index = (0,) + index
-            if index[0] >= self.nimages:
+            if not 0 <= index[0] < self.nimages:
                 raise IndexError(f"Frame index {index[0]} is out of range for {self.nimages} images")
-            if index[1] >= self.height:
+            if not 0 <= index[1] < self.height:
                 raise IndexError(f"y index {index[1]} is out of range for height {self.height}")
-            if index[2] >= self.width:
+            if not 0 <= index[2] < self.width:
                 raise IndexError(f"x index {index[2]} is out of range for width {self.width}")
 
             index = (index[0] * self.height + index[1]) * self.width + index[2]
 
-        if index >= self.width * self.height * self.nimages:
+        if not 0 <= index < self.width * self.height * self.nimages:
             raise IndexError(f"Index {index} is out of bounds for size {self.width}x{self.height}x{self.nimages}")
         return self.data[index]
 
-- 
2.43.0


From 932bc0163ff49246211d0621668af1d403e51fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 17/39] fix: do not keep a pointer to the freed memory of a
 closed ImageBuffer

---
 bindings/python/resdet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index fc89b2f..cbfb05a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -135,6 +135,7 @@ class ImageBuffer:
     def close(self) -> None:
         libc.free(self.data)
         self.data = ctypes.POINTER(ctypes.c_float)()
+        self._as_parameter_ = self.data
 
     def __enter__(self) -> "ImageBuffer":
         return self
-- 
2.43.0


From 9811cbb1e003a0f2104cec12f28b786578785276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 18/39] fix: convert ndarrays to contiguous float32 data

The memory of arrays with other data types or strides was interpreted as floats.
---
 bindings/python/resdet_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 6e3d630..09dd772 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -25,9 +25,11 @@ class Image(resdet.Image):
 
 @Analysis.analyze_image.register
 def _(self, image: numpy.ndarray) -> None:
+    image = numpy.ascontiguousarray(image, dtype = numpy.float32)
     self.analyze_image(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)))
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
     nimages = image.shape[2] if len(image.shape) > 2 else 1
+    image = numpy.ascontiguousarray(image, dtype = numpy.float32)
     return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[0], image.shape[1], method, parameters)
-- 
2.43.0


From 6399c51ed00c95692e1eea2223a8dcc9bbf7d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 19/39] fix: keep the dimensions of images read as PIL images

ndarrays are shaped (width, height) while PIL expects rows first, so width and height
were swapped for images which are not square.
---
 bindings/python/resdet_PIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 889747f..8a35b20 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -8,7 +8,7 @@ from typing import Optional
 class Image(resdet_numpy.Image):
     def read_image_frame_as_pil_image(self) -> Optional[PIL.Image.Image]:
         if (ndarray := self.read_image_frame_as_ndarray()) is not None:
-            return PIL.Image.fromarray(ndarray, "F")
+            return PIL.Image.fromarray(ndarray.reshape(self.height, self.width), "F")
 
     def __iter__(self):
         return self
-- 
2.43.0


From ec7d7de73c6a1a0e9db316d39619892dd2b28631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 20/39] fix: require an output file and report errors from
 imgread

---
 src/imgread.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/imgread.c b/src/imgread.c
index bfdfe63..65defc9 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -8,11 +8,12 @@
 #include "resdet.h"
 
 int main(int argc, char** argv) {
-	if(argc < 2) {
+	if(argc < 3) {
 		fprintf(stderr,"Usage: %s input_image output.pfm\n", argv[0]);
 		return 1;
 	}
 
+	int ret = 0;
 	FILE* out = NULL;
 
 	float* image;
@@ -26,6 +27,7 @@ int main(int argc, char** argv) {
 	out = fopen(argv[2], "wb");
 	if(!out) {
 		perror("error opening output");
+		ret = 1;
 		goto end;
 	}
 
@@ -39,11 +41,14 @@ int main(int argc, char** argv) {
 	}
 
 end:
-	if(e)
+	if(e) {
 		fprintf(stderr,"%s\n",resdet_error_str(e));
+		ret = 1;
+	}
 
 	resdet_close_image(rdimage);
 	if(out)
 		fclose(out);
 	free(image);
+	return ret;
 }
-- 
2.43.0


From 7ce25f368ff32744ea17ba6e50276f669063e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 21/39] fix: keep MagickWand images at their end once it was
 reached

---
 lib/image/magickwand.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..877b6c0 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool eof;
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -36,6 +37,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	ctx->eof = false;
 	ctx->wand = NewMagickWand();
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
@@ -76,10 +78,17 @@ error:
 	return NULL;
 }
 
+// MagickNextImage starts over when called again after the last image
+static bool next_image(struct magickwand_context* ctx) {
+	if(!ctx->eof)
+		ctx->eof = MagickNextImage(ctx->wand) == MagickFalse;
+	return !ctx->eof;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_image(ctx))
 		return false;
 
 	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
@@ -89,7 +98,7 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_image(ctx))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From d33a6678cf930a16c6b8dc564b020e90e475d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 22/39] fix: read frames FFmpeg decodes to float gray without
 scaling them

---
 lib/image/ffmpeg.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index c44dcf3..cc7b859 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -160,14 +160,21 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		*error = RDEINVAL;
 		return false;
 	}
-	if(ctx->swsframe->format != ctx->sws_format && (averr = init_sws(ctx,width,height,ctx->swsframe->format)) < 0)
-		goto averror;
 
-	if((averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
-		goto averror;
+	// nothing to convert, and swscale doesn't copy all bytes of float planes
+	AVFrame* frame = ctx->swsframe;
+	if(frame->format != ctx->frame->format) {
+		if(frame->format != ctx->sws_format && (averr = init_sws(ctx,width,height,frame->format)) < 0)
+			goto averror;
+
+		if((averr = sws_scale_frame(ctx->sws,ctx->frame,frame)) < 0)
+			goto averror;
+
+		frame = ctx->frame;
+	}
 
 	for(size_t y = 0; y < height; y++)
-		memcpy(image+y*width,ctx->frame->data[0]+y*ctx->frame->linesize[0],width*sizeof(float));
+		memcpy(image+y*width,frame->data[0]+(ptrdiff_t)y*frame->linesize[0],width*sizeof(float));
 
 	return true;
 
-- 
2.43.0


From 862b3675631b2cda15ae6cfe9894e4a4f0e94f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 23/39] fix: drop results of images which fail in the second
 dimension

---
 lib/analysis.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/analysis.c b/lib/analysis.c
index 7317ffc..8cd6fe7 100644
--- a/lib/analysis.c
+++ b/lib/analysis.c
@@ -102,6 +102,8 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 
 	RDError ret = RDEOK;
 	size_t width = analysis->width, height = analysis->height;
+	intermediate* xprevious = NULL;
+	size_t xsize = 0;
 
 	for(rdint_index i = 0; i < width*height; i++) {
 		if(!isfinite(image[i])) {
@@ -111,18 +113,32 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 		analysis->f[i] = image[i];
 	}
 
+	// results of the first dimension must not remain if the second one fails
+	if(analysis->xresult && analysis->yresult) {
+		xsize = (width - analysis->params.range*2) * sizeof(*xprevious);
+		if(!(xprevious = malloc(xsize))) {
+			ret = RDENOMEM;
+			goto end;
+		}
+		memcpy(xprevious,analysis->xresult,xsize);
+	}
+
 	resdet_transform(analysis->p);
 
 	if(analysis->xresult &&
 	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,width,height,width,1,analysis->params.range,analysis->xresult,analysis->xbound,analysis->xbound+1)) != RDEOK)
 		goto end;
 	if(analysis->yresult &&
-	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK)
+	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK) {
+		if(xprevious)
+			memcpy(analysis->xresult,xprevious,xsize);
 		goto end;
+	}
 
 	analysis->nimages++;
 
 end:
+	free(xprevious);
 	return ret;
 }
 
-- 
2.43.0


From c50454f4d64588a1d7e52650af616eac6696b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 24/39] fix: report read errors in the libjpeg reader

---
 lib/image/libjpeg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index ed91c9e..1fe4b30 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -100,6 +100,13 @@ static bool libjpeg_reader_read_frame(void* reader_ctx, float* image, size_t wid
 			rows[i] = it+i*ctx->cinfo.output_width;
 		it += jpeg_read_scanlines(&ctx->cinfo,rows,ctx->cinfo.rec_outbuf_height) * ctx->cinfo.output_width;
 	}
+
+	// libjpeg treats failing reads as the end of the file and makes up the remaining samples
+	if(ferror(ctx->f)) {
+		*error = RDEINVAL;
+		goto end;
+	}
+
 	for(size_t i = 0; i < width * height; i++)
 		image[i] = imagec[i]/255.f;
 
-- 
2.43.0


From 5568974d6c3059eaae461488c97c392061b781d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 25/39] fix: do not accept headers cut short by a read error

---
 lib/image/pfm.c | 3 ++-
 lib/image/pgm.c | 1 +
 lib/image/y4m.c | 3 ++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index a6976a5..9b7a4ab 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -104,7 +104,8 @@ static void* pfm_reader_open(const char* filename, size_t* width, size_t* height
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %f",width,height,&ctx->endianness_scale) != 3 ||
-	   !isspace(fgetc(ctx->f))
+	   !isspace(fgetc(ctx->f)) ||
+	   ferror(ctx->f) // a failed read may have cut a number short
 	) {
 		*error = RDEINVAL;
 		goto error;
diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 1fc26ab..d86906c 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -58,6 +58,7 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %lu",width,height,&depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
+	   ferror(ctx->f) || // a failed read may have cut a number short
 	   !depth ||
 	   depth > 255
 	) {
diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 0387207..b12e0c8 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -70,7 +70,8 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		}
 
 
-	if(!(*width && *height))
+	// a failed read may have cut a number short
+	if(!(*width && *height) || ferror(ctx->f))
 		goto invalid;
 	if(resdet_dims_exceed_limit(*width,*height,1,unsigned char[4])) {
 		*error = RDETOOBIG;
-- 
2.43.0


From de98136ce2ae894963ebd808781768774362c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 26/39] fix: compare results with known resolutions in any
 order in profile

---
 src/profile.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 5898e8f..bba7627 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -25,24 +25,20 @@ struct timeval diffts(struct timeval start, struct timeval end) {
 }
 
 
-void diffres(size_t* left, size_t leftlen, RDResolution* right, size_t rightlen, size_t* plus, size_t* minus) {
-	size_t l = 0, r = 0;
-	while(l < leftlen && r < rightlen)
-		if(left[l] > right[r].index) {
+// count results which aren't known (plus) and known resolutions which weren't found (minus), results are ordered by confidence
+void diffres(size_t* known, size_t knownlen, RDResolution* res, size_t reslen, size_t* plus, size_t* minus) {
+	size_t found = 0;
+	for(size_t r = 0; r < reslen; r++) {
+		size_t k = 0;
+		while(k < knownlen && known[k] != res[r].index)
+			k++;
+		if(k < knownlen)
+			found++;
+		else
 			(*plus)++;
-			r++;
-		}
-		else if(left[l] < right[r].index) {
-			(*minus)++;
-			l++;
-		}
-		else {
-			l++;
-			r++;
-		}
+	}
 
-	*plus += rightlen - r;
-	*minus += leftlen - l;
+	*minus += knownlen - found;
 }
 
 void readres(char* line, size_t** ar, size_t* ct) {
-- 
2.43.0


From 2b00c6d7756a9a21acc77c68be1d788dca4d73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 27/39] fix: report failures to write the output of imgread

---
 src/imgread.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/imgread.c b/src/imgread.c
index 65defc9..8f62254 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -4,6 +4,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdbool.h>
 
 #include "resdet.h"
 
@@ -47,8 +48,13 @@ end:
 	}
 
 	resdet_close_image(rdimage);
-	if(out)
-		fclose(out);
+	if(out) {
+		bool failed = ferror(out);
+		if(fclose(out) || failed) {
+			perror("error writing output");
+			ret = 1;
+		}
+	}
 	free(image);
 	return ret;
 }
-- 
2.43.0


From 5956e438218449d6aeddb5040c78e0686aae1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 28/39] fix: report the first invalid parameter in the
 JavaScript bindings

---
 bindings/emscripten/resdet.mts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 7f201a7..00b6295 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -181,15 +181,17 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(!params)
 		throw new OutOfMemoryError();
 
-	let err;
+	let err = 0;
 	if('range' in parameters)
-		err = resdet_parameters_set_range(params,parameters['range']);
+		err ||= resdet_parameters_set_range(params,parameters['range']);
 	if('threshold' in parameters)
-		err = resdet_parameters_set_threshold(params,parameters['threshold']);
+		err ||= resdet_parameters_set_threshold(params,parameters['threshold']);
 	if('compression_filter' in parameters)
-		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
-	if(err)
+		err ||= resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
+	if(err) {
+		Module._free(params);
 		throw new RDError(err);
+	}
 
 	return params;
 }
-- 
2.43.0


From b61d1ca3f9d026a9ce44f48c69c7c49e9c8006c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 29/39] fix: do not count overflowed ratios as matches in the
 magnitude method

---
 lib/methods.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/methods.c b/lib/methods.c
index 637dc5d..4a1ba52 100644
--- a/lib/methods.c
+++ b/lib/methods.c
@@ -31,8 +31,9 @@ static RDError detect_method_magnitude(const coeff* restrict f, size_t length, s
 		for(rdint_index y = 0; y < n; y++)
 			for(rdint_index i = 1; i <= range; i++) {
 				int e;
-				mi(frexp)(f[y*stride+x*dist-i*dist]/mc(copysign)(MAX(mc(fabs)(f[y*stride+x*dist+i*dist]),EPSILON),f[y*stride+x*dist+i*dist])+1,&e);
-				mag_match += e <= 0;
+				intermediate m = f[y*stride+x*dist-i*dist]/mc(copysign)(MAX(mc(fabs)(f[y*stride+x*dist+i*dist]),EPSILON),f[y*stride+x*dist+i*dist])+1;
+				mi(frexp)(m,&e);
+				mag_match += e <= 0 && isfinite(m); // the exponent of an overflowed ratio is unspecified
 			}
 		result[x-*start] += mag_match / ((intermediate)n*range);
 	}
-- 
2.43.0


From 4efaaafd85a2b925b06283062f557ae9bab0f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 30/39] fix: refuse PIL images of another size than the
 analysis

The PIL binding passed the samples of any image to the analysis, which
read beyond them when the image was smaller.
---
 bindings/python/resdet.py     | 3 +++
 bindings/python/resdet_PIL.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index cbfb05a..58c4e1f 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -215,6 +215,9 @@ class Analysis:
         if not self._rdanalysis:
             raise _rderror_to_exception(err)
 
+        self.width = width
+        self.height = height
+
     @singledispatchmethod
     def analyze_image(self, image: c_float_ptr) -> None:
         err = libresdet.resdet_analyze_image(self._rdanalysis, image)
diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 8a35b20..9adc9a0 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -1,5 +1,6 @@
 import resdet_numpy
 from resdet_numpy import resdetect, Analysis, Method, Image
+from resdet import InvalidImageError
 
 import PIL.Image
 import numpy
@@ -20,6 +21,8 @@ class Image(resdet_numpy.Image):
 
 @Analysis.analyze_image.register
 def _(self, image: PIL.Image.Image) -> None:
+    if image.size != (self.width, self.height):
+        raise InvalidImageError(f"Invalid image: {image.width}x{image.height} instead of {self.width}x{self.height}")
     self.analyze_image(numpy.array(image.convert("F")))
 
 @resdetect.register
-- 
2.43.0


From 2fa20ee697609b07d065e7366d7407094636a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 31/39] fix: report read errors in the FFmpeg reader

av_read_frame errors were taken for the end of the file, and demuxers
return AVERROR_EOF for failed reads themselves, so that a read error
silently cut sequences short.
---
 lib/image/ffmpeg.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index cc7b859..3bb971f 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -19,6 +19,7 @@ struct ffmpeg_context {
 	int sws_format;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
+	int read_error;
 };
 
 static RDError rderror_from_averror(int averr) {
@@ -75,6 +76,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	ctx->sws = NULL;
 	ctx->swsframe = ctx->frame = NULL;
 	ctx->packet = NULL;
+	ctx->read_error = 0;
 
 	if(!strcmp(filename,"-"))
 		filename = "pipe:";
@@ -135,8 +137,11 @@ static int read_frame(struct ffmpeg_context* ctx) {
 	while((averr = avcodec_receive_frame(ctx->codec, ctx->swsframe)) == AVERROR(EAGAIN)) {
 		while(!(averr = av_read_frame(ctx->fmt,ctx->packet)) && ctx->packet->stream_index != ctx->stream_index)
 			av_packet_unref(ctx->packet);
-		if(averr)
+		if(averr) {
+			// drain the decoder first, demuxers often treat read errors as the end of the file
+			ctx->read_error = averr != AVERROR_EOF ? averr : ctx->fmt->pb ? ctx->fmt->pb->error : 0;
 			averr = avcodec_send_packet(ctx->codec, NULL);
+		}
 		else {
 			averr = avcodec_send_packet(ctx->codec, ctx->packet);
 			av_packet_unref(ctx->packet);
@@ -144,7 +149,7 @@ static int read_frame(struct ffmpeg_context* ctx) {
 		if(averr)
 			break;
 	}
-	return averr;
+	return averr == AVERROR_EOF && ctx->read_error ? ctx->read_error : averr;
 }
 
 static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
-- 
2.43.0


From 7e3b3790765be94e0e1aab45dd3e8a04617400fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 32/39] fix: don't use a scaler whose initialization failed in
 the FFmpeg reader

---
 lib/image/ffmpeg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 3bb971f..7ebfbfa 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -51,6 +51,7 @@ static void ffmpeg_reader_close(void* reader_ctx) {
 
 static int init_sws(struct ffmpeg_context* ctx, int width, int height, int format) {
 	sws_freeContext(ctx->sws);
+	ctx->sws_format = AV_PIX_FMT_NONE;
 	if(!(ctx->sws = sws_alloc_context()))
 		return AVERROR(ENOMEM);
 
@@ -60,8 +61,9 @@ static int init_sws(struct ffmpeg_context* ctx, int width, int height, int forma
 	av_opt_set_int(ctx->sws, "dstw", width, 0);
 	av_opt_set_int(ctx->sws, "dsth", height, 0);
 	av_opt_set_int(ctx->sws, "dst_format", little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE, 0);
-	ctx->sws_format = format;
-	return sws_init_context(ctx->sws,NULL,NULL);
+	int averr = sws_init_context(ctx->sws,NULL,NULL);
+	ctx->sws_format = averr < 0 ? AV_PIX_FMT_NONE : format;
+	return averr;
 }
 
 static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
-- 
2.43.0


From 2cac6a8975856bec8a7c95dc452d29e1bec5261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 33/39] fix: report failed pixel exports in the MagickWand
 reader

---
 lib/image/magickwand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 877b6c0..bd7433b 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -91,7 +91,10 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 	if(!next_image(ctx))
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINTERNAL;
+		return false;
+	}
 	return true;
 }
 
-- 
2.43.0


From 74900848b1763e8305b8b4798c6ece1ee8f489de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 34/39] fix: accept any path as file name in the Python
 bindings

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 58c4e1f..c9380e7 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -158,9 +158,9 @@ class Image:
         err = ctypes.c_int()
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
-            self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image_with_reader(os.fsencode(filename), image_reader.encode("utf-8"), width, height, buf, err)
         else:
-            self._rdimage = libresdet.resdet_open_image(str(filename).encode("utf-8"), type_arg, width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image(os.fsencode(filename), type_arg, width, height, buf, err)
         if not self._rdimage:
             raise _rderror_to_exception(err)
 
@@ -356,7 +356,7 @@ def read_image(filename: str | os.PathLike, type: Optional[str] = None) -> Image
     height = ctypes.c_size_t()
     nimages = ctypes.c_size_t()
     buf = ImageBuffer()
-    err = libresdet.resdet_read_image(str(filename).encode("utf-8"), type_arg, buf.data, nimages, width, height)
+    err = libresdet.resdet_read_image(os.fsencode(filename), type_arg, buf.data, nimages, width, height)
     if err:
         raise _rderror_to_exception(err)
     buf.width = width.value
@@ -411,7 +411,7 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
+    err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
 
     libc.free(params_arg)
 
-- 
2.43.0


From 5311b86fcd6605c2f0271484a7a563dfc4e08a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 35/39] fix: refuse parameters which don't fit in the
 JavaScript bindings

---
 bindings/emscripten/resdet.mts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 00b6295..2f630da 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -181,13 +181,16 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(!params)
 		throw new OutOfMemoryError();
 
+	// numbers which don't fit would be wrapped on the way, pass ones which are refused instead
+	const representable = (value: number, max: number, invalid: number) => value < 0 || value > max ? invalid : value;
+
 	let err = 0;
 	if('range' in parameters)
-		err ||= resdet_parameters_set_range(params,parameters['range']);
+		err ||= resdet_parameters_set_range(params,representable(parameters['range'],0xffffffff,0));
 	if('threshold' in parameters)
 		err ||= resdet_parameters_set_threshold(params,parameters['threshold']);
 	if('compression_filter' in parameters)
-		err ||= resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
+		err ||= resdet_parameters_set_compression_filter(params,representable(parameters['compression_filter'],0xff,0xff));
 	if(err) {
 		Module._free(params);
 		throw new RDError(err);
-- 
2.43.0


From 62b0ebacb0f3cc91593d1bd86f58e11bf9396982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:16 +0000
Subject: [PATCH 36/39] fix: print microseconds as such in profile

---
 src/profile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index bba7627..7f2034b 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -176,7 +176,7 @@ int main(int argc, char* argv[]) {
 			diffplus[m-methods] += plus;
 			diffminus[m-methods] += minus;
 
-			printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
+			printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
 detect_end:
 			free(rw);
 			free(rh);
@@ -191,6 +191,6 @@ read_end:
 
 	puts("totals");
 	for(RDMethod* m = methods; m->name; m++)
-		printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
+		printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
 	return ret;
 }
-- 
2.43.0


From ebbd186f4441f625bd5de7ff5121160a522ba9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 37/39] fix: don't cut the last line of dictionaries without a
 final newline in profile

---
 src/profile.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 7f2034b..bb0d7c8 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -65,6 +65,14 @@ error:
 	*ct = 0;
 }
 
+// get the next line without its end
+ssize_t readline(char** line, size_t* size, FILE* f) {
+	ssize_t len = getline(line,size,f);
+	if(len > 0 && (*line)[len-1] == '\n')
+		(*line)[len-1] = '\0';
+	return len;
+}
+
 int main(int argc, char* argv[]) {
 	if(argc < 2) {
 		fprintf(stderr,
@@ -104,13 +112,11 @@ int main(int argc, char* argv[]) {
 		return 1;
 	}
 	int ret = 0;
-	ssize_t len;
 	size_t len2;
 	char* line = NULL;
-	while(!ret && (len = getline(&line,&len2,dict)) > 0) {
-		if(*line == '\n')
+	while(!ret && readline(&line,&len2,dict) > 0) {
+		if(!*line)
 			continue;
-		line[len-1] = '\0';
 		puts(line);
 		float* image;
 		size_t w, h, d;
@@ -118,8 +124,8 @@ int main(int argc, char* argv[]) {
 		if(e) {
 			fprintf(stderr, "Error reading %s: %s\n",line,resdet_error_str(e));
 			// skip over this image's resolution lists
-			if(getline(&line,&len2,dict) <= 0 ||
-			   getline(&line,&len2,dict) <= 0) {
+			if(readline(&line,&len2,dict) <= 0 ||
+			   readline(&line,&len2,dict) <= 0) {
 				ret = 1;
 				break;
 			}
@@ -128,11 +134,10 @@ int main(int argc, char* argv[]) {
 
 		size_t* knownw = NULL,* knownh  = NULL;
 		size_t knownwct, knownhct;
-		if((len = getline(&line,&len2,dict)) <= 0) {
+		if(readline(&line,&len2,dict) <= 0) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
 
 		readres(line,&knownw,&knownwct);
 		if(!knownwct) {
@@ -140,11 +145,10 @@ int main(int argc, char* argv[]) {
 			goto read_end;
 		}
 
-		if((len = getline(&line,&len2,dict)) <= 0) {
+		if(readline(&line,&len2,dict) <= 0) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
 
 		readres(line,&knownh,&knownhct);
 		if(!knownhct) {
-- 
2.43.0


From d485692532b578bba912e21437b271fad285b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:12 +0000
Subject: [PATCH 38/39] fix: read PFM scales alike in every locale

---
 lib/image/pfm.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9b7a4ab..a6f1ed2 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -85,6 +85,21 @@ static inline bool skip_comments(FILE* f) {
 	return c != EOF && ungetc(c,f) == c;
 }
 
+// the scale's decimal point is a full stop in every locale
+static bool parse_scale(const char* token, float* scale) {
+	char localized[80], half[16];
+	int len = snprintf(half,sizeof(half),"%.1f",.5); // the locale's is between the digits
+	const char* point = strchr(token,'.');
+	if(point)
+		snprintf(localized,sizeof(localized),"%.*s%.*s%s",(int)(point-token),token,len-2,half+1,point+1);
+
+	char* end;
+	*scale = strtof(point ? localized : token,&end);
+	return !*end;
+}
+
+#define SCALE_FORMAT "%63[-+.0-9A-Za-z]"
+
 static void* pfm_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
 	struct pfm_context* ctx = malloc(sizeof(*ctx));
 	if(!ctx) {
@@ -98,13 +113,15 @@ static void* pfm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	char scale[64];
 	if(
 	   fscanf(ctx->f,"P%c",&ctx->format) != 1 ||
 	   !(ctx->format == 'f' || ctx->format == 'F') ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %f",width,height,&ctx->endianness_scale) != 3 ||
+	   fscanf(ctx->f,"%zu %zu " SCALE_FORMAT,width,height,scale) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
+	   !parse_scale(scale,&ctx->endianness_scale) ||
 	   ferror(ctx->f) // a failed read may have cut a number short
 	) {
 		*error = RDEINVAL;
@@ -126,7 +143,7 @@ static bool read_header(struct pfm_context* ctx, size_t width, size_t height, RD
 
 	size_t next_width, next_height;
 	float next_endianness_scale;
-	char next_format;
+	char next_format, next_scale[64];
 
 	int next_char = fgetc(ctx->f);
 	if(next_char == EOF && feof(ctx->f))
@@ -138,8 +155,9 @@ static bool read_header(struct pfm_context* ctx, size_t width, size_t height, RD
 	    !(next_format == 'f' || next_format == 'F') ||
 	    fscanf(ctx->f," ") == EOF ||
 		!skip_comments(ctx->f) ||
-	    fscanf(ctx->f,"%zu %zu %f",&next_width,&next_height,&next_endianness_scale) != 3 ||
+	    fscanf(ctx->f,"%zu %zu " SCALE_FORMAT,&next_width,&next_height,next_scale) != 3 ||
 	    !isspace(fgetc(ctx->f)) ||
+	    !parse_scale(next_scale,&next_endianness_scale) ||
 	    next_width != width ||
 		next_height != height
 	) {
-- 
2.43.0


From 4e4046d9c5b0290e776b5ff3d45d102ab8e2920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:46 +0000
Subject: [PATCH 39/39] fix: compare names alike in every locale

---
 lib/image.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index b4e7c97..e5fdb55 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -5,8 +5,6 @@
 
 #include "image.h"
 
-#include <ctype.h>
-
 #ifdef _WIN32
 #include <fcntl.h>
 #include <io.h>
@@ -23,9 +21,14 @@ RDError resdet_fskip(FILE* f, uint64_t offset, void* buf) {
 	return RDEOK;
 }
 
+// tolower in every locale
+static char lowercase(char c) {
+	return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
+}
+
 bool resdet_strieq(const char* left, const char* right) {
 	while(*left && *right)
-		if(tolower(*left++) != tolower(*right++))
+		if(lowercase(*left++) != lowercase(*right++))
 			return false;
 	return *left == *right;
 }
-- 
2.43.0

