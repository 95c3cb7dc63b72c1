From 8e3e9dd9cca78ba253611f5c84e80c3b9db45cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 01/13] fix: libjpeg: keep the error manager alive for as long
 as the decompressor

It was a compound literal in open()'s frame, so a warning or error while
reading the frame (a truncated file is enough) called through a dangling
pointer.
---
 lib/image/libjpeg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..ed91c9e 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -18,6 +18,7 @@ struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr err;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,11 +48,12 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->err = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->err;
 
 	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
 		*error = RDEINVAL;
-- 
2.43.0


From b58cb06adce71b0782796c730b9bf20d933f9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 02/13] fix: pgm: reject files without the P5 magic number

fscanf returns 0, not a negative value, when the literal doesn't match.
---
 lib/image/pgm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..b50faa4 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -50,8 +50,10 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	char magic;
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fscanf(ctx->f,"P%c ",&magic) != 1 ||
+	   magic != '5' ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-- 
2.43.0


From ff351996c2c9c01fc94025f7026152c2a6d6cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 03/13] fix: pgm: reject a maximum value of 0

It is invalid, and samples were divided by it.
---
 lib/image/pgm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index b50faa4..f64a895 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -57,6 +57,7 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
+	   !ctx->depth ||
 	   ctx->depth > 255
 	) {
 		*error = RDEINVAL;
-- 
2.43.0


From 0ed47343112d8fcd94429eceee70163eb6f2daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 04/13] fix: pfm: seeking by 0 frames must not discard a
 consumed header

The next read then parsed pixel data as a header.
---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From 860e29815b5a9078d0543b28de8ee38927626a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 05/13] fix: pfm: skip each frame by its own format when
 seeking

The size of the first frame was used for all, which misplaces the file
position in streams mixing gray and rgb frames.
---
 lib/image/pfm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..2f2a5ad 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,9 +171,8 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
+	// frames may be either gray or rgb
+	size_t imgsize = width*height*3;
 
 	float* buf = NULL;
 	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
@@ -187,6 +186,7 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
+		imgsize = width*height*(ctx->format == 'F' ? 3 : 1);
 		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
 			ret = false;
 			break;
-- 
2.43.0


From d1423c28e944e302b473da48245aab9a3f7ce813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 06/13] fix: y4m: correct the plane sizes of 411 and 444alpha

411 is subsampled by 4 horizontally only, and the test for 444alpha was
shadowed by the one for 444, so frames after the first were misparsed.
---
 lib/image/y4m.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,14 +86,16 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From 26eefd26a0813bd72cc0c1e1bf11de344897a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 07/13] fix: ffmpeg: report the actual error when opening fails

A stream index or a truth value was taken for an error code.
---
 lib/image/ffmpeg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..4e112d9 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -71,12 +71,13 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	const AVCodec* dec;
 	if((averr = (ctx->stream_index = av_find_best_stream(ctx->fmt,AVMEDIA_TYPE_VIDEO,-1,-1,&dec,0))) < 0)
 		goto error;
+	averr = 0;
 
 	if(!(ctx->codec = avcodec_alloc_context3(dec))) {
 		*error = RDENOMEM;
 		goto error;
 	}
-	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar) < 0))
+	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar)) < 0)
 		goto error;
 
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
-- 
2.43.0


From b0e83e87fcbd7a272251d7c6eb4d4b1b7bd3baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 08/13] fix: ffmpeg: don't take a demuxing error for the end of
 the stream

---
 lib/image/ffmpeg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 4e112d9..109ed12 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -122,9 +122,9 @@ static int read_frame(struct ffmpeg_context* ctx) {
 	while((averr = avcodec_receive_frame(ctx->codec, ctx->swsframe)) == AVERROR(EAGAIN)) {
 		while(!(averr = av_read_frame(ctx->fmt,ctx->packet)) && ctx->packet->stream_index != ctx->stream_index)
 			av_packet_unref(ctx->packet);
-		if(averr)
+		if(averr == AVERROR_EOF)
 			averr = avcodec_send_packet(ctx->codec, NULL);
-		else {
+		else if(!averr) {
 			averr = avcodec_send_packet(ctx->codec, ctx->packet);
 			av_packet_unref(ctx->packet);
 		}
-- 
2.43.0


From e7c150fad9d4a2e3841d139923f99c4e3e776ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 09/13] fix: magickwand: report a failure to export the pixels
 of a frame

---
 lib/image/magickwand.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..ddae150 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -82,7 +82,11 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 	if(MagickNextImage(ctx->wand) == MagickFalse)
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINVAL;
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From da4e2a0b7ef748bd802359df214cfeb4c2ef4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 10/13] fix: kiss_fft: free the second shift table when
 planning fails

The dimensions are not stored yet when an allocation fails, so a plan for a
non-square image was taken for a square one.
---
 lib/transform/kiss_fft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..478c105 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -83,12 +83,12 @@ void resdet_transform(resdet_plan* p) {
 
 void resdet_free_plan(resdet_plan* p) {
 	if(p) {
-		free(p->cfg[0]);
-		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->cfg[1] != p->cfg[0])
 			free(p->cfg[1]);
+		if(p->shift[1] != p->shift[0])
 			free(p->shift[1]);
-		}
+		free(p->cfg[0]);
+		free(p->shift[0]);
 		free(p->mirror);
 		free(p->F);
 		free(p);
-- 
2.43.0


From eb02170c07870dfd3efa8e87f5030e4ea6ca24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 11/13] fix: ffmpeg: refuse frames differing from the stream's
 initial dimensions

The scaler read past the end of the planes of a narrower frame.
---
 lib/image/ffmpeg.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 109ed12..d4775d3 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -15,6 +15,7 @@ struct ffmpeg_context {
 	AVFormatContext* fmt;
 	AVCodecContext* codec;
 	int stream_index;
+	enum AVPixelFormat format;
 	struct SwsContext* sws;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
@@ -104,6 +105,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	ctx->frame->height = ctx->codec->height;
 	ctx->frame->format = little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE;
 
+	ctx->format = ctx->codec->pix_fmt;
 	*width = ctx->codec->width;
 	*height = ctx->codec->height;
 
@@ -138,7 +140,16 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
-	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
+	if(averr)
+		goto averror;
+
+	// the scaler is only set up for the initial dimensions and format
+	if((size_t)ctx->swsframe->width != width || (size_t)ctx->swsframe->height != height || ctx->swsframe->format != ctx->format) {
+		*error = RDEUNSUPP;
+		return false;
+	}
+
+	if((averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
 	for(size_t y = 0; y < height; y++)
-- 
2.43.0


From fb917806a48e876142d820f3ae6c98972c9eb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 12/13] fix: pfm: don't let the size of the seek buffer wrap

---
 lib/image/pfm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 2f2a5ad..11cf918 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -172,6 +172,10 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 	struct pfm_context* ctx = reader_ctx;
 
 	// frames may be either gray or rgb
+	if(width*height > SIZE_MAX/(3*sizeof(float))) {
+		*error = RDETOOBIG;
+		return false;
+	}
 	size_t imgsize = width*height*3;
 
 	float* buf = NULL;
-- 
2.43.0


From 79e37f6fdb8e7995616dc878c33879232b48a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 13/13] fix: libpng: request interlace handling before updating
 the info struct

---
 lib/image/libpng.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..7720a8e 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -94,6 +94,7 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	png_set_interlace_handling(ctx->png_ptr);
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
-- 
2.43.0

