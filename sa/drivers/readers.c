/* Most general clients of the image readers: open, then any sequence of reads and seeks, then close. */
#include "sa.h"

#define FAIL "nomem|fail"

static void progress(void* p, uint64_t n) { }

/* one read; true if the frame of a single image is gone */
static bool reads(RDImage* im, size_t w, size_t h, float* buf, bool single, bool done, RDError* err) {
	RDError e2 = __sa_int();
	__sa_ev_reset();
	__sa_fresh(buf);
	bool r = resdet_read_image_frame(im, buf, &e2);
	__sa_assert(!r || e2 == RDEOK, "read-true-means-ok");
	__sa_assert(!r || __sa_written(buf, w*h*sizeof(float)), "read-true-means-whole-frame");
	__sa_assert(!r || __sa_png_complete(), "read-true-means-whole-frame");
	__sa_assert(!r || !__sa_ev(FAIL "|eof"), "read-true-means-no-failure");
	__sa_assert(!__sa_ev(FAIL) || e2 != RDEOK, "read-failure-reported");
	__sa_assert(r || e2 != RDEOK || __sa_untouched(), "read-clean-end-at-frame-boundary");
	if(single)
		/* the only frame is read once */
		__sa_assert(done ? !r && e2 == RDEOK : r || e2 != RDEOK, "read-single-frame-once");
	__sa_ev_end();
	if(err) *err = e2;
	return single;
}

static bool seeks(RDImage* im, size_t w, size_t h, float* buf, bool single, bool done, RDError* err) {
	RDError e2 = __sa_int();
	__sa_ev_reset();
	__sa_fresh(buf);
	uint64_t off = __sa_size();
	bool r = resdet_seek_frame(im, off, __sa_bool() ? progress : NULL, NULL, &e2);
	__sa_assert(!r || e2 == RDEOK, "seek-true-means-ok");
	__sa_assert(!r || !__sa_ev(FAIL "|eof"), "seek-true-means-no-failure");
	__sa_assert(!__sa_ev(FAIL) || e2 != RDEOK, "seek-failure-reported");
	__sa_assert(off || r || e2 != RDEOK, "seek-zero-succeeds");
	if(single && off) {
		__sa_assert(e2 != RDEOK || r == (off == 1 && !done), "seek-single-frame");
		done = true;
	}
	__sa_ev_end();
	if(err) *err = e2;
	return done;
}

static void finish(RDImage* im, float* buf) {
	resdet_close_image(im);
	free(buf);
	__sa_assert(__sa_file_closed(), "closed-at-end");
}

/* any number of them */
static void drive(RDImage* im, size_t w, size_t h, float* buf, bool single) {
	__sa_ev_end();
	bool done = false;
	while(__sa_bool())
		if(__sa_bool()) done = reads(im, w, h, buf, single, done, NULL);
		else done = seeks(im, w, h, buf, single, done, NULL);
	finish(im, buf);
}

/* at most two, not both seeks, the second one only if the first reports no error */
static void drive_read(RDImage* im, size_t w, size_t h, float* buf) {
	reads(im, w, h, buf, false, false, NULL);
	finish(im, buf);
}
static void drive_any(RDImage* im, size_t w, size_t h, float* buf) {
	if(__sa_bool()) reads(im, w, h, buf, false, false, NULL);
	else seeks(im, w, h, buf, false, false, NULL);
	finish(im, buf);
}
static void drive2(RDImage* im, size_t w, size_t h, float* buf) {
	RDError e;
	__sa_ev_end();
	if(__sa_bool()) {
		reads(im, w, h, buf, false, false, &e);
		if(e == RDEOK) __sa_continue((void*)drive_any, im, w, h, buf);
	} else if(__sa_bool()) {
		seeks(im, w, h, buf, false, false, &e);
		if(e == RDEOK) __sa_continue((void*)drive_read, im, w, h, buf);
	}
	finish(im, buf);
}

static void use(RDImage* im, size_t w, size_t h, float* buf, RDError e, bool single, bool two) {
	/* no image <=> an error; dimensions are those of the buffer */
	__sa_assert((im == NULL) == (e != RDEOK), "open-null-iff-error");
	__sa_assert(e == RDEOK || !(w || h), "open-error-zero-dims");
	__sa_assert(!__sa_ev(FAIL) || e != RDEOK, "open-failure-reported");
	if(!im) {
		__sa_assert(buf == NULL, "open-error-null-buffer");
		resdet_close_image(im);
		__sa_assert(__sa_file_closed(), "closed-after-error");
		return;
	}
	__sa_assert(buf != NULL && __sa_alloc_size_is(buf, w*h*sizeof(float)), "open-buffer-size");
	if(two) __sa_continue((void*)drive2, im, w, h, buf);
	__sa_continue((void*)drive, im, w, h, buf, single);
}

#define EXT(name, ext, single, two) \
void drv_##name(void) { \
	size_t w = __sa_size(), h = __sa_size(); \
	float* buf = (float*)&w; \
	RDError e = __sa_int(); \
	RDImage* im = resdet_open_image(__sa_string("filename"), ext, &w, &h, &buf, &e); \
	use(im, w, h, buf, e, single, two); \
}
#define Y4M(name, two) \
void drv_##name(void) { \
	size_t w = __sa_size(), h = __sa_size(); \
	float* buf = (float*)&w; \
	RDError e = __sa_int(); \
	RDImage* im = resdet_open_image(__sa_string("filename"), "y4m", &w, &h, &buf, &e); \
	if(im) __sa_opaque(w*h); \
	use(im, w, h, buf, e, false, two); \
}
#define NAMED(name, reader, single, two) \
void drv_##name(void) { \
	size_t w = __sa_size(), h = __sa_size(); \
	float* buf = (float*)&w; \
	RDError e = __sa_int(); \
	RDImage* im = resdet_open_image_with_reader(__sa_string("filename"), reader, &w, &h, &buf, &e); \
	use(im, w, h, buf, e, single, two); \
}
EXT(pgm, "pgm", true, false)
EXT(pfm, "pfm", false, false)
Y4M(y4m, false)
EXT(jpg, "jpg", true, false)
EXT(png, "png", true, false)
NAMED(ffmpeg, "FFmpeg", false, false)
NAMED(magick, "MagickWand", false, false)
EXT(pfm2, "pfm", false, true)
Y4M(y4m2, true)
NAMED(ffmpeg2, "FFmpeg", false, true)
