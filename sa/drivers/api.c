/* Clients of the high-level interface.  resdetect, resdetect_file and resdet_read_image are analysed against the
   contracts of the calls they are built from (the stub_* functions; readers.c and analysis.c decide those contracts). */
#include "sa.h"
#include "resdet_internal.h"

/* ---- contracts ---- */
static size_t opened, closed, created, destroyed, frames, analyzed, failed, results, fw, fh;

static bool readerr;

struct RDImage { int x; };

/* the stub's own failures: any error code, recorded */
static RDError somefail(void) {
	RDError e = __sa_int();
	__sa_assume(e != RDEOK);
	failed++;
	return e;
}

RDImage* stub_open(const char* filename, const char* type, size_t* w, size_t* h, float** buf, RDError* error) {
	if(w) *w = 0;
	if(h) *h = 0;
	if(buf) *buf = NULL;
	struct RDImage* im = malloc(sizeof(*im));
	float* b = NULL;
	if(!im) goto fail;
	fw = __sa_size(); fh = __sa_size();
	__sa_assume(fw > 0);
	__sa_assume(fh > 0);
	__sa_assume(!resdet_dims_exceed_limit(fw,fh,1,float));
	if(buf) {
		b = malloc(fw*fh*sizeof(float));
		if(!b) goto fail;
		*buf = b;
	}

	if(w) *w = fw;
	if(h) *h = fh;
	opened++;
	if(error) *error = RDEOK;
	return (RDImage*)im;
fail:
	free(im);
	RDError e = somefail();
	if(error) *error = e;
	return NULL;
}

bool stub_read(RDImage* im, float* image, RDError* error) {
	__sa_assert(im != NULL, "read-of-open-image");
	if(error) *error = RDEOK;
	if(__sa_bool()) {
		if(__sa_bool()) {
			RDError e = somefail();
			if(error) *error = e;
			readerr = true;
		}
		__sa_fill(image, fw*fh*sizeof(float));
		return false;
	}
	__sa_fill(image, fw*fh*sizeof(float));
	frames++;
	return true;
}

void stub_close(RDImage* im) {
	if(!im) return;
	closed++;
	free((void*)im);
}

RDAnalysis* stub_create(RDMethod* m, size_t w, size_t h, const RDParameters* p, RDError* error) {
	RDAnalysis* a = NULL;
	if(w && h) a = malloc(sizeof(*a));
	if(!a || __sa_bool()) {
		RDError e = somefail();
		free(a);
		if(error) *error = e;
		return NULL;
	}
	a->width = w;
	a->height = h;
	created++;
	if(error) *error = RDEOK;
	return a;
}

RDError stub_analyze(RDAnalysis* a, float* image) {
	__sa_assert(a != NULL, "analyze-with-analysis");
	__sa_assert(image != NULL, "analyze-an-image");
	__sa_use(image, a->width*a->height*sizeof(float));
	if(__sa_bool()) return somefail();
	analyzed++;
	return RDEOK;
}

RDError stub_results(RDAnalysis* a, RDResolution** rw, size_t* cw, RDResolution** rh, size_t* ch) {
	__sa_assert(a != NULL, "results-with-analysis");
	results++;
	if(rw) *rw = NULL;
	if(cw) *cw = 0;
	if(rh) *rh = NULL;
	if(ch) *ch = 0;
	if((rw && !cw) || (rh && !ch)) { failed++; return RDEPARAM; }
	if(!analyzed) { failed++; return RDENOIMG; }
	if(__sa_bool()) return somefail();
	if(rw) { *rw = malloc(sizeof(**rw)); if(!*rw) { return somefail(); } (*rw)->index = a->width; (*rw)->confidence = -1; *cw = 1; }
	if(rh) {
		*rh = malloc(sizeof(**rh));
		if(!*rh) {
			if(rw) { free(*rw); *rw = NULL; *cw = 0; }
			return somefail();
		}
		(*rh)->index = a->height; (*rh)->confidence = -1; *ch = 1;
	}
	return RDEOK;
}

void stub_destroy(RDAnalysis* a) {
	if(!a) return;
	destroyed++;
	free(a);
}

/* ---- clients ---- */
static void checked(RDError e, bool qw, bool qcw, bool qh, bool qch, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch, bool file) {
	__sa_assert(!failed || e != RDEOK, "detect-failure-reported");
	__sa_assert(!__sa_ev("nomem|fail|internal") || e != RDEOK, "detect-failure-reported");
	__sa_assert(created == destroyed, "detect-analysis-released");
	__sa_assert(opened == closed, "detect-image-closed");
	if(file) __sa_assert(e != RDEOK || frames == analyzed, "detect-all-frames");
	__sa_assert(e != RDEOK || results == 1 && analyzed > 0, "detect-success-means-results");
	if(e) {
		__sa_assert(!qw || rw == NULL, "detect-error-nulls");
		__sa_assert(!qh || rh == NULL, "detect-error-nulls");
		__sa_assert(!qcw || cw == 0, "detect-error-nulls");
		__sa_assert(!qch || ch == 0, "detect-error-nulls");
	} else {
		if(qw) { __sa_assert(cw >= 1, "detect-success-means-results"); free(rw); }
		if(qh) { __sa_assert(ch >= 1, "detect-success-means-results"); free(rh); }
	}
	if(qw && !qcw || qh && !qch) __sa_assert(e == RDEPARAM, "detect-missing-count-rejected");
}

void drv_detect(void) {
	RDResolution* rw = (RDResolution*)&opened,* rh = (RDResolution*)&opened;
	size_t cw = __sa_size(), ch = __sa_size();
	bool qw = __sa_bool(), qh = __sa_bool(), qcw = __sa_bool(), qch = __sa_bool();
	size_t w = __sa_size(), h = __sa_size(), n = __sa_size();
	float* image = NULL;
	if(__sa_bool()) {
		if(w && h && n) __sa_assume(!(resdet_dims_exceed_limit(w,h,n,float)));
		image = __sa_array(w*h*n*sizeof(float), "images");
		__sa_readonly(image);
	}
	bool given = image != NULL;
	__sa_ev_reset();
	RDError e = resdetect(image, n, w, h, qw ? &rw : NULL, qcw ? &cw : NULL, qh ? &rh : NULL, qch ? &ch : NULL, NULL, NULL);
	checked(e, qw, qcw, qh, qch, rw, cw, rh, ch, false);
	__sa_assert(e != RDEOK || analyzed == n, "detect-all-frames");
	__sa_assert(given || e == RDEPARAM, "detect-no-image-rejected");
	if(given && !(qw && !qcw) && !(qh && !qch)) __sa_assert(n > 0 || e == RDENOIMG, "detect-no-frames-rejected");
}

void drv_file(void) {
	RDResolution* rw = (RDResolution*)&opened,* rh = (RDResolution*)&opened;
	size_t cw = __sa_size(), ch = __sa_size();
	bool qw = __sa_bool(), qh = __sa_bool(), qcw = __sa_bool(), qch = __sa_bool();
	__sa_ev_reset();
	RDError e = resdetect_file(__sa_string("filename"), NULL, qw ? &rw : NULL, qcw ? &cw : NULL, qh ? &rh : NULL, qch ? &ch : NULL, NULL, NULL);
	checked(e, qw, qcw, qh, qch, rw, cw, rh, ch, true);
}

void drv_whole(void) {
	size_t w = __sa_size(), h = __sa_size(), n = __sa_size();
	float* image = (float*)&opened;
	__sa_ev_reset();
	RDError e = resdet_read_image(__sa_string("filename"), NULL, &image, &n, &w, &h);
	__sa_assert(!failed || e != RDEOK, "whole-failure-reported");
	__sa_assert(!__sa_ev("nomem|fail|internal") || e != RDEOK, "whole-failure-reported");
	__sa_assert(opened == closed, "whole-image-closed");
	if(e) __sa_assert(image == NULL, "whole-error-no-buffer");
	else {
		__sa_assert(n == frames, "whole-counts-frames");
		__sa_assert(w == fw && h == fh, "whole-dimensions");
		__sa_assert(__sa_alloc_size_ge(image, fw*fh*frames*sizeof(float)), "whole-buffer-holds-frames");
		__sa_assert(__sa_written(image, fw*fh*frames*sizeof(float)), "whole-buffer-holds-frames");
		free(image);
	}
}
