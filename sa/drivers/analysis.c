/* Clients of the analysis interface: any method, dimensions and parameters; any number of frames, then results. */
#include "sa.h"
#include "resdet_internal.h"

#define FAIL "nomem|fail|internal"

/* any parameters the setters accept (parameters.c decides that they accept no others) */
static void anyparams(RDParameters* p) {
	p->range = __sa_size();
	p->compression_filter = __sa_u8();
	p->threshold = __sa_float();
	__sa_assume(p->range > 0);
	__sa_assume(p->compression_filter < 32);
	__sa_assume(p->threshold >= 0);
	__sa_assume(p->threshold <= 1);
}

static void checkres(RDResolution* r, size_t n, size_t length) {
	__sa_assert(n >= 1, "results-at-least-one");
	__sa_assert(__sa_alloc_size_ge(r, n*sizeof(*r)), "results-count-within-allocation");
	__sa_assert(__sa_sorted_desc(r, n, sizeof(*r), offsetof(RDResolution, confidence)), "results-sorted");
	__sa_assert(__sa_contains(r, offsetof(RDResolution, index), length, offsetof(RDResolution, confidence), -1.f), "results-contain-original");
	__sa_assert(__sa_field_within(r, offsetof(RDResolution, confidence), -1.f, 1.f), "results-confidence-range");
}

static void results(RDAnalysis* a) {
	bool any = a->nimages > 0;
	size_t w = a->width, h = a->height;
	RDResolution* rw = (RDResolution*)a,* rh = (RDResolution*)a;
	size_t cw = __sa_size(), ch = __sa_size();
	bool qw = __sa_bool(), qh = __sa_bool();
	__sa_ev_reset();
	RDError e = resdet_analysis_results(a, qw ? &rw : NULL, qw ? &cw : NULL, qh ? &rh : NULL, qh ? &ch : NULL);
	__sa_assert(!__sa_ev(FAIL) || e != RDEOK, "results-failure-reported");
	__sa_assert(any || e == RDENOIMG, "results-without-images");
	if(e) {
		__sa_assert(!qw || (rw == NULL && cw == 0), "results-error-nulls");
		__sa_assert(!qh || (rh == NULL && ch == 0), "results-error-nulls");
	} else {
		if(qw) { checkres(rw, cw, w); free(rw); }
		if(qh) { checkres(rh, ch, h); free(rh); }
	}
	resdet_destroy_analysis(a);
}

/* One more image after any number of images: the accumulated sums are arbitrary within what the step below
   preserves (0..number of images), so this step covers every history. */
enum { STEP = 1, SUMS = 2, RESULTS = 4, AFTER = 8 };
static void drive(RDAnalysis* a, int how) {
	__sa_ev_end();
	size_t w = a->width, h = a->height, n = __sa_size();
	size_t x0 = a->xbound[0], x1 = a->xbound[1], y0 = a->ybound[0], y1 = a->ybound[1];
	__sa_assume(n < (size_t)1 << 52);
	a->nimages = n;
	__sa_hull_upto(a->xresult, n);
	__sa_hull_upto(a->yresult, n);
	__sa_ev_reset();
	float* image = __sa_array(w*h*sizeof(float), "image");
	__sa_readonly(image);
	RDError e = resdet_analyze_image(a, image);
	__sa_assert(!__sa_ev(FAIL) || e != RDEOK, "analyze-failure-reported");
	__sa_assert(a->nimages == n + (e == RDEOK), "analyze-counts-images");
	if(a->xresult) __sa_assert(a->xbound[0] == x0 && a->xbound[1] == x1, "bounds-stable");
	if(a->yresult) __sa_assert(a->ybound[0] == y0 && a->ybound[1] == y1, "bounds-stable");
	if(e) {
		if(__sa_ev("nomem") && a->xresult && a->yresult) __sa_assert(__sa_all_upto(a->xresult, n), "failed-image-not-counted-nomem");
		else __sa_assert(__sa_all_upto(a->xresult, n), "failed-image-not-counted");
		__sa_assert(__sa_all_upto(a->yresult, n), "failed-image-not-counted");
	} else if(how & SUMS) {
		__sa_assert(__sa_all_upto(a->xresult, a->nimages), "sums-within-images");
		__sa_assert(__sa_all_upto(a->yresult, a->nimages), "sums-within-images");
	}
	__sa_hull_upto(a->xresult, a->nimages);
	__sa_hull_upto(a->yresult, a->nimages);
	__sa_ev_end();
	if(!(how & RESULTS)) { resdet_destroy_analysis(a); return; }
	__sa_continue((void*)results, a);
}

/* results after any number of images, from what the step preserves */
static void after(RDAnalysis* a) {
	__sa_ev_end();
	size_t n = __sa_size();
	__sa_assume(n < (size_t)1 << 52);
	a->nimages = n;
	__sa_hull_upto(a->xresult, n);
	__sa_hull_upto(a->yresult, n);
	__sa_ev_end();
	results(a);
}

static void create(const char* name, int how) {
	size_t w = __sa_size(), h = __sa_size();
	RDMethod* m = resdet_get_method(name);
	__sa_assert(m != NULL, "method-found");
	RDParameters p;
	anyparams(&p);
	__sa_ev_reset();
	RDError e = __sa_int();
	RDAnalysis* a = resdet_create_analysis(m, w, h, &p, &e);
	__sa_assert((a == NULL) == (e != RDEOK), "create-null-iff-error");
	__sa_assert(!__sa_ev(FAIL) || e != RDEOK, "create-failure-reported");
	__sa_assert(w > 0 && h > 0 || e != RDEOK, "create-empty-rejected");
	if(!a) return;
	if(how & AFTER && __sa_bool()) __sa_continue((void*)after, a);
	__sa_continue((void*)drive, a, how);
}
void drv_an_sign(void) { create("sign", STEP|SUMS); }
void drv_an_mag(void) { create("mag", STEP|SUMS); }
void drv_an_orig(void) { create("orig", STEP|AFTER); }
void drv_an_zerox(void) { create("zerox", STEP|SUMS|AFTER); }
/* the same with the results taken from the states the step leaves, instead of from what it preserves */
void drv_an_default_results(void) { create(NULL, STEP|SUMS|RESULTS); }
void drv_an_sign_results(void) { create("sign", STEP|SUMS|RESULTS); }
void drv_an_mag_results(void) { create("mag", STEP|SUMS|RESULTS); }
void drv_an_zerox_results(void) { create("zerox", STEP|SUMS|RESULTS); }
