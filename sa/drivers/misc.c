/* Clients of the small parts of the interface: parameters, methods, error strings, absent arguments, sample validation. */
#include "sa.h"
#include "resdet_internal.h"

/* ---- parameters ---- */
static void threshold(RDParameters* p, float v, bool valid) {
	RDParameters q = *p;
	RDError e = resdet_parameters_set_threshold(p, v);
	__sa_assert(e == RDEOK || e == RDEPARAM, "params-error-code");
	__sa_assert((e == RDEOK) == valid, valid ? "params-threshold-accepts" : "params-threshold-rejects");
	__sa_assert(__sa_same(p->threshold, e ? q.threshold : v), "params-threshold-stored");
	__sa_assert(p->range == q.range, "params-others-unchanged");
	__sa_assert(p->compression_filter == q.compression_filter, "params-others-unchanged");
}

void drv_params(void) {
	RDParameters* p = resdet_alloc_default_parameters();
	if(!p) return;
	__sa_assert(p->range == resdet_default_range(), "params-default-range");
	__sa_assert(p->range > 0, "params-default-range");
	__sa_assert(p->threshold < 0, "params-default-threshold");
	__sa_assert(p->compression_filter < 32, "params-default-filter");
	/* any state the setters can have left */
	p->range = __sa_size();
	p->compression_filter = __sa_u8();
	p->threshold = __sa_float();
	RDParameters q = *p;

	int which = __sa_int();
	if(which == 0) {
		size_t v = __sa_size();
		RDError e = resdet_parameters_set_range(p, v);
		__sa_assert(e == RDEOK || e == RDEPARAM, "params-error-code");
		__sa_assert(v > 0 || e == RDEPARAM, "params-range-rejects-zero");
		__sa_assert(v == 0 || e == RDEOK, "params-range-accepts");
		__sa_assert(p->range == (e ? q.range : v), "params-range-stored");
		__sa_assert(p->compression_filter == q.compression_filter, "params-others-unchanged");
		__sa_assert(__sa_same(p->threshold, q.threshold), "params-others-unchanged");
	} else if(which == 1) {
		uint8_t v = __sa_u8();
		RDError e = resdet_parameters_set_compression_filter(p, v);
		__sa_assert(e == RDEOK || e == RDEPARAM, "params-error-code");
		__sa_assert(v < 32 || e == RDEPARAM, "params-filter-rejects-shift");
		__sa_assert(v >= 32 || e == RDEOK, "params-filter-accepts");
		__sa_assert(p->compression_filter == (e ? q.compression_filter : v), "params-filter-stored");
		__sa_assert(p->range == q.range, "params-others-unchanged");
		__sa_assert(__sa_same(p->threshold, q.threshold), "params-others-unchanged");
	} else {
		float v = __sa_float();
		if(v >= 0) {
			if(v <= 1) threshold(p, v, true);
			else threshold(p, v, false);
		}
		else if(v < 0) threshold(p, v, false);
		else threshold(p, v, false);
	}
	free(p);
}

/* ---- methods ---- */
void drv_methods(void) {
	RDMethod* m = resdet_methods();
	__sa_assert(m != NULL, "methods-listed");
	__sa_assert(m->name != NULL, "methods-default-exists");
	__sa_assert(resdet_get_method(NULL) == m, "methods-default-exists");
	for(; m->name; m++) {
		__sa_assert(m->func != NULL, "methods-have-function");
		__sa_assert(m->threshold >= 0 && m->threshold <= 1, "methods-threshold-range");
		RDMethod* g = resdet_get_method(m->name);
		__sa_assert(g == m, "methods-found-by-name");
	}
}

void drv_method_unknown(void) {
	const char* name = __sa_string("name");
	RDMethod* m = resdet_get_method(name);
	if(m) __sa_assert(!strcmp(m->name, name), "methods-found-by-name");
}

/* ---- error strings ---- */
void drv_errstr(void) {
	RDError e = __sa_int();
	__sa_assume(e > -2147483647);
	const char* s = resdet_error_str(e);
	enum RDErrors max = resdet_get_max_error();
	__sa_assert(max == RDENOIMG, "errors-all-described");
	__sa_assert(e > (RDError)max || s != NULL, "errors-all-described");
	__sa_assert(e <= (RDError)max || s == NULL, "errors-unknown-null");
	if(s) (void)strlen(s);
}

/* ---- absent arguments ---- */
void drv_absent_image(void) {
	resdet_destroy_analysis(NULL);
	resdet_close_image(NULL);
	float x;
	RDError e = __sa_int(), g = __sa_int();
	bool qe = __sa_bool();
	__sa_assert(!resdet_read_image_frame(NULL, __sa_bool() ? &x : NULL, qe ? &e : NULL), "absent-rejected");
	__sa_assert(!qe || e == RDEPARAM, "absent-rejected");
	__sa_assert(!resdet_seek_frame(NULL, __sa_size(), NULL, NULL, qe ? &g : NULL), "absent-rejected");
	__sa_assert(!qe || g == RDEPARAM, "absent-rejected");
}

void drv_absent_analysis(void) {
	float x;
	__sa_assert(resdet_analyze_image(NULL, __sa_bool() ? &x : NULL) == RDEPARAM, "absent-rejected");
	RDResolution* r = (RDResolution*)&x,* s = (RDResolution*)&x;
	size_t n = __sa_size(), o = __sa_size();
	bool qr = __sa_bool(), qs = __sa_bool(), qn = __sa_bool(), qo = __sa_bool();
	__sa_assert(resdet_analysis_results(NULL, qr ? &r : NULL, qn ? &n : NULL, qs ? &s : NULL, qo ? &o : NULL) == RDEPARAM, "absent-rejected");
	__sa_assert(!qr || r == NULL, "absent-outputs-cleared");
	__sa_assert(!qs || s == NULL, "absent-outputs-cleared");
	__sa_assert(!qn || n == 0, "absent-outputs-cleared");
	__sa_assert(!qo || o == 0, "absent-outputs-cleared");
}

void drv_absent_params(void) {
	__sa_assert(resdet_parameters_set_range(NULL, __sa_size()) == RDEPARAM, "absent-rejected");
	__sa_assert(resdet_parameters_set_threshold(NULL, __sa_float()) == RDEPARAM, "absent-rejected");
	__sa_assert(resdet_parameters_set_compression_filter(NULL, __sa_u8()) == RDEPARAM, "absent-rejected");
}

static void noopen(bool with, bool qw, bool qh, const char* name, const char* type) {
	RDError e = __sa_int();
	float* b = (float*)&e;
	size_t w = __sa_size(), h = __sa_size();
	bool qe = __sa_bool(), qb = __sa_bool();
	RDImage* im = with ? resdet_open_image_with_reader(name, type, qw ? &w : NULL, qh ? &h : NULL, qb ? &b : NULL, qe ? &e : NULL)
	                   : resdet_open_image(name, type, qw ? &w : NULL, qh ? &h : NULL, qb ? &b : NULL, qe ? &e : NULL);
	__sa_assert(im == NULL, "absent-rejected");
	__sa_assert(!qe || e == RDEPARAM, "absent-rejected");
	__sa_assert(!qw || w == 0, "absent-outputs-cleared");
	__sa_assert(!qh || h == 0, "absent-outputs-cleared");
	__sa_assert(!qb || b == NULL, "absent-outputs-cleared");
}
void drv_absent_open1(void) {
	noopen(false, false, __sa_bool(), __sa_bool() ? __sa_string("filename") : NULL, __sa_bool() ? __sa_string("type") : NULL);
}
void drv_absent_open2(void) {
	noopen(false, true, false, __sa_bool() ? __sa_string("filename") : NULL, __sa_bool() ? __sa_string("type") : NULL);
}
void drv_absent_open3(void) {
	noopen(false, true, true, NULL, __sa_bool() ? __sa_string("type") : NULL);
}
void drv_absent_open4(void) {
	noopen(true, false, __sa_bool(), __sa_bool() ? __sa_string("filename") : NULL, __sa_bool() ? __sa_string("type") : NULL);
}
void drv_absent_open5(void) {
	noopen(true, true, false, __sa_bool() ? __sa_string("filename") : NULL, __sa_bool() ? __sa_string("type") : NULL);
}
void drv_absent_open6(void) {
	noopen(true, true, true, NULL, __sa_bool() ? __sa_string("type") : NULL);
}
void drv_absent_open7(void) {
	noopen(true, true, true, __sa_string("filename"), NULL);
}

void drv_absent_detect(void) {
	float x;
	RDResolution* r = (RDResolution*)&x;
	size_t n = __sa_size();
	__sa_assert(resdetect(NULL, __sa_size(), __sa_size(), __sa_size(), &r, &n, NULL, NULL, NULL, NULL) == RDEPARAM, "absent-rejected");
	__sa_assert(r == NULL && n == 0, "absent-outputs-cleared");
}

/* ---- defaults of an analysis ---- */
void drv_defaults(void) {
	size_t w = __sa_size(), h = __sa_size();
	RDMethod* m = __sa_bool() ? resdet_get_method("mag") : __sa_bool() ? resdet_get_method("zerox") : NULL;
	RDMethod* want = m ? m : resdet_methods();
	RDError e = __sa_int();
	bool qe = __sa_bool(), qp = __sa_bool();
	RDParameters p;
	p.range = __sa_size(); p.compression_filter = __sa_u8(); p.threshold = __sa_float();
	__sa_assume(p.range > 0);
	__sa_assume(p.compression_filter < 32);
	RDParameters* given = NULL;
	if(qp) {
		/* a threshold that was never set */
		if(__sa_bool()) p.threshold = -1;
		else { __sa_assume(p.threshold >= 0); __sa_assume(p.threshold <= 1); }
		given = &p;
	}
	float th = p.threshold;
	__sa_ev_reset();
	RDAnalysis* a = resdet_create_analysis(m, w, h, given, qe ? &e : NULL);
	if(qe) __sa_assert((a == NULL) == (e != RDEOK), "create-null-iff-error");
	if(!a) return;
	__sa_assert(a->method == want, "create-default-method");
	__sa_assert(a->width == w && a->height == h, "create-dimensions");
	__sa_assert(a->nimages == 0, "create-no-images-yet");
	if(!qp || th < 0) __sa_assert(__sa_same(a->params.threshold, want->threshold), "create-default-threshold");
	else __sa_assert(__sa_same(a->params.threshold, th), "create-keeps-threshold");
	if(strcmp(want->name, "zerox")) __sa_assert(a->params.range == (qp ? p.range : resdet_default_range()), "create-keeps-range");
	__sa_assert(a->params.compression_filter == (qp ? p.compression_filter : 0), "create-keeps-filter");
	resdet_destroy_analysis(a);
}

/* ---- samples ---- */
static RDAnalysis* cur;
static bool transformed, accumulated;
void stub_transform(resdet_plan* p) {
	__sa_assert(__sa_finite(cur->f, cur->width*cur->height*sizeof(coeff)), "only-finite-samples-analysed");
	transformed = true;
}
static RDError stub_method(const coeff* f, size_t length, size_t n, size_t stride, size_t dist, size_t range, intermediate* result, rdint_index* start, rdint_index* end) {
	__sa_assert(transformed, "samples-transformed-first");
	accumulated = true;
	return RDEOK;
}
static const RDMethod any = { "any", (void(*)(void))stub_method, .5f };

static void sample(bool finite) {
	size_t w = __sa_size(), h = __sa_size();
	RDParameters p;
	p.range = __sa_size(); p.compression_filter = 0; p.threshold = .5f;
	__sa_assume(p.range > 0);
	RDAnalysis* a = resdet_create_analysis(&any, w, h, &p, NULL);
	if(!a) return;
	cur = a;
	float* image = __sa_array(w*h*sizeof(float), "image");
	if(finite) __sa_hull(image, -3.402823466e+38F, 3.402823466e+38F);
	__sa_readonly(image);
	size_t n = __sa_size();
	__sa_assume(n < (size_t)1 << 52);
	a->nimages = n;
	RDError e = resdet_analyze_image(a, image);
	if(finite) __sa_assert(e == RDEOK, "finite-samples-accepted");
	if(e) {
		__sa_assert(e == RDEINVAL, "only-finite-samples-analysed");
		__sa_assert(!transformed && !accumulated, "only-finite-samples-analysed");
		__sa_assert(a->nimages == n, "failed-image-not-counted");
	} else {
		__sa_assert(transformed, "samples-transformed-first");
		__sa_assert(a->nimages == n + 1, "analyze-counts-images");
	}
	resdet_destroy_analysis(a);
}
void drv_samples(void) { sample(false); }
void drv_finite(void) { sample(true); }
