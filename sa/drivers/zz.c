#include "sa.h"
void drv_t1(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	unsigned char* p = malloc(n);
	if(!p) return;
	for(size_t i = 0; i < n; i++) { if(__sa_bool()) p[i] = 3; }
	unsigned s = 0;
	for(size_t i = 0; i < n; i++) s += p[i];
	__sa_assert(s < 5, "t1");
	free(p);
}
void drv_t2(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	unsigned char* p = malloc(n);
	if(!p) return;
	for(size_t i = 0; i < n; i++) { if(i == 3) continue; p[i] = 3; }
	unsigned s = 0;
	for(size_t i = 0; i < n; i++) s += p[i];
	__sa_assert(s < 5, "t2");
	free(p);
}
void drv_t3(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	unsigned char* p = malloc(n);
	if(!p) return;
	size_t j = 0;
	while(j < n) { size_t m = __sa_size(); if(m > n - j) m = n-j; memset(p+j, 1, m); j += m; }
	unsigned s = 0;
	for(size_t i = 0; i < n; i++) s += p[i];
	__sa_assert(s < 5, "t3");
	free(p);
}
void drv_t4(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	unsigned char* p = malloc(n);
	if(!p) return;
	size_t j = 0;
	while(j < n) { size_t m = __sa_size(); if(m > n - j) m = n-j; if(m != 7) memset(p+j, 1, m); j += m; }
	unsigned s = 0;
	for(size_t i = 0; i < n; i++) s += p[i];
	__sa_assert(s < 5, "t4");
	free(p);
}
void drv_t5(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	unsigned char* p = malloc(n);
	if(!p) return;
	for(size_t i = 0; i < n; i++) { if(__sa_bool()) p[i] = 3; }
	unsigned s = 0;
	for(size_t i = 0; i < n-1; i++) s += p[i];
	free(p);
}
void drv_t6(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	float* p = malloc(n*sizeof(float));
	if(!p) return;
	for(size_t i = 0; i < n; i++) p[i] = 0;
	for(size_t i = 0; i < n; i++) { if(__sa_bool()) p[i] = 3; }
	for(size_t i = 0; i < n; i++) { __sa_assert(p[i] <= 3, "good6"); __sa_assert(p[i] >= 1, "bad6"); }
	free(p);
}
void drv_t7(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	float* p = malloc(n*sizeof(float));
	if(!p) return;
	for(size_t i = n; i > 0; i--) p[i-1] = 5;
	for(size_t i = 0; i < n; i++) { __sa_assert(p[i] <= 5, "good7"); __sa_assert(p[i] >= 6, "bad7"); }
	free(p);
}
void drv_t8(void) {
	size_t n = __sa_size();
	if(n > 1000000 || n < 3) return;
	unsigned char* p = malloc(n);
	if(!p) return;
	size_t j = 0;
	while(j < n) { size_t m = __sa_size(); if(m > n - j) m = n-j; if(m != 7) memset(p+j, 1, m); j += m; }
	unsigned s = 0;
	for(size_t i = 0; i < n/2; i++) s += p[i];
	free(p);
}
