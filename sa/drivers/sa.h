/* Primitives of the abstract interpreter (models.py); the drivers are analysed, never compiled to code or run. */
#ifndef SA_H
#define SA_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "resdet.h"
size_t __sa_size(void);
int __sa_int(void);
bool __sa_bool(void);
float __sa_float(void);
unsigned char __sa_u8(void);
bool __sa_same(float, float);
const char* __sa_string(const char* label);
void __sa_assume(bool);
void* __sa_array(size_t bytes, const char* label);
void __sa_readonly(const void*);
void __sa_hull(void*, float lo, float hi);
void __sa_hull_upto(void*, size_t n);
bool __sa_all_upto(const void*, size_t n);
void __sa_assert(bool, const char* tag);
bool __sa_written(const void*, size_t);
void __sa_fresh(void*);
void __sa_fill(void*, size_t);
void __sa_use(const void*, size_t);
bool __sa_finite(const void*, size_t);
bool __sa_alloc_size_is(const void*, size_t);
bool __sa_alloc_size_ge(const void*, size_t);
void __sa_ev_reset(void);
void __sa_ev_end(void);
void __sa_opaque(size_t keep);
void __sa_continue(void* fn, ...);
bool __sa_ev(const char*);
bool __sa_untouched(void);
bool __sa_bulk_is(size_t);
bool __sa_prefix(const char*);
void __sa_ghost(const char*, const char*);
bool __sa_sorted_desc(const void*, size_t n, size_t sz, size_t off);
bool __sa_contains(const void*, size_t ioff, size_t i, size_t foff, float f);
bool __sa_field_within(const void*, size_t off, float lo, float hi);
bool __sa_file_closed(void);
bool __sa_png_complete(void);
void __sa_dump(const void*, ...);
#endif
