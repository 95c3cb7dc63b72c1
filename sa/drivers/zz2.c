#include "sa.h"
static bool f(size_t off, bool* eof) { bool ret = off <= 1; if(off && !*eof) { *eof = true; } return ret; }
static bool g(size_t off, bool* eof) { bool ret = off <= 1; return ret; }
void drv_u1(void) { bool eof = __sa_bool(); size_t off = __sa_size(); bool r = f(off, &eof); __sa_assert(off || r, "u1"); }
void drv_u2(void) { bool eof = __sa_bool(); size_t off = __sa_size(); bool r = g(off, &eof); __sa_assert(off || r, "u2"); }
void drv_u3(void) { bool eof = __sa_bool(); while(__sa_bool()) { size_t off = __sa_size(); bool r = f(off, &eof); __sa_assert(off || r, "u3"); }}
