/* Linear certificates, floating-point part: proposes which facts to combine.  A proposal counts only after num.py
   has verified it in exact integer arithmetic; "none" only loses precision, never soundness.

   minimise c.x  subject to  A x = b, x >= 0  (A by columns); stops once the value is <= pc. */
#include <stdlib.h>
#include <string.h>
#include <math.h>

#define EPS 1e-11L
typedef long double R;

int lp(int m, int n, const int* cp, const int* ri, const double* v, const double* b, const double* c, double pc, int limit, int* out) {
	int N = n + m, W = N + 1, res = -1;
	R* T = calloc((size_t)(m + 2)*W, sizeof(*T));
	double* rs = malloc(sizeof(*rs)*(m + 1)),* cs = malloc(sizeof(*cs)*(n + 1));
	int* basis = malloc(sizeof(*basis)*(m + 1));
	if(!T || !rs || !cs || !basis) { res = -2; goto end; }
	/* scaling */
	for(int i = 0; i < m; i++) rs[i] = 1;
	for(int j = 0; j < n; j++) cs[j] = 1;
	for(int pass = 0; pass < 3; pass++) {
		double mx[m + 1], mn[m + 1];
		for(int i = 0; i < m; i++) { mx[i] = 0; mn[i] = INFINITY; }
		for(int j = 0; j < n; j++)
			for(int k = cp[j]; k < cp[j+1]; k++) {
				double a = fabs(v[k])*rs[ri[k]]*cs[j];
				if(a > mx[ri[k]]) mx[ri[k]] = a;
				if(a < mn[ri[k]]) mn[ri[k]] = a;
			}
		for(int i = 0; i < m; i++) if(mx[i] > 0) rs[i] /= sqrt(mx[i]*mn[i]);
		for(int j = 0; j < n; j++) {
			double x = 0, y = INFINITY;
			for(int k = cp[j]; k < cp[j+1]; k++) {
				double a = fabs(v[k])*rs[ri[k]]*cs[j];
				if(a > x) x = a;
				if(a < y) y = a;
			}
			if(x > 0) cs[j] /= sqrt(x*y);
		}
	}
#define AT(i,j) T[(size_t)(i)*W + (j)]
	for(int j = 0; j < n; j++) {
		for(int k = cp[j]; k < cp[j+1]; k++) AT(ri[k], j) = v[k]*rs[ri[k]]*cs[j];
		AT(m + 1, j) = c[j]*cs[j];
	}
	for(int i = 0; i < m; i++) {
		AT(i, N) = b[i]*rs[i];
		if(AT(i, N) < 0) for(int j = 0; j <= N; j++) AT(i, j) = -AT(i, j);
		AT(i, n + i) = 1;
		basis[i] = n + i;
		for(int j = 0; j <= N; j++) if(j < n || j == N) AT(m, j) -= AT(i, j);
	}
	R scale = 0;
	for(int i = 0; i < m; i++) scale += fabsl(AT(i, N));
	int phase = 1, it;
	for(it = 0; it < limit; it++) {
		if(phase == 1 && -AT(m, N) <= EPS*(1 + scale)) {
			phase = 2;
			/* drive the remaining artificials out */
			for(int i = 0; i < m; i++)
				if(basis[i] >= n) {
					int e = -1; R best = 1e-9L;
					for(int j = 0; j < n; j++) if(fabsl(AT(i, j)) > best) { best = fabsl(AT(i, j)); e = j; }
					if(e >= 0) {
						R p = 1/AT(i, e);
						for(int j = 0; j <= N; j++) AT(i, j) *= p;
						for(int r = 0; r < m + 2; r++) {
							R q = AT(r, e);
							if(r == i || q == 0) continue;
							for(int j = 0; j <= N; j++) AT(r, j) -= q*AT(i, j);
						}
						basis[i] = e;
					}
				}
		}
		int zr = phase == 1 ? m : m + 1;
		if(phase == 2 && -AT(m + 1, N) <= pc + 1e-16L*fabs(pc) + 1e-7L) { res = 0; break; }
		int e = -1;
		if(it < limit/2) {
			R best = -EPS;
			for(int j = 0; j < n; j++) if(AT(zr, j) < best) { best = AT(zr, j); e = j; }
		} else
			for(int j = 0; j < n; j++) if(AT(zr, j) < -EPS) { e = j; break; }
		if(e < 0) break;
		int r = -1; R bq = 0;
		for(int i = 0; i < m; i++) {
			R a = AT(i, e);
			if(a > EPS) {
				R q = AT(i, N)/a;
				if(r < 0 || q < bq - 1e-15L*bq || (q <= bq + 1e-15L*bq && basis[i] < basis[r])) { r = i; bq = q; }
			}
		}
		if(r < 0) { if(phase == 2) res = -3; break; }
		R p = 1/AT(r, e);
		for(int j = 0; j <= N; j++) AT(r, j) *= p;
		for(int i = 0; i < m + 2; i++) {
			R q = AT(i, e);
			if(i == r || q == 0) continue;
			R* ti = &AT(i, 0),* tr = &AT(r, 0);
			for(int j = 0; j <= N; j++) ti[j] -= q*tr[j];
			ti[e] = 0;
		}
		basis[r] = e;
	}
	if(it >= limit) res = -4;
	if(res == 0) {
		for(int i = 0; i < m; i++)
			if(basis[i] < n && fabsl(AT(i, N)) > 1e-12) out[res++] = basis[i];
		int z = res;
		for(int i = 0; i < m; i++)
			if(basis[i] < n && !(fabsl(AT(i, N)) > 1e-12)) out[z++] = basis[i];
		out[m] = z;
	}
end:
	free(T); free(rs); free(cs); free(basis);
	return res;
}
