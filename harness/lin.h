// Double-precision reference linear algebra.
#ifndef MC_LIN_H
#define MC_LIN_H
#include <algorithm>
#include "arith.h"
typedef std::vector<std::vector<double>> DM;
static inline DM dm(int h, int w, double v = 0) { return DM(h, std::vector<double>(w, v)); }
static inline DM dm(const Val &A) { DM r = dm(A.d[0], A.d[1]); for (int i = 0; i < A.d[0]; i++) for (int j = 0; j < A.d[1]; j++) r[i][j] = A.v[i * A.d[1] + j]; return r; }
static inline DM dmr(Ref<MLPPMatrix> m) { if (!m.is_valid()) return DM(); DM r = dm(m->size().y, m->size().x); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) r[i][j] = m->element_get(i, j); return r; }
static inline DM mul(const DM &A, const DM &B) { int h = A.size(), n = B.size(), w = n ? B[0].size() : 0; DM r = dm(h, w); for (int i = 0; i < h; i++) for (int k = 0; k < n; k++) for (int j = 0; j < w; j++) r[i][j] += A[i][k] * B[k][j]; return r; }
static inline DM tr(const DM &A) { int h = A.size(), w = h ? A[0].size() : 0; DM r = dm(w, h); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) r[j][i] = A[i][j]; return r; }
static inline DM eye(int n) { DM r = dm(n, n); for (int i = 0; i < n; i++) r[i][i] = 1; return r; }
static inline double ddet(const DM &A) { // signed sum over permutations
	int n = A.size(); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
	double s = 0;
	do { int inv = 0; double t = 1; for (int i = 0; i < n; i++) { t *= A[i][p[i]]; for (int j = i + 1; j < n; j++) inv += p[i] > p[j]; } s += inv % 2 ? -t : t; } while (std::next_permutation(p.begin(), p.end()));
	return s;
}
static inline double maxabs(const DM &A) { double m = 0; for (auto &r : A) for (double x : r) m = std::isnan(x) ? 1e300 : std::max(m, std::fabs(x)); return m; }
static inline double dist(const DM &A, const DM &B) { if (A.size() != B.size() || (A.size() && A[0].size() != B[0].size())) return 1e301; double m = 0; for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A[i].size(); j++) { double x = std::fabs(A[i][j] - B[i][j]); if (!(x <= m)) m = std::isnan(x) ? 1e300 : x; } return m; }
static inline std::string ds(const DM &A) { std::string s = "{"; for (auto &r : A) { s += "["; for (double x : r) s += mc::fmt("%.6g ", x); s += "]"; } return s + "}"; }
static inline Val dval(const DM &A) { Val v; v.d = { (int)A.size(), A.size() ? (int)A[0].size() : 0 }; for (auto &r : A) for (double x : r) v.v.push_back((float)x); return v; }
#endif
