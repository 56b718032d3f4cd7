// MC: variant=asan
// C24: k nearest neighbours. Every small labelled training set, query and k; the reference enumerates every choice among tied distances.
#include <algorithm>
#include "arith.h"
#include "modules/knn/knn.h"
typedef std::vector<float> F; typedef std::vector<int> I;
static std::set<int> allowed(const std::vector<F> &X, const I &y, const F &q, int k) {
	int n = X.size(); k = std::min(k, n); std::vector<double> d(n); for (int i = 0; i < n; i++) for (size_t j = 0; j < q.size(); j++) { double t = (double)X[i][j] - q[j]; d[i] += t * t; }
	std::vector<double> s = d; std::sort(s.begin(), s.end()); double dk = k ? s[k - 1] : -1, tol = 1e-5 * (1 + std::fabs(dk)); std::map<int, int> base; I tied; int in = 0; for (int i = 0; i < n; i++) { if (d[i] < dk - tol) { base[y[i]]++; in++; } else if (d[i] <= dk + tol) tied.push_back(i); }
	std::set<int> r; int m = tied.size(), need = k - in; for (int mask = 0; mask < (1 << m); mask++) if (__builtin_popcount(mask) == need) { std::map<int, int> v = base; for (int b = 0; b < m; b++) if (mask >> b & 1) v[y[tied[b]]]++; int best = 0; for (auto &p : v) best = std::max(best, p.second); for (auto &p : v) if (p.second == best) r.insert(p.first); }
	return r;
}
static void run(const std::vector<F> &X, const I &y, const std::vector<F> &Q, int kmax) {
	int n = X.size(), w = X[0].size(); F flat, yf(y.begin(), y.end()), qf; for (auto &r : X) flat.insert(flat.end(), r.begin(), r.end()); for (auto &r : Q) qf.insert(qf.end(), r.begin(), r.end());
	Ref<MLPPMatrix> A = mkm(n, w, flat), B = mkm(Q.size(), w, qf); Ref<MLPPVector> b = mkv(yf); Val fa = dump(A), fb = dump(b); mc::state(fa.s() + fb.s());
	MLPPKNN used; used.set_input_set(A); used.set_output_set(b); for (int k = 1; k <= kmax; k++) {
		MLPPKNN fresh; fresh.set_input_set(A); fresh.set_output_set(b); fresh.set_k(k); used.set_k(k); MLPPKNN &m = k % 2 ? fresh : used; std::string in = mc::fmt("points %s labels %s, k %d", fa.s().c_str(), fb.s().c_str(), k);
		PoolIntArray all = m.model_set_test(B); mc::ok(all.size() == (int)Q.size(), "model_set_test:size", "%s: %d predictions for %zu queries", in.c_str(), all.size(), Q.size());
		for (size_t i = 0; i < Q.size(); i++) { int g = m.model_test(mkv(Q[i])); std::set<int> e = allowed(X, y, Q[i], k); mc::transition(); mc::outcome(mc::fmt("%d/%zu", g, e.size())); mc::ok(e.count(g), "model_test:class", "%s: query %s classified as %d", in.c_str(), Val{ { w }, Q[i] }.s().c_str(), g); mc::ok((int)i < all.size() && all.get(i) == g, "model_set_test:class", "%s: query %zu differs from the single prediction %d", in.c_str(), i, g); }
		PoolIntArray own = m.model_set_test(A); int right = 0; for (int i = 0; i < own.size(); i++) right += own.get(i) == y[i]; float sc = m.score(); mc::ok(own.size() == n && mc::close(sc, (double)right / n, 1e-5, 1e-6), "score:value", "%s: score %g with %d of %d right", in.c_str(), sc, right, n);
	}
	mc::ok(same(fa, dump(A)) && same(fb, dump(b)), "input-changed", "training data changed: %s %s", dump(A).s().c_str(), dump(b).s().c_str());
}
void explore() {
	I labs = { 0, 1, 7 }; F grid = { -1, 0, 0.5f, 3 };
	int N = mc::thorough() ? 5 : 4; std::vector<F> Q1; for (float q : { -2.f, 0.f, 0.25f, 1.f, 2.f, 10.f }) Q1.push_back({ q });
	for (int n = 1; n <= N; n++) tuples(grid, n, [&](const F &p) { MC_CASE("points %s", (Val{ { n }, p }).s().c_str()) tuples(F{ 0, 1, 7 }, n, [&](const F &l) { std::vector<F> X; for (float v : p) X.push_back({ v }); run(X, I(l.begin(), l.end()), Q1, n + 1); }); });
	std::vector<F> Q2 = { { 0, 0 }, { 1, 0.5f }, { 3, -1 }, { -2, 2 } };
	for (int n = 1; n <= 3; n++) tuples(F{ 0, 1, 2.5f }, 2 * n, [&](const F &p) { MC_CASE("points in the plane %s", (Val{ { n, 2 }, p }).s().c_str()) tuples(F{ -1, 2 }, n, [&](const F &l) { std::vector<F> X; for (int i = 0; i < n; i++) X.push_back({ p[2 * i], p[2 * i + 1] }); run(X, I(l.begin(), l.end()), Q2, n); }); });
	for (int n = 5; n <= 12; n++) for (int w = 1; w <= 5; w++) MC_CASE("%d points of %d features", n, w) for (int s = 0; s < (mc::thorough() ? 60 : 15); s++) { std::vector<F> X, Q; I y; for (int i = 0; i < n; i++) { F r; for (int j = 0; j < w; j++) r.push_back(((i * 7 + j * 5 + s * 3 + i * i * (s + 1)) % 13) - 4); X.push_back(r); y.push_back((i * (s % 3 + 1) + s) % 4 * 3 - 2); } for (int i = 0; i < 4; i++) { F r; for (int j = 0; j < w; j++) r.push_back((i * 11 + j * 3 + s) % 11 - 3.5f); Q.push_back(r); } run(X, y, Q, n); }
}
