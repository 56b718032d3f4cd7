// MC: variant=asan
// C26: outlier detection against the definition of the standard score (sample standard deviation), ordered positions.
#include <algorithm>
#include "arith.h"
#include "modules/outlier_finder/outlier_finder.h"
typedef std::vector<float> F;
// 1 outlier, 0 not, -1 too close to the threshold to say; constant or single samples have no score and so no outlier
static std::vector<int> ref(const F &v, float th) { int n = v.size(); std::vector<int> r(n, 0); double m = 0, q = 0; for (float x : v) m += x; m /= n; for (float x : v) q += (x - m) * (x - m); if (n < 2) return r; double s = std::sqrt(q / (n - 1)); bool flat = true; for (float x : v) flat = flat && x == v[0]; if (flat) return r; for (int i = 0; i < n; i++) { double z = std::fabs((v[i] - m) / s); r[i] = std::fabs(z - th) < 1e-4 * (1 + z) ? -1 : z > th; } return r; }
static void set_th(MLPPOutlierFinder &o, float t) { o.set_threshold(t); mc::ok(o.get_threshold() == t, "threshold", "threshold %g reads back as %g", t, o.get_threshold()); }
static std::string js(const F &v) { return Val{ { (int)v.size() }, v }.s(); }
// is `got` the list of the outliers in order (undecided ones may be there or not)?
static bool fits(const F &v, const std::vector<int> &e, const F &got) { size_t p = 0; std::function<bool(size_t, size_t)> go = [&](size_t i, size_t p) -> bool { if (i == v.size()) return p == got.size(); if (e[i] != 1 && go(i + 1, p)) return true; return e[i] != 0 && p < got.size() && got[p] == v[i] && go(i + 1, p + 1); }; return go(0, p); }
static void vec(const F &v, float th) {
	MLPPOutlierFinder o; set_th(o, th); Ref<MLPPVector> a = mkv(v); Val b = dump(a); PoolRealArray r = o.model_test(a); F g; for (int i = 0; i < r.size(); i++) g.push_back(r.get(i)); std::vector<int> e = ref(v, th); mc::transition(); mc::state(b.s()); mc::outcome(js(g));
	mc::ok(fits(v, e, g), "model_test:outliers", "outliers of %s beyond %g: got %s", b.s().c_str(), th, js(g).c_str()); mc::ok(same(b, dump(a)), "model_test:input-changed", "sample changed: %s to %s", b.s().c_str(), dump(a).s().c_str());
}
static void mat(int h, int w, const F &v, float th) {
	MLPPOutlierFinder o; set_th(o, th); Ref<MLPPMatrix> A = mkm(h, w, v); Val b = dump(A); mc::transition(); mc::state(b.s()); Vector<Vector<real_t>> r = o.model_set_test(A); Array ar = o.model_set_test_bind(A); PoolVector2iArray ix = o.model_set_test_indices(A);
	if (!mc::ok(r.size() == h && ar.size() == h, "model_set_test:size", "%d and %d rows of outliers for %s", r.size(), ar.size(), b.s().c_str())) return; int p = 0; bool okix = true;
	for (int i = 0; i < h; i++) { F row(v.begin() + i * w, v.begin() + (i + 1) * w), g, ga; for (int j = 0; j < r[i].size(); j++) g.push_back(r[i][j]); PoolRealArray pr = ar[i]; for (int j = 0; j < pr.size(); j++) ga.push_back(pr.get(j)); std::vector<int> e = ref(row, th); mc::outcome(js(g)); mc::ok(fits(row, e, g), "model_set_test:outliers", "outliers of row %d of %s beyond %g: got %s", i, b.s().c_str(), th, js(g).c_str()); mc::ok(g == ga, "model_set_test_bind:outliers", "row %d of %s: %s, bound form %s", i, b.s().c_str(), js(g).c_str(), js(ga).c_str());
		for (int j = 0; j < w; j++) { bool here = p < ix.size() && ix.get(p) == Vector2i(j, i); if (e[j] == 1) okix = okix && here; if (e[j] == 0) okix = okix && !here; if (here) p++; } }
	mc::ok(okix && p == ix.size(), "model_set_test_indices:positions", "positions of the outliers of %s beyond %g: %d, %d in order", b.s().c_str(), th, ix.size(), p); mc::ok(same(b, dump(A)), "model_set_test:input-changed", "matrix changed: %s to %s", b.s().c_str(), dump(A).s().c_str());
}
void explore() {
	F ths = { 0.3f, 0.6f, 0.9f, 1.2f, 1.6f, 1.9f, 2.3f };
	for (int n = 1; n <= (mc::thorough() ? 7 : 6); n++) tuples(F{ -3, 0.5f, 1, 10 }, n > 3 ? 3 : n, [&](const F &h) { MC_CASE("samples of %d starting %s", n, js(h).c_str()) tuples(F{ -3, 0.5f, 1, 10 }, n - h.size(), [&](const F &t) { F v = h; v.insert(v.end(), t.begin(), t.end()); for (float th : ths) vec(v, th); }); });
	for (int n = 7; n <= 40; n++) MC_CASE("samples of %d", n) for (int s = 0; s < 24; s++) { F v; for (int i = 0; i < n; i++) v.push_back((i * 7 + s) % 5 * 0.25f); v[s % n] = 9 + s; if (s & 1) v[(s * 5 + 2) % n] = -12; for (float th : F{ 0.5f, 1.1f, 2.1f, 3.05f, 4.05f, 5.05f }) { vec(v, th); mat(1, n, v, th); } }
	for (int h = 1; h <= 4; h++) for (int w = 1; w <= 6; w++) if (h * w <= 6) tuples(F{ -3, 0.5f, 10 }, h * w, [&](const F &v) { MC_CASE("matrix %dx%d %s", h, w, js(v).c_str()) for (float th : ths) mat(h, w, v, th); });
	for (int h = 1; h <= 6; h++) for (int w = 2; w <= 9; w++) MC_CASE("matrices %dx%d", h, w) for (int s = 0; s < 30; s++) { F v; for (int i = 0; i < h * w; i++) v.push_back((i * 11 + s * 3 + i * i * s) % 7 * 0.5f); v[s * 5 % (h * w)] = 20; v[(s * 7 + 3) % (h * w)] = -20; for (float th : ths) mat(h, w, v, th); }
}
