// MC: variant=asan
// C21: metrics, mini-batches and weight initialisation. The random device is replaced by an enumerated one.
#include <random>
static unsigned g_seed = 1, g_draws = 0;
namespace std { unsigned int random_device::_M_getval() { g_draws++; return g_seed + g_draws * 7919u; } }
#include "arith.h"
#include "core/utilities.h"
typedef std::vector<float> F; typedef std::vector<F> FF;
static void same_num(const char *k, const std::string &in, double e, double g) { mc::transition(); mc::outcome(mc::fmt("%s %.6g", k, e)); mc::ok(mc::close(e, g, 1e-5, 1e-6) || (std::isnan(e) && std::isnan(g)), std::string(k) + ":value", "%s of %s: expected %g, got %g", k, in.c_str(), e, g); }
static std::string str(const F &f) { return Val{ { (int)f.size() }, f }.s(); }
static FF rows(int a, int b, int w, float base) { FF r; for (int i = a; i < b; i++) { F q; for (int j = 0; j < w; j++) q.push_back(base + i * 10 + j); r.push_back(q); } return r; }
static Val flat(const FF &r, int w) { Val v; v.d = { (int)r.size(), w }; for (auto &q : r) v.v.insert(v.v.end(), q.begin(), q.end()); return v; }
static Val one(const F &f) { return Val{ { (int)f.size() }, f }; }
enum Kind { UNI, NORM };
struct Dist { Kind k; double a; }; // uniform on [-a, a] (or [0,1) when a < 0), normal with deviation a
static Dist dist(int t, double n, double nm) { switch (t) { case 1: return { NORM, std::sqrt(2 / nm) }; case 2: return { UNI, std::sqrt(6 / nm) }; case 3: return { NORM, std::sqrt(2 / n) }; case 4: return { UNI, std::sqrt(6 / n) }; case 5: return { NORM, std::sqrt(1 / n) }; case 6: return { UNI, std::sqrt(3 / n) }; case 7: return { UNI, 1 / std::sqrt(n) }; default: return { UNI, -1 }; } }
static void judge(const char *k, const std::string &in, const Dist &d, const F &all, size_t expect) { // all seeds' samples together: support exactly, moments within ten standard errors of the enumerated set
	mc::transition(); mc::ok(all.size() == expect, std::string(k) + ":count", "%s: %zu weights instead of %zu", in.c_str(), all.size(), expect); double s = 0, q = 0, lo = 1e30, hi = -1e30; for (float f : all) { s += f; q += (double)f * f; lo = std::min(lo, (double)f); hi = std::max(hi, (double)f); mc::outcome(mc::fmt("%s %g", k, f)); }
	double n = all.size(), m = s / n, var = q / n - m * m, em = d.k == UNI && d.a < 0 ? 0.5 : 0, ev = d.k == NORM ? d.a * d.a : d.a < 0 ? 1 / 12.0 : d.a * d.a / 3, R = d.a < 0 ? 1 : d.a;
	if (d.k == UNI) mc::ok(hi <= R * 1.0001 && lo >= (d.a < 0 ? 0 : -R * 1.0001), std::string(k) + ":support", "%s: weights range over [%g,%g], expected within [%g,%g]", in.c_str(), lo, hi, d.a < 0 ? 0 : -R, R);
	mc::ok(std::fabs(m - em) < 10 * std::sqrt(ev / n), std::string(k) + ":mean", "%s: mean %g over %g weights, expected %g", in.c_str(), m, n, em);
	mc::ok(std::fabs(var - ev) < 15 * ev / std::sqrt(n), std::string(k) + ":spread", "%s: variance %g over %g weights, expected %g", in.c_str(), var, n, ev);
}
template <class B> static bool filled(const B &b) { for (float f : b) if (f == 77) return false; return true; }
void explore() {
	MLPPUtilities u; bool T = mc::thorough();
	std::vector<float> pv = { 0, 1, 0.4f, 0.6f, 2 }, lv = { 0, 1, 2 };
	for (int n = 1; n <= (T ? 5 : 4); n++) MC_CASE("accuracy of %d predictions", n) tuples(pv, n, [&](const F &h) { if (n == 4 && !T && h[0] == 2) return; tuples(lv, n, [&](const F &y) {
		std::string in = str(h) + " against " + str(y); mc::state(in); double c = 0; for (int i = 0; i < n; i++) c += std::round(h[i]) == y[i]; Ref<MLPPVector> H = mkv(h), Y = mkv(y);
		same_num("performance_vec", in, c / n, u.performance_vec(H, Y)); if (n < 4) { same_num("performance(std)", in, c / n, u.performance(h, y)); mc::ok(same(dump(H), one(h)) && same(dump(Y), one(y)), "performance:input-changed", "performance_vec changed its arguments"); PoolIntArray p; for (float f : y) p.push_back((int)f); double c2 = 0; for (int i = 0; i < n; i++) c2 += std::round(h[i]) == y[i]; same_num("performance_pool_int_array_vec", in, c2 / n, u.performance_pool_int_array_vec(p, H)); } }); });
	for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) if (r * c <= (T ? 6 : 4)) MC_CASE("accuracy of %dx%d predictions", r, c) tuples(std::vector<float>{ 0, 1, 0.6f }, r * c, [&](const F &h) { tuples(std::vector<float>{ 0, 1 }, r * c, [&](const F &y) {
		double ok = 0; FF hh, yy; for (int i = 0; i < r; i++) { bool a = true; for (int j = 0; j < c; j++) a = a && std::round(h[i * c + j]) == y[i * c + j]; ok += a; hh.push_back(F(h.begin() + i * c, h.begin() + i * c + c)); yy.push_back(F(y.begin() + i * c, y.begin() + i * c + c)); }
		std::string in = mc::fmt("%dx%d ", r, c) + str(h) + " against " + str(y); mc::state(in); same_num("performance_mat", in, ok / r, u.performance_mat(mkm(r, c, h), mkm(r, c, y))); same_num("performance(std matrix)", in, ok / r, u.performance(hh, yy)); }); });
	for (int n = 1; n <= (T ? 7 : 6); n++) MC_CASE("confusion counts of %d labels", n) for (int a = 0; a < 1 << n; a++) for (int b = 0; b < 1 << n; b++) {
		F h, y; double tp = 0, fp = 0, tn = 0, fn = 0; for (int i = 0; i < n; i++) { int p = a >> i & 1, q = b >> i & 1; h.push_back(p); y.push_back(q); (p && q ? tp : p ? fp : q ? fn : tn)++; } std::string in = str(h) + " against " + str(y); mc::state(in);
		auto t = u.TF_PN(h, y); same_num("TF_PN true positives", in, tp, std::get<0>(t)); same_num("TF_PN false positives", in, fp, std::get<1>(t)); same_num("TF_PN true negatives", in, tn, std::get<2>(t)); same_num("TF_PN false negatives", in, fn, std::get<3>(t));
		same_num("accuracy", in, (tp + tn) / n, u.accuracy(h, y)); if (tp + fn) same_num("recall", in, tp / (tp + fn), u.recall(h, y)); if (tp + fp) same_num("precision", in, tp / (tp + fp), u.precision(h, y)); if (tp) { double P = tp / (tp + fp), R = tp / (tp + fn); same_num("f1_score", in, 2 * P * R / (P + R), u.f1_score(h, y)); } }
	// mini-batches: consecutive runs of n/k rows, the remainder in the last one
	for (int n = 1; n <= (T ? 20 : 12); n++) for (int k = 1; k <= n; k++) MC_CASE("%d samples in %d batches", n, k) for (int w = 1; w <= 3; w++) for (int ow = 1; ow <= 2; ow++) {
		FF X = rows(0, n, w, 0.5f), Y = rows(0, n, ow, 1000); F y; for (int i = 0; i < n; i++) y.push_back(2000 + i); std::string in = mc::fmt("%d rows of %d, outputs of %d, in %d batches", n, w, ow, k); mc::state(in); Val fx = flat(X, w), fy = flat(Y, ow);
		Ref<MLPPMatrix> MX = mkm(n, w, fx.v), MY = mkm(n, ow, fy.v); Ref<MLPPVector> VY = mkv(y); auto lo = [&](int b) { return n / k * b; }; auto hi = [&](int b) { return b == k - 1 ? n : n / k * (b + 1); };
		auto cmpb = [&](const char *name, int b, const Val &e, const Val &g) { mc::transition(); mc::outcome(g.s()); mc::ok(same(e, g), std::string(name) + ":batch", "%s: %s batch %d: expected %s, got %s", in.c_str(), name, b, e.s().c_str(), g.s().c_str()); };
		auto cnt = [&](const char *name, int g) { return mc::ok(g == k, std::string(name) + ":count", "%s: %s made %d batches", in.c_str(), name, g); };
		auto bm = u.create_mini_batchesm(MX, k); cnt("create_mini_batchesm", bm.size()); auto mv = u.create_mini_batchesmv(MX, VY, k); cnt("create_mini_batchesmv", mv.input_sets.size()); cnt("create_mini_batchesmv outputs", mv.output_sets.size()); auto mm = u.create_mini_batchesmm(MX, MY, k); cnt("create_mini_batchesmm", mm.input_sets.size()); cnt("create_mini_batchesmm outputs", mm.output_sets.size());
		auto s1 = MLPPUtilities::createMiniBatches(X, k); auto s2 = MLPPUtilities::createMiniBatches(X, y, k); auto s3 = MLPPUtilities::createMiniBatches(X, Y, k); cnt("createMiniBatches", s1.size()); cnt("createMiniBatches(v)", std::get<0>(s2).size()); cnt("createMiniBatches(m)", std::get<1>(s3).size());
		Array a1 = u.create_mini_batchesm_bind(MX, k), a2 = u.create_mini_batchesmv_bind(MX, VY, k), a3 = u.create_mini_batchesmm_bind(MX, MY, k); cnt("create_mini_batchesm_bind", a1.size());
		for (int b = 0; b < k; b++) { Val ex = flat(FF(X.begin() + lo(b), X.begin() + hi(b)), w), ey = flat(FF(Y.begin() + lo(b), Y.begin() + hi(b)), ow), ev = one(F(y.begin() + lo(b), y.begin() + hi(b)));
			if (b < bm.size()) cmpb("create_mini_batchesm", b, ex, dump(bm[b])); if (b < mv.input_sets.size()) { cmpb("create_mini_batchesmv", b, ex, dump(mv.input_sets[b])); cmpb("create_mini_batchesmv outputs", b, ev, dump(mv.output_sets[b])); } if (b < mm.input_sets.size()) { cmpb("create_mini_batchesmm", b, ex, dump(mm.input_sets[b])); cmpb("create_mini_batchesmm outputs", b, ey, dump(mm.output_sets[b])); }
			if (b < (int)s1.size()) { cmpb("createMiniBatches", b, ex, flat(s1[b], w)); cmpb("createMiniBatches(v)", b, ex, flat(std::get<0>(s2)[b], w)); cmpb("createMiniBatches(v) outputs", b, ev, one(std::get<1>(s2)[b])); cmpb("createMiniBatches(m)", b, ex, flat(std::get<0>(s3)[b], w)); cmpb("createMiniBatches(m) outputs", b, ey, flat(std::get<1>(s3)[b], ow)); }
			if (b < a1.size()) { cmpb("create_mini_batchesm_bind", b, ex, dump(Ref<MLPPMatrix>(a1[b]))); Array in2 = a2[0], out2 = a2[1], in3 = a3[0], out3 = a3[1]; cmpb("create_mini_batchesmv_bind", b, ex, dump(Ref<MLPPMatrix>(in2[b]))); cmpb("create_mini_batchesmv_bind outputs", b, ev, dump(Ref<MLPPVector>(out2[b]))); cmpb("create_mini_batchesmm_bind", b, ex, dump(Ref<MLPPMatrix>(in3[b]))); cmpb("create_mini_batchesmm_bind outputs", b, ey, dump(Ref<MLPPMatrix>(out3[b]))); } }
		mc::ok(same(fx, dump(MX)) && same(fy, dump(MY)) && same(one(y), dump(VY)), "batches:input-changed", "%s: splitting changed the data set", in.c_str());
	}
	// weight initialisation: every kind, every shape, a range of generator seeds
	const char *names[] = { "Default", "XavierNormal", "XavierUniform", "HeNormal", "HeUniform", "LeCunNormal", "LeCunUniform", "Uniform" }; int S = T ? 1500 : 300;
	for (int t = 0; t < 8; t++) for (int n = 1; n <= 6; n++) MC_CASE("initialising %d weights, %s", n, names[t]) { F a, b; for (int s = 1; s <= S; s++) { g_seed = s * 2654435761u; g_draws = 0; Ref<MLPPVector> v = mkv(F(n, 77)); mc::state(mc::fmt("%d %d %d", t, n, s)); u.weight_initializationv(v, (MLPPUtilities::WeightDistributionType)t); Val d = dump(v); mc::ok(filled(d.v), "weight_initializationv:unset", "a weight was not set"); a.insert(a.end(), d.v.begin(), d.v.end()); g_draws = 0; F w = MLPPUtilities::weightInitialization(n, names[t]); b.insert(b.end(), w.begin(), w.end()); }
		judge("weight_initializationv", mc::fmt("%d weights %s", n, names[t]), dist(t, n, n + 1), a, S * n); judge("weightInitialization", mc::fmt("%d weights %s", n, names[t]), dist(t, n, n + 1), b, S * n); }
	for (int t = 0; t < 8; t++) for (int r = 1; r <= 4; r++) for (int c = 1; c <= 4; c++) MC_CASE("initialising %dx%d weights, %s", r, c, names[t]) { F a, b; bool shape = true; for (int s = 1; s <= S; s++) { g_seed = s * 2654435761u; g_draws = 0; Ref<MLPPMatrix> v = mkm(r, c, F(r * c, 77)); mc::state(mc::fmt("%d %d %d %d", t, r, c, s)); u.weight_initializationm(v, (MLPPUtilities::WeightDistributionType)t); Val d = dump(v); mc::ok(filled(d.v), "weight_initializationm:unset", "a weight was not set"); a.insert(a.end(), d.v.begin(), d.v.end()); g_draws = 0; FF w = MLPPUtilities::weightInitialization(r, c, names[t]); shape = shape && (int)w.size() == r; for (auto &q : w) { shape = shape && (int)q.size() == c; b.insert(b.end(), q.begin(), q.end()); } }
		mc::ok(shape, "weightInitialization:shape", "wrong shape"); judge("weight_initializationm", mc::fmt("%dx%d weights %s", r, c, names[t]), dist(t, c, r + c), a, S * r * c); judge("weightInitialization(matrix)", mc::fmt("%dx%d weights %s", r, c, names[t]), dist(t, r, r + c), b, S * r * c); }
	for (int n = 1; n <= 5; n++) MC_CASE("initialising %d biases", n) { F a, b, c; for (int s = 1; s <= S; s++) { g_seed = s * 2654435761u; g_draws = 0; Ref<MLPPVector> v = mkv(F(n, 77)); u.bias_initializationv(v); Val d = dump(v); mc::ok(filled(d.v), "bias_initializationv:unset", "a bias was not set"); a.insert(a.end(), d.v.begin(), d.v.end()); g_draws = 0; F w = MLPPUtilities::biasInitialization(n); b.insert(b.end(), w.begin(), w.end()); for (int i = 0; i < n; i++) c.push_back(i % 2 ? u.bias_initializationr() : MLPPUtilities::biasInitialization()); } judge("bias_initializationv", mc::fmt("%d biases", n), dist(0, n, n), a, S * n); judge("biasInitialization(n)", mc::fmt("%d biases", n), dist(0, n, n), b, S * n); judge("bias_initializationr", mc::fmt("%d biases", n), dist(0, n, n), c, S * n); }
}
