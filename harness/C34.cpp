// MC: variant=asan
// C34: support vector classifiers. Every small data set, start, optimiser history and sample order against the hinge-loss step; the dual by projected gradient.
#include "glm.h"
#include "modules/svc/svc.h"
#include "modules/dual_svc/dual_svc.h"
static double gc = 1; static F fl(const D &d) { return F(d.begin(), d.end()); }
static double sgn(double z) { return (z > 0) - (z < 0); }
struct M : Inst { MLPPSVC m; M(Ref<MLPPMatrix> X, Ref<MLPPVector> y) : m(X, y, gc) {}
	void put(const P &p) { m.data_weights_set(mkv(fl(p.w))); m.data_bias_set(p.b); }
	P get() { P p; p.amb = false; Val w = dump(m.data_weights_get()); for (float v : w.v) p.w.push_back(v); p.b = m.data_bias_get(); return p; }
	void train(int o, double lr, int e, int mb) { if (o == GD) m.train_gradient_descent(lr, e); if (o == SGD) m.train_sgd(lr, e); if (o == MBGD) m.train_mbgd(lr, e, mb); }
	double one(const F &x) { return m.model_test(mkv(x)); } Val many(Ref<MLPPMatrix> X) { return dump(m.model_set_test(X)); } double score() { return m.score(); } };
struct Dual : MLPPDualSVC { Dual(Ref<MLPPMatrix> X, Ref<MLPPVector> y, double c) : MLPPDualSVC(X, y, c) {} void put(const F &a, double b) { _alpha = mkv(a); _bias = b; } F alpha() { return dump(_alpha).v; } double bias() { return _bias; } };
static double kern(const Set &s, int i, int j) { double d = 0; for (int q = 0; q < s.k; q++) d += (double)s.x(i, q) * s.x(j, q); return d; }
static void dpredict(Dual &m, const F &a, double b, const Set &s, Ref<MLPPMatrix> X, const std::string &in) { Val v = dump(m.model_set_test(X)); mc::ok(v.d == I{ s.n }, "dual:model_set_test:size", "%s: predictions %s", in.c_str(), v.s().c_str()); for (int i = 0; i < s.n; i++) { double z = b; for (int j = 0; j < s.n; j++) z += a[j] * s.y[j] * kern(s, i, j); mc::transition(); if (std::fabs(z) < 1e-4) continue; double g = m.model_test(mkv(F(s.X.begin() + i * s.k, s.X.begin() + (i + 1) * s.k))); mc::ok(g == sgn(z), "dual:model_test", "%s: score %g classified %g", in.c_str(), z, g); mc::ok(i < (int)v.v.size() && v.v[i] == sgn(z), "dual:model_set_test", "%s: %s but row %d has score %g", in.c_str(), v.s().c_str(), i, z); } }
static void dual(const Set &s, const F &a0, double b0, double C, double lr, int epochs) {
	D a(a0.begin(), a0.end()); for (int t = 0; t < epochs; t++) { D g(s.n); for (int i = 0; i < s.n; i++) { g[i] = -1; for (int j = 0; j < s.n; j++) g[i] += s.y[i] * s.y[j] * kern(s, i, j) * a[j]; } for (int i = 0; i < s.n; i++) a[i] = std::min(C, std::max(0.0, a[i] - lr * g[i])); }
	Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X); Ref<MLPPVector> y = mkv(s.y); Val fx = dump(X), fy = dump(y); Dual m(X, y, C); m.put(a0, b0); std::string in = mc::fmt("dual %s, C %g, alpha %s, bias %g, lr %g, %d epochs", ss(s).c_str(), C, (Val{ { s.n }, a0 }).s().c_str(), b0, lr, epochs); mc::state(in); dpredict(m, a0, b0, s, X, in + " before");
	m.gradient_descent(lr, epochs); F g = m.alpha(); bool box = (int)g.size() == s.n, eq = box; for (size_t i = 0; box && i < g.size(); i++) { if (!(g[i] >= 0 && g[i] <= C * 1.00001)) box = false; eq = eq && mc::close(a[i], g[i], 2e-4, 2e-5); } mc::transition(); mc::outcome(mc::fmt("%d%d", box, eq));
	mc::ok(box, "dual:box", "%s: multipliers %s leave [0, C]", in.c_str(), (Val{ { s.n }, g }).s().c_str()); mc::ok(eq, "dual:multipliers", "%s: multipliers %s, expected %g ...", in.c_str(), (Val{ { s.n }, g }).s().c_str(), a[0]); if (box) dpredict(m, g, m.bias(), s, X, in); mc::ok(same(fx, dump(X)) && same(fy, dump(y)), "dual:input-changed", "%s: training data changed", in.c_str());
	if (box) { int right = 0; bool near = false; for (int i = 0; i < s.n; i++) { double z = m.bias(); for (int j = 0; j < s.n; j++) z += g[j] * s.y[j] * kern(s, i, j); near = near || std::fabs(z) < 1e-4; right += sgn(z) == s.y[i]; } if (!near) mc::ok(mc::close(m.score(), (double)right / s.n, 1e-5, 1e-6), "dual:score", "%s: score %g with %d of %d right", in.c_str(), m.score(), right, s.n); }
}
void explore() {
	Fam f = { "svc", sgn, [](double z, double y) -> double { if (std::fabs(1 - y * z) < 1e-4) return 1e30; return y * z < 1 ? -gc * y : 0; }, 1u << GD | 1u << SGD | 1u << MBGD, true, [](const RegP &, int opt, double lr, int n, int) -> RegP { return { RIDGE, opt == SGD ? lr : lr / n, 0 }; }, [](Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &) -> Inst * { return new M(X, y); } };
	gc = 1; explore_family(f, { -1, 0, 0.5f, 2 }, { -1, 1 }, { 0.5f, -0.75f, 0.2f, 0.35f }); gc = 0.4; explore_family(f, { -1, 0.25f, 2 }, { -1, 1 }, { 0.5f, -0.75f, 0.2f });
	MC_CASE("svc set through its properties") { Ref<MLPPMatrix> X = mkm(2, 2, { 1, 2, -1, 3 }); Ref<MLPPVector> y = mkv({ 1, -1 }); MLPPSVC m; m.set_input_set(X); m.set_output_set(y); m.set_c(2); mc::ok((void *)m.get_output_set().ptr() == (void *)y.ptr() && m.get_input_set() == X && m.get_c() == 2 && m.needs_init(), "svc:properties", "properties not kept"); m.initialize(); mc::ok(!m.needs_init(), "svc:initialize", "initialize does not initialise"); m.data_weights_set(mkv({ 1, 0 })); m.data_bias_set(0); mc::ok(m.model_test(mkv({ 1, 2 })) == 1 && m.model_test(mkv({ -1, 3 })) == -1, "svc:properties:predict", "wrong prediction"); }
	bool T = mc::thorough(); for (int n = 1; n <= 3; n++) for (int k = 1; k <= 2 && n * k <= 4; k++) tuples(F{ -1, 0.5f, 2 }, n * k, [&](const F &X) { MC_CASE("dual, rows %s", (Val{ { n, k }, X }).s().c_str()) tuples(F{ -1, 1 }, n, [&](const F &y) { Set s = mkset(n, k, X, y); tuples(F{ 0, 0.3f, 1 }, n, [&](const F &a) { for (int e = 1; e <= 3; e++) { dual(s, a, 0.3, 1, 0.1, e); dual(s, a, -0.2, 0.5, 0.4, e); } }); }); });
	for (int n = 4; n <= (T ? 9 : 6); n++) for (int k = 1; k <= 3; k++) MC_CASE("dual, %d rows of %d features", n, k) for (int v = 0; v < 12; v++) { F X, y, a; for (int i = 0; i < n * k; i++) X.push_back(((i * i * (v + 1) + i * 3 + v) % 7 - 3) * 0.5f); for (int i = 0; i < n; i++) y.push_back((i * (v + 1) + v / 2) % 3 ? 1 : -1), a.push_back((i * (v + 2) + v) % 5 * 0.2f); Set s = mkset(n, k, X, y); for (int e = 1; e <= 4; e++) dual(s, a, 0.1 * v - 0.4, 0.7, 0.05 * e, e); }
}
