// MC: variant=asan
// C15: cost functions and their gradients, on vectors and matrices, by name and by identifier.
#include "arith.h"
#include "core/cost.h"
typedef std::vector<double> D; typedef MLPPCost C_;
typedef Ref<MLPPVector> RV; typedef Ref<MLPPMatrix> RM;
static C_ *P;
struct Cost {
	const char *n; int id; std::function<double(const D &, const D &)> f; std::function<double(double, double, const D &, const D &)> g; // g: n * d cost / d prediction (the caller divides)
	int domain; // 0 any, 1 predictions strictly inside (0,1)
	std::function<double(RV, RV)> v; std::function<double(RM, RM)> m; std::function<RV(RV, RV)> dv; std::function<RM(RM, RM)> dm; bool refuses;
};
static double sq(const D &p, const D &y) { double s = 0; for (size_t i = 0; i < p.size(); i++) s += (p[i] - y[i]) * (p[i] - y[i]); return s; }
static D doubles(const std::vector<float> &v) { return D(v.begin(), v.end()); }
static double sgn(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static std::vector<Cost> costs() {
	std::vector<Cost> r;
#define MEAN(e) [](const D &p, const D &y) { double s = 0; for (size_t i = 0; i < p.size(); i++) s += e; return s / p.size(); }
#define SUM(e) [](const D &p, const D &y) { double s = 0; for (size_t i = 0; i < p.size(); i++) s += e; return s; }
#define G(e) [](double p, double y, const D &P_, const D &Y_) -> double { return e; }
#define F(nm) [](RV a, RV b) -> double { return P->nm##v(a, b); }, [](RM a, RM b) -> double { return P->nm##m(a, b); }
#define FD(nm) [](RV a, RV b) { return P->nm##_derivv(a, b); }, [](RM a, RM b) { return P->nm##_derivm(a, b); }
	r.push_back({ "mse", C_::COST_TYPE_MSE, [](const D &p, const D &y) { return sq(p, y) / (2.0 * p.size()); }, G(p - y), 0, F(mse), FD(mse), true });
	r.push_back({ "rmse", C_::COST_TYPE_RMSE, [](const D &p, const D &y) { return std::sqrt(sq(p, y) / p.size()); }, G((p - y) / std::sqrt(sq(P_, Y_) / P_.size())), 0, F(rmse), FD(rmse), true });
	r.push_back({ "mae", C_::COST_TYPE_MAE, MEAN(std::fabs(p[i] - y[i])), G(sgn(p - y)), 0, F(mae), FD(mae), true });
	r.push_back({ "mbe", C_::COST_TYPE_MBE, MEAN(p[i] - y[i]), G(1), 0, F(mbe), FD(mbe), false });
	r.push_back({ "log_loss", C_::COST_TYPE_LOGISTIC_LOSS, MEAN(-(y[i] * std::log(p[i]) + (1 - y[i]) * std::log(1 - p[i]))), G(-y / p + (1 - y) / (1 - p)), 1, F(log_loss), FD(log_loss), true });
	r.push_back({ "cross_entropy", C_::COST_TYPE_CROSS_ENTROPY, SUM(-y[i] * std::log(p[i])), G(-y / p), 1, F(cross_entropy), FD(cross_entropy), true });
	r.push_back({ "hinge_loss", C_::COST_TYPE_HINGE_LOSS, MEAN(std::fmax(0, 1 - y[i] * p[i])), G(1 - y * p > 0 ? -y : 0), 0, F(hinge_loss), FD(hinge_loss), true });
	r.push_back({ "wasserstein", C_::COST_TYPE_WASSERSTEIN_LOSS, MEAN(-p[i] * y[i]), G(-y), 0, F(wasserstein_loss), FD(wasserstein_loss), false });
	for (float d : { 0.5f, 1.f, 2.f })
		r.push_back({ d == 0.5f ? "huber 0.5" : d == 1 ? "huber 1" : "huber 2", -1, [d](const D &p, const D &y) { double s = 0; for (size_t i = 0; i < p.size(); i++) { double a = std::fabs(p[i] - y[i]); s += a <= d ? a * a : 2 * d * a - d * d; } return s; }, [d](double p, double y, const D &, const D &) { double a = p - y; return std::fabs(a) <= d ? 2 * a : 2 * d * sgn(a); }, 0, [d](RV a, RV b) -> double { return P->huber_lossv(a, b, d); }, [d](RM a, RM b) -> double { return P->huber_lossm(a, b, d); }, [d](RV a, RV b) { return P->huber_loss_derivv(a, b, d); }, [d](RM a, RM b) { return P->huber_loss_derivm(a, b, d); }, true });
	for (float c : { 0.5f, 3.f })
		r.push_back({ c == 3 ? "weighted hinge 3" : "weighted hinge 0.5", -1, [c](const D &p, const D &y) { double s = 0; for (size_t i = 0; i < p.size(); i++) s += std::fmax(0, 1 - y[i] * p[i]); return c * s / p.size() + (4 + 9 + 0.25) / 2; }, [c](double p, double y, const D &, const D &) { return 1 - y * p > 0 ? -c * y : 0; }, 0, [c](RV a, RV b) -> double { return P->hinge_losswv(a, b, mkv({ 2, -3, 0.5f }), c); }, [c](RM a, RM b) -> double { return P->hinge_losswm(a, b, mkm(3, 1, { 2, -3, 0.5f }), c); }, [c](RV a, RV b) { return P->hinge_loss_derivwv(a, b, c); }, [c](RM a, RM b) { return P->hinge_loss_derivwm(a, b, c); }, true });
	return r;
}
static void compare(const Cost &c, const std::vector<float> &p, const std::vector<float> &y, int rows, int cols) {
	int n = p.size(); D dp = doubles(p), dy = doubles(y);
	double e = c.f(dp, dy), tol = 3e-5;
	std::string in = Val{ { rows, cols }, p }.s() + " against " + Val{ { rows, cols }, y }.s(), K = c.n;
	RV pv = mkv(p), yv = mkv(y); RM pm = mkm(rows, cols, p), ym = mkm(rows, cols, y);
	auto val = [&](const char *how, double g) { mc::transition(); mc::ok(mc::close(e, g, tol, 3e-6), K + ":" + how, "%s (%s) of %s: expected %.7g, got %.7g", c.n, how, in.c_str(), e, g); };
	val("vector", c.v(pv, yv)); val("matrix", c.m(pm, ym));
	mc::outcome(mc::fmt("%s %.6g", c.n, e));
	auto id = (C_::CostTypes)c.id;
	std::vector<std::pair<const char *, RV>> gv{ { "gradient vector", c.dv(pv, yv) } }; std::vector<std::pair<const char *, RM>> gm{ { "gradient matrix", c.dm(pm, ym) } };
	if (c.id >= 0) {
		val("run vector", P->run_cost_norm_vector(id, pv, yv)); val("run matrix", P->run_cost_norm_matrix(id, pm, ym));
		val("pointer vector", (P->*P->get_cost_function_ptr_normal_vector(id))(pv, yv)); val("pointer matrix", (P->*P->get_cost_function_ptr_normal_matrix(id))(pm, ym));
		gv.push_back({ "run gradient vector", P->run_cost_deriv_vector(id, pv, yv) }); gv.push_back({ "pointer gradient vector", (P->*P->get_cost_function_ptr_deriv_vector(id))(pv, yv) });
		gm.push_back({ "run gradient matrix", P->run_cost_deriv_matrix(id, pm, ym) }); gm.push_back({ "pointer gradient matrix", (P->*P->get_cost_function_ptr_deriv_matrix(id))(pm, ym) });
	}
	bool flat = !strcmp(c.n, "rmse") && e == 0; // no gradient at the minimum of the root
	for (auto &q : gv) { bool good = q.second.is_valid() && q.second->size() == n; mc::ok(good, K + ":" + q.first + ":shape", "%s %s of %s: got %s", c.n, q.first, in.c_str(), dump(q.second).s().c_str());
		for (int i = 0; good && !flat && i < n; i++) { double g = c.g(dp[i], dy[i], dp, dy); mc::transition(); mc::ok(mc::close(g, q.second->element_get(i), tol, 3e-6), K + ":" + q.first, "%s %s of %s, element %d: expected %.7g, got %.7g", c.n, q.first, in.c_str(), i, g, (double)q.second->element_get(i)); } }
	for (auto &q : gm) { bool good = q.second.is_valid() && q.second->size() == Size2i(cols, rows); mc::ok(good, K + ":" + q.first + ":shape", "%s %s of %s: got %s", c.n, q.first, in.c_str(), dump(q.second).s().c_str());
		for (int i = 0; good && !flat && i < n; i++) { double g = c.g(dp[i], dy[i], dp, dy); mc::transition(); mc::ok(mc::close(g, q.second->element_get_index(i), tol, 3e-6), K + ":" + q.first, "%s %s of %s, element %d: expected %.7g, got %.7g", c.n, q.first, in.c_str(), i, g, (double)q.second->element_get_index(i)); } }
	mc::ok(same(Val{ { n }, p }, dump(pv)) && same(Val{ { n }, y }, dump(yv)) && same(Val{ { rows, cols }, p }, dump(pm)) && same(Val{ { rows, cols }, y }, dump(ym)), K + ":arguments", "%s changed its arguments %s", c.n, in.c_str());
	mc::state(in);
}
void explore() {
	static Ref<MLPPCost> cost; cost.instance(); P = cost.ptr();
	for (const Cost &c : costs()) {
		std::vector<float> ps = c.domain ? std::vector<float>{ 0.125f, 0.25f, 0.5f, 0.75f, 0.96875f } : std::vector<float>{ -2, -1, -0.25f, 0, 0.5f, 1, 3.5f };
		std::vector<float> ys = c.domain ? std::vector<float>{ 0, 1, 0.25f } : std::vector<float>{ -1, 0, 1, 2.25f };
		for (int n = 1; n <= 2; n++) tuples(ps, n, [&](const std::vector<float> &p) { MC_CASE("%s of prediction %s against every target", c.n, (Val{ { n }, p }).s().c_str()) tuples(ys, n, [&](const std::vector<float> &y) { compare(c, p, y, n, 1); compare(c, p, y, 1, n); }); });
		for (Dims d : { Dims{ 1, 3 }, Dims{ 3, 1 }, Dims{ 2, 2 }, Dims{ 2, 3 }, Dims{ 3, 2 }, Dims{ 3, 3 }, Dims{ 1, 9 }, Dims{ 7, 1 }, Dims{ 5, 4 }, Dims{ 2, 17 } }) for (int a = 0; a < (mc::thorough() ? 35 : 7); a++) MC_CASE("%s on a %dx%d sample, pattern %d", c.n, d[0], d[1], a) {
			std::vector<float> p, y; for (int i = 0; i < prod(d); i++) { p.push_back(ps[(i * (1 + a % 3) + a) % ps.size()]); y.push_back(ys[(i * 2 + a + i / 3) % ys.size()]); }
			compare(c, p, y, d[0], d[1]);
		}
		for (int n = 0; n <= 4; n++) for (int m = 0; m <= 4; m++) if (n != m && n && m) MC_CASE("%s of %d predictions against %d targets", c.n, n, m) {
			std::vector<float> p(n, 0.5f), y(m, 1); RV pv = mkv(p), yv = mkv(y); RM pm = mkm(n, 1, p), ym = mkm(m, 1, y);
			mc::transition(4);
			mc::ok(std::string(c.n).substr(0, 3) == "wei" || (c.v(pv, yv) == 0 && c.m(pm, ym) == 0), std::string(c.n) + ":refuse", "%s accepted %d predictions against %d targets", c.n, n, m);
			if (c.refuses) { RV a = c.dv(pv, yv); RM b = c.dm(pm, ym); mc::ok((!a.is_valid() || a->size() == 0) && (!b.is_valid() || b->data_size() == 0), std::string(c.n) + ":refuse gradient", "the gradient of %s accepted %d predictions against %d targets", c.n, n, m); }
			mc::ok(same(Val{ { n }, p }, dump(pv)) && same(Val{ { m }, y }, dump(yv)), std::string(c.n) + ":arguments", "%s changed its arguments", c.n);
		}
	}
	// dual form of the support vector machine
	for (int n = 1; n <= 3; n++) for (int f = 1; f <= 2; f++) tuples({ -1, 0.5f, 2 }, n * f, [&](const std::vector<float> &x) {
		if (n * f > 4 && !mc::thorough() && mc::fnv(x.data(), x.size() * 4) % 8) return;
		MC_CASE("dual form for samples %s", (Val{ { n, f }, x }).s().c_str()) tuples({ -1, 1 }, n, [&](const std::vector<float> &y) { tuples({ 0, 0.5f, 2 }, n, [&](const std::vector<float> &al) {
			RM X = mkm(n, f, x); RV Y = mkv(y), Al = mkv(al); double e = 0; D g(n);
			for (int i = 0; i < n; i++) { e -= al[i]; g[i] = -1; for (int j = 0; j < n; j++) { double k = 0; for (int q = 0; q < f; q++) k += (double)x[i * f + q] * x[j * f + q]; e += 0.5 * al[i] * al[j] * y[i] * y[j] * k; g[i] += al[j] * y[i] * y[j] * k; } }
			mc::transition(2);
			double got = P->dual_form_svm(Al, X, Y); RV dg = P->dual_form_svm_deriv(Al, X, Y);
			mc::ok(mc::close(e, got, 3e-5, 1e-5), "dual_form_svm:value", "dual form: expected %.7g, got %.7g", e, got);
			bool good = dg.is_valid() && dg->size() == n; mc::ok(good, "dual_form_svm_deriv:shape", "dual form gradient has shape %s", dump(dg).s().c_str());
			for (int i = 0; good && i < n; i++) mc::ok(mc::close(g[i], dg->element_get(i), 3e-5, 1e-5), "dual_form_svm_deriv:value", "dual form gradient %d: expected %.7g, got %.7g", i, g[i], (double)dg->element_get(i));
			mc::ok(same(Val{ { n, f }, x }, dump(X)) && same(Val{ { n }, y }, dump(Y)) && same(Val{ { n }, al }, dump(Al)), "dual_form_svm:arguments", "the dual form changed its arguments");
		}); });
	});
}
