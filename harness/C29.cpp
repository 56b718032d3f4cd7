// MC: variant=asan
// C29: simple linear regression. Every small data set with two distinct inputs against the exact least-squares line.
#include "arith.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
typedef std::vector<float> F;
static void run(const F &x, const F &y, const F &q) {
	int n = x.size(); double sx = 0, sy = 0, sxx = 0, sxy = 0; for (int i = 0; i < n; i++) sx += x[i], sy += y[i]; sx /= n; sy /= n; for (int i = 0; i < n; i++) sxx += (x[i] - sx) * (x[i] - sx), sxy += (x[i] - sx) * (y[i] - sy); double mx = 0; for (float v : x) mx = std::max(mx, std::fabs((double)v)); if (sxx < 1e-3 * mx * mx || sxx == 0) return;
	double b1 = sxy / sxx, b0 = sy - b1 * sx; Ref<MLPPVector> X = mkv(x), Y = mkv(y); Val fx = dump(X), fy = dump(Y); std::string in = "inputs " + fx.s() + " outputs " + fy.s(); mc::state(in); double tol = 1e-4 * (1 + std::fabs(b0) + std::fabs(b1) * (1 + mx));
	MLPPUniLinReg late; late.set_input_set(X); late.set_output_set(Y); late.train(); MLPPUniLinReg now(X, Y); MLPPUniLinReg again(mkv(q), mkv(F(q.rbegin(), q.rend()))); again.set_input_set(X); again.set_output_set(Y); again.train();
	MLPPUniLinReg *ms[3] = { &now, &late, &again }; for (int w = 0; w < 3; w++) { MLPPUniLinReg &m = *ms[w]; mc::transition(); mc::ok(mc::close(m.get_b0(), b0, 1e-4, tol) && mc::close(m.get_b1(), b1, 1e-4, tol), "coefficients", "%s: line %g + %g x, expected %g + %g x", in.c_str(), m.get_b0(), m.get_b1(), b0, b1);
		Ref<MLPPVector> Q = mkv(q); Val o = dump(m.model_set_test(Q)); mc::ok(o.d == Dims{ (int)q.size() } && same(dump(Q), Val{ { (int)q.size() }, q }), "model_set_test:size", "%s: predictions %s for %zu queries", in.c_str(), o.s().c_str(), q.size());
		for (size_t i = 0; i < q.size(); i++) { double e = b0 + b1 * q[i], t = tol * (1 + std::fabs(q[i])); float g = m.model_test(q[i]); mc::outcome(mc::fmt("%.2g", e)); mc::ok(mc::close(g, e, 1e-4, t), "model_test", "%s: predicts %g at %g, expected %g", in.c_str(), g, q[i], e); mc::ok(i < o.v.size() && mc::close(o.v[i], e, 1e-4, t), "model_set_test", "%s: predicts %s, expected %g at %g", in.c_str(), o.s().c_str(), e, q[i]); } }
	mc::ok(same(fx, dump(X)) && same(fy, dump(Y)), "input-changed", "%s: training data changed", in.c_str());
	now.set_b0(2); now.set_b1(-3); mc::ok(now.get_b0() == 2 && now.get_b1() == -3 && mc::close(now.model_test(1.5), -2.5, 1e-6, 1e-6), "set", "set_b0/set_b1 not honoured");
}
void explore() {
	bool T = mc::thorough(); F xs = { -2, 0, 0.5f, 3 }, ys = { -1, 0, 2.5f }, q = { -10, -1, 0, 0.75f, 4 };
	for (int n = 2; n <= (T ? 5 : 4); n++) tuples(xs, n, [&](const F &x) { MC_CASE("inputs %s", (Val{ { n }, x }).s().c_str()) tuples(ys, n, [&](const F &y) { run(x, y, q); }); });
	for (int n = 5; n <= 40; n++) MC_CASE("%d points", n) for (int v = 0; v < 40; v++) { F x, y; for (int i = 0; i < n; i++) { x.push_back(((i * i * (v + 1) + i * 3 + v) % 17 - 8) * (v % 3 ? 1.f : 0.01f)); y.push_back(((i * (v + 2)) % 11 - 4.5f) * (v % 2 ? 1 : 100)); } run(x, y, q); }
}
