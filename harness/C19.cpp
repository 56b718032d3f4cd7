// MC: variant=asan
// C19: numerical differentiation, expansions, roots and classification over a whole family of polynomials and grid points.
#include "arith.h"
#include "core/numerical_analysis.h"
static MLPPNumericalAnalysis *P;
static double c1[5]; // c0 + c1 x + .. + c4 x^4
static real_t f1(real_t x) { double s = 0; for (int i = 4; i >= 0; i--) s = s * x + c1[i]; return s; }
static double d1(int k, double x) { double s = 0; for (int i = k; i < 5; i++) { double c = c1[i]; for (int q = 0; q < k; q++) c *= i - q; s += c * std::pow(x, i - k); } return s; }
// multivariate: sum over monomials of degree <= 3 in n <= 3 variables
struct Mono { int e[3]; double c; }; static std::vector<Mono> mv; static int nv;
static double ev(const std::vector<Mono> &m, const double *x) { double s = 0; for (auto &q : m) { double t = q.c; for (int i = 0; i < 3; i++) for (int k = 0; k < q.e[i]; k++) t *= x[i]; s += t; } return s; }
static std::vector<Mono> dm(std::vector<Mono> m, int a) { for (auto &q : m) { q.c *= q.e[a]; if (q.e[a]) q.e[a]--; } return m; }
static real_t fv(const Ref<MLPPVector> &v) { double x[3] = { 0, 0, 0 }; for (int i = 0; i < v->size() && i < 3; i++) x[i] = v->element_get(i); return ev(mv, x); }
static double mag(const std::vector<Mono> &m) { double s = 0; for (auto &q : m) s += std::fabs(q.c) * std::pow(3.0, q.e[0] + q.e[1] + q.e[2]); return s; }
static void num(const char *k, const std::string &in, double e, double g, double tol) { mc::transition(); mc::outcome(mc::fmt("%s %.5g", k, e)); mc::ok(std::fabs(e - g) <= tol, std::string(k) + ":value", "%s of %s: expected %.6g +- %.2g, got %.6g", k, in.c_str(), e, tol, g); }
static double ha, hb; static real_t ode1(real_t x) { return ha * x + hb; } static real_t ode2(const Ref<MLPPVector> &v) { return ha * v->element_get(0) + hb * v->element_get(1); }
static std::string ms() { std::string r; for (auto &q : mv) if (q.c) r += mc::fmt(" %+gx^%dy^%dz^%d", q.c, q.e[0], q.e[1], q.e[2]); return r; }
static void point(const std::vector<float> &p) {
	double x[3] = { 0, 0, 0 }; for (int i = 0; i < nv; i++) x[i] = p[i]; Ref<MLPPVector> X = mkv(p); Val before = dump(X); std::string in = ms() + " at " + before.s(); mc::state(in);
	// forward differences in single precision: truncation of a few steps times the next derivatives, rounding of a few ulps of f over the step
	double M = mag(mv), t1 = 2e-3 * M + 1e-5, t2 = 3e-2 * M + 1e-4, t3 = 0.12 * M + 1e-3;
	std::vector<double> J; for (int a = 0; a < nv; a++) { J.push_back(ev(dm(mv, a), x)); num("num_diffv", in + mc::fmt(" axis %d", a), J[a], P->num_diffv(fv, X, a), t1); }
	Val j = dump(P->jacobian(fv, X)); Exp je; je.d = { nv }; je.v = J; mc::ok(agrees(je, j, 0, t1), "jacobian:value", "jacobian of %s: expected %s, got %s", in.c_str(), es(je).c_str(), j.s().c_str());
	Exp he; he.d = { nv, nv }; double lap = 0; for (int a = 0; a < nv; a++) for (int b = 0; b < nv; b++) { he.v.push_back(ev(dm(dm(mv, a), b), x)); if (a == b) lap += he.v.back(); num("num_diff_2v", in + mc::fmt(" axes %d %d", a, b), he.v.back(), P->num_diff_2v(fv, X, a, b), t2); }
	Val h = dump(P->hessian(fv, X)); mc::ok(agrees(he, h, 0, t2), "hessian:value", "hessian of %s: expected %s, got %s", in.c_str(), es(he).c_str(), h.s().c_str()); num("laplacian", in, lap, P->laplacian(fv, X), nv * t2);
	Exp te; te.d = { nv, nv, nv }; for (int a = 0; a < nv; a++) for (int b = 0; b < nv; b++) for (int c = 0; c < nv; c++) { te.v.push_back(ev(dm(dm(dm(mv, a), b), c), x)); num("num_diff_3v", in + mc::fmt(" axes %d %d %d", a, b, c), te.v.back(), P->num_diff_3v(fv, X, a, b, c), t3); }
	Val t = dump(P->third_order_tensor(fv, X)); mc::ok(agrees(te, t, 0, t3), "third_order_tensor:value", "third_order_tensor of %s: expected %s, got %s", in.c_str(), es(te).c_str(), t.s().c_str());
	Vector<Ref<MLPPMatrix>> tv = P->third_order_tensorvt(fv, X); Val q; q.d = { tv.size(), nv, nv }; for (int i = 0; i < tv.size(); i++) { Val m = dump(tv[i]); q.v.insert(q.v.end(), m.v.begin(), m.v.end()); } mc::ok(agrees(te, q, 0, t3), "third_order_tensorvt:value", "third_order_tensorvt of %s: expected %s, got %s", in.c_str(), es(te).c_str(), q.s().c_str());
	num("constant_approximationv", in, ev(mv, x), P->constant_approximationv(fv, X), 1e-4 + 1e-5 * M);
	for (int s = 0; s < 3; s++) { // expansions around the point, one unit away along a direction with every component nonzero
		std::vector<float> y = p; double d[3] = { 0, 0, 0 }; for (int i = 0; i < nv; i++) { d[i] = s == 0 ? 1 : s == 1 ? (i ? -0.5 : 1.5) : (i == nv - 1 ? -1 : 0.25); y[i] += d[i]; } Ref<MLPPVector> Y = mkv(y); Val yb = dump(Y); std::string w = in + " to " + yb.s();
		double L = ev(mv, x), Q = 0, C = 0, n1 = 0; for (int a = 0; a < nv; a++) { L += J[a] * d[a]; n1 += std::fabs(d[a]); for (int b = 0; b < nv; b++) { Q += he.v[a * nv + b] * d[a] * d[b]; for (int c = 0; c < nv; c++) C += te.v[(a * nv + b) * nv + c] * d[a] * d[b] * d[c]; } }
		double e1 = t1 * n1 + 1e-4, e2 = e1 + t2 * n1 * n1 / 2, e3 = e2 + t3 * n1 * n1 * n1 / 6;
		num("linear_approximationv", w, L, P->linear_approximationv(fv, X, Y), e1); num("quadratic_approximationv", w, L + Q / 2, P->quadratic_approximationv(fv, X, Y), e2); num("cubic_approximationv", w, L + Q / 2 + C / 6, P->cubic_approximationv(fv, X, Y), e3);
		mc::ok(same(yb, dump(Y)), "expansion:input-changed", "an expansion of %s changed the target point", in.c_str());
	}
	mc::ok(same(before, dump(X)), "point-changed", "differentiating %s changed the point to %s", in.c_str(), dump(X).s().c_str());
}
void explore() {
	MLPPNumericalAnalysis na; P = &na; bool T = mc::thorough();
	std::vector<double> cs = T ? std::vector<double>{ -2, -1, 0, 1, 2 } : std::vector<double>{ -1, 0, 2 };
	for (double a : cs) for (double b : cs) for (double c : cs) for (double d : cs) for (double e : cs) MC_CASE("polynomial %g %g %g %g %g", a, b, c, d, e) {
		c1[0] = a; c1[1] = b; c1[2] = c; c1[3] = d; c1[4] = e;
		for (float x : { -1.5f, -1.f, -0.25f, 0.f, 0.5f, 1.f, 1.75f }) { std::string in = mc::fmt("%g%+gx%+gx^2%+gx^3%+gx^4 at %g", a, b, c, d, e, x); mc::state(in);
			double D1 = d1(1, x), D2 = d1(2, x), D3 = d1(3, x), D4 = d1(4, x), m = std::fabs(a) + std::fabs(b) * 2 + std::fabs(c) * 4 + std::fabs(d) * 8 + std::fabs(e) * 16;
			double t1 = 1e-3 * (std::fabs(D2) + std::fabs(D3) + std::fabs(D4)) + 2e-4 * m + 1e-5, t2 = 1.6e-2 * (std::fabs(D3) + std::fabs(D4)) + 5e-3 * m + 1e-4, t3 = 6e-2 * std::fabs(D4) + 2.5e-2 * m + 1e-3;
			num("num_diffr", in, D1, na.num_diffr(f1, x), t1); num("num_diff_2r", in, D2, na.num_diff_2r(f1, x), t2); num("num_diff_3r", in, D3, na.num_diff_3r(f1, x), t3); num("constant_approximationr", in, d1(0, x), na.constant_approximationr(f1, x), 1e-5 * m);
			for (float h : { -2.f, -0.5f, 0.f, 1.f, 1.5f }) { double L = d1(0, x) + D1 * h, Q = L + D2 * h * h / 2, C = Q + D3 * h * h * h / 6, H = std::fabs(h), e1 = t1 * H + 1e-5 * m, e2 = e1 + t2 * H * H / 2, e3 = e2 + t3 * H * H * H / 6; std::string w = in + mc::fmt(" to %g", x + h);
				num("linear_approximationr", w, L, na.linear_approximationr(f1, x, x + h), e1); num("quadratic_approximationr", w, Q, na.quadratic_approximationr(f1, x, x + h), e2); num("cubic_approximationr", w, C, na.cubic_approximationr(f1, x, x + h), e3); } }
	}
	for (int n = 1; n <= 3; n++) { std::vector<Mono> basis; for (int i = 0; i <= 3; i++) for (int j = 0; j <= (n > 1 ? 3 - i : 0); j++) for (int k = 0; k <= (n > 2 ? 3 - i - j : 0); k++) basis.push_back(Mono{ { i, j, k }, 1 });
		int B = basis.size(); for (int u = 0; u < B; u++) for (int w = u; w < B; w++) MC_CASE("%d variables, monomials %d and %d of %d", n, u, w, B) {
			for (double k : { 1.0, -2.0 }) { nv = n; mv = { basis[u] }; if (w != u) { mv.push_back(basis[w]); mv[1].c = k; } else if (k < 0) mv[0].c = k;
				for (float p : { -0.5f, 0.f, 1.f }) for (float q : { -1.f, 0.75f }) { std::vector<float> pt = { p, q, 0.5f }; pt.resize(n); if (n == 1 && q > 0) continue; point(pt); } } } }
	// root finders: polynomials (x-r)(x^2+s) with one simple root, started around it
	for (double r : { -2.0, -0.5, 0.0, 1.0, 2.5 }) for (double s : { 1.0, 3.0 }) MC_CASE("roots of (x-%g)(x^2+%g)", r, s) {
		c1[0] = -r * s; c1[1] = s; c1[2] = -r; c1[3] = 1; c1[4] = 0;
		for (double z : { 1.0, 1.0 / 4096, 1024.0 }) for (double o : { -0.5, -0.1, 0.0, 0.005, 0.2, 0.5 }) { c1[0] = -r * s * z; c1[1] = s * z; c1[2] = -r * z; c1[3] = z; std::string in = mc::fmt("%g(x-%g)(x^2+%g) from %g", z, r, s, r + o); mc::state(in); num("newton_raphson_method", in, r, na.newton_raphson_method(f1, r + o, 30), 2e-3); num("halley_method", in, r, na.halley_method(f1, r + o, 30), 2e-3); num("newton_raphson_method (no step)", in, r + o, na.newton_raphson_method(f1, r + o, 0), 1e-6);
			double x = r + o; double st = x - d1(0, x) / d1(1, x); num("newton_raphson_method (one step)", in, st, na.newton_raphson_method(f1, x, 1), 5e-3 * (1 + std::fabs(st - x) * 4)); st = x - 2 * d1(0, x) * d1(1, x) / (2 * d1(1, x) * d1(1, x) - d1(0, x) * d1(2, x)); num("halley_method (one step)", in, st, na.halley_method(f1, x, 1), 1e-2 * (1 + std::fabs(st - x) * 4)); }
		c1[0] = -r * s; c1[1] = s; c1[2] = -r; c1[3] = 1;
		for (int k = 1; k <= 3; k++) { double z[3] = { r - 0.5, r + 0.25, r + 0.75 }; std::string in = mc::fmt("(x-%g)(x^2+%g) from three points, %d steps", r, s, k); Ref<MLPPVector> x0 = mkv({ (float)z[0], (float)z[1], (float)z[2] }); Val b = dump(x0); double x = 0; bool sep = true;
			for (int i = 0; i < k; i++) { double f0 = d1(0, z[0]), g = d1(0, z[1]), h = d1(0, z[2]); sep = sep && std::min(std::min(std::fabs(f0 - g), std::fabs(f0 - h)), std::fabs(g - h)) > 1e-2; x = g * h / ((f0 - g) * (f0 - h)) * z[0] + f0 * h / ((g - f0) * (g - h)) * z[1] + f0 * g / ((h - f0) * (h - g)) * z[2]; z[0] = z[1]; z[1] = z[2]; z[2] = x; }
			if (sep) num("inv_quadratic_interpolation", in, x, na.inv_quadratic_interpolation(f1, x0, k), 5e-3); mc::ok(same(b, dump(x0)), "inv_quadratic:input-changed", "inv_quadratic_interpolation changed its starting points"); }
	}
	// Euler's method: exact recurrence in double, step sizes that are exact in binary
	for (double a : { -1.0, 0.0, 2.0 }) for (double b : { -0.5, 1.0 }) MC_CASE("Euler a=%g b=%g", a, b) {
		ha = a; hb = b; for (double q0 : { 0.0, -1.0, 1.5 }) for (double q1 : { 0.0, 2.0 }) for (int n : { 0, 1, 2, 5, 8 }) for (double h : { 0.25, 0.125 }) { double x = q0, y = q1, z = q1; for (int i = 0; i < n; i++) { y += h * (a * x + b); z += h * (a * x + b * z); x += h; } std::string in = mc::fmt("slope %g,%g from %g,%g over %d steps of %g", a, b, q0, q1, n, h); mc::state(in);
			num("eulerian_methodr", in, y, na.eulerian_methodr(ode1, q0, q1, q0 + n * h, h), 1e-4 * (1 + std::fabs(y))); num("eulerian_methodv", in, z, na.eulerian_methodv(ode2, q0, q1, q0 + n * h, h), 1e-4 * (1 + std::fabs(z))); num("growth_method", in, q1 * std::exp(a * n * h), na.growth_method(q1, a, n * h), 1e-4 * (1 + std::fabs(q1 * std::exp(a * n * h)))); }
	}
	// critical points of quadratic forms, in 2 and 3 variables, translated
	for (int p = 0; p < 5; p++) for (int q = 0; q < 5; q++) MC_CASE("critical points %d %d", p, q) {
		double v[5] = { -2, -1, 0, 1, 3 }; double A = v[p], C = v[q];
		for (double B : { -3.0, -1.0, 0.0, 1.0, 2.0 }) for (float s : { 0.f, 0.5f }) { nv = 2; // A(x-s)^2 + B(x-s)(y+s) + C(y+s)^2
			mv = { Mono{ { 2, 0, 0 }, A }, Mono{ { 1, 0, 0 }, -2 * A * s + B * s }, Mono{ { 1, 1, 0 }, B }, Mono{ { 0, 2, 0 }, C }, Mono{ { 0, 1, 0 }, 2 * C * s - B * s }, Mono{ { 0, 0, 0 }, A * s * s - B * s * s + C * s * s } };
			double det = 4 * A * C - B * B; std::string in = ms(); mc::state(in); if (std::fabs(det) < 0.5) continue; const char *e = det < 0 ? "saddle" : A > 0 ? "min" : "max"; String g = na.second_partial_derivative_test(fv, mkv({ s, -s })); mc::transition(); mc::outcome(e); mc::ok(g == e, "second_partial_derivative_test:two", "%s at (%g,%g) is a %s, reported %s", in.c_str(), s, -s, e, g.utf8().get_data()); }
		for (int r = 0; r < 5; r++) for (double B : { 0.0, 0.5 }) { double D = v[r]; if (!A || !C || !D) continue; nv = 3; mv = { Mono{ { 2, 0, 0 }, A }, Mono{ { 0, 2, 0 }, C }, Mono{ { 0, 0, 2 }, D }, Mono{ { 1, 1, 0 }, B } }; std::string in = ms(); mc::state(in); const char *e = A > 0 && C > 0 && D > 0 ? "min" : A < 0 && C < 0 && D < 0 ? "max" : "saddle"; String g = na.second_partial_derivative_test(fv, mkv({ 0, 0, 0 })); mc::transition(); mc::outcome(e); mc::ok(g == e, "second_partial_derivative_test:three", "%s at the origin is a %s, reported %s", in.c_str(), e, g.utf8().get_data()); }
	}
}
