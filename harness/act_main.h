// Shared body of C13 (DERIV = 0) and C14 (DERIV = 1).
#include "act.h"
static void explore_acts(bool deriv) {
	static Ref<MLPPActivation> act_; act_.instance(); MLPPActivation *P = act_.ptr();
	std::vector<float> G = grid();
	for (const Act &a : acts()) {
		auto id = (A_::ActivationFunction)a.id;
		std::vector<float> zs;
		for (float z : G) if (a.dom(z) && (!deriv || a.smooth(z))) zs.push_back(z);
		auto E = [&](float z) -> LD { return deriv ? slope(a.f, z) : a.f(z); };
		double at = deriv ? a.atol * 4 + 2e-6 : a.atol, rt = deriv ? a.rtol * 4 + 1e-5 : a.rtol;
		const char *w = deriv ? "derivative of" : "value of";
		std::string K = a.n;
		for (float z : zs) MC_CASE("%s %s at the number %g", w, a.n, z) {
			LD e = E(z);
			double got[4] = { deriv ? (P->*a.dr)(z) : (P->*a.nr)(z), deriv ? P->run_activation_deriv_real(id, z) : P->run_activation_norm_real(id, z), P->run_activation_real(id, z, deriv),
				(P->*(deriv ? P->get_activation_function_ptr_deriv_real(id) : P->get_activation_function_ptr_normal_real(id)))(z) };
			const char *route[4] = { "by name", "run_activation_norm/deriv_real", "run_activation_real", "function pointer" };
			for (int i = 0; i < 4; i++) { mc::transition(); mc::ok(near(e, got[i], rt, at), K + ":number:" + route[i], "%s %s (%s) at %g: expected %.8g, got %.8g", w, a.n, route[i], z, (double)e, got[i]); }
			double g5 = (P->*P->get_activation_function_ptr_real(id, deriv))(z); mc::ok(near(e, g5, rt, at), K + ":number:pointer by mode", "%s %s (pointer by mode) at %g: expected %.8g, got %.8g", w, a.n, z, (double)e, g5);
			mc::state(mc::fmt("%s %g", a.n, z)); mc::outcome(mc::fmt("%.6g", (double)e));
			for (int i = 0; i < 5; i++) { // one-element vector and matrix
				Ref<MLPPVector> v = mkv({ z }), rv; Ref<MLPPMatrix> m = mkm(1, 1, { z }), rm;
				if (i == 0) { rv = (P->*(deriv ? a.dv : a.nv))(v); rm = (P->*(deriv ? a.dm : a.nm))(m); }
				if (i == 1) { rv = deriv ? P->run_activation_deriv_vector(id, v) : P->run_activation_norm_vector(id, v); rm = deriv ? P->run_activation_deriv_matrix(id, m) : P->run_activation_norm_matrix(id, m); }
				if (i == 2) { rv = P->run_activation_vector(id, v, deriv); rm = P->run_activation_matrix(id, m, deriv); }
				if (i == 3) { rv = (P->*(deriv ? P->get_activation_function_ptr_deriv_vector(id) : P->get_activation_function_ptr_normal_vector(id)))(v); rm = (P->*(deriv ? P->get_activation_function_ptr_deriv_matrix(id) : P->get_activation_function_ptr_normal_matrix(id)))(m); }
				if (i == 4) { rv = (P->*P->get_activation_function_ptr_vector(id, deriv))(v); rm = (P->*P->get_activation_function_ptr_matrix(id, deriv))(m); }
				std::string R = mc::fmt(":route%d", i); mc::transition(2);
				mc::ok(rv.is_valid() && rv->size() == 1 && near(e, rv->element_get(0), rt, at), K + ":vector" + R, "%s %s of [%g]: expected %.8g, got %s", w, a.n, z, (double)e, dump(rv).s().c_str());
				mc::ok(rm.is_valid() && rm->size() == Size2i(1, 1) && near(e, rm->element_get(0, 0), rt, at), K + ":matrix" + R, "%s %s of [[%g]]: expected %.8g, got %s", w, a.n, z, (double)e, dump(rm).s().c_str());
				mc::ok(v->element_get(0) == z && m->element_get(0, 0) == z, K + ":input", "%s %s changed its input", w, a.n);
			}
		}
		for (int rows = 0; rows <= 5; rows++) for (int cols = 0; cols <= 5; cols++) if ((rows == 0) == (cols == 0)) for (int off = 0; off < (int)zs.size(); off += (mc::thorough() ? 1 : 5)) MC_CASE("%s %s on a %dx%d matrix and a %d-vector from grid point %d", w, a.n, rows, cols, rows * cols, off) {
			int n = rows * cols; std::vector<float> d; for (int i = 0; i < n; i++) d.push_back(zs[(off + i) % zs.size()]);
			Ref<MLPPVector> v = mkv(d), rv = (P->*(deriv ? a.dv : a.nv))(v); Ref<MLPPMatrix> m = mkm(rows, cols, d), rm = (P->*(deriv ? a.dm : a.nm))(m);
			bool okv = rv.is_valid() && rv->size() == n, okm = rm.is_valid() && rm->data_size() == n && (n == 0 || rm->size() == Size2i(cols, rows));
			mc::ok(okv, K + ":vector:shape", "%s %s of a %d-vector has shape %s", w, a.n, n, dump(rv).s().c_str()); mc::ok(okm, K + ":matrix:shape", "%s %s of a %dx%d matrix has shape %s", w, a.n, rows, cols, dump(rm).s().c_str());
			for (int i = 0; i < n; i++) { LD e = E(d[i]); mc::transition(2);
				if (okv) mc::ok(near(e, rv->element_get(i), rt, at), K + ":vector:element", "%s %s, element %d of %d (%g): expected %.8g, got %.8g", w, a.n, i, n, d[i], (double)e, (double)rv->element_get(i));
				if (okm) mc::ok(near(e, rm->element_get_index(i), rt, at), K + ":matrix:element", "%s %s, element %d of %dx%d (%g): expected %.8g, got %.8g", w, a.n, i, rows, cols, d[i], (double)e, (double)rm->element_get_index(i)); }
			mc::ok(same(Val{ { n }, d }, dump(v)) && same(Val{ { rows, cols }, d }, dump(m)), K + ":input", "%s %s changed its input", w, a.n);
			mc::ok(rv != v && rm != m, K + ":alias", "%s %s returned its own argument", w, a.n);
		}
	}
	// the parametrised relatives
	for (float c : { 0.01f, 0.25f, 1.f, 1.5f }) for (float lam : { 0.5f, 1.0507f }) for (int kind = 0; kind < 3; kind++) {
		if (kind == 0 && c > 1) continue;
		if (kind < 2 && lam != 0.5f) continue;
		const char *n = kind == 0 ? "leaky_relu" : kind == 1 ? "elu" : "selu";
		MC_CASE("%s with c %g lambda %g", n, c, lam) {
			std::function<LD(LD)> f = [&](LD z) -> LD { LD y = kind == 0 ? (z > 0 ? z : c * z) : (z >= 0 ? z : (LD)c * expm1l(z)); return kind == 2 ? lam * y : y; };
			std::vector<float> zs; for (float z : G) if (!deriv || z != 0) zs.push_back(z);
			int N = zs.size();
			Ref<MLPPVector> v = mkv(zs), rv; Ref<MLPPMatrix> m = mkm(N, 1, zs), rm, m2 = mkm(1, N, zs), rm2;
#define PAR(call) if (!deriv) { rv = P->call##_normv ARGV; rm = P->call##_normm ARGM; rm2 = P->call##_normm ARGM2; } else { rv = P->call##_derivv ARGV; rm = P->call##_derivm ARGM; rm2 = P->call##_derivm ARGM2; }
#define ARGV (v, c)
#define ARGM (m, c)
#define ARGM2 (m2, c)
			if (kind == 0) { PAR(leaky_relu) } if (kind == 1) { PAR(elu) }
#undef ARGV
#undef ARGM
#undef ARGM2
#define ARGV (v, lam, c)
#define ARGM (m, lam, c)
#define ARGM2 (m2, lam, c)
			if (kind == 2) { PAR(selu) }
			for (int i = 0; i < N; i++) {
				float z = zs[i]; LD e = deriv ? slope(f, z) : f(z);
				double g = kind == 0 ? (deriv ? P->leaky_relu_derivr(z, c) : P->leaky_relu_normr(z, c)) : kind == 1 ? (deriv ? P->elu_derivr(z, c) : P->elu_normr(z, c)) : (deriv ? P->selu_derivr(z, lam, c) : P->selu_normr(z, lam, c));
				mc::transition(4);
				mc::ok(near(e, g, 2e-5, 2e-6), std::string(n) + ":number", "%s(%g; c=%g lambda=%g): expected %.8g, got %.8g", n, z, c, lam, (double)e, g);
				mc::ok(near(e, rv->element_get(i), 2e-5, 2e-6), std::string(n) + ":vector", "%s(%g) in a vector: expected %.8g, got %.8g", n, z, (double)e, (double)rv->element_get(i));
				mc::ok(near(e, rm->element_get(i, 0), 2e-5, 2e-6) && near(e, rm2->element_get(0, i), 2e-5, 2e-6), std::string(n) + ":matrix", "%s(%g) in a matrix: expected %.8g, got %.8g", n, z, (double)e, (double)rm->element_get(i, 0));
			}
			mc::ok(same(Val{ { N }, zs }, dump(v)) && same(Val{ { N, 1 }, zs }, dump(m)), std::string(n) + ":input", "%s changed its input", n);
		}
	}
	// soft-max family: vectors and rows of matrices
	auto sm = [](const std::vector<float> &z) { LD mx = -1e30L, s = 0; std::vector<LD> r; for (float x : z) mx = std::max(mx, (LD)x); for (float x : z) s += expl(x - mx); for (float x : z) r.push_back(expl(x - mx) / s); return r; };
	for (int n = 1; n <= (mc::thorough() ? 5 : 4); n++) tuples({ -3, -0.5f, 0, 2, 20.75f }, n, [&](const std::vector<float> &z) {
		MC_CASE("soft-max of %s", (Val{ { n }, z }).s().c_str()) {
			std::vector<LD> e = sm(z);
			Ref<MLPPVector> v = mkv(z); Ref<MLPPMatrix> m = mkm(3, n, std::vector<float>(3 * n));
			for (int i = 0; i < n; i++) { m->element_set(0, i, z[i]); m->element_set(1, i, z[n - 1 - i]); m->element_set(2, i, z[i] + 1.5f); }
			Val before = dump(m);
			struct R { const char *n; Ref<MLPPVector> v; Ref<MLPPMatrix> m; };
			auto SM = A_::ACTIVATION_FUNCTION_SOFTMAX, AS = A_::ACTIVATION_FUNCTION_ADJ_SOFTMAX;
			std::vector<R> rs;
			if (!deriv) rs = { { "softmax_norm", P->softmax_normv(v), P->softmax_normm(m) }, { "adj_softmax_norm", P->adj_softmax_normv(v), P->adj_softmax_normm(m) }, { "run softmax", P->run_activation_norm_vector(SM, v), P->run_activation_norm_matrix(SM, m) }, { "run adj_softmax", P->run_activation_norm_vector(AS, v), P->run_activation_norm_matrix(AS, m) }, { "run_activation softmax", P->run_activation_vector(SM, v, false), P->run_activation_matrix(SM, m, false) }, { "ptr softmax", (P->*P->get_activation_function_ptr_normal_vector(SM))(v), (P->*P->get_activation_function_ptr_normal_matrix(SM))(m) }, { "ptr adj_softmax", (P->*P->get_activation_function_ptr_normal_vector(AS))(v), (P->*P->get_activation_function_ptr_normal_matrix(AS))(m) } };
			else rs = { { "softmax_deriv", P->softmax_derivv(v), P->softmax_derivm(m) }, { "adj_softmax_deriv", P->adj_softmax_derivv(v), P->adj_softmax_derivm(m) }, { "run softmax", P->run_activation_deriv_vector(SM, v), P->run_activation_deriv_matrix(SM, m) }, { "run_activation softmax", P->run_activation_vector(SM, v, true), P->run_activation_matrix(SM, m, true) } };
			for (auto &r : rs) {
				LD sum = 0; mc::transition(2);
				if (deriv) { // the library's convention: the derivative slot of the soft-max family is the same function applied row by row
					for (int k = 0; k < 3; k++) { std::vector<float> row; for (int i = 0; i < n; i++) row.push_back(m->element_get(k, i)); Ref<MLPPVector> rv = mkv(row); Ref<MLPPVector> want = !strncmp(r.n, "adj", 3) ? P->adj_softmax_derivv(rv) : P->softmax_derivv(rv); for (int i = 0; i < n && r.m.is_valid(); i++) mc::ok(mc::close(want->element_get(i), r.m->element_get(k, i), 1e-5, 1e-7), std::string(r.n) + ":rows", "%s: row %d of a matrix differs from the same vector", r.n, k); mc::ok(r.m.is_valid(), std::string(r.n) + ":rows", "%s of a matrix returned nothing", r.n); }
					continue;
				}
				bool good = r.v.is_valid() && r.v->size() == n && r.m.is_valid() && r.m->size() == Size2i(n, 3);
				mc::ok(good, std::string(r.n) + ":shape", "%s returned shapes %s %s", r.n, dump(r.v).s().c_str(), dump(r.m).s().c_str());
				for (int i = 0; good && i < n; i++) {
					double g = r.v->element_get(i); sum += g;
					mc::ok(near(e[i], g, 2e-5, 1e-7) && g >= 0 && g <= 1.00001, std::string(r.n) + ":value", "%s: element %d expected %.8g, got %.8g", r.n, i, (double)e[i], g);
					mc::ok(near(e[i], r.m->element_get(0, i), 2e-5, 1e-7) && near(e[n - 1 - i], r.m->element_get(1, i), 2e-5, 1e-7) && near(e[i], r.m->element_get(2, i), 2e-5, 1e-6), std::string(r.n) + ":matrix", "%s: matrix column %d is not the soft-max of its rows", r.n, i);
				}
				if (good) mc::ok(near(1, sum, 1e-5, 1e-6), std::string(r.n) + ":sum", "%s sums to %.8g", r.n, (double)sum);
			}
			if (deriv) {
				Ref<MLPPMatrix> j[2] = { P->softmax_deriv_normv(v), P->softmax_deriv_derivv(v) };
				for (int q = 0; q < 2; q++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) mc::ok(near(a == b ? e[a] * (1 - e[a]) : -e[a] * e[b], j[q]->element_get(a, b), 2e-5, 1e-7), "softmax_deriv_normv:jacobian", "soft-max Jacobian (%d,%d): expected %.8g, got %.8g", a, b, (double)(a == b ? e[a] * (1 - e[a]) : -e[a] * e[b]), (double)j[q]->element_get(a, b));
			}
			mc::ok(same(Val{ { n }, z }, dump(v)) && same(before, dump(m)), "softmax:input", "a soft-max function changed its input");
		}
	});
	MC_CASE("activation of a whole vector by a C function") {
		Ref<MLPPVector> v = mkv({ -1, 2, 0.5f }); Ref<MLPPVector> r = P->activationr(v, [](real_t x) -> real_t { return x * 2 + 1; });
		mc::ok(same(Val{ { 3 }, { -1, 5, 2 } }, dump(r)), "activationr:value", "activationr gave %s", dump(r).s().c_str());
	}
}
