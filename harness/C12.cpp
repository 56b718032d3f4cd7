// MC: variant=asan
// C12: the linear-algebra facade equals the mathematics, never modifies its arguments and refuses what does not conform.
#include "arith.h"
#include "core/lin_alg.h"
typedef Ref<MLPPVector> RV;
typedef Ref<MLPPMatrix> RM;

static MLPPLinAlg *alg() { static Ref<MLPPLinAlg> a; if (!a.is_valid()) a.instance(); return a.ptr(); }
static Exp map1(const Val &A, std::function<double(double)> f) { Exp e; e.d = A.d; for (float x : A.v) e.v.push_back(f(x)); return e; }
static Exp map2(const Val &A, const Val &B, std::function<double(double, double)> f) { Exp e; e.d = A.d; for (size_t i = 0; i < A.v.size(); i++) e.v.push_back(f(A.v[i], B.v[i])); return e; }
template <class T> static void res(const char *op, const Exp &e, const Ref<T> &r, const std::string &in) {
	mc::transition(); mc::state(dump(r).s());
	mc::ok(agrees(e, dump(r)), std::string(op) + ":value", "%s on %s: expected %s, got %s", op, in.c_str(), es(e).c_str(), dump(r).s().c_str());
}
template <class T> static void keep(const char *op, const Val &was, const Ref<T> &r) { mc::ok(same(was, dump(r)), std::string(op) + ":operand", "%s changed its argument from %s to %s", op, was.s().c_str(), dump(r).s().c_str()); }
template <class T> static void none(const char *op, const Ref<T> &r, const std::string &in) { mc::transition(); mc::ok(!r.is_valid() || prod(dump(r).d) == 0, std::string(op) + ":refuse", "%s on %s: expected nothing, got %s", op, in.c_str(), dump(r).s().c_str()); }
static void num(const char *op, double e, double g, const std::string &in, double rtol = 2e-5, double atol = 2e-6) { mc::transition(); mc::ok(mc::close(e, g, rtol, atol) || (std::isinf(e) && e == g), std::string(op) + ":value", "%s on %s: expected %.7g, got %.7g", op, in.c_str(), e, g); }

struct U1 { const char *n; std::function<double(double)> f; std::function<RV(RV)> v; std::function<RM(RM)> m; };
struct B2 { const char *n; std::function<double(double, double)> f; std::function<RV(RV, RV)> v; std::function<RM(RM, RM)> m; std::function<void(RV, RV, RV)> o; };

static std::vector<U1> uns() {
	std::vector<U1> u;
#define U(OP, e) u.push_back(U1{ #OP, [](double x) -> double { return e; }, [](RV a) { return alg()->OP##nv(a); }, [](RM a) { return alg()->OP##nm(a); } })
	U(log, std::log(x)); U(log10, std::log10(x)); U(exp, std::exp(x)); U(erf, std::erf(x)); U(sqrt, std::sqrt(x)); U(cbrt, std::cbrt(x)); U(sin, std::sin(x)); U(cos, std::cos(x));
	u.push_back(U1{ "abs", [](double x) { return std::fabs(x); }, [](RV a) { return alg()->absv(a); }, [](RM a) { return alg()->absnm(a); } });
	for (float p : { 0.f, 1.f, 2.f, 3.f, -1.f, 0.5f }) u.push_back(U1{ "exponentiate", [p](double x) { return std::pow(x, (double)p); }, [p](RV a) { return alg()->exponentiatenv(a, p); }, [p](RM a) { return alg()->exponentiatenm(a, p); } });
	for (float p : { 0.f, 2.f, -1.5f }) {
		u.push_back(U1{ "scalar_multiply", [p](double x) { return x * p; }, [p](RV a) { return alg()->scalar_multiplynv(p, a); }, [p](RM a) { return alg()->scalar_multiplynm(p, a); } });
		u.push_back(U1{ "scalar_add", [p](double x) { return x + p; }, [p](RV a) { return alg()->scalar_addnv(p, a); }, [p](RM a) { return alg()->scalar_addnm(p, a); } });
	}
	return u;
}
static std::vector<B2> bins() {
	return {
		B2{ "addition", [](double x, double y) { return x + y; }, [](RV a, RV b) { return alg()->additionnv(a, b); }, [](RM a, RM b) { return alg()->additionnm(a, b); }, [](RV a, RV b, RV o) { alg()->additionv(a, b, o); } },
		B2{ "subtraction", [](double x, double y) { return x - y; }, [](RV a, RV b) { return alg()->subtractionnv(a, b); }, [](RM a, RM b) { return alg()->subtractionnm(a, b); }, [](RV a, RV b, RV o) { alg()->subtractionv(a, b, o); } },
		B2{ "hadamard_product", [](double x, double y) { return x * y; }, [](RV a, RV b) { return alg()->hadamard_productnv(a, b); }, [](RM a, RM b) { return alg()->hadamard_productnm(a, b); }, [](RV a, RV b, RV o) { alg()->hadamard_productv(a, b, o); } },
		B2{ "division_element_wise", [](double x, double y) { return x / y; }, [](RV a, RV b) { return alg()->division_element_wisenv(a, b); }, [](RM a, RM b) { return alg()->division_element_wisenvnm(a, b); }, nullptr },
		B2{ "max", [](double x, double y) { return std::fmax(x, y); }, [](RV a, RV b) { return alg()->maxnvv(a, b); }, [](RM a, RM b) { return alg()->maxnm(a, b); }, nullptr },
	};
}
static std::vector<Val> vecs() {
	std::vector<Val> r;
	r.push_back(Val{ { 0 }, {} });
	std::vector<float> vals = mc::thorough() ? std::vector<float>{ 1, -2, 0.5f, 3, 0, -0.25f } : std::vector<float>{ 1, -2, 0.5f, 3, 0 };
	for (int n = 1; n <= 2; n++) tuples(vals, n, [&](const std::vector<float> &t) { r.push_back(Val{ { n }, t }); });
	for (int n : { 3, 4, 7, 17 }) for (const Val &p : patterns({ n })) r.push_back(p);
	return r;
}
static std::vector<Val> mats() {
	std::vector<Val> r;
	r.push_back(Val{ { 0, 0 }, {} });
	for (Dims d : { Dims{ 1, 1 }, Dims{ 1, 2 }, Dims{ 2, 1 }, Dims{ 2, 2 } }) tuples({ 1, -2, 0.5f }, prod(d), [&](const std::vector<float> &t) { r.push_back(Val{ d, t }); });
	for (Dims d : { Dims{ 1, 3 }, Dims{ 3, 1 }, Dims{ 2, 3 }, Dims{ 3, 2 }, Dims{ 3, 3 }, Dims{ 2, 5 }, Dims{ 5, 2 }, Dims{ 4, 4 }, Dims{ 4, 9 } }) for (const Val &p : patterns(d)) r.push_back(p);
	return r;
}
static Exp mul(const Val &A, const Val &B) {
	Exp e; e.d = { A.d[0], B.d[1] };
	for (int i = 0; i < A.d[0]; i++) for (int j = 0; j < B.d[1]; j++) { double s = 0; for (int k = 0; k < A.d[1]; k++) s += (double)A.v[i * A.d[1] + k] * B.v[k * B.d[1] + j]; e.v.push_back(s); }
	return e;
}
static Val trv(const Val &A) { Val t; t.d = { A.d[1], A.d[0] }; for (int j = 0; j < A.d[1]; j++) for (int i = 0; i < A.d[0]; i++) t.v.push_back(A.v[i * A.d[1] + j]); return t; }
static Exp ex(const Val &v) { Exp e; e.d = v.d; e.v.assign(v.v.begin(), v.v.end()); return e; }

void explore() {
	std::vector<Val> VS = vecs(), MS = mats();
	std::vector<U1> us = uns();
	std::vector<B2> bs = bins();
	MC_CASE("missing operands") {
		RV v = mkv({ 1, 2 }), nv; RM m = mkm(1, 2, { 1, 2 }), nm;
		for (auto &u : us) { none(u.n, u.v(nv), "null"); none(u.n, u.m(nm), "null"); }
		for (auto &b : bs) { none(b.n, b.v(v, nv), "null"); none(b.n, b.v(nv, v), "null"); none(b.n, b.m(m, nm), "null"); none(b.n, b.m(nm, m), "null"); if (b.o) { b.o(v, nv, v); b.o(nv, v, v); b.o(v, v, nv); keep(b.n, Val{ { 2 }, { 1, 2 } }, v); } }
		none("matmult", alg()->matmultnm(nm, m), "null"); none("matmult", alg()->matmultnm(m, nm), "null"); none("kronecker", alg()->kronecker_productnm(nm, m), "null"); none("transpose", alg()->transposenm(nm), "null");
		none("mat_vec_mult", alg()->mat_vec_multnv(nm, v), "null"); none("mat_vec_mult", alg()->mat_vec_multnv(m, nv), "null"); none("mat_vec_add", alg()->mat_vec_addnm(nm, v), "null"); none("mat_vec_add", alg()->mat_vec_addnm(m, nv), "null");
		none("outer", alg()->outer_product(nv, v), "null"); none("outer", alg()->outer_product(v, nv), "null"); none("diag", alg()->diagnm(nv), "null"); none("rows", alg()->subtract_matrix_rowsnv(nv, m), "null"); none("rows", alg()->subtract_matrix_rowsnv(v, nm), "null");
		none("projection", alg()->vector_projection(nv, v), "null"); none("gram", alg()->gram_matrix(nm), "null"); none("cov", alg()->covnm(nm), "null"); none("flatten", alg()->flattenvvnv(nm), "null");
		num("dot", 0, alg()->dotnv(nv, v), "null"); num("sum", 0, alg()->sum_elementsv(nv), "null"); num("norm_sq", 0, alg()->norm_sqv(nv), "null"); num("euclidean", 0, alg()->euclidean_distance(nv, v), "null"); num("euclidean_sq", 0, alg()->euclidean_distance_squared(v, nv), "null");
	}
	for (int n = 0; n <= 6; n++) for (int m = 0; m <= 6; m++) if ((n == 0) == (m == 0)) MC_CASE("constant matrices and vectors of %d by %d", n, m) {
		auto c = [&](double v) { Exp e; e.d = { n, m }; e.v.assign(n * m, v); return e; };
		auto cv = [&](double v) { Exp e; e.d = { n }; e.v.assign(n, v); return e; };
		std::string in = mc::fmt("%dx%d", n, m);
		res("zeromat", c(0), alg()->zeromatnm(n, m), in); res("onemat", c(1), alg()->onematnm(n, m), in);
		for (int k : { 0, 1, -3, 7 }) { res("full", c(k), alg()->fullnm(n, m, k), in); res("fullv", cv(k), alg()->fullnv(n, k), in); }
		res("zerovec", cv(0), alg()->zerovecnv(n), in); res("onevec", cv(1), alg()->onevecnv(n), in);
		if (n == m) { Exp e = c(0); for (int i = 0; i < n; i++) e.v[i * n + i] = 1; res("identity", e, alg()->identitym(n), in); }
		RM g = alg()->gaussian_noise(n, m); mc::ok(g.is_valid() && g->size() == Size2i(m, n), "gaussian_noise:shape", "noise of %dx%d has shape %s", n, m, dump(g).s().c_str());
	}
	for (const Val &A : VS) {
		MC_CASE("vector %s, unary functions and reductions", A.s().c_str()) {
			for (auto &u : us) { mc::step(u.n); RV a = mkv(A.v); res(u.n, map1(A, u.f), u.v(a), A.s()); keep(u.n, A, a); }
			for (int n : { 0, 1, 3 }) for (float s : { 2.f, -0.5f }) {
				std::vector<float> d(n, 9);
				{ RV a = mkv(A.v), o = mkv(d); alg()->scalar_multiplyv(s, a, o); res("scalar_multiplyv", map1(A, [s](double x) { return x * s; }), o, A.s()); keep("scalar_multiplyv", A, a); }
				{ RV a = mkv(A.v), o = mkv(d); alg()->scalar_addv(s, a, o); res("scalar_addv", map1(A, [s](double x) { return x + s; }), o, A.s()); keep("scalar_addv", A, a); }
			}
			{ RV a = mkv(A.v); alg()->scalar_multiplyv(3, a, a); res("scalar_multiplyv:self", map1(A, [](double x) { return x * 3; }), a, A.s()); }
			{ RV a = mkv(A.v); alg()->scalar_addv(3, a, a); res("scalar_addv:self", map1(A, [](double x) { return x + 3; }), a, A.s()); }
			RV a = mkv(A.v);
			double s = 0, q = 0, mx = -INFINITY, mn = INFINITY; for (float x : A.v) { s += x; q += (double)x * x; mx = std::fmax(mx, x); mn = std::fmin(mn, x); }
			num("sum_elements", s, alg()->sum_elementsv(a), A.s()); num("norm_sq", q, alg()->norm_sqv(a), A.s()); num("max", mx, alg()->maxvr(a), A.s()); num("min", mn, alg()->minvr(a), A.s());
			int n = A.d[0]; Exp e; e.d = { n, n }; e.v.assign(n * n, 0); for (int i = 0; i < n; i++) e.v[i * n + i] = A.v[i];
			res("diag", e, alg()->diagnm(a), A.s()); keep("reductions", A, a);
		}
		MC_CASE("vector %s against every vector", A.s().c_str()) {
			for (const Val &B : VS) {
				mc::step(B.s());
				std::string in = A.s() + " " + B.s();
				RV a = mkv(A.v), b = mkv(B.v);
				if (A.d == B.d) {
					for (auto &o : bs) {
						Exp e = map2(A, B, o.f);
						res(o.n, e, o.v(a, b), in);
						if (o.o) {
							for (int n : { 0, 1, 3 }) { RV out = mkv(std::vector<float>(n, 9)); o.o(a, b, out); res(o.n, e, out, in); }
							keep(o.n, A, a); keep(o.n, B, b);
							{ RV x = mkv(A.v); o.o(x, b, x); res(o.n, e, x, in); }
							{ RV x = mkv(B.v); o.o(a, x, x); res(o.n, e, x, in); }
						}
					}
					double d = 0, dist = 0, aa = 0; for (size_t i = 0; i < A.v.size(); i++) { d += (double)A.v[i] * B.v[i]; dist += ((double)A.v[i] - B.v[i]) * ((double)A.v[i] - B.v[i]); aa += (double)A.v[i] * A.v[i]; }
					num("dot", d, alg()->dotnv(a, b), in, 2e-5, 1e-4); num("euclidean", std::sqrt(dist), alg()->euclidean_distance(a, b), in); num("euclidean_sq", dist, alg()->euclidean_distance_squared(a, b), in);
					if (aa > 0) res("projection", map1(A, [&](double x) { return x * d / aa; }), alg()->vector_projection(a, b), in);
				} else {
					for (auto &o : bs) { none(o.n, o.v(a, b), in); if (o.o) { RV out = mkv({ 9, 8 }); o.o(a, b, out); keep(o.n, Val{ { 2 }, { 9, 8 } }, out); } }
					num("dot", 0, alg()->dotnv(a, b), in); num("euclidean", 0, alg()->euclidean_distance(a, b), in); num("euclidean_sq", 0, alg()->euclidean_distance_squared(a, b), in); none("projection", alg()->vector_projection(a, b), in);
				}
				if (A.d[0] && B.d[0]) { Exp e; e.d = { A.d[0], B.d[0] }; for (float x : A.v) for (float y : B.v) e.v.push_back((double)x * y); res("outer", e, alg()->outer_product(a, b), in); }
				keep("binary", A, a); keep("binary", B, b);
				Exp fl; fl.d = { A.d[0] * 2 + B.d[0] }; for (const Val *p : { &A, &B, &A }) fl.v.insert(fl.v.end(), p->v.begin(), p->v.end());
				Vector<RV> three; three.push_back(a); three.push_back(b); three.push_back(a); res("flattenmnv", fl, alg()->flattenmnv(three), in);
			}
		}
	}
	for (const Val &A : MS) {
		MC_CASE("matrix %s, unary functions", A.s().c_str()) {
			RM a = mkm(A.d[0], A.d[1], A.v);
			for (auto &u : us) { mc::step(u.n); res(u.n, map1(A, u.f), u.m(a), A.s()); keep(u.n, A, a); }
			if (prod(A.d)) res("transpose", ex(trv(A)), alg()->transposenm(a), A.s());
			{ Exp e; e.d = { prod(A.d) }; e.v.assign(A.v.begin(), A.v.end()); res("flatten", e, alg()->flattenvvnv(a), A.s()); }
			if (prod(A.d)) res("gram", mul(trv(A), A), alg()->gram_matrix(a), A.s());
			if (A.d[1] >= 2) { // covariance of rows
				int n = A.d[0], m = A.d[1]; Exp e; e.d = { n, n };
				for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double mi = 0, mj = 0, s = 0; for (int k = 0; k < m; k++) { mi += A.v[i * m + k]; mj += A.v[j * m + k]; } mi /= m; mj /= m; for (int k = 0; k < m; k++) s += (A.v[i * m + k] - mi) * (A.v[j * m + k] - mj); e.v.push_back(s / (m - 1)); }
				res("cov", e, alg()->covnm(a), A.s()); res("matrix.cov", e, a->cov(), A.s());
				for (int q = 0; q < 3; q++) { RM o = q == 0 ? mkm(0, 0, {}) : q == 1 ? mkm(2, 3, { 1, 2, 3, 4, 5, 6 }) : mkm(A.d[0], A.d[1], A.v); if (q == 2) o->covo(o); else a->covo(o); res("matrix.covo", e, o, A.s()); }
			}
			keep("unary", A, a);
			for (const Val &V : VS) {
				mc::step(V.s());
				if (V.d[0] > 3 && V.d[0] != A.d[1]) continue;
				std::string in = A.s() + " " + V.s();
				RV v = mkv(V.v);
				if (V.d[0] == A.d[1] && prod(A.d)) {
					Val c = V; c.d = { V.d[0], 1 }; Exp e = mul(A, c); e.d = { A.d[0] };
					res("mat_vec_mult", e, alg()->mat_vec_multnv(a, v), in);
					Exp s; s.d = A.d; for (int i = 0; i < prod(A.d); i++) s.v.push_back((double)A.v[i] + V.v[i % A.d[1]]);
					res("mat_vec_add", s, alg()->mat_vec_addnm(a, v), in);
					Exp r; r.d = V.d; for (int j = 0; j < A.d[1]; j++) { double x = V.v[j]; for (int i = 0; i < A.d[0]; i++) x -= A.v[i * A.d[1] + j]; r.v.push_back(x); }
					res("subtract_matrix_rows", r, alg()->subtract_matrix_rowsnv(v, a), in);
				} else if (prod(A.d)) {
					if (V.d[0] > A.d[1]) none("mat_vec_mult", alg()->mat_vec_multnv(a, v), in);
					none("mat_vec_add", alg()->mat_vec_addnm(a, v), in);
					none("subtract_matrix_rows", alg()->subtract_matrix_rowsnv(v, a), in);
				}
				keep("mat-vec", A, a); keep("mat-vec", V, v);
			}
		}
		MC_CASE("matrix %s against every matrix", A.s().c_str()) {
			for (const Val &B : MS) {
				mc::step(B.s());
				if (prod(A.d) == 0 && prod(B.d) == 0) continue;
				std::string in = A.s() + " " + B.s();
				RM a = mkm(A.d[0], A.d[1], A.v), b = mkm(B.d[0], B.d[1], B.v);
				Vector<RM> TA, TB, one; TA.push_back(a); TA.push_back(b); TB.push_back(b); TB.push_back(a); one.push_back(a);
				for (auto &o : bs) if (A.d == B.d) res(o.n, map2(A, B, o.f), o.m(a, b), in); else none(o.n, o.m(a, b), in);
				if (A.d[1] == B.d[0]) res("matmult", mul(A, B), alg()->matmultnm(a, b), in); else none("matmult", alg()->matmultnm(a, b), in);
				if (prod(A.d) && prod(B.d) && prod(A.d) * prod(B.d) <= 160) {
					Exp e; e.d = { A.d[0] * B.d[0], A.d[1] * B.d[1] };
					for (int i = 0; i < e.d[0]; i++) for (int j = 0; j < e.d[1]; j++) e.v.push_back((double)A.v[i / B.d[0] * A.d[1] + j / B.d[1]] * B.v[i % B.d[0] * B.d[1] + j % B.d[1]]);
					res("kronecker", e, alg()->kronecker_productnm(a, b), in);
				}
				auto list = [&](const char *n, const Vector<RM> &r, const Exp &x, const Exp &y) { mc::ok(r.size() == 2, std::string(n) + ":size", "%s gives %d matrices", n, r.size()); if (r.size() == 2) { res(n, x, r[0], in); res(n, y, r[1], in); } };
				auto f1 = [&](std::function<double(double)> f, int k) { return map1(k ? B : A, f); };
				if (A.d == B.d) {
					auto add = [](double x, double y) { return x + y; }; auto dv = [](double x, double y) { return x / y; }; auto mx = [](double x, double y) { return std::fmax(x, y); };
					list("additionnvt", alg()->additionnvt(TA, TB), map2(A, B, add), map2(B, A, add));
					list("division_element_wisenvnvt", alg()->division_element_wisenvnvt(TA, TB), map2(A, B, dv), map2(B, A, dv));
					list("maxnvt", alg()->maxnvt(TA, TB), map2(A, B, mx), map2(B, A, mx));
					Vector<RM> C; C.push_back(mkm(A.d[0], A.d[1], A.v)); C.push_back(mkm(B.d[0], B.d[1], B.v)); alg()->division_element_wisevt(C, TB); list("division_element_wisevt", C, map2(A, B, dv), map2(B, A, dv));
				}
				auto sq = [](double x) { return std::sqrt(x); }; auto p2 = [](double x) { return x * x; }; auto ab = [](double x) { return std::fabs(x); }; auto m3 = [](double x) { return 3 * x; }; auto a3 = [](double x) { return 3 + x; };
				list("sqrtnvt", alg()->sqrtnvt(TA), f1(sq, 0), f1(sq, 1)); list("exponentiatenvt", alg()->exponentiatenvt(TA, 2), f1(p2, 0), f1(p2, 1)); list("absnvt", alg()->absnvt(TA), f1(ab, 0), f1(ab, 1));
				list("scalar_multiplynvt", alg()->scalar_multiplynvt(3, TA), f1(m3, 0), f1(m3, 1)); list("scalar_addnvt", alg()->scalar_addnvt(3, TA), f1(a3, 0), f1(a3, 1));
				Vector<RM> rs = alg()->resizencvt(TA), rt = one; alg()->resizevt(rt, TA);
				mc::ok(rs.size() == 2 && rs[0]->size() == a->size() && rs[1]->size() == b->size() && rt.size() == 2 && rt[0]->size() == a->size() && rt[1]->size() == b->size() && rt[0] != a, "resizevt", "resized lists differ in shape");
				mc::ok(alg()->additionnvt(TA, one).size() == 0 && alg()->maxnvt(TA, one).size() == 0 && alg()->division_element_wisenvnvt(TA, one).size() == 0, "lists:refuse", "lists of different lengths are not refused"); alg()->division_element_wisevt(TA, one);
				keep("binary", A, a); keep("binary", B, b);
			}
		}
	}
}
