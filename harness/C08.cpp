// MC: variant=asan
// C08: structured matrices and predicates.
#include "lin.h"
#include "core/lin_alg.h"
typedef Ref<MLPPMatrix> RM;
typedef Ref<MLPPVector> RV;

void explore() {
	MLPPLinAlg alg;
	for (int n = 0; n <= 6; n++) for (int m = 0; m <= 6; m++) if ((n == 0) == (m == 0)) MC_CASE("structured matrices of %d rows and %d columns", n, m) {
		auto eq = [&](const char *k, RM r, const DM &e) { mc::transition(); DM d = dmr(r); mc::state(k + ds(d)); mc::ok(dist(e, d) == 0, k, "%s(%d,%d): expected %s, got %s", k, n, m, ds(e).c_str(), ds(d).c_str()); };
		Val P = patterns({ n, m })[1];
		RM a = mkm(n, m, P.v);
		eq("mat:matn_zero", a->matn_zero(n, m), dm(n, m, 0)); eq("mat:matn_one", a->matn_one(n, m), dm(n, m, 1)); eq("mat:matn_full", a->matn_full(n, m, 7), dm(n, m, 7)); eq("mat:matn_full", a->matn_full(n, m, -3), dm(n, m, -3));
		eq("alg:zeromatnm", alg.zeromatnm(n, m), dm(n, m, 0)); eq("alg:onematnm", alg.onematnm(n, m), dm(n, m, 1)); eq("alg:fullnm", alg.fullnm(n, m, 7), dm(n, m, 7));
		mc::ok(same(P, dump(a)), "mat:structured:operand", "changed its object");
		DM id = dm(n, m); for (int i = 0; i < std::min(n, m); i++) id[i][i] = 1;
		eq("mat:identityn", a->identityn(), id); mc::ok(same(P, dump(a)), "mat:identityn:operand", "changed its object");
		if (n == m) { eq("mat:identity_mat", a->identity_mat(n), id); eq("mat:create_identity_mat", MLPPMatrix::create_identity_mat(n), id); eq("alg:identitym", alg.identitym(n), id); mc::ok(same(P, dump(a)), "mat:identity_mat:operand", "changed its object"); }
		a->identity(); eq("mat:identity", a, id);
		for (const Val &V : patterns({ n })) { DM d = dm(n, n); for (int i = 0; i < n; i++) d[i][i] = V.v[i]; RV v = mkv(V.v); eq("alg:diagnm", alg.diagnm(v), d); eq("vec:diagnm", v->diagnm(), d); mc::ok(same(V, dump(v)), "diagnm:operand", "changed its vector"); }
		RM g = a->gaussian_noise(n, m); mc::ok(g->size() == Size2i(m, n), "mat:gaussian_noise", "shape");
		g = MLPPMatrix::create_gaussian_noise(n, m); mc::ok(g->size() == Size2i(m, n), "mat:create_gaussian_noise", "shape");
		g = alg.gaussian_noise(n, m); mc::ok(g->size() == Size2i(m, n), "alg:gaussian_noise", "shape");
	}
	for (int t = -72; t <= 72; t++) for (int axis = -1; axis < 3; axis++) {
		double th = t * M_PI / 36 + (t % 5) * 0.01;
		MC_CASE("rotation by %g about axis %d", th, axis) {
			RM o = mkm(1, 1, { 3 });
			RM r = o->create_rotation_matrix(th, axis);
			DM e = eye(axis == -1 ? 2 : 3), d = dmr(r);
			int p = axis == -1 ? 0 : (axis + 1) % 3, q = axis == -1 ? 1 : (axis + 2) % 3;
			e[p][p] = e[q][q] = std::cos(th); e[p][q] = -std::sin(th); e[q][p] = std::sin(th);
			mc::transition();
			mc::state(ds(d));
			mc::ok(dist(e, d) < 1e-5, mc::fmt("rotation:axis%d", axis), "expected %s, got %s", ds(e).c_str(), ds(d).c_str());
			mc::ok(dist(mul(d, tr(d)), eye(d.size())) < 1e-5 && std::fabs(ddet(d) - 1) < 1e-5, mc::fmt("rotation:orthogonal:axis%d", axis), "%s is not a rotation", ds(d).c_str());
			mc::ok(same(Val{ { 1, 1 }, { 3 } }, dump(o)), "rotation:operand", "changed its object");
			int n = d.size();
			for (int h = 1; h <= 3; h++) for (const Val &A : patterns({ h, n })) {
				DM x = mul(dm(A), e);
				auto near = [&](const char *k, RM g) { mc::transition(); mc::ok(dist(x, dmr(g)) < 1e-4, k, "%s of %s: expected %s, got %s", k, A.s().c_str(), ds(x).c_str(), ds(dmr(g)).c_str()); };
				{ RM a = mkm(h, n, A.v); a->rotate(th, axis); near("rotate:inplace", a); }
				{ RM a = mkm(h, n, A.v); near("rotate:n", a->rotaten(th, axis)); mc::ok(same(A, dump(a)), "rotate:n:operand", "changed"); }
				{ RM a = mkm(h, n, A.v); RM c = mkm(2, 2, { 1, 2, 3, 4 }); c->rotateb(a, th, axis); near("rotate:b", c); mc::ok(same(A, dump(a)), "rotate:b:operand", "changed"); }
				{ RM a = mkm(h, n, A.v); a->rotateb(a, th, axis); near("rotate:b:dest=a", a); }
			}
		}
	}
	// predicates on every small symmetric matrix (definiteness by leading minors / exact characteristic conditions)
	auto pred = [&](int n, const std::vector<float> &vals) {
		tuples(vals, n * (n + 1) / 2, [&](const std::vector<float> &t) {
			Val A; A.d = { n, n }; A.v.resize(n * n); int k = 0;
			for (int i = 0; i < n; i++) for (int j = i; j < n; j++) A.v[i * n + j] = A.v[j * n + i] = t[k++];
			if (!mc::next("predicates of " + A.s())) return;
			DM a = dm(A);
			bool pd = true, nd = true;
			for (int m = 1; m <= n; m++) { DM s = dm(m, m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) s[i][j] = a[i][j]; double x = ddet(s); pd &= x > 0; nd &= m % 2 ? x < 0 : x > 0; }
			RM m = mkm(n, n, A.v);
			mc::transition(4);
			// a definite matrix with an eigenvalue within rounding error of 0 does not occur among small integers
			mc::ok(alg.positive_definite_checker(m) == pd || (!pd && std::fabs(ddet(a)) < 1e-9), "positive_definite", "%s: positive definite is %d", A.s().c_str(), pd);
			mc::ok(alg.negative_definite_checker(m) == nd || (!nd && std::fabs(ddet(a)) < 1e-9), "negative_definite", "%s: negative definite is %d", A.s().c_str(), nd);
			mc::ok(alg.zero_eigenvalue(m) == (std::fabs(ddet(a)) < 1e-9), "zero_eigenvalue", "%s has determinant %g, zero_eigenvalue says %d", A.s().c_str(), ddet(a), alg.zero_eigenvalue(m));
			mc::ok(same(A, dump(m)), "predicate:operand", "a predicate changed its matrix");
		});
	};
	pred(1, { -2, -1, 0, 1, 3 }); pred(2, { -2, -1, 0, 1, 2, 3 }); pred(3, mc::thorough() ? std::vector<float>{ -2, -1, 0, 1, 2 } : std::vector<float>{ -1, 0, 1, 2 });
	// independence of columns; Gram matrix
	auto ind = [&](int h, int w, const std::vector<float> &vals) {
		tuples(vals, h * w, [&](const std::vector<float> &t) {
			Val A{ { h, w }, t };
			if (!mc::next("columns of " + A.s())) return;
			DM g = mul(tr(dm(A)), dm(A));
			RM m = mkm(h, w, t);
			mc::transition(2);
			mc::ok(dist(g, dmr(alg.gram_matrix(m))) < 1e-5, "gram_matrix", "Gram matrix of %s is %s", A.s().c_str(), ds(dmr(alg.gram_matrix(m))).c_str());
			mc::ok(alg.linear_independence_checker(m) == (std::fabs(ddet(g)) > 1e-9), "linear_independence", "%s: Gram determinant %g, checker says %d", A.s().c_str(), ddet(g), alg.linear_independence_checker(m));
			mc::ok(same(A, dump(m)), "independence:operand", "changed its matrix");
		});
	};
	ind(1, 1, { -1, 0, 2 }); ind(2, 1, { -1, 0, 2 }); ind(2, 2, { -1, 0, 1, 2 }); ind(3, 2, { -1, 0, 1 }); ind(3, 3, { 0, 1 }); ind(1, 2, { 0, 1, 2 }); ind(2, 3, { 0, 1 });
}
