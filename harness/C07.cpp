// MC: variant=asan
// C07: determinant, cofactors, adjoint, inverse, pseudo-inverse and solving, matrix object and facade.
#include "lin.h"
#include "core/lin_alg.h"
typedef Ref<MLPPMatrix> RM;
typedef Ref<MLPPVector> RV;

static void one(const Val &A) {
	MLPPLinAlg alg;
	int n = A.d[0];
	DM a = dm(A);
	double det = ddet(a), sc = std::max(1.0, maxabs(a)), scn = std::pow(sc, n);
	std::string in = A.s();
	RM m = mkm(n, n, A.v);
	auto unch = [&](const char *k) { mc::transition(); mc::ok(same(A, dump(m)), std::string(k) + ":operand", "%s changed its matrix", k); };
	auto near = [&](const char *k, const DM &e, RM r, double tol) { DM d = dmr(r); mc::state(mc::fmt("%s", ds(d).c_str())); mc::ok(dist(e, d) <= tol, k, "%s of %s: expected %s, got %s", k, in.c_str(), ds(e).c_str(), ds(d).c_str()); };
	mc::ok(std::fabs(m->det() - det) <= 1e-4 * scn, "mat:det", "det of %s is %g, expected %g", in.c_str(), m->det(), det); unch("mat:det");
	mc::ok(std::fabs(m->det(n) - det) <= 1e-4 * scn, "mat:det(n)", "det(%d) of %s is %g, expected %g", n, in.c_str(), m->det(n), det);
	{ RM o = mkm(1, 1, { 5 }); mc::ok(std::fabs(o->detb(m, n) - det) <= 1e-4 * scn, "mat:detb", "detb of %s is %g, expected %g", in.c_str(), o->detb(m, n), det); unch("mat:detb"); }
	mc::ok(std::fabs(alg.detm(m, n) - det) <= 1e-4 * scn, "alg:detm", "detm of %s is %g, expected %g", in.c_str(), alg.detm(m, n), det); unch("alg:detm");
	if (n >= 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		DM e; for (int r = 0; r < n; r++) if (r != i) { e.push_back({}); for (int c = 0; c < n; c++) if (c != j) e.back().push_back(a[r][c]); }
		auto lead = [&](RM r) { DM d = dmr(r); if ((int)d.size() < n - 1) return DM(); d.resize(n - 1); for (auto &x : d) x.resize(n - 1); return d; };
		mc::ok(dist(e, lead(m->cofactor(n, i, j))) == 0, "mat:cofactor", "cofactor(%d,%d) of %s", i, j, in.c_str());
		for (int k : { 1, 3 }) { RM o = mkm(k, 1, std::vector<float>(k, 9)); m->cofactoro(n, i, j, o); mc::ok(dist(e, lead(o)) == 0, "mat:cofactoro", "cofactoro(%d,%d) of %s", i, j, in.c_str()); }
		mc::ok(dist(e, lead(alg.cofactornm(m, n, i, j))) == 0, "alg:cofactornm", "cofactornm(%d,%d) of %s", i, j, in.c_str());
		unch("cofactor");
	}
	// adjoint: the transposed matrix of signed minors
	DM adj = dm(n, n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { DM e; for (int r = 0; r < n; r++) if (r != i) { e.push_back({}); for (int c = 0; c < n; c++) if (c != j) e.back().push_back(a[r][c]); } adj[j][i] = (n == 1 ? 1 : ddet(e)) * ((i + j) % 2 ? -1 : 1); }
	near("mat:adjoint", adj, m->adjoint(), 1e-4 * scn); unch("mat:adjoint");
	near("alg:adjointnm", adj, alg.adjointnm(m), 1e-4 * scn); unch("alg:adjointnm");
	for (int k : { 1, 2, 3 }) { RM o = mkm(k, 2, std::vector<float>(2 * k, 9)); m->adjointo(o); near("mat:adjointo", adj, o, 1e-4 * scn); unch("mat:adjointo"); }
	{ RM o = mkm(n, n, A.v); o->adjointo(o); near("mat:adjointo:self", adj, o, 1e-4 * scn); }
	if (std::fabs(det) > 1e-3) {
		DM inv = adj; for (auto &r : inv) for (double &x : r) x /= det;
		double tol = 1e-4 * scn / std::fabs(det) * std::max(1.0, maxabs(inv));
		near("mat:inverse", inv, m->inverse(), tol); unch("mat:inverse");
		near("alg:inversenm", inv, alg.inversenm(m), tol); unch("alg:inversenm");
		for (int k : { 1, 2, 3 }) { RM o = mkm(k, 2, std::vector<float>(2 * k, 9)); m->inverseo(o); near("mat:inverseo", inv, o, tol); unch("mat:inverseo"); }
		{ RM o = mkm(n, n, A.v); o->inverseo(o); near("mat:inverseo:self", inv, o, tol); }
		for (int p = 0; p < 3; p++) {
			Val b; b.d = { n }; for (int i = 0; i < n; i++) b.v.push_back(p == 0 ? 1 : p == 1 ? i - 1.f : (i * 2 % 3) - 0.5f);
			DM e = dm(n, 1); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) e[i][0] += inv[i][k] * b.v[k];
			RV v = mkv(b.v);
			auto chk = [&](const char *k, RV r) { DM d; if (r.is_valid()) for (int i = 0; i < r->size(); i++) d.push_back({ r->element_get(i) }); mc::ok(dist(e, d) <= 4 * tol, k, "%s of %s with %s: expected %s, got %s", k, in.c_str(), b.s().c_str(), ds(e).c_str(), ds(d).c_str()); mc::ok(same(b, dump(v)), std::string(k) + ":b", "%s changed its right side", k); unch(k); };
			chk("mat:solve", m->solve(v)); chk("alg:solve", alg.solve(m, v));
		}
		DM ip = eye(n); // negative powers are powers of the inverse
		for (int k = 1; k <= 3; k++) { ip = mul(ip, inv); near("mat:negative_power", ip, m->matrix_powern(-k), 10 * k * tol * std::max(1.0, maxabs(ip))); unch("mat:negative_power"); }
	}
}

void explore() {
	std::vector<float> e1 = { -3, -1, 0.5f, 2, 0, 10 }, e2 = { -2, -1, 0, 1, 3 }, e3 = mc::thorough() ? std::vector<float>{ -1, 0, 1, 2 } : std::vector<float>{ -1, 0, 2 };
	tuples(e1, 1, [&](const std::vector<float> &t) { Val A{ { 1, 1 }, t }; MC_CASE("1x1 %s", A.s().c_str()) one(A); });
	tuples(e2, 4, [&](const std::vector<float> &t) { Val A{ { 2, 2 }, t }; MC_CASE("2x2 %s", A.s().c_str()) one(A); });
	tuples(e3, 6, [&](const std::vector<float> &t) { MC_CASE("3x3, two rows %g %g %g %g %g %g, every third row", t[0], t[1], t[2], t[3], t[4], t[5]) tuples(e3, 3, [&](const std::vector<float> &u) { Val A{ { 3, 3 }, t }; A.v.insert(A.v.end(), u.begin(), u.end()); mc::step(A.s()); one(A); }); });
	// 4x4 and 5x5: every permutation matrix with every sign pattern of a small set, plus dense patterns
	for (int n = 4; n <= 5; n++) {
		std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
		do for (int s = 0; s < 4; s++) {
			Val A{ { n, n }, std::vector<float>(n * n, s == 3 ? 1 : 0) };
			for (int i = 0; i < n; i++) A.v[i * n + p[i]] += (s & 1 && i % 2 ? -2 : 1) + (s == 2 ? i : 0);
			MC_CASE("%dx%d %s", n, n, A.s().c_str()) one(A);
		} while (std::next_permutation(p.begin(), p.end()));
	}
	// pseudo-inverse: (A^T A)^-1 A^T for every tall matrix with independent columns
	auto pin = [&](int h, int w, const std::vector<float> &vals) {
		tuples(vals, h * w, [&](const std::vector<float> &t) {
			Val A{ { h, w }, t };
			DM a = dm(A), g = mul(tr(a), a);
			if (std::fabs(ddet(g)) < 0.5) return;
			if (!mc::next("pseudo-inverse of " + A.s())) return;
			MLPPLinAlg alg;
			RM m = mkm(h, w, t);
			auto chk = [&](const char *k, RM r) {
				mc::transition();
				DM d = dmr(r);
				bool shape = (int)d.size() == w && (int)d[0].size() == h;
				mc::ok(shape && dist(mul(d, a), eye(w)) < 2e-3, k, "%s of %s is %s: times the matrix it is not the identity", k, A.s().c_str(), ds(d).c_str());
				DM pr = shape ? mul(a, d) : DM();
				mc::ok(shape && dist(pr, tr(pr)) < 2e-3, std::string(k) + ":symmetric", "%s of %s is %s: A A+ is not symmetric", k, A.s().c_str(), ds(d).c_str());
				mc::ok(same(A, dump(m)), std::string(k) + ":operand", "%s changed its matrix", k); };
			chk("mat:pinverse", m->pinverse());
			chk("alg:pinversenm", alg.pinversenm(m));
			for (int k : { 1, 3 }) { RM o = mkm(k, 1, std::vector<float>(k, 9)); m->pinverseo(o); chk("mat:pinverseo", o); }
			{ RM o = mkm(h, w, t); o->pinverseo(o); chk("mat:pinverseo:self", o); }
		});
	};
	pin(1, 1, { -2, 0.5f, 3 }); pin(2, 1, { -2, 0, 1, 3 }); pin(2, 2, { -1, 0, 2 }); pin(3, 1, { -1, 0, 2 }); pin(3, 2, { -1, 0, 1 }); pin(4, 2, mc::thorough() ? std::vector<float>{ -1, 0, 1 } : std::vector<float>{ 0, 1 }); if (mc::thorough()) pin(3, 3, { -1, 0, 1 });
	// refused operands
	for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) if (h != w) MC_CASE("refused: %dx%d", h, w) {
		MLPPLinAlg alg;
		Val A = patterns({ h, w })[0]; RM m = mkm(h, w, A.v); RM o = mkm(1, 1, { 5 }); RV b = mkv({ 1, 2 });
		bool good = mc::survives([&]() { if (m->inverse().is_valid() || alg.inversenm(m).is_valid() || m->adjoint().is_valid() || alg.adjointnm(m).is_valid() || m->solve(b).is_valid() || alg.solve(m, b).is_valid()) _exit(1); m->inverseo(o); m->adjointo(o); if (o->element_get(0, 0) != 5 || o->data_size() != 1) _exit(1); });
		mc::ok(good, "mat:notsquare", "a %dx%d matrix is not refused", h, w);
		mc::ok(same(A, dump(m)), "mat:notsquare:operand", "changed");
	}
}
