// MC: variant=asan
// C09: decompositions multiply back and have their structure.
#include "lin.h"
#include <functional>
#include "core/lin_alg.h"
typedef Ref<MLPPMatrix> RM;

static bool dec(const DM &d) { for (size_t i = 0; i + 1 < d.size(); i++) if (d[i][i] < d[i + 1][i + 1] - 1e-3) return false; return true; }
static DM get(Array a, int i) { RM m = a[i]; return dmr(m); }

static void sym(const Val &A) {
	MLPPLinAlg alg;
	int n = A.d[0];
	DM a = dm(A);
	double sc = std::max(1e-3, maxabs(a));
	RM m = mkm(n, n, A.v);
	for (int way = 0; way < 5; way++) {
		DM V, D; RM o = mkm(1, 1, { 4 });
		std::string k = way == 0 ? "mat:eigen" : way == 1 ? "mat:eigenb" : way == 2 ? "alg:eigen" : way == 3 ? "mat:eigen_bind" : "mat:eigenb_bind";
		mc::step(A.s() + " " + k);
		if (way == 0) { auto r = m->eigen(); V = dmr(r.eigen_vectors); D = dmr(r.eigen_values); }
		if (way == 1) { auto r = o->eigenb(m); V = dmr(r.eigen_vectors); D = dmr(r.eigen_values); }
		if (way == 2) { auto r = alg.eigen(m); V = dmr(r.eigen_vectors); D = dmr(r.eigen_values); }
		if (way == 3) { Array r = m->eigen_bind(); V = get(r, 1); D = get(r, 0); }
		if (way == 4) { Array r = o->eigenb_bind(m); V = get(r, 1); D = get(r, 0); }
		mc::transition();
		mc::state(k + ds(D));
		std::string in = mc::fmt("%s: values %s vectors %s", A.s().c_str(), ds(D).c_str(), ds(V).c_str());
		bool shape = (int)V.size() == n && (int)D.size() == n && (int)V[0].size() == n && (int)D[0].size() == n;
		if (!mc::ok(shape, k + ":shape", "%s", in.c_str())) continue;
		mc::ok(dist(mul(a, V), mul(V, D)) <= 2e-4 * sc, k + ":equation", "A V differs from V D: %s", in.c_str());
		mc::ok(dist(mul(tr(V), V), eye(n)) <= 2e-4, k + ":orthonormal", "eigenvectors are not orthonormal: %s", in.c_str());
		DM off = D; for (int i = 0; i < n; i++) off[i][i] = 0;
		mc::ok(maxabs(off) == 0 && dec(D), k + ":diagonal", "eigenvalues are not a decreasing diagonal: %s", in.c_str());
		mc::ok(same(A, dump(m)), k + ":operand", "%s changed its matrix", k.c_str());
	}
}
static void svd(const Val &A) {
	MLPPLinAlg alg;
	int h = A.d[0], w = A.d[1];
	DM a = dm(A);
	double sc = std::max(1.0, maxabs(a));
	RM m = mkm(h, w, A.v);
	for (int way = 0; way < 5; way++) {
		DM U, S, V; RM o = mkm(1, 1, { 4 });
		std::string k = way == 0 ? "mat:svd" : way == 1 ? "mat:svdb" : way == 2 ? "alg:svd" : way == 3 ? "mat:svd_bind" : "mat:svdb_bind";
		mc::step(A.s() + " " + k);
		if (way == 0) { auto r = m->svd(); U = dmr(r.U); S = dmr(r.S); V = dmr(r.Vt); }
		if (way == 1) { auto r = o->svdb(m); U = dmr(r.U); S = dmr(r.S); V = dmr(r.Vt); }
		if (way == 2) { auto r = alg.svd(m); U = dmr(r.U); S = dmr(r.S); V = dmr(r.Vt); }
		if (way == 3) { Array r = m->svd_bind(); U = get(r, 0); S = get(r, 1); V = get(r, 2); }
		if (way == 4) { Array r = o->svdb_bind(m); U = get(r, 0); S = get(r, 1); V = get(r, 2); }
		mc::transition();
		mc::state(k + ds(S));
		std::string in = mc::fmt("%s: U %s S %s Vt %s", A.s().c_str(), ds(U).c_str(), ds(S).c_str(), ds(V).c_str());
		bool shape = (int)U.size() == h && (int)S.size() == h && (int)S[0].size() == w && (int)V.size() == w;
		if (!mc::ok(shape, k + ":shape", "%s", in.c_str())) continue;
		mc::ok(dist(mul(mul(U, S), V), a) <= 2e-3 * sc, k + ":product", "U S Vt is %s, not the matrix: %s", ds(mul(mul(U, S), V)).c_str(), in.c_str());
		mc::ok(dist(mul(tr(U), U), eye(h)) <= 2e-3 && dist(mul(V, tr(V)), eye(w)) <= 2e-3, k + ":orthonormal", "singular vectors are not orthonormal: %s", in.c_str());
		bool st = true; double last = 1e30;
		for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { if (i != j) st &= S[i][j] == 0; else { st &= S[i][j] >= 0 && S[i][j] <= last + 1e-3; last = S[i][j]; } }
		mc::ok(st, k + ":sigma", "singular values are not a non-negative decreasing diagonal: %s", in.c_str());
		mc::ok(same(A, dump(m)), k + ":operand", "%s changed its matrix", k.c_str());
	}
}
static void qr(const Val &A) { // independent columns
	MLPPLinAlg alg;
	int h = A.d[0], w = A.d[1];
	DM a = dm(A);
	RM m = mkm(h, w, A.v);
	DM G = dmr(alg.gram_schmidt_process(m));
	auto r = alg.qrd(m);
	DM Q = dmr(r.Q), R = dmr(r.R);
	mc::transition(2);
	mc::state(ds(Q) + ds(R));
	std::string in = mc::fmt("%s: G %s Q %s R %s", A.s().c_str(), ds(G).c_str(), ds(Q).c_str(), ds(R).c_str());
	bool shape = (int)G.size() == h && (int)Q.size() == h && (int)R.size() == w && (int)R[0].size() == w && (int)Q[0].size() == w && (int)G[0].size() == w;
	if (!mc::ok(shape, "qr:shape", "%s", in.c_str())) return;
	mc::ok(dist(mul(tr(G), G), eye(w)) < 1e-3, "gram_schmidt:orthonormal", "%s", in.c_str());
	// column j lies in the span of the first j columns, on the positive side
	DM T = mul(tr(G), a); bool tri = true; for (int i = 0; i < w; i++) { tri &= T[i][i] > 0; for (int j = 0; j < i; j++) tri &= std::fabs(T[i][j]) < 1e-3 * std::max(1.0, maxabs(a)); }
	mc::ok(tri, "gram_schmidt:span", "%s", in.c_str());
	mc::ok(dist(mul(tr(Q), Q), eye(w)) < 1e-3, "qrd:orthonormal", "%s", in.c_str());
	bool up = true; for (int i = 0; i < w; i++) for (int j = 0; j < i; j++) up &= std::fabs(R[i][j]) < 1e-3 * std::max(1.0, maxabs(a));
	mc::ok(up, "qrd:triangular", "%s", in.c_str());
	mc::ok(dist(mul(Q, R), a) < 1e-3 * std::max(1.0, maxabs(a)), "qrd:product", "%s", in.c_str());
	mc::ok(same(A, dump(m)), "qr:operand", "changed its matrix");
}
static void chol(const Val &A) { // positive definite
	MLPPLinAlg alg;
	int n = A.d[0];
	RM m = mkm(n, n, A.v);
	auto r = alg.cholesky(m);
	DM L = dmr(r.L), Lt = dmr(r.Lt), a = dm(A);
	mc::transition();
	mc::state(ds(L));
	std::string in = mc::fmt("%s: L %s Lt %s", A.s().c_str(), ds(L).c_str(), ds(Lt).c_str());
	if (!mc::ok((int)L.size() == n && (int)Lt.size() == n, "cholesky:shape", "%s", in.c_str())) return;
	bool low = true; for (int i = 0; i < n; i++) { low &= L[i][i] > 0; for (int j = i + 1; j < n; j++) low &= L[i][j] == 0; }
	mc::ok(low, "cholesky:triangular", "%s", in.c_str());
	mc::ok(dist(Lt, tr(L)) == 0, "cholesky:transpose", "%s", in.c_str());
	mc::ok(dist(mul(L, Lt), a) <= 1e-4 * std::max(1.0, maxabs(a)), "cholesky:product", "%s", in.c_str());
	mc::ok(same(A, dump(m)), "cholesky:operand", "changed its matrix");
}
static bool posdef(const DM &a) { for (size_t m = 1; m <= a.size(); m++) { DM s = dm(m, m); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) s[i][j] = a[i][j]; if (ddet(s) <= 1e-6) return false; } return true; }

void explore() {
	auto syms = [&](int n, const std::vector<float> &vals, float scale) {
		tuples(vals, n * (n + 1) / 2, [&](const std::vector<float> &t) {
			Val A; A.d = { n, n }; A.v.resize(n * n); int k = 0;
			for (int i = 0; i < n; i++) for (int j = i; j < n; j++) A.v[i * n + j] = A.v[j * n + i] = t[k++] * scale;
			MC_CASE("symmetric %s", A.s().c_str()) { sym(A); if (posdef(dm(A))) chol(A); }
		});
	};
	syms(1, { -2, 0, 1, 3 }, 1);
	syms(2, { -2, -1, 0, 1, 3 }, 1); syms(2, { -2, 0, 1, 3 }, 0.1f); syms(2, { -2, 0, 1, 3 }, 50);
	syms(3, mc::thorough() ? std::vector<float>{ -2, -1, 0, 1, 3 } : std::vector<float>{ -1, 0, 2 }, 1); syms(3, { 0, 1, 2 }, 0.125f);
	syms(4, mc::thorough() ? std::vector<float>{ -1, 0, 2 } : std::vector<float>{ 0, 1 }, 1);
	for (int n = 5; n <= 7; n++) for (int p = 0; p < 6; p++) {
		Val A; A.d = { n, n }; A.v.resize(n * n);
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = std::min(i, j), b = std::max(i, j); A.v[i * n + j] = p == 0 ? 1.f / (a + b + 1) : p == 1 ? (a == b ? 2 : b == a + 1 ? -1 : 0) : p == 2 ? 1 : p == 3 ? a + 1 : p == 4 ? (a * 3 + b * b) % 5 - 2 : (a == b); }
		MC_CASE("symmetric %d pattern %d %s", n, p, A.s().c_str()) { sym(A); if (p && posdef(dm(A))) chol(A); }
	}
	auto rect = [&](int h, int w, const std::vector<float> &vals, float scale) {
		tuples(vals, h * w, [&](const std::vector<float> &t) {
			Val A{ { h, w }, t }; for (float &x : A.v) x *= scale;
			MC_CASE("matrix %s", A.s().c_str()) { svd(A); DM a = dm(A); if (ddet(mul(tr(a), a)) > 0.5 * std::pow(scale, 2 * w)) qr(A); }
		});
	};
	for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) {
		std::vector<float> v = h * w <= 4 ? std::vector<float>{ -2, 0, 1, 3 } : h * w <= 6 ? std::vector<float>{ -1, 0, 2 } : mc::thorough() ? std::vector<float>{ -1, 0, 2 } : std::vector<float>{ 0, 1 };
		rect(h, w, v, 1);
	}
	rect(2, 2, { -2, 0, 1, 3 }, 0.125f); rect(4, 2, { 0, 1 }, 1); rect(2, 4, { 0, 1 }, 1); rect(1, 4, { 0, 1, -2 }, 1); rect(4, 1, { 0, 1, -2 }, 1);
	// four columns and more, factored only: all 4x4 of zeros and ones (quick: upper and lower halves apart), and columns that lean on each other
	auto big = [&](int h, int w, const std::function<float(int, int)> &f) { Val A; A.d = { h, w }; A.v.resize(h * w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) A.v[i * w + j] = f(i, j); DM a = dm(A); if (ddet(mul(tr(a), a)) > 0.5) qr(A); };
	for (int c = 0; c < 64; c++) MC_CASE("4x4 zeros and ones, group %d", c) for (int k = 0; k < 1024; k++) { int m = c * 1024 + k; if (!mc::thorough()) { int up = 0, lo = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (m >> (4 * i + j) & 1) { up += j > i; lo += j < i; } if (up && lo > 1) continue; } big(4, 4, [&](int i, int j) { return (float)(m >> (4 * i + j) & 1); }); }
	for (int h = 4; h <= 7; h++) for (int w = 4; w <= h; w++) MC_CASE("%dx%d leaning columns", h, w) for (int p = 0; p < 8; p++) for (float t : { 0.25f, -0.5f, 1.f, 2.f }) big(h, w, [&](int i, int j) { return p == 0 ? (i == j ? 1 : i == 0 ? t : 0) : p == 1 ? (i == j ? 1 : j == w - 1 ? t : 0) : p == 2 ? (i == j) + (i == j - 1) * t : p == 3 ? (i == j ? 2 : t / 2) : p == 4 ? (i == j) + (i == j - 3) * t : p == 5 ? (i == j ? -1 : (i * 2 + j) % 3 == 0 ? t / 4 : 0) : p == 6 ? (i == w - 1 - j) + (i > w - 1 - j ? t / 4 : 0) : (i >= j ? 1 : 0) * (j % 2 ? t : 1); });
	for (Dims d : { Dims{ 4, 3 }, Dims{ 3, 4 }, Dims{ 5, 2 }, Dims{ 2, 6 }, Dims{ 5, 5 } }) for (const Val &A : patterns(d)) MC_CASE("matrix %s", A.s().c_str()) svd(A);
}
