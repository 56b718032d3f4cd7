// MC: variant=asan
// C28: principal components. Rows are variables, columns are samples. Every small data set against a double-precision Jacobi decomposition of its covariance.
#include "lin.h"
#include "modules/pca/pca.h"
typedef std::vector<float> F;
static void jacobi(DM A, std::vector<double> &l, DM &U) {
	int n = A.size(); U = eye(n); for (int sweep = 0; sweep < 60; sweep++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (std::fabs(A[p][q]) < 1e-300) continue; double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c; DM R = eye(n); R[p][p] = R[q][q] = c; R[p][q] = s; R[q][p] = -s; A = mul(tr(R), mul(A, R)); U = mul(U, R); }
	std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return A[a][a] > A[b][b]; }); DM V = U; l.clear(); for (int i = 0; i < n; i++) { l.push_back(A[o[i]][o[i]]); for (int r = 0; r < n; r++) V[r][i] = U[r][o[i]]; } U = V;
}
static void run(int h, int w, const F &v) {
	Ref<MLPPMatrix> m = mkm(h, w, v); Val f = dump(m); DM X = dm(f); for (auto &r : X) { double s = 0; for (double x : r) s += x; for (double &x : r) x -= s / w; }
	DM C = mul(X, tr(X)); for (auto &r : C) for (double &x : r) x /= w - 1; std::vector<double> l; DM U; jacobi(C, l, U); double tot = 0; for (double x : l) tot += x; if (!(tot > 1e-6)) return; std::string in = "data " + f.s(); mc::state(in); double big = l[0];
	MLPPPCA used; used.set_input_set(m); for (int k = 1; k <= h; k++) {
		MLPPPCA fresh(m, k); used.set_k(k); for (int way = 0; way < 2; way++) { MLPPPCA &p = way ? used : fresh; DM Z = dmr(p.principal_components()); double sc = p.score(); mc::transition();
			if (!mc::ok((int)Z.size() == k && (int)Z[0].size() == w, "size", "%s, k %d: projection %s", in.c_str(), k, ds(Z).c_str())) continue;
			DM G = mul(Z, tr(Z)), E = dm(k, k); double top = 0; for (int i = 0; i < k; i++) { E[i][i] = l[i] * (w - 1); top += l[i]; } mc::outcome(mc::fmt("%d %.2f", k, top / tot));
			mc::ok(dist(G, E) < 2e-3 * big * w, "variance", "%s, k %d: projected scatter %s, expected %s", in.c_str(), k, ds(G).c_str(), ds(E).c_str());
			mc::ok(mc::close(sc, top / tot, 1e-3, 1e-3), "score", "%s, k %d: score %g, expected %g", in.c_str(), k, sc, top / tot);
			for (int i = 0; i < k; i++) { bool clear = true; for (int j = 0; j < h; j++) if (j != i && std::fabs(l[i] * l[i] - l[j] * l[j]) < 0.02 * big * big) clear = false; if (!clear) continue; double a = 0, b = 0; for (int c = 0; c < w; c++) { double z = 0; for (int r = 0; r < h; r++) z += U[r][i] * X[r][c]; a = std::max(a, std::fabs(z - Z[i][c])); b = std::max(b, std::fabs(z + Z[i][c])); } mc::ok(std::min(a, b) < 5e-3 * std::sqrt(big * w), "direction", "%s, k %d: component %d of %s is not the projection on the leading direction", in.c_str(), k, i, ds(Z).c_str()); }
			if (k == h) mc::ok(dist(mul(tr(Z), Z), mul(tr(X), X)) < 2e-3 * big * w, "rotation", "%s: all components do not preserve distances: %s", in.c_str(), ds(Z).c_str()); } }
	mc::ok(same(f, dump(m)), "input-changed", "%s became %s", in.c_str(), dump(m).s().c_str());
}
void explore() {
	bool T = mc::thorough(); F g = { -1, 0, 0.5f, 3 };
	for (int w = 2; w <= (T ? 5 : 4); w++) tuples(g, w, [&](const F &v) { MC_CASE("one variable %s", (Val{ { 1, w }, v }).s().c_str()) run(1, w, v); });
	for (int w = 2; w <= 3; w++) tuples(g, w, [&](const F &a) { MC_CASE("two variables, first %s", (Val{ { 1, w }, a }).s().c_str()) tuples(g, w, [&](const F &b) { F v = a; v.insert(v.end(), b.begin(), b.end()); run(2, w, v); }); });
	for (int w = 2; w <= 3; w++) tuples(F{ 0, 1, 3 }, w, [&](const F &a) { MC_CASE("three variables, first %s", (Val{ { 1, w }, a }).s().c_str()) tuples(F{ -1, 0, 2 }, 2 * w, [&](const F &b) { F v = a; v.insert(v.end(), b.begin(), b.end()); run(3, w, v); }); });
	for (int h = 1; h <= 6; h++) for (int w = 2; w <= 12; w++) MC_CASE("%d variables of %d samples", h, w) for (int s = 0; s < (T ? 60 : 12); s++) { F v; for (int i = 0; i < h * w; i++) v.push_back((i * i * (s + 1) + i * 5 + s * (i / w)) % 17 - 6 + (i / w) * 2 * ((i % w) % 3)); run(h, w, v); }
	MC_CASE("score before the projection was asked for") mc::ok(mc::survives([] { MLPPPCA p(mkm(2, 3, { 1, 2, 4, -1, 0, 5 }), 1); float s = p.score(); if (!(s > 0.5 && s <= 1.001)) abort(); }), "score:first", "score() before principal_components() crashes or is meaningless");
}
