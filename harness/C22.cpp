// MC: variant=asan
// C22: loading, splitting, encoding and scaling data sets. Files live in a scratch directory the harness creates and removes.
#include <algorithm>
#include <unistd.h>
#include "arith.h"
#include "core/data.h"
typedef std::vector<float> F; typedef std::vector<F> FF;
static MLPPData *P; static std::string dir;
static std::string put(const std::string &text) { std::string p = dir + "/t.csv"; FILE *f = fopen(p.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f); return p; }
static void cmp(const char *k, const std::string &in, const Val &e, const Val &g) { mc::transition(); mc::outcome(g.s()); mc::ok(same(e, g), std::string(k) + ":value", "%s of %s: expected %s, got %s", k, in.c_str(), e.s().c_str(), g.s().c_str()); }
static void near(const char *k, const std::string &in, const Exp &e, const Val &g) { mc::transition(); mc::outcome(es(e)); mc::ok(agrees(e, g, 5e-5, 5e-6), std::string(k) + ":value", "%s of %s: expected %s, got %s", k, in.c_str(), es(e).c_str(), g.s().c_str()); }
static Val mat(const FF &r, int w) { Val v; v.d = { (int)r.size(), w }; for (auto &q : r) v.v.insert(v.v.end(), q.begin(), q.end()); return v; }
static std::string esc(const std::string &s) { std::string r; for (char c : s) r += c == '\n' ? "\\n" : std::string(1, c); return r; }
static const char *cells[] = { "0", "1.5", "-2", "0.25", "12", "3e2", "-0.125", "7", "100", "-4.5" }; static const float cellv[] = { 0, 1.5f, -2, 0.25f, 12, 300, -0.125f, 7, 100, -4.5f };
static void tables() {
	int R = mc::thorough() ? 5 : 4, K = mc::thorough() ? 5 : 4;
	for (int r = 1; r <= R; r++) for (int k = 1; k <= K; k++) for (int nl = 0; nl < 3; nl++) MC_CASE("files of %d rows with %d features, %d final newlines", r, k, nl) for (int s = 0; s < 10; s++) for (int extra = 0; extra < 2; extra++) {
		std::string t; FF X; F y; for (int i = 0; i < r; i++) { F row; for (int j = 0; j <= k; j++) { int c = (i * 3 + j * 7 + s) % 10; t += std::string(j ? "," : "") + cells[c]; if (j < k) row.push_back(cellv[c]); else y.push_back(cellv[c]); } if (extra) t += ",9"; X.push_back(row); if (i < r - 1 || nl) t += "\n"; } if (nl == 2) t += "\n";
		std::string p = put(t), in = "\"" + esc(t) + "\""; mc::state(in); Ref<MLPPMatrix> A; A.instance(); Ref<MLPPVector> b; b.instance(); if (s % 2) { A->resize(Size2i(2, 3)); b->resize(5); }
		P->set_data_supervised(k, p.c_str(), A, b); cmp("set_data_supervised inputs", in, mat(X, k), dump(A)); cmp("set_data_supervised outputs", in, Val{ { r }, y }, dump(b));
		Ref<MLPPMatrix> U; U.instance(); P->set_data_unsupervised(k, p.c_str(), U); cmp("set_data_unsupervised", in, mat(X, k), dump(U));
		if (k == 1 && !extra) { Ref<MLPPVector> a, c; a.instance(); c.instance(); P->set_data_simple(p.c_str(), a, c); cmp("set_data_simple inputs", in, Val{ { r }, mat(X, 1).v }, dump(a)); cmp("set_data_simple outputs", in, Val{ { r }, y }, dump(c)); Ref<MLPPDataESimple> d = P->load_fires_and_crime(p.c_str()); cmp("load_fires_and_crime inputs", in, Val{ { r }, mat(X, 1).v }, dump(d->get_input())); cmp("load_fires_and_crime outputs", in, Val{ { r }, y }, dump(d->get_output())); }
	}
	struct L { const char *n; int k, hot; }; for (auto l : { L{ "breast", 30, 0 }, L{ "svc", 30, 0 }, L{ "housing", 13, 0 }, L{ "iris", 4, 3 } }) for (int r = 1; r <= 4; r++) MC_CASE("%s file of %d rows", l.n, r) for (int s = 0; s < 6; s++) for (int nl = 0; nl < 2; nl++) {
		std::string t; FF X, H; F y; for (int i = 0; i < r; i++) { F row; for (int j = 0; j < l.k; j++) { int c = (i * 3 + j * 7 + s) % 10; t += std::string(cells[c]) + ","; row.push_back(cellv[c]); } int c = (i * 2 + s) % 3; t += std::to_string(c); y.push_back(c); F h(3, 0); h[c] = 1; H.push_back(h); X.push_back(row); if (i < r - 1 || nl) t += "\n"; }
		String p = put(t).c_str(); std::string in = "\"" + esc(t) + "\""; mc::state(in); std::string n = l.n;
		if (l.hot) { Ref<MLPPDataComplex> d = P->load_iris(p); cmp("load_iris inputs", in, mat(X, l.k), dump(d->get_input())); cmp("load_iris outputs", in, mat(H, 3), dump(d->get_output())); continue; }
		Ref<MLPPDataSimple> d = n == "breast" ? P->load_breast_cancer(p) : n == "svc" ? P->load_breast_cancer_svc(p) : P->load_california_housing(p); cmp("loader inputs", in, mat(X, l.k), dump(d->get_input())); cmp("loader outputs", in, Val{ { r }, y }, dump(d->get_output()));
	}
	MC_CASE("input names") for (int n = 0; n <= 4; n++) for (int nl = 0; nl < 2; nl++) { std::string t; std::vector<std::string> e, g = { "kept" }; e.push_back("kept"); for (int i = 0; i < n; i++) { std::string w = "name " + std::to_string(i); e.push_back(w); t += w + (i < n - 1 || nl ? "\n" : ""); } P->setInputNames(put(t), g); mc::state(t); mc::ok(e == g, "setInputNames:value", "\"%s\" read as %zu names", esc(t).c_str(), g.size()); }
}
static void split() {
	std::vector<int> sizes = { 1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 25, 33 }; for (int n : sizes) for (int w = 1; w <= 2; w++) for (int ow = 1; ow <= 2; ow++) for (int extra = -1; extra <= 1; extra++) MC_CASE("splitting %d rows of %d and %d, %d more outputs", n, w, ow, extra) {
		int no = n + extra, m = std::min(n, no); if (no < 1) continue; FF X, Y; for (int i = 0; i < n; i++) { F q; for (int j = 0; j < w; j++) q.push_back(10 * i + j); X.push_back(q); } for (int i = 0; i < no; i++) { F q; for (int j = 0; j < ow; j++) q.push_back(1000 + 10 * i + j); Y.push_back(q); }
		Val fx = mat(X, w), fy = mat(Y, ow); Ref<MLPPDataComplex> d; d.instance(); d->set_input(mkm(n, w, fx.v)); d->set_output(mkm(no, ow, fy.v)); std::set<std::string> orders;
		for (float ts : { 0.f, 0.2f, 0.25f, 0.5f, 0.75f, 0.9f, 1.f }) for (int seed = 0; seed < (n <= 4 ? 150 : n <= 9 ? 40 : 10); seed++) { Math::seed(seed * 977 + 5); MLPPData::SplitComplexData r; if (seed % 3 == 2) { Array a = P->train_test_split_bind(d, ts); r.train = Ref<MLPPDataComplex>(a[0]); r.test = Ref<MLPPDataComplex>(a[1]); } else r = P->train_test_split(d, ts);
			std::string in = mc::fmt("%d inputs, %d outputs, fraction %g, seed %d", n, no, ts, seed); Val ti = dump(r.test->get_input()), to = dump(r.test->get_output()), ri = dump(r.train->get_input()), ro = dump(r.train->get_output()); int k = (int)(ts * m); mc::transition(); mc::state(in);
			if (!mc::ok(ti.d[0] == k && to.d[0] == k && ri.d[0] == m - k && ro.d[0] == m - k && (!k || (ti.d[1] == w && to.d[1] == ow)) && (k == m || (ri.d[1] == w && ro.d[1] == ow)), "train_test_split:sizes", "%s: test %s / %s, train %s / %s", in.c_str(), ti.s().c_str(), to.s().c_str(), ri.s().c_str(), ro.s().c_str())) continue;
			std::vector<int> seen; bool pair = true; auto take = [&](const Val &a, const Val &b) { for (int i = 0; i < a.d[0]; i++) { int id = (int)a.v[i * w] / 10; seen.push_back(id); for (int j = 0; j < w; j++) pair = pair && a.v[i * w + j] == 10 * id + j; for (int j = 0; j < ow; j++) pair = pair && b.v[i * ow + j] == 1000 + 10 * id + j; } }; take(ti, to); take(ri, ro);
			std::string o; for (int i : seen) o += std::to_string(i); orders.insert(o); mc::outcome(o); mc::ok(pair, "train_test_split:pairing", "%s: inputs no longer paired with their outputs", in.c_str()); std::sort(seen.begin(), seen.end()); bool part = (int)seen.size() == m; for (int i = 0; part && i < m; i++) part = seen[i] == i; mc::ok(part, "train_test_split:partition", "%s: rows taken %s", in.c_str(), o.c_str());
			mc::ok(same(fx, dump(d->get_input())) && same(fy, dump(d->get_output())), "train_test_split:input-changed", "%s changed the data set", in.c_str()); }
		int f = 1; for (int i = 2; i <= m; i++) f *= i; if (n <= 3) mc::ok((int)orders.size() == f, "train_test_split:shuffle", "only %zu of %d orders reached", orders.size(), f);
	}
}
static void encode() {
	for (int n = 0; n <= (mc::thorough() ? 5 : 4); n++) for (int k = 1; k <= 8; k++) MC_CASE("one-hot of %d labels into %d classes", n, k) tuples(n <= 3 ? F{ 0, 1, 2, 3, 4, 5, 6, 7 } : F{ 0, 1, 2, 3 }, n, [&](const F &y) { FF H; std::vector<std::vector<real_t>> rows; bool in_range = true; for (float v : y) { F h(k, 0); if (v < k) h[(int)v] = 1; else in_range = false; H.push_back(h); rows.push_back(std::vector<real_t>(h.begin(), h.end())); }
		Val b{ { n }, y }; mc::state(b.s() + std::to_string(k)); Ref<MLPPVector> v = mkv(y); Val g = dump(P->one_hot_rep(v, k)), e = mat(H, k); if (n) cmp("one_hot_rep", b.s(), e, g); mc::ok(same(b, dump(v)), "one_hot_rep:input-changed", "one_hot_rep changed its labels"); if (in_range) { auto r = P->reverseOneHot(rows); cmp("reverseOneHot", e.s(), b, Val{ { (int)r.size() }, F(r.begin(), r.end()) }); } });
	for (int n = 0; n <= 5; n++) MC_CASE("distinct values of %d", n) tuples(F{ 1, 2, 2.5f }, n, [&](const F &y) { F e; std::vector<float> c = y; for (float v : y) if (std::find(e.begin(), e.end(), v) == e.end()) e.push_back(v); Vector<real_t> in; for (float v : y) in.push_back(v); Vector<real_t> o = P->vec_to_set(in); F g; for (int i = 0; i < o.size(); i++) g.push_back(o[i]); Val ev{ { (int)e.size() }, e }; mc::state(Val{ { n }, y }.s()); cmp("vec_to_set", Val{ { n }, y }.s(), ev, Val{ { (int)g.size() }, g }); cmp("vec_to_setnv", Val{ { n }, y }.s(), ev, dump(P->vec_to_setnv(mkv(y)))); auto q = P->vecToSet(y); cmp("vecToSet", Val{ { n }, y }.s(), ev, Val{ { (int)q.size() }, q }); });
}
static void scale_one(int r, int c, const F &v) {
	Val b{ { r, c }, v }; mc::state(b.s()); Ref<MLPPMatrix> A = mkm(r, c, v); Exp fs, ce, no; fs.d = ce.d = no.d = { r, c }; fs.v.resize(r * c); bool cols = true, rws = true;
	for (int j = 0; j < c; j++) { double lo = 1e30, hi = -1e30; for (int i = 0; i < r; i++) { lo = std::min(lo, (double)v[i * c + j]); hi = std::max(hi, (double)v[i * c + j]); } if (lo == hi) cols = false; else for (int i = 0; i < r; i++) fs.v[i * c + j] = (v[i * c + j] - lo) / (hi - lo); }
	for (int i = 0; i < r; i++) { double m = 0, q = 0; for (int j = 0; j < c; j++) m += v[i * c + j]; m /= c; for (int j = 0; j < c; j++) { double d = v[i * c + j] - m; ce.v.push_back(d); q += d * d; } if (q == 0 || c == 1) rws = false; else for (int j = 0; j < c; j++) no.v.push_back((v[i * c + j] - m) / std::sqrt(q / (c - 1))); }
	if (cols) near("feature_scaling", b.s(), fs, dump(P->feature_scaling(A))); near("mean_centering", b.s(), ce, dump(P->mean_centering(A))); if (rws) near("mean_normalization", b.s(), no, dump(P->mean_normalization(A))); mc::ok(same(b, dump(A)), "scaling:input-changed", "scaling changed its input %s to %s", b.s().c_str(), dump(A).s().c_str());
}
void explore() {
	MLPPData data; P = &data; char t[] = "/tmp/mcC22XXXXXX"; dir = mkdtemp(t); tables(); split(); encode();
	for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) if (r * c <= (mc::thorough() ? 9 : 6)) MC_CASE("scaling %dx%d", r, c) tuples(r * c > 6 ? F{ -1, 2 } : F{ -1, 0.5f, 4 }, r * c, [&](const F &v) { scale_one(r, c, v); });
	for (int r = 1; r <= 5; r++) for (int c = 1; c <= 5; c++) MC_CASE("scaling larger %dx%d", r, c) for (int s = 0; s < 20; s++) { F v; for (int i = 0; i < r * c; i++) v.push_back(((i * 13 + s * 5) % 17 - 6) * 0.75f); scale_one(r, c, v); }
	unlink((dir + "/t.csv").c_str()); rmdir(dir.c_str());
}
