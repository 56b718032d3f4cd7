// MC: variant=asan
// C27: naive Bayes classifiers against posteriors computed in double from the training data (ties and near ties accept any maximal class).
#include <algorithm>
#include "arith.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/multinomial_nb/multinomial_nb.h"
typedef std::vector<float> F; typedef std::vector<double> D; typedef std::vector<int> I;
static F row(const F &X, int w, int i) { return F(X.begin() + i * w, X.begin() + (i + 1) * w); }
static bool best(const D &s, int c) { if (c < 0 || c >= (int)s.size()) return false; double m = -INFINITY; for (double x : s) m = std::max(m, x); return std::isinf(m) ? true : s[c] >= m - 2e-4 * (1 + std::fabs(m)); }
// log posteriors; false when a class has no usable distribution
static bool gauss(const F &X, const F &y, int n, int w, int K, const F &q, D &s) { s.clear(); for (int c = 0; c < K; c++) { D v; int rows = 0; for (int i = 0; i < n; i++) if (y[i] == c) { rows++; for (float x : row(X, w, i)) v.push_back(x); } if (v.size() < 2) return false; double m = 0, t = 0; for (double x : v) m += x; m /= v.size(); for (double x : v) t += (x - m) * (x - m); if (t < 1e-9) return false; double sd = std::sqrt(t / (v.size() - 1)), l = std::log((double)rows / n); for (float x : q) l += -std::log(sd * std::sqrt(2 * M_PI)) - (x - m) * (x - m) / (2 * sd * sd); s.push_back(l); } return true; }
static bool words(const F &X, const F &y, int n, int w, int K, const F &q, bool bern, D &s) { std::set<float> vocab(X.begin(), X.end()); s.clear(); for (int c = 0; c < K; c++) { std::map<float, double> cnt; int rows = 0; for (int i = 0; i < n; i++) if (y[i] == c) { rows++; for (float x : row(X, w, i)) cnt[x]++; } if (!rows) return false; double l = std::log((double)rows / n); if (bern) for (float v : vocab) { double p = cnt[v] / rows; l += std::log(std::find(q.begin(), q.end(), v) != q.end() ? p : 1 - p); } else for (float x : q) if (vocab.count(x)) l += std::log(cnt[x] / (rows * w)); s.push_back(l); } return true; }
static void run(const char *kind, int n, int w, int K, const F &X, const F &y, const std::vector<F> &Q) {
	std::string k = kind, in = k + " on " + Val{ { n, w }, X }.s() + " labels " + Val{ { n }, y }.s(); auto post = [&](const F &q, D &s) { return k == "gaussian" ? gauss(X, y, n, w, K, q, s) : words(X, y, n, w, K, q, k == "bernoulli", s); }; D s; if (!post(Q[0], s)) return; mc::state(in);
	Ref<MLPPMatrix> A = mkm(n, w, X); Ref<MLPPVector> b = mkv(y); Val fa = dump(A), fb = dump(b); F qf; for (auto &q : Q) qf.insert(qf.end(), q.begin(), q.end()); Ref<MLPPMatrix> B = mkm(Q.size(), w, qf); Val qa = dump(B);
	MLPPGaussianNB *g = k == "gaussian" ? memnew(MLPPGaussianNB(A, b, K)) : nullptr; MLPPBernoulliNB *be = k == "bernoulli" ? memnew(MLPPBernoulliNB(A, b)) : nullptr; MLPPMultinomialNB *m = k == "multinomial" ? memnew(MLPPMultinomialNB(A, b, K)) : nullptr;
	auto one = [&](const F &q) { Ref<MLPPVector> v = mkv(q); return g ? g->model_test(v) : be ? be->model_test(v) : m->model_test(v); }; auto all = [&](Ref<MLPPMatrix> M) { return dump(g ? g->model_set_test(M) : be ? be->model_set_test(M) : m->model_set_test(M)); };
	Val pq = all(B); mc::ok(pq.d == Dims{ (int)Q.size() }, k + ":model_set_test:size", "%s: %s", in.c_str(), pq.s().c_str());
	for (size_t i = 0; i < Q.size(); i++) { post(Q[i], s); float c = one(Q[i]); mc::transition(); mc::outcome(mc::fmt("%g", c)); mc::ok(best(s, (int)c) && c == (int)c, k + ":model_test:class", "%s: query %s classified as %g, log posteriors %s", in.c_str(), Val{ { w }, Q[i] }.s().c_str(), c, es(Exp{ { K }, s }).c_str()); mc::ok(i < pq.v.size() && pq.v[i] == c, k + ":model_set_test:class", "%s: query %zu differs from the single prediction %g", in.c_str(), i, c); }
	int lo = 0, hi = 0; for (int i = 0; i < n; i++) { post(row(X, w, i), s); bool can = best(s, (int)y[i]), must = can; for (int c = 0; c < K; c++) if (c != (int)y[i] && best(s, c)) must = false; lo += must; hi += can; } float sc = g ? g->score() : be ? be->score() : m->score(); bool fit = false; for (int i = lo; i <= hi; i++) fit = fit || mc::close(sc, (double)i / n, 1e-5, 1e-6); mc::ok(fit, k + ":score:value", "%s: score %g, %d to %d of %d rows predicted correctly", in.c_str(), sc, lo, hi, n);
	mc::ok(same(fa, dump(A)) && same(fb, dump(b)) && same(qa, dump(B)), k + ":input-changed", "%s: data changed", in.c_str()); if (g) memdelete(g); if (be) memdelete(be); if (m) memdelete(m);
}
static bool distinct(const F &X, int n, int w) { for (int i = 0; i < n; i++) { F r = row(X, w, i); std::sort(r.begin(), r.end()); if (std::adjacent_find(r.begin(), r.end()) != r.end()) return false; } return true; }
void explore() {
	for (int n = 2; n <= 4; n++) for (int w = 1; w <= 2; w++) { if (n * w > (mc::thorough() ? 8 : 6)) continue; std::vector<F> Q; for (float q : { -2.f, 0.f, 0.7f, 3.f, 6.f }) { if (w == 1) Q.push_back({ q }); else for (float p : { -1.f, 2.f }) Q.push_back({ q, p }); }
		tuples(n * w > 4 ? F{ -1, 1.5f, 4 } : F{ -1, 0, 1.5f, 4 }, n * w, [&](const F &X) { MC_CASE("gaussian on %s", (Val{ { n, w }, X }).s().c_str()) for (int K = 1; K <= 3; K++) { F labs; for (int c = 0; c < K; c++) labs.push_back(c); tuples(labs, n, [&](const F &y) { run("gaussian", n, w, K, X, y, Q); }); } }); }
	for (int n = 1; n <= (mc::thorough() ? 5 : 4); n++) for (int w = 1; w <= 3; w++) { if (n * w > (mc::thorough() ? 8 : 6)) continue; F voc = w == 3 ? F{ 0, 1, 2, 5 } : F{ 0, 1, 5 }; std::vector<F> QB, QM; tuples(F{ 0, 1, 5, 9 }, w, [&](const F &q) { QM.push_back(q); if (distinct(q, 1, w)) QB.push_back(q); });
		tuples(voc, n * w, [&](const F &X) { if (w == 3 && !distinct(X, n, w)) return; MC_CASE("words %s", (Val{ { n, w }, X }).s().c_str()) { tuples(F{ 0, 1 }, n, [&](const F &y) { if (distinct(X, n, w)) run("bernoulli", n, w, 2, X, y, QB); run("multinomial", n, w, 2, X, y, QM); }); if (n >= 3 && w <= 2) tuples(F{ 0, 1, 2 }, n, [&](const F &y) { run("multinomial", n, w, 3, X, y, QM); }); } }); }
	for (int n = 5; n <= 12; n++) for (int w = 1; w <= 4; w++) MC_CASE("larger sets of %d rows of %d", n, w) for (int s = 0; s < (mc::thorough() ? 60 : 12); s++) { F X, W, y, y2; std::vector<F> Q, QW; for (int i = 0; i < n; i++) { y.push_back((i * (s + 1) + s) % 3); y2.push_back((i * (s + 1) + i / 2) % 2); for (int j = 0; j < w; j++) { X.push_back((i * 17 + j * 7 + s * 5 + i * i) % 19 * 0.5f + y[i] * 2); W.push_back((i * 3 + j * 2 + s + i * i) % 3 + 3 * j); } } for (int i = 0; i < 6; i++) { F q, u; for (int j = 0; j < w; j++) { q.push_back((i * 5 + j * 3 + s) % 9 + 0.25f); u.push_back((i + j * s) % 3 + 3 * j); } Q.push_back(q); QW.push_back(u); } run("gaussian", n, w, 3, X, y, Q); run("multinomial", n, w, 3, W, y, QW); run("bernoulli", n, w, 2, W, y2, QW); }
}
