// MC: variant=asan
// C25: k-means as a state machine. The random start is an unknown: the reference carries every set of centroids that explains what was observed so far
// (every choice of starting rows, every choice among tied distances) and each observation of the real object must leave at least one explanation.
// The clock that seeds the generator is interposed, so each case enumerates a fixed set of seeds.
#include <algorithm>
#include <time.h>
#include <sys/time.h>
#include "arith.h"
#include "modules/kmeans/kmeans.h"
static uint64_t now_us = 1000000;
extern "C" time_t time(time_t *t) noexcept { time_t r = now_us / 1000000; if (t) *t = r; return r; }
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; }
typedef std::vector<float> F; typedef std::vector<double> D; typedef std::vector<D> DD; typedef std::vector<int> I;
static double d2(const D &a, const D &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static const double TOL = 2e-5;
struct St { DD mu; I r; }; // centroids and the assignment computed from them
static std::string key(const St &s) { std::string o; for (auto &c : s.mu) for (double x : c) o += mc::fmt("%.4f,", x + 0.0); for (int i : s.r) o += mc::fmt("%d", i); return o; }
struct Ref_ {
	DD X; int k; std::vector<St> H;
	void dedupe() { std::map<std::string, St> m; for (auto &s : H) m.emplace(key(s), s); H.clear(); for (auto &p : m) H.push_back(p.second); }
	void start(bool pp) { // every possible choice of starting rows
		int n = X.size(); std::vector<I> seqs; seqs.push_back(I()); for (int c = 0; c < k; c++) { std::vector<I> nx; for (auto &s : seqs) { double best = -1; D v(n, 1); if (pp && c) { for (int j = 0; j < n; j++) { double t = 0; for (int i : s) t += std::sqrt(d2(X[j], X[i])); v[j] = t * t; best = std::max(best, v[j]); } } for (int j = 0; j < n; j++) if (!pp || !c || v[j] >= best - TOL * (1 + best)) { I t = s; t.push_back(j); nx.push_back(t); } } seqs = nx; }
		H.clear(); std::set<std::string> seen; for (auto &s : seqs) { St t; for (int i : s) t.mu.push_back(X[i]); if (seen.insert(key(t)).second) H.push_back(t); }
	}
	I near(const DD &mu, const D &x) const { double b = 1e300; for (auto &c : mu) b = std::min(b, d2(x, c)); I r; for (size_t i = 0; i < mu.size(); i++) if (d2(x, mu[i]) <= b + TOL * (1 + b)) r.push_back(i); return r; }
	void assign() { std::vector<St> o; for (auto &s : H) { std::vector<I> rs(1); for (auto &x : X) { I c = near(s.mu, x); std::vector<I> nx; for (auto &r : rs) for (int i : c) { I t = r; t.push_back(i); nx.push_back(t); } rs = nx; } for (auto &r : rs) o.push_back({ s.mu, r }); } H = o; dedupe(); }
	void step() { for (auto &s : H) for (int c = 0; c < k; c++) { D m(X[0].size(), 0); int n = 0; for (size_t i = 0; i < X.size(); i++) if (s.r[i] == c) { n++; for (size_t j = 0; j < m.size(); j++) m[j] += X[i][j]; } if (n) { for (double &x : m) x /= n; s.mu[c] = m; } } assign(); }
	double cost(const St &s) const { double t = 0; for (size_t i = 0; i < X.size(); i++) t += d2(X[i], s.mu[s.r[i]]); return t; }
	bool explains(const DD &mu, const D &q, const D &got) const { for (int i : near(mu, q)) { bool e = true; for (size_t j = 0; j < got.size(); j++) e = e && mc::close(got[j], mu[i][j], 1e-4, 1e-4); if (e) return true; } return false; }
};
static DD rows(const Val &v) { DD o; for (int i = 0; i < v.d[0]; i++) { D r; for (int j = 0; j < v.d[1]; j++) r.push_back(v.v[i * v.d[1] + j]); o.push_back(r); } return o; }
struct Sys {
	Ref<MLPPMatrix> A, Qm; Val fa; DD Q; MLPPKMeans m; Ref_ R; std::string in, hist; double last; bool dead;
	Sys(int n, int w, const F &v, int nq, const F &q) : last(1e300), dead(false) { A = mkm(n, w, v); fa = dump(A); R.X = rows(fa); Qm = mkm(nq, w, q); Q = rows(dump(Qm)); m.set_input_set(A); }
	void setup(int k, bool pp) { m.set_k(k); m.set_mean_type(pp ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID); R.k = k; R.start(pp); last = 1e300; dead = false; hist += mc::fmt(" k=%d%s", k, pp ? "++" : ""); }
	std::string w() { return "points " + fa.s() + hist; }
	void observe(bool trained) { if (dead) return;
		mc::transition(); mc::state(w()); std::vector<std::pair<D, D>> obs; for (int b = 0; b < 2; b++) { Ref<MLPPMatrix> S = b ? Qm : A; Val g = dump(m.model_set_test(S)); Val s = dump(S); if (!mc::ok(g.d.size() == 2 && g.d[0] == s.d[0] && g.d[1] == fa.d[1], "model_set_test:size", "%s: predictions %s for %s", w().c_str(), g.s().c_str(), s.s().c_str())) { dead = true; return; } DD gr = rows(g), sr = rows(s); for (size_t i = 0; i < gr.size(); i++) obs.push_back({ sr[i], gr[i] }); }
		for (auto &q : Q) { F f(q.begin(), q.end()); Val g = dump(m.model_test(mkv(f))); mc::ok(g.d[0] == (int)q.size(), "model_test:size", "%s: %s", w().c_str(), g.s().c_str()); if (g.d[0] == (int)q.size()) obs.push_back({ q, D(g.v.begin(), g.v.end()) }); }
		std::vector<St> o; for (auto &s : R.H) { bool e = true; for (auto &p : obs) if (!R.explains(s.mu, p.first, p.second)) { e = false; break; } if (e) o.push_back(s); }
		if (!mc::ok(!o.empty(), trained ? "train:centroids" : "initialize:centroids", "%s: the nearest centroids %s of the samples fit no %s", w().c_str(), dump(m.model_set_test(A)).s().c_str(), trained ? "k-means step" : "choice of starting rows")) { dead = true; return; } R.H = o;
		if (!trained) return; double sc = m.score(); o.clear(); for (auto &s : R.H) if (mc::close(sc, R.cost(s), 1e-4, 1e-4)) o.push_back(s); if (!mc::ok(!o.empty(), "score:value", "%s: score %g, total squared distance %g", w().c_str(), sc, R.cost(R.H[0]))) { dead = true; return; } R.H = o; mc::outcome(mc::fmt("%.3f", sc));
		mc::ok(sc <= last + 1e-4 * (1 + std::fabs(last)), "train:cost-increased", "%s: cost rose from %g to %g", w().c_str(), last, sc); last = sc; silhouette();
		mc::ok(same(fa, dump(A)), "input-changed", "%s: data changed to %s", w().c_str(), dump(A).s().c_str()); }
	void silhouette() { if (R.k < 2) return; int n = R.X.size(); bool any = false, hit = false; Val g; D e; for (auto &s : R.H) { bool amb = false; for (auto &x : R.X) amb = amb || R.near(s.mu, x).size() != 1; for (int a = 0; a < R.k; a++) for (int b = a + 1; b < R.k; b++) amb = amb || d2(s.mu[a], s.mu[b]) < 1e-3; if (std::set<int>(s.r.begin(), s.r.end()).size() < 2) amb = true; if (amb) return; if (!any) g = dump(m.silhouette_scores()); any = true; e.clear();
			for (int i = 0; i < n; i++) { D sum(R.k, 0); I c(R.k, 0); for (int j = 0; j < n; j++) if (j != i) { sum[s.r[j]] += std::sqrt(d2(R.X[i], R.X[j])); c[s.r[j]]++; } int o = s.r[i]; double b = 1e300; for (int j = 0; j < R.k; j++) if (j != o && c[j]) b = std::min(b, sum[j] / c[j]); double a = c[o] ? sum[o] / c[o] : 0; e.push_back(c[o] ? (b - a) / std::max(a, b) : 0); }
			hit = hit || agrees(Exp{ { n }, e }, g, 1e-3, 1e-3); } if (any) { mc::count("silhouettes"); mc::ok(hit, "silhouette_scores:value", "%s: expected %s, got %s", w().c_str(), es(Exp{ { n }, e }).c_str(), g.s().c_str()); } }
	void init() { m.initialize(); hist += " initialize"; observe(false); }
	void train(int e) { if (dead) return; m.train(e); hist += mc::fmt(" train(%d)", e); R.assign(); for (int i = 0; i < e; i++) R.step(); observe(true); }
};
static void one(int n, int w, const F &v, int nq, const F &q, int k, bool pp, int shape) {
	now_us += 7; Sys s(n, w, v, nq, q); if (shape == 2) { s.setup(k == 1 ? 2 : 1, !pp); s.train(1); } s.setup(k, pp);
	if (shape == 0) { s.init(); s.train(1); s.train(1); s.train(2); } else if (shape == 1) { s.train(2); s.train(1); } else { s.train(1); s.train(3); }
	int h = 0; for (auto &x : s.R.H) h += x.mu.size() > 0; mc::count("explanations", h);
}
void explore() {
	F q1 = { -3, -0.5f, 0.3f, 1.2f, 2.2f, 4, 9 }; int seeds = mc::thorough() ? 40 : 4;
	for (int n = 1; n <= (mc::thorough() ? 5 : 4); n++) tuples(F{ -1, 0, 1.5f, 5 }, n, [&](const F &v) { for (int k = 1; k <= 3; k++) for (int pp = 0; pp < 2; pp++) MC_CASE("k-means on %s, k %d%s", (Val{ { n }, v }).s().c_str(), k, pp ? "++" : "") for (int s = 0; s < seeds; s++) { now_us = 1000000 + s * 7919; one(n, 1, v, 7, q1, k, pp, s % 3); } });
	F q2 = { 0, 0, 1, 0.4f, -2, 3, 2.6f, 2.4f, 10, -10 };
	for (int n = 2; n <= (mc::thorough() ? 4 : 3); n++) tuples(F{ 0, 1, 2.5f }, 2 * n, [&](const F &v) { MC_CASE("k-means in the plane on %s", (Val{ { n, 2 }, v }).s().c_str()) for (int k = 1; k <= 3; k++) for (int pp = 0; pp < 2; pp++) for (int s = 0; s < 3; s++) { now_us = 1000000 + s * 7919 + k * 31; one(n, 2, v, 5, q2, k, pp, s % 3); } });
	for (int n = 5; n <= 7; n++) for (int w = 1; w <= 4; w++) for (int k = 1; k <= 4; k++) for (int pp = 0; pp < 2; pp++) MC_CASE("k-means on %d points of %d features, k %d%s", n, w, k, pp ? "++" : "") for (int t = 0; t < (mc::thorough() ? 12 : 3); t++) { F v, q; for (int i = 0; i < n * w; i++) v.push_back((i * 37 + t * 11 + i * i * 5) % 23 * 0.5f - 4 + i * 0.013f); for (int i = 0; i < 5 * w; i++) q.push_back((i * 17 + t) % 19 * 0.7f - 3.1f); for (int s = 0; s < 3; s++) { now_us = 1000000 + (t * 3 + s) * 7919; one(n, w, v, 5, q, k, pp, 0); } }
}
