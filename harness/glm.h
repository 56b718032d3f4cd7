// Generalised linear models: exhaustive training histories on the real class against a double-precision reference of the update rule.
#ifndef MC_GLM_H
#define MC_GLM_H
#include <functional>
#include <random>
#include "arith.h"
#include "core/reg.h"
static unsigned g_seed = 1, g_draws = 0;
#ifndef OWN_NOISE
namespace std { unsigned int random_device::_M_getval() { g_draws++; return (g_seed + 1) * 2654435761u ^ (g_draws * 40503u); } }
#endif
typedef std::vector<float> F; typedef std::vector<int> I; typedef std::vector<double> D;
enum { NONE, RIDGE, LASSO, ELASTIC, CLIP, NREG };
static const MLPPReg::RegularizationType REG[NREG] = { MLPPReg::REGULARIZATION_TYPE_NONE, MLPPReg::REGULARIZATION_TYPE_RIDGE, MLPPReg::REGULARIZATION_TYPE_LASSO, MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET, MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING };
static const char *REGN[NREG] = { "none", "ridge", "lasso", "elastic", "clip" };
struct Set { int n, k; F X, y; double x(int i, int j) const { return X[i * k + j]; } };
struct P { D w; double b; bool amb; }; // amb: a decision of the rule lies within rounding error, so no claim is made
struct RegP { int kind; double lam, al; };
static inline void regstep(P &p, const RegP &r) {
	for (double &w : p.w) {
		double s = (w > 0) - (w < 0);
		if (r.kind >= LASSO && r.kind <= ELASTIC && std::fabs(w) < 1e-5) p.amb = true;
		if (r.kind == RIDGE) w -= r.lam * w;
		if (r.kind == LASSO) w -= r.lam * s;
		if (r.kind == ELASTIC) w -= r.al * r.lam * s + (1 - r.al) * r.lam * w;
		if (r.kind == CLIP) w = w > r.al ? r.al : w < r.lam ? r.lam : w;
	}
}
static inline D regderiv(const P &p0, const RegP &r, bool &amb) { P p = p0; regstep(p, r); amb = amb || p.amb; D d; for (size_t i = 0; i < p.w.size(); i++) d.push_back(r.kind == CLIP ? p.w[i] : p0.w[i] - p.w[i]); return d; }
static inline double lin(const P &p, const Set &s, int i) { double z = p.b; for (int j = 0; j < s.k; j++) z += p.w[j] * s.x(i, j); return z; }
typedef double (*Fn)(double); typedef double (*Delta)(double z, double y); // link and dCost/dz of one sample
static inline void gdstep(P &p, const Set &s, const I &rows, Delta d, double lr, double div, const RegP &r) {
	D g(s.k, 0.0); double gb = 0; for (int i : rows) { double e = d(lin(p, s, i), s.y[i]); if (e > 1e29) { p.amb = true; return; } gb += e; for (int j = 0; j < s.k; j++) g[j] += e * s.x(i, j); }
	for (int j = 0; j < s.k; j++) p.w[j] -= lr * g[j] / div; regstep(p, r); p.b -= lr * gb / div;
}
static inline std::vector<I> batches(int n, int size) { int k = n / size, c = n / k; std::vector<I> b; for (int i = 0; i < k; i++) { I r; for (int j = c * i; j < (i == k - 1 ? n : c * (i + 1)); j++) r.push_back(j); b.push_back(r); } return b; }
static inline I allrows(int n) { I r; for (int i = 0; i < n; i++) r.push_back(i); return r; }
static inline std::string ps(const P &p) { std::string s = "w ["; for (double w : p.w) s += mc::fmt("%.6g ", w); return s + mc::fmt("] b %.6g", p.b); }
static inline bool pclose(const P &e, const P &g, double rt = 2e-4, double at = 2e-5) { if (e.w.size() != g.w.size()) return false; for (size_t i = 0; i < e.w.size(); i++) if (!mc::close(e.w[i], g.w[i], rt, at)) return false; return mc::close(e.b, g.b, rt, at); }
static inline bool sane(const P &p) { for (double w : p.w) if (!(std::fabs(w) < 1e4)) return false; return std::fabs(p.b) < 1e4; }
static inline Set mkset(int n, int k, const F &X, const F &y) { Set s; s.n = n; s.k = k; s.X = X; s.y = y; return s; }
static inline std::string ss(const Set &s) { return "rows " + Val{ { s.n, s.k }, s.X }.s() + " targets " + Val{ { s.n }, s.y }.s(); }
// One trainable instance of the class under test.
struct Inst { virtual ~Inst() {} virtual void put(const P &p) = 0; virtual P get() = 0; virtual void train(int opt, double lr, int epochs, int mb) = 0; virtual double one(const F &x) = 0; virtual Val many(Ref<MLPPMatrix> X) = 0; virtual double score() = 0; };
enum { GD, SGD, MBGD, MLE, NOPT };
static const char *OPTN[NOPT] = { "gradient_descent", "sgd", "mbgd", "mle" };
struct Fam { const char *name; Fn f; Delta d; unsigned opts; bool mbtotal; RegP (*reg)(const RegP &, int opt, double lr, int n, int count); Inst *(*mk)(Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r); };
static inline RegP fregp(const Fam &f, const RegP &r, int opt, double lr, int n, int c) { return f.reg ? f.reg(r, opt, lr, n, c) : r; }
struct Call { int opt, epochs, mb; double lr; };
static inline std::string cs(const std::vector<Call> &h) { std::string s; for (auto &c : h) s += mc::fmt("%s(lr %g, %d epochs%s); ", OPTN[c.opt], c.lr, c.epochs, c.opt == MBGD ? mc::fmt(", batch %d", c.mb).c_str() : ""); return s; }
// every parameter state the history may end in (one per sample order for sgd)
static inline void after(const Fam &f, const Set &s, const RegP &r, const Call &c, const P &p, int ep, std::vector<P> &out, std::vector<int> *first, int fi = -1) {
	if (ep == c.epochs) { out.push_back(p); if (first) first->push_back(fi); return; }
	if (c.opt == SGD) { for (int i = 0; i < s.n; i++) { P q = p; gdstep(q, s, I{ i }, f.d, c.lr, 1, fregp(f, r, SGD, c.lr, s.n, 1)); after(f, s, r, c, q, ep + 1, out, first, ep == 0 ? i : fi); } return; }
	P q = p; if (c.opt == MBGD) for (auto &b : batches(s.n, c.mb)) gdstep(q, s, b, f.d, c.lr, f.mbtotal ? s.n : b.size(), fregp(f, r, MBGD, c.lr, s.n, b.size())); else gdstep(q, s, allrows(s.n), f.d, c.lr, s.n, fregp(f, r, c.opt, c.lr, s.n, s.n));
	after(f, s, r, c, q, ep + 1, out, first, fi);
}
static inline void predict(const Fam &f, Inst &m, const P &p, const Set &s, Ref<MLPPMatrix> X, const std::string &in) {
	Val v = m.many(X); mc::ok(v.d == I{ s.n }, std::string(f.name) + ":model_set_test:size", "%s: %s predictions for %d rows", in.c_str(), v.s().c_str(), s.n);
	for (int i = 0; i < s.n; i++) { F x(s.X.begin() + i * s.k, s.X.begin() + (i + 1) * s.k); double z = lin(p, s, i), e = f.f(z); if (f.f(z - 1e-3 * (1 + std::fabs(z))) != f.f(z + 1e-3 * (1 + std::fabs(z))) && std::fabs(f.f(z - 1e-4) - f.f(z + 1e-4)) > 0.5) continue; double g = m.one(x);
		mc::transition(); mc::ok(mc::close(e, g, 3e-4, 3e-5), std::string(f.name) + ":model_test", "%s: %s predicts %.7g for row %d, expected %.7g", in.c_str(), ps(p).c_str(), g, i, e);
		mc::ok(i < (int)v.v.size() && mc::close(e, v.v[i], 3e-4, 3e-5), std::string(f.name) + ":model_set_test", "%s: %s predicts %s, expected %.7g for row %d", in.c_str(), ps(p).c_str(), v.s().c_str(), e, i); }
}
// runs one history of training calls from the given start; returns false if no claim could be made
static inline bool history(const Fam &f, const Set &s, const RegP &r, const P &p0, const std::vector<Call> &h, std::set<int> *firsts = nullptr) {
	std::vector<P> ref = { p0 }; std::vector<int> fi; for (size_t i = 0; i < h.size(); i++) { std::vector<P> nx; std::vector<int> nf; for (auto &p : ref) after(f, s, r, h[i], p, 0, nx, &nf); if (i == 0) fi = nf; ref = nx; }
	for (auto &p : ref) if (p.amb || !sane(p)) return false;
	Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X); Ref<MLPPVector> y = mkv(s.y); Val fx = dump(X), fy = dump(y); std::string in = mc::fmt("%s, reg %s(%g,%g), start %s: %s", ss(s).c_str(), REGN[r.kind], r.lam, r.al, ps(p0).c_str(), cs(h).c_str()), key = std::string(f.name) + ":" + OPTN[h.back().opt];
	mc::state(in); Inst *m = f.mk(X, y, r); m->put(p0); predict(f, *m, p0, s, X, in + "before training");
	for (auto &c : h) m->train(c.opt, c.lr, c.epochs, c.mb);
	P g = m->get(); int hit = -1; for (size_t i = 0; i < ref.size() && hit < 0; i++) if (pclose(ref[i], g)) hit = i; mc::outcome(mc::fmt("%s %d/%zu", key.c_str(), hit, ref.size())); mc::transition();
	mc::ok(hit >= 0, key + ":weights", "%s ends with %s, expected %s%s", in.c_str(), ps(g).c_str(), ps(ref[0]).c_str(), ref.size() > 1 ? " or another sample order" : "");
	if (hit >= 0) { if (firsts && h.size() == 1) firsts->insert(fi[hit]); predict(f, *m, g, s, X, in); int right = 0; bool near = false; for (int i = 0; i < s.n; i++) { double o = f.f(lin(g, s, i)), q = std::fabs(o - std::floor(o) - 0.5); near = near || q < 1e-3 || std::fabs(f.f(lin(g, s, i) + 1e-4) - f.f(lin(g, s, i) - 1e-4)) > 0.5; right += std::round(o) == s.y[i]; } if (!near) mc::ok(mc::close(m->score(), (double)right / s.n, 1e-5, 1e-6), std::string(f.name) + ":score", "%s: score %g with %d of %d right", in.c_str(), m->score(), right, s.n); }
	mc::ok(same(fx, dump(X)) && same(fy, dump(y)), key + ":input-changed", "%s: training data changed", in.c_str());
	delete m; return true;
}
// the bounded space shared by every family: data sets, starting weights, regularisation, optimiser histories
static inline void explore_family(const Fam &f, const F &xs, const F &ys, const F &ws, int scale = 0, bool lite = false) {
	std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 }, { CLIP, -0.3, 0.4 } }; if (f.reg) regs.resize(1);
	std::vector<int> opts; for (int o = 0; o < NOPT; o++) if (f.opts >> o & 1) opts.push_back(o); bool T = mc::thorough();
	std::vector<std::pair<int, int>> shapes = { { 1, 1 }, { 2, 1 }, { 3, 1 }, { 1, 2 }, { 2, 2 } }; if (T) { shapes.push_back({ 4, 1 }); shapes.push_back({ 1, 3 }); }
	for (auto &sh : shapes) { int n = sh.first, k = sh.second; tuples(xs, n * k, [&](const F &X) {
		MC_CASE("%s: every target, rows %s", f.name, (Val{ { n, k }, X }).s().c_str()) tuples(ys, n, [&](const F &y) { Set s = mkset(n, k, X, y); int hsh = 0; for (float v : X) hsh = hsh * 5 + int(v * 4 + 9); for (float v : y) hsh = hsh * 3 + int(v * 2 + 3); hsh = std::abs(hsh);
			P p0; p0.amb = false; for (int j = 0; j < k; j++) p0.w.push_back(ws[(hsh + j * 3) % ws.size()]); p0.b = (hsh % 5 - 2) * 0.3;
			for (size_t ri = 0; ri < regs.size(); ri++) { if (n * k > 2 && !T && ri != hsh % regs.size()) continue; for (int o : opts) { for (int e = 1; e <= (o == SGD || (lite && !T) ? 2 : 3); e++) { double lr = e % 2 ? 0.1 : 0.5; if (o == MBGD) { for (int mb = 1; mb <= n; mb++) history(f, s, regs[ri], p0, { { o, e, mb, lr } }); } else if (o == SGD) { for (int sd = 0; sd < (n == 1 ? 1 : 3); sd++) { g_seed = hsh * 7 + sd * 13 + e; history(f, s, regs[ri], p0, { { o, e, 0, lr } }); } } else history(f, s, regs[ri], p0, { { o, e, 0, lr } }); } } } }); }); }
	// larger sets, position coded; every start, every optimiser, two-call histories
	for (int n = 2; n <= (T ? 9 : 7); n++) for (int k = 1; k <= 3; k++) MC_CASE("%s: %d rows of %d features", f.name, n, k) for (int v = 0; v < (T ? 8 : lite ? 1 : 2); v++) {
		F X, y; for (int i = 0; i < n * k; i++) X.push_back(xs[(i * (v + 2) + i / k + v + (i * i) % (v + 3)) % xs.size()] + (scale ? 0 : 0.05f * ((i * 7 + v) % 5))); for (int i = 0; i < n; i++) y.push_back(ys[(i * (v + 1) + v + i / 2) % ys.size()]);
		Set s = mkset(n, k, X, y); tuples(F{ ws[0], ws[1 % ws.size()], ws.back() }, k, [&](const F &w) { P p0; p0.amb = false; for (float q : w) p0.w.push_back(q); p0.b = 0.2 * (v - 1);
			for (size_t ri = 0; ri < regs.size(); ri++) for (int o : opts) { if (o == MBGD) { for (int mb = 1; mb <= n; mb++) history(f, s, regs[ri], p0, { { o, 1 + mb % 3, mb, 0.2 } }); } else if (o == SGD) { if (n <= 4) { g_seed = v * 31 + n; history(f, s, regs[ri], p0, { { o, 3, 0, 0.2 } }); } } else history(f, s, regs[ri], p0, { { o, 4, 0, 0.2 } });
				for (int o2 : opts) { if ((o == SGD || o2 == SGD) && n > 3) continue; g_seed = v * 17 + n + o * 3 + o2; history(f, s, regs[ri], p0, { { o, 2, 1 + n / 3, 0.2 }, { o2, 1, 1 + n / 2, 0.1 } }); } } }); }
	// every training row can be drawn by sgd, and only those
	if (f.opts >> SGD & 1) for (int n = 2; n <= 5; n++) MC_CASE("%s: sgd draws every one of %d rows", f.name, n) { F X, y; for (int i = 0; i < n; i++) { X.push_back(scale ? (i + 1) * 0.3f : 0.2f + 0.17f * i); y.push_back(ys[i % ys.size()]); } Set s = mkset(n, 1, X, y); P p0; p0.amb = false; p0.w = { ws.back() * 0.7 + 0.1 }; p0.b = 0.11; std::set<int> seen; for (int sd = 0; sd < 80; sd++) { g_seed = sd; history(f, s, { NONE, 0, 0 }, p0, { { SGD, 1, 0, 0.3 } }, &seen); } mc::ok((int)seen.size() == n, std::string(f.name) + ":sgd:coverage", "%s: 80 seeds draw only %zu of the %d rows first", f.name, seen.size(), n); }
}
#endif
