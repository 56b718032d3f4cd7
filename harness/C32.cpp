// MC: variant=asan
// C32: probit, complementary log-log, tanh and exponential regression. Every small data set, start, regularisation, optimiser history and sample order against the update rule.
#include "glm.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/exp_reg/exp_reg.h"
static double ncdf(double z) { return 0.5 * (1 + std::erf(z / std::sqrt(2.0))); }
static double cll(double z) { return 1 - std::exp(-std::exp(z)); }
static double th(double z) { return std::tanh(z); }
static F fl(const D &d) { return F(d.begin(), d.end()); }
#define COMMON(C, B) C##M(Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) : C(X, y, REG[r.kind], r.lam, r.al) {} \
	void put(const P &p) { _weights = mkv(fl(p.w)); B = p.b; } P get() { P p; p.amb = false; for (int i = 0; i < _weights->size(); i++) p.w.push_back(_weights->element_get(i)); p.b = B; return p; } \
	double one(const F &x) { return model_test(mkv(x)); } Val many(Ref<MLPPMatrix> X) { return dump(model_set_test(X)); } double score() { return C::score(); } \
	static Inst *mk(Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) { return new C##M(X, y, r); }
struct MLPPProbitRegM : Inst, MLPPProbitReg { COMMON(MLPPProbitReg, _bias) void train(int o, double lr, int e, int mb) { if (o == GD) train_gradient_descent(lr, e); if (o == SGD) train_sgd(lr, e); if (o == MBGD) train_mbgd(lr, e, mb); if (o == MLE) train_mle(lr, e); } };
struct MLPPCLogLogRegM : Inst, MLPPCLogLogReg { COMMON(MLPPCLogLogReg, bias) void train(int o, double lr, int e, int mb) { if (o == GD) gradient_descent(lr, e); if (o == SGD) sgd(lr, e); if (o == MBGD) mbgd(lr, e, mb); if (o == MLE) mle(lr, e); } };
struct MLPPTanhRegM : Inst, MLPPTanhReg { COMMON(MLPPTanhReg, _bias) void train(int o, double lr, int e, int mb) { if (o == GD) train_gradient_descent(lr, e); if (o == SGD) train_sgd(lr, e); if (o == MBGD) train_mbgd(lr, e, mb); } };
// exponential regression: w holds the bases followed by the initial factors
struct MLPPExpRegM : Inst, MLPPExpReg { MLPPExpRegM(Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) : MLPPExpReg(X, y, REG[r.kind], r.lam, r.al) {}
	void put(const P &p) { int k = p.w.size() / 2; _weights = mkv(fl(D(p.w.begin(), p.w.begin() + k))); _initial = mkv(fl(D(p.w.begin() + k, p.w.end()))); _bias = p.b; }
	P get() { P p; p.amb = false; for (int i = 0; i < _weights->size(); i++) p.w.push_back(_weights->element_get(i)); for (int i = 0; i < _initial->size(); i++) p.w.push_back(_initial->element_get(i)); p.b = _bias; return p; }
	void train(int o, double lr, int e, int mb) { if (o == GD) gradient_descent(lr, e); if (o == SGD) sgd(lr, e); if (o == MBGD) mbgd(lr, e, mb); }
	double one(const F &x) { return model_test(mkv(x)); } Val many(Ref<MLPPMatrix> X) { return dump(model_set_test(X)); } double score() { return MLPPExpReg::score(); } };
static double ex(const P &p, const Set &s, int i) { double z = p.b; for (int j = 0; j < s.k; j++) z += p.w[s.k + j] * std::pow(p.w[j], s.x(i, j)); return z; }
static void estep(P &p, const Set &s, const I &rows, double lr, const RegP &r) {
	int k = s.k; D g(2 * k, 0.0); double gb = 0; for (int i : rows) { double e = (ex(p, s, i) - s.y[i]) / rows.size(); gb += e; for (int j = 0; j < k; j++) { g[j] += e * p.w[k + j] * s.x(i, j) * std::pow(p.w[j], s.x(i, j) - 1); g[k + j] += e * std::pow(p.w[j], s.x(i, j)); } }
	P q = p; q.w.resize(k); for (int j = 0; j < k; j++) { q.w[j] -= lr * g[j]; p.w[k + j] -= lr * g[k + j]; } regstep(q, r); p.amb = p.amb || q.amb; for (int j = 0; j < k; j++) { p.w[j] = q.w[j]; if (std::fabs(p.w[j]) < 0.1) p.amb = true; } p.b -= lr * gb;
}
static void eafter(const Set &s, const RegP &r, const Call &c, const P &p, int ep, std::vector<P> &out) { if (ep == c.epochs) { out.push_back(p); return; } if (c.opt == SGD) { for (int i = 0; i < s.n; i++) { P q = p; estep(q, s, I{ i }, c.lr, r); eafter(s, r, c, q, ep + 1, out); } return; } P q = p; if (c.opt == MBGD) for (auto &b : batches(s.n, c.mb)) estep(q, s, b, c.lr, r); else estep(q, s, allrows(s.n), c.lr, r); eafter(s, r, c, q, ep + 1, out); }
static void epredict(Inst &m, const P &p, const Set &s, Ref<MLPPMatrix> X, const std::string &in) { Val v = m.many(X); mc::ok(v.d == I{ s.n }, "exponential:model_set_test:size", "%s: %s predictions for %d rows", in.c_str(), v.s().c_str(), s.n); for (int i = 0; i < s.n; i++) { F x(s.X.begin() + i * s.k, s.X.begin() + (i + 1) * s.k); double e = ex(p, s, i), g = m.one(x); mc::transition(); mc::ok(mc::close(e, g, 3e-4, 3e-5), "exponential:model_test", "%s: %s predicts %.7g for row %d, expected %.7g", in.c_str(), ps(p).c_str(), g, i, e); mc::ok(i < (int)v.v.size() && mc::close(e, v.v[i], 3e-4, 3e-5), "exponential:model_set_test", "%s: %s predicts %s, expected %.7g for row %d", in.c_str(), ps(p).c_str(), v.s().c_str(), e, i); } }
static void ehistory(const Set &s, const RegP &r, const P &p0, const std::vector<Call> &h) {
	std::vector<P> ref = { p0 }; for (auto &c : h) { std::vector<P> nx; for (auto &p : ref) eafter(s, r, c, p, 0, nx); ref = nx; } for (auto &p : ref) { if (p.amb || !sane(p)) return; for (double w : p.w) if (!(std::fabs(w) < 20)) return; }
	Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X); Ref<MLPPVector> y = mkv(s.y); Val fx = dump(X), fy = dump(y); std::string in = mc::fmt("%s, reg %s(%g,%g), start %s: %s", ss(s).c_str(), REGN[r.kind], r.lam, r.al, ps(p0).c_str(), cs(h).c_str()), key = std::string("exponential:") + OPTN[h.back().opt]; mc::state(in);
	MLPPExpRegM *m = new MLPPExpRegM(X, y, r); m->put(p0); epredict(*m, p0, s, X, in); for (auto &c : h) m->train(c.opt, c.lr, c.epochs, c.mb); P g = m->get(); int hit = -1; for (size_t i = 0; i < ref.size() && hit < 0; i++) if (pclose(ref[i], g, 5e-4, 1e-4)) hit = i; mc::outcome(mc::fmt("%s %d/%zu", key.c_str(), hit, ref.size())); mc::transition();
	if (mc::ok(hit >= 0, key + ":weights", "%s ends with %s, expected %s%s", in.c_str(), ps(g).c_str(), ps(ref[0]).c_str(), ref.size() > 1 ? " or another sample order" : "")) epredict(*m, g, s, X, in);
	mc::ok(same(fx, dump(X)) && same(fy, dump(y)), key + ":input-changed", "%s: training data changed", in.c_str()); delete m;
}
static void exponential() {
	bool T = mc::thorough(); std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 }, { CLIP, 0.3, 1.2 } }; F xs = { 0, 1, 2, 0.5f, -1 };
	for (int n = 1; n <= (T ? 6 : 5); n++) for (int k = 1; k <= 3; k++) MC_CASE("exponential: %d rows of %d features", n, k) for (int v = 0; v < (T ? 10 : 2); v++) { F X, y; for (int i = 0; i < n * k; i++) X.push_back(xs[(i * (v + 2) + i / k + v + i * i) % 5]); for (int i = 0; i < n; i++) y.push_back((i * (v + 1) + v) % 4 * 0.75f - 0.5f); Set s = mkset(n, k, X, y);
		tuples(F{ 0.5f, 1.5f }, k, [&](const F &w) { tuples(F{ 1, -0.5f }, k, [&](const F &a) { P p0; p0.amb = false; p0.w = D(w.begin(), w.end()); p0.w.insert(p0.w.end(), a.begin(), a.end()); p0.b = 0.2 * (v - 1); for (auto &r : regs) for (int e = 1; e <= 3; e++) { Call g = { GD, e, 0, 0.1 }; ehistory(s, r, p0, { g }); for (int mb = 1; mb <= n; mb++) ehistory(s, r, p0, { { MBGD, e, mb, 0.1 } }); if (n <= 3 || e == 1) for (unsigned sd = 0; sd < 3; sd++) { g_seed = sd * 7 + n + v + e; ehistory(s, r, p0, { { SGD, e, 0, 0.1 } }); } if (e == 1) ehistory(s, r, p0, { { MBGD, 1, 1 + n / 2, 0.1 }, g }); } }); }); }
}
template <class T> static void props(const char *n, double (*f)(double)) { MC_CASE("%s set through its properties", n) { Ref<MLPPMatrix> X = mkm(2, 2, { 1, 2, -1, 3 }); Ref<MLPPVector> y = mkv({ 1, 0 }); T m; m.set_input_set(X); m.set_output_set(y); m.set_reg(REG[ELASTIC]); m.set_lambda(0.375); m.set_alpha(0.125); std::string k = std::string(n) + ":properties"; mc::transition(); mc::state(k);
	mc::ok((void *)m.get_output_set().ptr() == (void *)y.ptr() && m.get_input_set() == X && m.get_reg() == REG[ELASTIC] && m.get_lambda() == 0.375f && m.get_alpha() == 0.125f, k, "properties not kept"); mc::ok(m.needs_init(), k + ":needs_init", "claims to be ready"); m.initialize(); mc::ok(!m.needs_init(), k + ":initialize", "initialize does not initialise"); m.data_weights_set(mkv({ 1, 0.5f })); m.data_bias_set(-0.25f); mc::ok(mc::close(m.model_test(mkv({ 1, 2 })), f(1.75), 1e-5, 1e-6), k + ":predict", "predicts %g, expected %g", m.model_test(mkv({ 1, 2 })), f(1.75));
	m.train_gradient_descent(0.1, 1); mc::ok(m.data_weights_get()->size() == 2 && same(dump(X), Val{ { 2, 2 }, { 1, 2, -1, 3 } }), k + ":train", "training from properties"); } }
void explore() {
	props<MLPPProbitReg>("probit", ncdf); props<MLPPTanhReg>("tanh", th);
	Fam p = { "probit", ncdf, [](double z, double y) { return (ncdf(z) - y) * std::exp(-z * z / 2) / std::sqrt(2 * M_PI); }, 1u << GD | 1u << SGD | 1u << MBGD | 1u << MLE, false, nullptr, MLPPProbitRegM::mk };
	Fam c = { "cloglog", cll, [](double z, double y) { return (cll(z) - y) * std::exp(z - std::exp(z)); }, 1u << GD | 1u << SGD | 1u << MBGD | 1u << MLE, true, nullptr, MLPPCLogLogRegM::mk };
	Fam t = { "tanh", th, [](double z, double y) { return (th(z) - y) * (1 - th(z) * th(z)); }, 1u << GD | 1u << SGD | 1u << MBGD, true, nullptr, MLPPTanhRegM::mk };
	explore_family(p, { -1, 0, 0.5f, 2 }, { 0, 1 }, { 0.5f, -0.75f, 0.2f, 0 }, 0, true); explore_family(c, { -1, 0, 0.5f, 2 }, { 0, 1 }, { 0.5f, -0.75f, 0.2f, 0 }, 0, true); explore_family(t, { -1, 0, 0.5f, 2 }, { -1, 1 }, { 0.5f, -0.75f, 0.2f, 0 }, 0, true); exponential();
}
