// Networks of layers: a double-precision reference of prediction, back-propagation and every optimiser, and handles on the real ANN and MANN objects.
#ifndef MC_NET_H
#define MC_NET_H
#include <algorithm>
#include "glm.h"
#include "act.h"
#define private public
#include "modules/ann/ann.h"
#include "modules/mann/mann.h"
#undef private
typedef MLPPActivation AF; typedef MLPPCost CF;
enum { O_GD, O_SGD, O_MB, O_MOM, O_NAG, O_ADAGRAD, O_ADADELTA, O_ADAM, O_ADAMAX, O_NADAM, O_AMSGRAD, N_OPT };
static const char *ONM[] = { "gradient_descent", "sgd", "mbgd", "momentum", "nag", "adagrad", "adadelta", "adam", "adamax", "nadam", "amsgrad" };
static const char *CNM[] = { "mse", "rmse", "mae", "mbe", "logistic", "cross_entropy", "hinge", "wasserstein" };
static const double GAMMA = 0.75, B1 = 0.5, B2 = 0.75, EPS = 1e-2; // exact in single precision where it matters
struct Arch { bool multi; std::vector<int> sz, act; int cost; RegP reg; int sched; double decay, drop; int L() const { return sz.size() - 1; } // sz: inputs, hidden layers, outputs; act: one per layer
	int wi(int l, int i, int j) const { int o = 0; for (int q = 0; q < l; q++) o += (sz[q] + 1) * sz[q + 1]; return o + i * sz[l + 1] + j; } int bi(int l, int j) const { return wi(l, sz[l], j); } int N() const { return wi(L(), 0, 0); }
	bool isb(int p) const { for (int l = 0; l < L(); l++) if (p >= bi(l, 0) && p < bi(l, 0) + sz[l + 1]) return true; return false; }
	std::string s() const { std::string r = multi ? "mann" : "ann"; for (size_t i = 0; i < sz.size(); i++) r += mc::fmt(" %d", sz[i]); r += " act"; for (int a : act) r += mc::fmt(" %d", a); return r + mc::fmt(" cost %s reg %s sched %d", CNM[cost], REGN[reg.kind], sched); } };
static const Act &actof(int id) { static std::vector<Act> a = acts(); for (auto &x : a) if (x.id == id) return x; return a[0]; }
static bool kinked(int id) { return id == AF::ACTIVATION_FUNCTION_RELU || id == AF::ACTIVATION_FUNCTION_SIGN || id == AF::ACTIVATION_FUNCTION_UNIT_STEP; }
static double rate(const Arch &a, double lr, int t) { return a.sched == 1 ? lr / (1 + a.decay * t) : a.sched == 2 ? lr * a.decay / std::sqrt((double)t) : a.sched == 3 ? lr * std::pow(a.decay, (int)((1 + t) / a.drop)) : a.sched == 4 ? lr * std::exp(-a.decay * t) : lr; }
typedef std::vector<D> Rows;
// values and slopes of every layer for one row
static void forward(const Arch &a, const D &w, const D &x, Rows &val, Rows &slo, bool &amb) {
	val.assign(1, x); slo.assign(1, D());
	for (int l = 0; l < a.L(); l++) { D z(a.sz[l + 1]), v, s; for (int j = 0; j < a.sz[l + 1]; j++) { z[j] = w[a.bi(l, j)]; for (int i = 0; i < a.sz[l]; i++) z[j] += w[a.wi(l, i, j)] * val[l][i]; if (!(std::fabs(z[j]) < 15)) amb = true; }
		if (a.act[l] == AF::ACTIVATION_FUNCTION_SOFTMAX) { double m = *std::max_element(z.begin(), z.end()), t = 0; for (double q : z) t += std::exp(q - m); for (double q : z) { v.push_back(std::exp(q - m) / t); s.push_back(0); } }
		else { const Act &f = actof(a.act[l]); for (double q : z) { if (!f.dom(q) || (kinked(a.act[l]) && std::fabs(q) < 1e-3)) amb = true; v.push_back(amb ? 0 : (double)f.f(q)); s.push_back(amb ? 0 : kinked(a.act[l]) ? (a.act[l] == AF::ACTIVATION_FUNCTION_RELU && q > 0 ? 1 : 0) : a.act[l] == AF::ACTIVATION_FUNCTION_SIN_C && std::fabs(q) < 1e-2 ? -q / 3 : (double)slope(f.f, q)); if (a.act[l] == AF::ACTIVATION_FUNCTION_SIN_C && std::fabs(q) < 0.05) amb = true; } }
		val.push_back(v); slo.push_back(s); }
}
struct Data { int n, k, c; F X, Y; D x(int i) const { return D(X.begin() + i * k, X.begin() + (i + 1) * k); } std::string s() const { return mc::fmt("rows %s targets %s", (Val{ { n, k }, X }).s().c_str(), (Val{ { n, c }, Y }).s().c_str()); } };
// n times the derivative of the cost of each prediction
static double cderiv(int cost, double p, double y, double rm, bool &amb) {
	switch (cost) { case 0: return p - y; case 1: if (rm < 1e-2) amb = true; return (p - y) / rm; case 2: if (std::fabs(p - y) < 1e-3) amb = true; return p > y ? 1 : -1; case 3: return 1; case 4: if (p < 5e-3 || p > 1 - 5e-3) amb = true; return -y / p + (1 - y) / (1 - p); case 5: if (std::fabs(p) < 5e-3) amb = true; return -y / p; case 6: if (std::fabs(1 - y * p) < 1e-3) amb = true; return 1 - y * p > 0 ? -y : 0; default: return -y; }
}
static D gradient(const Arch &a, const D &w, const Data &d, const I &rows, bool &amb) {
	D g(a.N(), 0.0); std::vector<Rows> V, S; double sq = 0;
	for (int r : rows) { Rows v, s; forward(a, w, d.x(r), v, s, amb); for (int q = 0; q < d.c; q++) sq += (v.back()[q] - d.Y[r * d.c + q]) * (v.back()[q] - d.Y[r * d.c + q]); V.push_back(v); S.push_back(s); }
	double rm = std::sqrt(sq / (rows.size() * d.c)); int L = a.L();
	for (size_t t = 0; t < rows.size(); t++) { D e(d.c); for (int q = 0; q < d.c; q++) { double p = V[t][L][q], y = d.Y[rows[t] * d.c + q]; e[q] = a.act[L - 1] == AF::ACTIVATION_FUNCTION_SOFTMAX ? p - y : cderiv(a.cost, p, y, rm, amb) * S[t][L][q]; }
		for (int l = L - 1; l >= 0; l--) { for (int j = 0; j < a.sz[l + 1]; j++) { g[a.bi(l, j)] += e[j]; for (int i = 0; i < a.sz[l]; i++) g[a.wi(l, i, j)] += e[j] * V[t][l][i]; }
			if (l) { D f(a.sz[l], 0.0); for (int i = 0; i < a.sz[l]; i++) { for (int j = 0; j < a.sz[l + 1]; j++) f[i] += e[j] * w[a.wi(l, i, j)]; f[i] *= S[t][l][i]; } e = f; } } }
	return g;
}
struct Opt { int opt, epochs, mb; double lr; };
static std::string os(const std::vector<Opt> &h) { std::string s; for (auto &c : h) s += mc::fmt("%s(lr %g, %d epochs, batch %d); ", ONM[c.opt], c.lr, c.epochs, c.mb); return s; }
static void mask(const Arch &a, D &v, bool bias) { for (int i = 0; i < a.N(); i++) if (a.isb(i) != bias) v[i] = 0; }
static void ref_train(const Arch &a, const Data &d, const Opt &o, const P &p0, std::vector<P> &out, I *first = nullptr) {
	struct St { P p; D m, v; int f; }; std::vector<St> cur{ { p0, D(a.N(), 0.0), D(a.N(), 0.0), -1 } };
	std::vector<bool> isb; for (int i = 0; i < a.N(); i++) isb.push_back(a.isb(i));
	for (int t = 1; t <= o.epochs; t++) { double lr = rate(a, o.lr, t); std::vector<St> nx;
		for (St &s0 : cur) { std::vector<std::vector<I>> plans; if (o.opt == O_SGD) for (int i = 0; i < d.n; i++) plans.push_back({ I{ i } }); else plans.push_back(o.opt == O_GD ? std::vector<I>{ allrows(d.n) } : batches(d.n, o.mb));
			for (auto &pl : plans) { St s = s0; if (o.opt == O_SGD && s.f < 0) s.f = pl[0][0];
				for (auto &rows : pl) { D &w = s.p.w; int N = a.N();
					if (o.opt == O_NAG) for (int i = 0; i < N; i++) if (!isb[i]) w[i] -= GAMMA * s.m[i];
					D g = gradient(a, w, d, rows, s.p.amb); double q = lr / d.n;
					if (!a.multi) { P wp; wp.amb = false; I id; for (int i = 0; i < N; i++) if (!isb[i]) { wp.w.push_back(w[i]); id.push_back(i); } D rd = regderiv(wp, a.reg, s.p.amb); for (size_t i = 0; i < id.size(); i++) g[id[i]] += rd[i]; }
					for (int i = 0; i < N; i++) { if (isb[i]) { w[i] -= q * g[i]; continue; } double &m = s.m[i], &v = s.v[i], gi = g[i];
						if (o.opt >= O_ADAGRAD && std::fabs(gi) < 1e-4 && gi != 0) s.p.amb = true; double c1 = 1 - std::pow(B1, t), c2 = 1 - std::pow(B2, t);
						switch (o.opt) {
							case O_MOM: m = GAMMA * m + q * gi; w[i] -= m; break; case O_NAG: m = GAMMA * m + q * gi; w[i] -= q * gi; break;
							case O_ADAGRAD: v += gi * gi; w[i] -= q * gi / (std::sqrt(v) + EPS); break; case O_ADADELTA: v = B1 * v + (1 - B1) * gi * gi; w[i] -= q * gi / (std::sqrt(v) + EPS); break;
							case O_ADAM: m = B1 * m + (1 - B1) * gi; v = B2 * v + (1 - B2) * gi * gi; w[i] -= q * (m / c1) / (std::sqrt(v / c2) + EPS); break;
							case O_ADAMAX: m = B1 * m + (1 - B1) * gi; v = std::max(B2 * v, std::fabs(gi)); w[i] -= q * (m / c1) / (v + EPS); break;
							case O_NADAM: m = B1 * m + (1 - B1) * gi; v = B2 * v + (1 - B2) * gi * gi; w[i] -= q * (B1 * m / c1 + (1 - B1) / c1 * gi) / (std::sqrt(v / c2) + EPS); break;
							case O_AMSGRAD: w[i] = w[i]; break;
							default: w[i] -= q * gi; } }
					if (a.multi) { P wp; wp.amb = false; I id; for (int i = 0; i < N; i++) if (!isb[i]) { wp.w.push_back(w[i]); id.push_back(i); } regstep(wp, a.reg); s.p.amb = s.p.amb || wp.amb; for (size_t i = 0; i < id.size(); i++) w[id[i]] = wp.w[i]; }
					if (o.opt == O_AMSGRAD) { static thread_local D hat; if (t == 1 && &rows == &pl[0]) hat.assign(N, 0.0); for (int i = 0; i < N; i++) if (!isb[i]) { double gi = g[i]; s.m[i] = B1 * s.m[i] + (1 - B1) * gi; s.v[i] = B2 * s.v[i] + (1 - B2) * gi * gi; hat[i] = std::max(hat[i], s.v[i]); w[i] -= q * s.m[i] / (std::sqrt(hat[i]) + EPS); } } }
				nx.push_back(s); } }
		cur = nx; }
	for (auto &s : cur) { out.push_back(s.p); if (first) first->push_back(s.f); }
}
struct XA : MLPPANN { using MLPPANN::MLPPANN; using MLPPANN::_network; using MLPPANN::_output_layer; using MLPPANN::cost; using MLPPANN::_y_hat; };
struct Real {
	Arch a; Data d; XA *n = nullptr; MLPPMANN *m = nullptr; Ref<MLPPMatrix> X, Y; Ref<MLPPVector> y;
	Real(const Arch &a_, const Data &d_) : a(a_), d(d_) {
		X = mkm(d.n, d.k, d.X); if (a.multi) { Y = mkm(d.n, d.c, d.Y); m = new MLPPMANN(X, Y); } else { y = mkv(d.Y); n = new XA(X, y); }
		auto W = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT; int L = a.L();
		for (int l = 0; l < L; l++) { auto A = (AF::ActivationFunction)a.act[l]; auto C = (CF::CostTypes)a.cost; auto R = REG[a.reg.kind]; if (l < L - 1) { if (n) n->add_layer(a.sz[l + 1], A, W, R, a.reg.lam, a.reg.al); else m->add_layer(a.sz[l + 1], A, W, R, a.reg.lam, a.reg.al); } else if (n) n->add_output_layer(A, C, W, R, a.reg.lam, a.reg.al); else m->add_output_layer(A, C, W, R, a.reg.lam, a.reg.al); }
		if (n && a.sched) { if (a.sched == 3) n->set_learning_rate_scheduler_drop(MLPPANN::SCHEDULER_TYPE_STEP, a.decay, a.drop); else n->set_learning_rate_scheduler((MLPPANN::SchedulerType)a.sched, a.decay); }
	}
	~Real() { delete n; delete m; }
	Ref<MLPPHiddenLayer> hid(int l) { return n ? n->_network[l] : m->_network[l]; }
	void put(const D &w) { int L = a.L(); for (int l = 0; l < L; l++) { F W(w.begin() + a.wi(l, 0, 0), w.begin() + a.bi(l, 0)), b(w.begin() + a.bi(l, 0), w.begin() + a.bi(l, 0) + a.sz[l + 1]); if (l < L - 1) { hid(l)->set_weights(mkm(a.sz[l], a.sz[l + 1], W)); hid(l)->set_bias(mkv(b)); } else if (n) { n->_output_layer->set_weights(mkv(W)); n->_output_layer->set_bias(b[0]); } else { m->_output_layer->set_weights(mkm(a.sz[l], a.sz[l + 1], W)); m->_output_layer->set_bias(mkv(b)); } } }
	bool get(P &p, std::string &why) { p.w.clear(); p.b = 0; p.amb = false; int L = a.L(); bool ok = true; for (int l = 0; l < L; l++) { Val W, b; if (l < L - 1) { W = dump(hid(l)->get_weights()); b = dump(hid(l)->get_bias()); } else if (n) { W = dump(n->_output_layer->get_weights()); W.d.push_back(1); b = Val{ { 1 }, { n->_output_layer->get_bias() } }; } else { W = dump(m->_output_layer->get_weights()); b = dump(m->_output_layer->get_bias()); } ok = ok && W.d == I{ a.sz[l], a.sz[l + 1] } && b.d == I{ a.sz[l + 1] }; why += W.s() + b.s(); for (float f : W.v) { p.w.push_back(f); ok = ok && std::isfinite(f); } for (float f : b.v) { p.w.push_back(f); ok = ok && std::isfinite(f); } } return ok; }
	void train(const Opt &o) { if (m) { m->gradient_descent(o.lr, o.epochs); return; }
		switch (o.opt) { case O_GD: n->gradient_descent(o.lr, o.epochs); break; case O_SGD: n->sgd(o.lr, o.epochs); break; case O_MB: n->mbgd(o.lr, o.epochs, o.mb); break; case O_MOM: n->momentum(o.lr, o.epochs, o.mb, GAMMA, false); break; case O_NAG: n->momentum(o.lr, o.epochs, o.mb, GAMMA, true); break; case O_ADAGRAD: n->adagrad(o.lr, o.epochs, o.mb, EPS); break; case O_ADADELTA: n->adadelta(o.lr, o.epochs, o.mb, B1, EPS); break; case O_ADAM: n->adam(o.lr, o.epochs, o.mb, B1, B2, EPS); break; case O_ADAMAX: n->adamax(o.lr, o.epochs, o.mb, B1, B2, EPS); break; case O_NADAM: n->nadam(o.lr, o.epochs, o.mb, B1, B2, EPS); break; case O_AMSGRAD: n->amsgrad(o.lr, o.epochs, o.mb, B1, B2, EPS); break; } }
	Val many(Ref<MLPPMatrix> Q) { if (n) { Val v = dump(n->model_set_test(Q)); v.d.push_back(1); return v; } return dump(m->model_set_test(Q)); }
	Val one(const F &x) { return n ? Val{ { 1 }, { n->model_test(mkv(x)) } } : dump(m->model_test(mkv(x))); }
	double score() { return n ? n->score() : m->score(); }
};
static void net_predict(Real &N, const D &w, const std::string &in) {
	const Arch &a = N.a; const Data &d = N.d; std::string K = a.multi ? "mann" : "ann";
	for (int extra = 0; extra < 2; extra++) { int n = extra ? d.n + 1 : d.n; F q; for (int i = 0; i < n * d.k; i++) q.push_back(extra ? 0.3f * ((i * 5) % 7 - 3) : d.X[i]);
		Val v = N.many(mkm(n, d.k, q)); if (!mc::ok(v.d == I{ n, d.c }, K + ":model_set_test:size", "%s: predictions %s for %d rows", in.c_str(), v.s().c_str(), n)) return;
		for (int i = 0; i < n; i++) { F x(q.begin() + i * d.k, q.begin() + (i + 1) * d.k); Rows val, slo; bool amb = false; forward(a, w, D(x.begin(), x.end()), val, slo, amb); Val g = N.one(x); if (amb) continue; mc::transition(); bool k1 = g.d == I{ d.c }, k2 = true; for (int c = 0; c < d.c; c++) { k1 = k1 && mc::close(val.back()[c], g.v[c], 2e-4, 3e-5); k2 = k2 && mc::close(val.back()[c], v.v[i * d.c + c], 2e-4, 3e-5); }
			mc::ok(k1, K + ":model_test", "%s: row %s gives %s, expected %.6g ...", in.c_str(), (Val{ { d.k }, x }).s().c_str(), g.s().c_str(), val.back()[0]); mc::ok(k2, K + ":model_set_test", "%s: row %d of %s, expected %.6g ...", in.c_str(), i, v.s().c_str(), val.back()[0]); } }
}
static std::string wstr(const D &w) { std::string r; for (double v : w) r += mc::fmt("%.5g ", v); return r; }
// one history on the real network against every state the reference allows; false if nothing could be claimed
static bool net_history(const Arch &a, const Data &d, const P &p0, const std::vector<Opt> &h, std::set<int> *firsts = nullptr, bool pred = true) {
	std::vector<P> ref{ p0 }; I fi; for (auto &o : h) { std::vector<P> nx; fi.clear(); for (auto &p : ref) ref_train(a, d, o, p, nx, &fi); ref = nx; }
	for (auto &p : ref) if (p.amb || !sane(p)) return false;
	for (auto &p : ref) for (double w : p.w) if (std::fabs(w) > 20) return false;
	std::string in = a.s() + ", " + d.s() + ", start " + wstr(p0.w) + ": " + os(h), K = a.multi ? "mann" : "ann", key = K + ":" + ONM[h.back().opt]; mc::state(in);
	Real N(a, d); P g; std::string why; bool ok = N.get(g, why); if (!mc::ok(ok, K + ":start", "%s starts with parameters %s", a.s().c_str(), why.c_str())) return true;
	N.put(p0.w); if (pred) net_predict(N, p0.w, in + " before training");
	for (size_t i = 0; i < h.size(); i++) { N.train(h[i]); if (pred && i + 1 < h.size()) N.many(mkm(1, d.k, F(d.k, 0.5f))); } // predicting between calls must not matter
	why.clear(); ok = N.get(g, why); mc::transition(); int hit = -1; for (size_t i = 0; ok && i < ref.size() && hit < 0; i++) if (pclose(ref[i], g, 4e-4, 4e-5)) hit = i;
	mc::outcome(mc::fmt("%s %d/%zu", key.c_str(), hit, ref.size()));
	if (mc::ok(hit >= 0, key + ":parameters", "%s ends with %s, expected %s%s", in.c_str(), why.c_str(), wstr(ref[0].w).c_str(), ref.size() > 1 ? " or another sample order" : "")) {
		if (firsts) firsts->insert(fi[hit]); if (pred) net_predict(N, g.w, in);
		int right = 0; bool near = false; for (int i = 0; i < d.n; i++) { Rows v, s; forward(a, g.w, d.x(i), v, s, near); bool all = true; for (int q = 0; q < d.c; q++) { double o = v.back()[q]; near = near || std::fabs(o - std::floor(o) - 0.5) < 1e-3; all = all && std::round(o) == d.Y[i * d.c + q]; } right += all; }
		double sc = N.score(); if (!near) mc::ok(mc::close((double)right / d.n, sc, 1e-5, 1e-6), K + ":score", "%s: score %g with %d of %d rows right", in.c_str(), sc, right, d.n);
	}
	mc::ok(same(dump(N.X), Val{ { d.n, d.k }, d.X }) && (!N.y.is_valid() || same(dump(N.y), Val{ { d.n }, d.Y })) && (!N.Y.is_valid() || same(dump(N.Y), Val{ { d.n, d.c }, d.Y })), key + ":input-changed", "%s: training data changed", in.c_str());
	return true;
}
static P net_start(const Arch &a, int v) { static const double g[] = { 0.5, -0.75, 0.25, 1, -0.375, 0.8, -1.25, 0.6, -0.5 }; P p; p.amb = false; p.b = 0; for (int i = 0; i < a.N(); i++) p.w.push_back(g[(i * (v % 7 + 1) + v) % 9]); return p; }
static Data net_data(int n, int k, int c, int v, bool binary, bool multi) { Data d{ n, k, c, {}, {} }; for (int i = 0; i < n * k; i++) d.X.push_back(0.25f * ((i * (v % 5 + 3) + i / k + v) % 9 - 4)); for (int i = 0; i < n; i++) for (int q = 0; q < c; q++) d.Y.push_back(multi && c > 1 && binary ? (float)((i * (v + 1) + v) % c == q) : binary ? (float)((i + v + i / 2 + q) % 2) : 0.5f * ((i * 3 + q + v) % 5 - 2)); return d; }
#endif
