// MC: variant=asan
// C36: two-layer networks (multilayer perceptron, soft-max network, auto-encoder). Every small data set, start, regularisation, optimiser history and sample order against back-propagation in double precision.
#include "glm.h"
#include "modules/mlp/mlp.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/auto_encoder/auto_encoder.h"
enum { MLP, SMN, AEN };
static const char *NN[] = { "mlp", "softmax_net", "auto_encoder" };
struct NS { int kind, n, k, h, c; F X, y; std::string s() const { return mc::fmt("%s hidden %d rows %s targets %s", NN[kind], h, (Val{ { n, k }, X }).s().c_str(), (Val{ { n, c }, y }).s().c_str()); } };
// parameters in one row: w1 (k x h), w2 (h x c), b1 (h), b2 (c)
struct Ix { int k, h, c; int w1(int i, int j) const { return i * h + j; } int w2(int j, int q) const { return k * h + j * c + q; } int b1(int j) const { return k * h + h * c + j; } int b2(int q) const { return k * h + h * c + h + q; } int W() const { return k * h + h * c; } int N() const { return W() + h + c; } };
static Ix ix(const NS &s) { return Ix{ s.k, s.h, s.c }; }
static void fwd(const NS &s, const D &w, const double *x, D &a, D &o) {
	Ix I_ = ix(s); a.assign(s.h, 0); o.assign(s.c, 0);
	for (int j = 0; j < s.h; j++) { double z = w[I_.b1(j)]; for (int i = 0; i < s.k; i++) z += w[I_.w1(i, j)] * x[i]; a[j] = 1 / (1 + std::exp(-z)); }
	double m = -1e300, t = 0; for (int q = 0; q < s.c; q++) { o[q] = w[I_.b2(q)]; for (int j = 0; j < s.h; j++) o[q] += w[I_.w2(j, q)] * a[j]; m = std::max(m, o[q]); }
	if (s.kind == MLP) o[0] = 1 / (1 + std::exp(-o[0]));
	if (s.kind == SMN) { for (double &v : o) t += v = std::exp(v - m); for (double &v : o) v /= t; }
}
static double costd(const NS &s, const D &w, const I &rows) { // mean log loss, summed cross entropy, half mean squared error
	double C = 0; D a, o; for (int r : rows) { D x(s.X.begin() + r * s.k, s.X.begin() + (r + 1) * s.k); fwd(s, w, x.data(), a, o); for (int q = 0; q < s.c; q++) { double y = s.y[r * s.c + q]; C += s.kind == MLP ? -(y * std::log(o[q]) + (1 - y) * std::log(1 - o[q])) : s.kind == SMN ? -y * std::log(o[q]) : (o[q] - y) * (o[q] - y) / 2; } }
	return s.kind == SMN ? C : C / rows.size();
}
static void step(P &p, const NS &s, const I &rows, double lr, const RegP &r) {
	Ix I_ = ix(s); D g(I_.N(), 0.0), a, o; double div = s.kind == SMN ? 1 : rows.size();
	for (int row : rows) { D x(s.X.begin() + row * s.k, s.X.begin() + (row + 1) * s.k); fwd(s, p.w, x.data(), a, o); D e(s.c); for (int q = 0; q < s.c; q++) { e[q] = o[q] - s.y[row * s.c + q]; g[I_.b2(q)] += e[q]; for (int j = 0; j < s.h; j++) g[I_.w2(j, q)] += a[j] * e[q]; }
		for (int j = 0; j < s.h; j++) { double d = 0; for (int q = 0; q < s.c; q++) d += e[q] * p.w[I_.w2(j, q)]; d *= a[j] * (1 - a[j]); g[I_.b1(j)] += d; for (int i = 0; i < s.k; i++) g[I_.w1(i, j)] += d * x[i]; } }
	for (double &v : g) v /= div;
	P q; q.amb = false; for (int i = 0; i < I_.W(); i++) q.w.push_back(p.w[i] - lr * g[i]); regstep(q, r); p.amb = p.amb || q.amb;
	for (int i = 0; i < I_.N(); i++) p.w[i] = i < I_.W() ? q.w[i] : p.w[i] - lr * g[i];
}
static void after(const NS &s, const RegP &r, const Call &c, const P &p, int ep, std::vector<P> &out, I &fi, int f = -1) {
	if (ep == c.epochs) { out.push_back(p); fi.push_back(f); return; }
	if (c.opt == SGD) { for (int i = 0; i < s.n; i++) { P q = p; step(q, s, I{ i }, c.lr, r); after(s, r, c, q, ep + 1, out, fi, ep ? f : i); } return; }
	P q = p; if (c.opt == GD) step(q, s, allrows(s.n), c.lr, r); else for (auto &b : batches(s.n, c.mb)) step(q, s, b, c.lr, r);
	after(s, r, c, q, ep + 1, out, fi, f);
}
// access to the parameters held by the real objects
struct TM : MLPPMLP { using MLPPMLP::MLPPMLP; using MLPPMLP::_weights1; using MLPPMLP::_weights2; using MLPPMLP::_bias1; using MLPPMLP::_bias2; using MLPPMLP::cost; };
struct TS : MLPPSoftmaxNet { using MLPPSoftmaxNet::MLPPSoftmaxNet; using MLPPSoftmaxNet::_weights1; using MLPPSoftmaxNet::_weights2; using MLPPSoftmaxNet::_bias1; using MLPPSoftmaxNet::_bias2; using MLPPSoftmaxNet::cost; };
struct TA : MLPPAutoEncoder { using MLPPAutoEncoder::MLPPAutoEncoder; using MLPPAutoEncoder::_weights1; using MLPPAutoEncoder::_weights2; using MLPPAutoEncoder::_bias1; using MLPPAutoEncoder::_bias2; using MLPPAutoEncoder::cost; };
struct Net {
	NS s; TM *m = nullptr; TS *t = nullptr; TA *a = nullptr; Ref<MLPPMatrix> X, Y; Ref<MLPPVector> y;
	Net(const NS &s_, const RegP &r) : s(s_) { X = mkm(s.n, s.k, s.X); if (s.kind == MLP) { y = mkv(s.y); m = new TM(X, y, s.h, REG[r.kind], r.lam, r.al); } if (s.kind == SMN) { Y = mkm(s.n, s.c, s.y); t = new TS(X, Y, s.h, REG[r.kind], r.lam, r.al); } if (s.kind == AEN) a = new TA(X, s.h); }
	~Net() { delete m; delete t; delete a; }
	void put(const D &w) { Ix I_ = ix(s); auto cut = [&](int from, int n) { return F(w.begin() + from, w.begin() + from + n); }; F w1 = cut(0, s.k * s.h), w2 = cut(s.k * s.h, s.h * s.c), b1 = cut(I_.W(), s.h), b2 = cut(I_.W() + s.h, s.c);
		if (m) { m->_weights1->set_from_mlpp_matrix(mkm(s.k, s.h, w1)); m->_weights2->set_from_mlpp_vector(mkv(w2)); m->_bias1->set_from_mlpp_vector(mkv(b1)); m->_bias2 = b2[0]; }
		if (t) { t->data_weights1_set(mkm(s.k, s.h, w1)); t->data_weights2_set(mkm(s.h, s.c, w2)); t->data_bias1_set(mkv(b1)); t->data_bias2_set(mkv(b2)); }
		if (a) { a->_weights1 = mkm(s.k, s.h, w1); a->_weights2 = mkm(s.h, s.c, w2); a->_bias1 = mkv(b1); a->_bias2 = mkv(b2); } }
	bool get(D &w, std::string &why) { Val v[4]; if (m) { v[0] = dump(m->_weights1); v[1] = dump(m->_weights2); v[2] = dump(m->_bias1); v[3] = Val{ { 1 }, { m->_bias2 } }; v[1].d.push_back(1); } if (t) { v[0] = dump(t->data_weights1_get()); v[1] = dump(t->data_weights2_get()); v[2] = dump(t->data_bias1_get()); v[3] = dump(t->data_bias2_get()); } if (a) { v[0] = dump(a->_weights1); v[1] = dump(a->_weights2); v[2] = dump(a->_bias1); v[3] = dump(a->_bias2); }
		w.clear(); for (auto &x : v) { why += x.s(); for (float f : x.v) { w.push_back(f); if (!std::isfinite(f)) return false; } } return v[0].d == I{ s.k, s.h } && v[1].d == I{ s.h, s.c } && v[2].d == I{ s.h } && v[3].d == I{ s.c }; }
	void train(const Call &c) { if (m) { if (c.opt == GD) m->gradient_descent(c.lr, c.epochs); if (c.opt == SGD) m->sgd(c.lr, c.epochs); if (c.opt == MBGD) m->mbgd(c.lr, c.epochs, c.mb); } if (t) { if (c.opt == GD) t->train_gradient_descent(c.lr, c.epochs); if (c.opt == SGD) t->train_sgd(c.lr, c.epochs); if (c.opt == MBGD) t->train_mbgd(c.lr, c.epochs, c.mb); } if (a) { if (c.opt == GD) a->gradient_descent(c.lr, c.epochs); if (c.opt == SGD) a->sgd(c.lr, c.epochs); if (c.opt == MBGD) a->mbgd(c.lr, c.epochs, c.mb); } }
	Val many(Ref<MLPPMatrix> Q) { if (m) { Val v = dump(m->model_set_test(Q)); v.d.push_back(1); return v; } return t ? dump(t->model_set_test(Q)) : dump(a->model_set_test(Q)); }
	Val one(const F &x) { if (m) return Val{ { 1 }, { m->model_test(mkv(x)) } }; return t ? dump(t->model_test(mkv(x))) : dump(a->model_test(mkv(x))); }
	double score() { return m ? m->score() : t ? t->score() : a->score(); }
};
static void predict(Net &N, const D &w, const NS &s, const std::string &in) {
	for (int extra = 0; extra < 2; extra++) { // the training rows, and other rows in another number
		int n = extra ? s.n + 1 : s.n; F q; for (int i = 0; i < n * s.k; i++) q.push_back(extra ? 0.3f * ((i * 5) % 7 - 3) : s.X[i]);
		Val v = N.many(mkm(n, s.k, q)); mc::ok(v.d == I{ n, s.c }, std::string(NN[s.kind]) + ":model_set_test:size", "%s: predictions %s", in.c_str(), v.s().c_str()); if (v.d != I{ n, s.c }) return;
		for (int i = 0; i < n; i++) { F x(q.begin() + i * s.k, q.begin() + (i + 1) * s.k); Val g = N.one(x); D xd(x.begin(), x.end()), a, e; fwd(s, w, xd.data(), a, e); mc::transition(); bool ok1 = g.d == I{ s.c }, ok2 = true; for (int j = 0; j < s.c; j++) { ok1 = ok1 && mc::close(e[j], g.v[j], 1e-4, 1e-5); ok2 = ok2 && mc::close(e[j], v.v[i * s.c + j], 1e-4, 1e-5); }
			mc::ok(ok1, std::string(NN[s.kind]) + ":model_test", "%s: row %s gives %s, expected %.6g ...", in.c_str(), (Val{ { s.k }, x }).s().c_str(), g.s().c_str(), e[0]); mc::ok(ok2, std::string(NN[s.kind]) + ":model_set_test", "%s: row %d of %s, expected %.6g ...", in.c_str(), i, v.s().c_str(), e[0]); }
	}
}
static std::string wsx(const D &w) { std::string r; for (double v : w) r += mc::fmt("%.5g ", v); return r; }
static void history(const NS &s, const RegP &r, const P &p0, const std::vector<Call> &h, std::set<int> *firsts = nullptr) {
	std::vector<P> ref = { p0 }; I fi; for (auto &c : h) { std::vector<P> nx; fi.clear(); for (auto &p : ref) after(s, r, c, p, 0, nx, fi); ref = nx; }
	for (auto &p : ref) if (p.amb || !sane(p)) return;
	std::string in = mc::fmt("%s, reg %s, start %s: %s", s.s().c_str(), REGN[r.kind], wsx(p0.w).c_str(), cs(h).c_str()), key = mc::fmt("%s:%s", NN[s.kind], OPTN[h.back().opt]); mc::state(in);
	Net N(s, r); D w0; std::string why; bool ok = N.get(w0, why); mc::ok(ok, mc::fmt("%s:start", NN[s.kind]), "%s starts with parameters %s", s.s().c_str(), why.c_str()); if (!ok) return;
	N.put(p0.w); if (h.size() == 1 && h[0].opt == GD && h[0].epochs != 2) predict(N, p0.w, s, in + " before training"); for (auto &c : h) N.train(c);
	P g; g.b = 0; g.amb = false; why.clear(); ok = N.get(g.w, why); mc::transition(); int hit = -1; for (size_t i = 0; ok && i < ref.size() && hit < 0; i++) if (pclose(ref[i], g, 2e-4, 2e-5)) hit = i;
	mc::outcome(mc::fmt("%s %d/%zu", key.c_str(), hit, ref.size()));
	if (mc::ok(hit >= 0, key + ":parameters", "%s ends with %s, expected %s%s", in.c_str(), why.c_str(), wsx(ref[0].w).c_str(), ref.size() > 1 ? " or another sample order" : "")) {
		if (firsts) firsts->insert(fi[hit]); predict(N, g.w, s, in);
		int right = 0; bool near = false; for (int i = 0; i < s.n; i++) { D x(s.X.begin() + i * s.k, s.X.begin() + (i + 1) * s.k), a, o; fwd(s, g.w, x.data(), a, o); bool all = true; for (int q = 0; q < s.c; q++) { double y = s.y[i * s.c + q], f = o[q] - std::floor(o[q]) - 0.5; near = near || std::fabs(f) < 1e-3; all = all && std::round(o[q]) == y; } right += all; }
		double sc = N.score(); if (!near) mc::ok(mc::close((double)right / s.n, sc, 1e-5, 1e-6), key + ":score", "%s: score %g with %d of %d rows right", in.c_str(), sc, right, s.n);
	}
	mc::ok(same(dump(N.X), Val{ { s.n, s.k }, s.X }) && (!N.y.is_valid() || same(dump(N.y), Val{ { s.n }, s.y })) && (!N.Y.is_valid() || same(dump(N.Y), Val{ { s.n, s.c }, s.y })), key + ":input-changed", "%s: training data changed", in.c_str());
}
static P start(const NS &s, int v) { static const double g[] = { 0.5, -0.75, 0.25, 1, -0.375, 0.8, -1.25 }; P p; p.amb = false; p.b = 0; for (int i = 0; i < ix(s).N(); i++) p.w.push_back(g[(i * (v % 6 + 1) + v) % 7]); return p; }
// the cost each network reports, and that the reference step descends exactly that cost
static void costs(const NS &s, const RegP &r, const P &p) {
	D num(ix(s).N()); for (size_t i = 0; i < num.size(); i++) { D a = p.w, b = p.w; a[i] += 1e-5; b[i] -= 1e-5; num[i] = (costd(s, a, allrows(s.n)) - costd(s, b, allrows(s.n))) / 2e-5; }
	P q = p; step(q, s, allrows(s.n), 1, RegP{ NONE, 0, 0 }); for (size_t i = 0; i < num.size(); i++) mc::ok(mc::close(num[i], p.w[i] - q.w[i], 1e-5, 1e-7), std::string(NN[s.kind]) + ":reference", "reference gradient %g, slope of the cost %g", p.w[i] - q.w[i], num[i]);
	if (r.kind == CLIP) return; double t = 0; for (int i = 0; i < ix(s).W(); i++) { double w = p.w[i]; if (r.kind == RIDGE) t += r.lam / 2 * w * w; if (r.kind == LASSO) t += r.lam * std::fabs(w); if (r.kind == ELASTIC) t += r.lam * (r.al * std::fabs(w) + (1 - r.al) / 2 * w * w); }
	Net N(s, r); N.put(p.w); Val v = N.many(N.X); double e = costd(s, p.w, allrows(s.n)) / (s.kind == AEN ? s.k : 1) + /* the mean squared error is over all entries */ (s.kind == AEN ? 0 : t), g = s.kind == MLP ? N.m->cost(mkv(v.v), N.y) : s.kind == SMN ? N.t->cost(mkm(s.n, s.c, v.v), N.Y) : N.a->cost(mkm(s.n, s.c, v.v), N.X); mc::transition();
	mc::ok(mc::close(e, g, 1e-4, 1e-5), std::string(NN[s.kind]) + ":cost", "%s, reg %s, parameters %s: cost %.7g, expected %.7g", s.s().c_str(), REGN[r.kind], wsx(p.w).c_str(), g, e);
}
static NS mkns(int kind, int n, int k, int h, int c, const F &X, int v) { NS s{ kind, n, k, h, kind == MLP ? 1 : kind == AEN ? k : c, X, {} }; if (kind == AEN) s.y = X; else for (int i = 0; i < n; i++) { int l = (i * (v + 1) + v + i / 2) % (kind == MLP ? 2 : c); if (kind == MLP) s.y.push_back(l); else for (int q = 0; q < c; q++) s.y.push_back(q == l); } return s; }
// a network configured (again) through its properties behaves like one constructed with the same settings; starting weights are drawn
static void properties(int kind) {
	for (int n1 = 1; n1 <= 3; n1++) for (int k1 = 1; k1 <= 2; k1++) for (int n2 = 1; n2 <= 3; n2++) for (int k2 = 1; k2 <= 3; k2++) for (int h1 = 1; h1 <= 2; h1++) for (int h2 = 1; h2 <= 3; h2++) for (int ri = 0; ri < 4; ri++) {
		if (kind == SMN && h1 != h2) continue; // its number of hidden units is set at construction only
		RegP r = ri == 0 ? RegP{ NONE, 0, 0 } : ri == 1 ? RegP{ RIDGE, 0.25, 0.5 } : ri == 2 ? RegP{ LASSO, 0.125, 0.5 } : RegP{ ELASTIC, 0.25, 0.75 }; if (kind == AEN && ri) continue;
		auto data = [&](int n, int k, int h, int v) { F X; for (int i = 0; i < n * k; i++) X.push_back(0.25f * ((i * 5 + v) % 9 - 4)); return mkns(kind, n, k, h, 2 + v % 2, X, v); };
		NS a = data(n1, k1, h1, 0), b = data(n2, k2, h2, 1); P p = start(b, n1 + k2); P q = p; step(q, b, allrows(b.n), 0.2, r); if (q.amb || !sane(q)) continue;
		std::string in = mc::fmt("%s; then set to %s, reg %s", a.s().c_str(), b.s().c_str(), REGN[r.kind]), key = NN[kind]; mc::state(in); mc::transition();
		g_seed = n1 + 3 * n2; Net N(a, RegP{ NONE, 0, 0 }); D w0, w1; std::string why; N.get(w0, why); bool refused = true;
		Ref<MLPPMatrix> X = mkm(b.n, b.k, b.X);
		if (N.m) { N.m->set_input_set(X); N.m->set_output_set(mkv(b.y)); N.m->set_n_hidden(h2); N.m->set_reg(REG[r.kind]); N.m->set_lambda(r.lam); N.m->set_alpha(r.al); N.train({ GD, 1, 0, 0.2 }); N.train({ SGD, 1, 0, 0.2 }); N.train({ MBGD, 1, 1, 0.2 }); N.get(w1, why); refused = w0 == w1; mc::ok(!N.m->is_initialized(), key + ":properties:initialized", "%s: initialized before initialize()", in.c_str()); N.m->initialize(); }
		if (N.a) { N.a->set_input_set(X); N.train({ GD, 1, 0, 0.2 }); N.train({ SGD, 1, 0, 0.2 }); N.train({ MBGD, 1, 1, 0.2 }); N.get(w1, why); refused = w0 == w1; mc::ok(!N.a->model_set_test(X).is_valid() && !N.a->model_test(mkv(F(b.k, 1))).is_valid(), key + ":properties:predict", "%s: predicts with parameters of the former data", in.c_str()); }
		mc::ok(refused, key + ":properties:refuse", "%s: trains with parameters of the former data", in.c_str()); if (kind == AEN) continue; // this one cannot be initialised again
		if (N.t) { N.t->set_input_set(X); N.t->set_output_set(mkm(b.n, b.c, b.y)); N.t->set_reg(REG[r.kind]); N.t->set_lambda(r.lam); N.t->set_alpha(r.al); N.t->initialize(); }
		N.s = b; N.X = X; bool ok = N.get(w1, why); mc::ok(ok, key + ":properties:start", "%s: parameters %s", in.c_str(), why.c_str()); if (!ok) continue;
		N.put(p.w); N.train({ GD, 1, 0, 0.2 }); P g; g.b = 0; g.amb = false; ok = N.get(g.w, why); mc::ok(ok && pclose(q, g, 2e-4, 2e-5), key + ":properties:parameters", "%s: one step ends with %s, expected %s", in.c_str(), why.c_str(), wsx(q.w).c_str()); predict(N, g.w, b, in);
	}
}
static void drawn(int kind) { // starting weights are random: every one of them differs between some seeds, and they stay small
	for (int h = 1; h <= 3; h++) for (int k = 1; k <= 3; k++) { F X(2 * k, 0.5f); NS s = mkns(kind, 2, k, h, 3, X, 0); D first; std::vector<bool> moved; for (int sd = 0; sd < 12; sd++) { g_seed = sd * 77 + 5; Net N(s, RegP{ NONE, 0, 0 }); D w; std::string why; bool ok = N.get(w, why); mc::transition(); mc::ok(ok, std::string(NN[kind]) + ":start", "%s starts with %s", s.s().c_str(), why.c_str()); if (!ok) return; if (!sd) { first = w; moved.assign(w.size(), false); } for (size_t i = 0; i < w.size(); i++) if (w[i] != first[i]) moved[i] = true; }
		for (int i = 0; i < ix(s).W(); i++) mc::ok(moved[i], std::string(NN[kind]) + ":start:drawn", "%s: weight %d starts with %g under 12 seeds", s.s().c_str(), i, first[i]); }
}
void explore() {
	for (int kind = 0; kind < 3; kind++) { MC_CASE("%s configured again through its properties", NN[kind]) properties(kind); MC_CASE("%s starting weights are drawn", NN[kind]) drawn(kind); }
	bool T = mc::thorough(); std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 }, { CLIP, -0.3, 0.4 } };
	int sh[][2] = { { 1, 1 }, { 2, 1 }, { 3, 1 }, { 1, 2 }, { 2, 2 }, { 1, 3 } };
	for (int kind = 0; kind < 3; kind++) {
		std::vector<RegP> rr = regs; if (kind == AEN) rr.resize(1);
		for (auto &d : sh) for (int h = 1; h <= (T ? 3 : 2); h++) for (int c = 2; c <= (kind == SMN ? 3 : 2); c++) MC_CASE("%s: all data sets of %d rows and %d features, %d hidden, %d classes", NN[kind], d[0], d[1], h, c) tuples(F{ -1, 0, 0.5f, 2 }, d[0] * d[1], [&](const F &X) {
			int code = 0; for (float f : X) code = code * 5 + int(f * 4 + 9); code &= 0xffff;
			for (int lab = 0; lab < (kind == AEN ? 1 : T ? 3 : 2); lab++) { NS s = mkns(kind, d[0], d[1], h, c, X, lab); P p = start(s, code % 6 + lab);
				for (size_t ri = 0; ri < rr.size(); ri++) { if (!T && ri != (size_t)(code + lab) % rr.size() && d[0] * d[1] > 2) continue; if (ri == (size_t)code % rr.size()) costs(s, rr[ri], p);
					g_seed = code + ri; for (int e = 1; e <= 2; e++) { history(s, rr[ri], p, { { GD, e, 0, 0.2 } }); history(s, rr[ri], p, { { SGD, e, 0, 0.2 } }); for (int mb = 1; mb <= s.n; mb++) history(s, rr[ri], p, { { MBGD, e, mb, 0.2 } }); } } } });
		for (int n = 2; n <= (T ? 7 : 5) + 1; n++) for (int k = 1; k <= 5; k++) for (int h = 1; h <= 5; h++) if (n <= (T ? 7 : 5) ? k <= 3 && h <= 3 : k == 5 && h == 5) MC_CASE("%s: %d rows of %d features, %d hidden", NN[kind], n, k, h) for (int v = 0; v < (T ? 8 : 3); v++) {
			F X; for (int i = 0; i < n * k; i++) X.push_back(0.25f * ((i * (v + 3) + i / k + v) % 9 - 4)); NS s = mkns(kind, n, k, h, 2 + v % 3, X, v); P p = start(s, v + n);
			for (size_t ri = 0; ri < rr.size(); ri++) { const RegP &r = rr[ri]; costs(s, r, p); history(s, r, p, { { GD, 3, 0, 0.2 } }); for (int mb = 1; mb <= n; mb++) history(s, r, p, { { MBGD, 2, mb, 0.2 } });
				g_seed = v * 31 + n + k * 7 + h; if (n <= 4) history(s, r, p, { { SGD, 3, 0, 0.2 } });
				for (int o = 0; o < 3; o++) for (int o2 = 0; o2 < 3; o2++) if ((o != SGD && o2 != SGD) || n <= 4) history(s, r, p, { { o, 2, 1 + n / 3, 0.2 }, { o2, 1, 1 + n / 2, 0.1 } }); } }
		for (int n = 2; n <= 5; n++) MC_CASE("%s: sgd draws every one of %d rows", NN[kind], n) { F X; for (int i = 0; i < n; i++) X.push_back(0.2f + 0.37f * i); NS s = mkns(kind, n, 1, 2, 2, X, 0); std::set<int> seen; for (int sd = 0; sd < 80; sd++) { g_seed = sd; g_draws = 0; history(s, RegP{ NONE, 0, 0 }, start(s, 1), { { SGD, 1, 0, 0.2 } }, &seen); } mc::ok((int)seen.size() == n, mc::fmt("%s:sgd:coverage", NN[kind]), "%zu of %d rows were ever drawn over 80 seeds", seen.size(), n); }
	}
}
