// MC: variant=asan
// C64: adversarial networks. Every short history of training, scoring and generating of every small GAN and WGAN, against adversarial training in double precision:
// a discriminator step on generated and real rows, then a generator step through it, each touching only its own half of the layers.
#define OWN_NOISE
#include "net.h"
#include <random>
#include "modules/gan/gan.h"
#include "modules/wgan/wgan.h"
static unsigned g_draw = 0; static bool g_vary = false; // one seed for every draw, or one seed per draw
namespace std { unsigned int random_device::_M_getval() { return g_vary ? g_seed + ++g_draw : g_seed; } }
static F noise(int n, int k, unsigned seed) { std::default_random_engine e(seed); std::normal_distribution<float> d(0, 1); F r; for (int i = 0; i < n * k; i++) r.push_back(d(e)); return r; }
struct XG : MLPPGAN { using MLPPGAN::MLPPGAN; using MLPPGAN::_network; using MLPPGAN::_output_layer; using MLPPGAN::_y_hat; };
struct XW : MLPPWGAN { using MLPPWGAN::MLPPWGAN; using MLPPWGAN::_network; using MLPPWGAN::_output_layer; using MLPPWGAN::_y_hat; };
struct Adv { bool w; Arch a; Data d; int H() const { return a.L() - 1; } int g() const { return H() / 2; } int m() const { return a.sz[g() + 1]; } std::string s() const { return std::string(w ? "wgan, " : "gan, ") + a.s() + ", " + d.s(); } };
// values and slopes of layers from..to for one row
static void run(const Arch &a, const D &w, const D &x, int from, int to, Rows &v, Rows &s, bool &amb) {
	v.assign(a.L() + 1, D()); s = v; v[from] = x;
	for (int l = from; l <= to; l++) for (int j = 0; j < a.sz[l + 1]; j++) { double z = w[a.bi(l, j)]; for (int i = 0; i < a.sz[l]; i++) z += w[a.wi(l, i, j)] * v[l][i]; if (!(std::fabs(z) < 8)) amb = true; const Act &f = actof(a.act[l]);
		bool k = kinked(a.act[l]); if (!f.dom(z) || (k && std::fabs(z) < 1e-3)) amb = true; double q = amb ? 0 : (double)f.f(z), h = 1e-5; v[l + 1].push_back(q); s[l + 1].push_back(amb ? 0 : k ? (z > 0) : (double)((f.f(z + h) - f.f(z - h)) / (2 * h))); }
}
// one gradient step on layers lo..hi from rows entering layer `from`
static void step(const Adv &A, P &p, const std::vector<D> &rows, const D &y, int from, int lo, int hi, double lr) {
	const Arch &a = A.a; int L = a.L(); D g(a.N(), 0.0);
	for (size_t r = 0; r < rows.size(); r++) { Rows v, s; run(a, p.w, rows[r], from, L - 1, v, s, p.amb); double o = v[L][0]; if (!A.w && (o < 5e-3 || o > 1 - 5e-3)) p.amb = true; if (p.amb) return;
		D e{ (A.w ? -y[r] : -y[r] / o + (1 - y[r]) / (1 - o)) * s[L][0] };
		for (int l = L - 1; l >= lo; l--) { for (int j = 0; j < a.sz[l + 1]; j++) { g[a.bi(l, j)] += e[j]; for (int i = 0; i < a.sz[l]; i++) g[a.wi(l, i, j)] += e[j] * v[l][i]; }
			if (l > from) { D f(a.sz[l], 0.0); for (int i = 0; i < a.sz[l]; i++) { for (int j = 0; j < a.sz[l + 1]; j++) f[i] += e[j] * p.w[a.wi(l, i, j)]; f[i] *= s[l][i]; } e = f; } } }
	D rd = regderiv(p, a.reg, p.amb); P q = p; double t = lr / A.d.n; for (int l = lo; l <= hi; l++) for (int j = 0; j < a.sz[l + 1]; j++) { q.w[a.bi(l, j)] -= t * g[a.bi(l, j)]; for (int i = 0; i < a.sz[l]; i++) { int x = a.wi(l, i, j); q.w[x] -= t * (g[x] + rd[x]); } }
	p = q;
}
static std::vector<D> made(const Adv &A, P &p, const F &z) { std::vector<D> r; int k = A.a.sz[0]; for (size_t i = 0; i * k < z.size(); i++) { Rows v, s; run(A.a, p.w, D(z.begin() + i * k, z.begin() + (i + 1) * k), 0, A.g(), v, s, p.amb); r.push_back(v[A.g() + 1]); } return r; }
static void epoch(const Adv &A, P &p, double lr, const std::vector<unsigned> &seeds) { // the last seed feeds the generator step
	int n = A.d.n, L = A.a.L(), g = A.g(); for (size_t c = 0; c + 1 < seeds.size() && !p.amb; c++) { std::vector<D> r = made(A, p, noise(n, A.a.sz[0], seeds[c])); D y(n, A.w ? -1.0 : 0.0); for (int i = 0; i < n; i++) { r.push_back(A.d.x(i)); y.push_back(1); } step(A, p, r, y, g + 1, g + 1, L - 1, lr); }
	if (!p.amb) { F z = noise(n, A.a.sz[0], seeds.back()); std::vector<D> r; for (int i = 0; i < n; i++) r.push_back(D(z.begin() + i * A.a.sz[0], z.begin() + (i + 1) * A.a.sz[0])); step(A, p, r, D(n, 1.0), 0, 0, g, lr); }
}
struct Net {
	Adv A; XG *g = nullptr; XW *w = nullptr; RegP none{ 0, 0, 0 }; Ref<MLPPMatrix> X; std::vector<Ref<MLPPHiddenLayer>> own;
	Net(const Adv &A_, int route = 0) : A(A_) { // route: layers given by their settings, or as objects
		X = mkm(A.d.n, A.d.k, A.d.X); const Arch &a = A.a; auto W = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT; auto R = REG[a.reg.kind]; if (A.w) { if (route == 2) { w = new XW(); w->set_output_set(X); w->set_k(a.sz[0]); } else w = new XW(a.sz[0], X); } else g = new XG(a.sz[0], X);
		for (int l = 0; l < A.H(); l++) { auto F_ = (AF::ActivationFunction)a.act[l]; if (g) g->add_layer(a.sz[l + 1], F_, W, R, a.reg.lam, a.reg.al); else if (!route) w->create_layer(a.sz[l + 1], F_, W, R, a.reg.lam, a.reg.al);
			else { Ref<MLPPHiddenLayer> y; y.instance(); y->set_n_hidden(a.sz[l + 1]); y->set_activation(F_); y->set_weight_init(W); y->set_reg(R); y->set_lambda(a.reg.lam); y->set_alpha(a.reg.al); w->add_layer(y); own.push_back(y); } }
		if (g) g->add_output_layer(W, R, a.reg.lam, a.reg.al); else w->add_output_layer(W, R, a.reg.lam, a.reg.al);
	}
	~Net() { delete g; delete w; }
	Ref<MLPPHiddenLayer> hid(int l) { return g ? g->_network[l] : w->_network[l]; } Ref<MLPPOutputLayer> out() { return g ? g->_output_layer : w->_output_layer; } int count() { return g ? g->_network.size() : w->_network.size(); }
	void put(const D &v) { const Arch &a = A.a; for (int l = 0; l < a.L(); l++) { F W(v.begin() + a.wi(l, 0, 0), v.begin() + a.bi(l, 0)), b(v.begin() + a.bi(l, 0), v.begin() + a.bi(l, 0) + a.sz[l + 1]); if (l < A.H()) { hid(l)->set_weights(mkm(a.sz[l], a.sz[l + 1], W)); hid(l)->set_bias(mkv(b)); } else { out()->set_weights(mkv(W)); out()->set_bias(b[0]); } } }
	bool get(P &p, std::string &why) { p.w.clear(); p.b = 0; p.amb = false; const Arch &a = A.a; bool ok = count() == A.H(); for (int l = 0; ok && l < a.L(); l++) { Val W, b; if (l < A.H()) { W = dump(hid(l)->get_weights()); b = dump(hid(l)->get_bias()); ok = W.d == I{ a.sz[l], a.sz[l + 1] } && b.d == I{ a.sz[l + 1] }; } else { W = dump(out()->get_weights()); b = Val{ { 1 }, { (float)out()->get_bias() } }; ok = W.d == I{ a.sz[l] }; }
			for (float v : W.v) p.w.push_back(v); for (float v : b.v) p.w.push_back(v); why += W.s() + " / " + b.s() + "; "; } return ok; }
	void train(double lr, int e, bool ui) { if (g) g->gradient_descent(lr, e, ui); else w->gradient_descent(lr, e, ui); } Ref<MLPPMatrix> make(int n) { return g ? g->generate_example(n) : w->generate_example(n); } double score() { return g ? g->score() : w->score(); }
};
static void look(Net &N, P p, const std::string &in) { // what the model shows of parameters p
	const Adv &A = N.A; std::string K = A.w ? "wgan" : "gan"; std::vector<std::pair<Ref<MLPPMatrix>, Val>> held;
	for (int n : { 1, 3, 2 }) { bool amb = false; P q = p; std::vector<D> want = made(A, q, noise(n, A.a.sz[0], g_seed)); amb = q.amb; Ref<MLPPMatrix> r = N.make(n); mc::transition(); Val v = dump(r); if (!mc::ok(v.d == I{ n, A.m() }, K + ":generate_example:size", "%s: %d examples are %s", in.c_str(), n, v.s().c_str())) return;
		bool ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < A.m(); j++) ok = ok && mc::close(want[i][j], v.v[i * A.m() + j], 4e-4, 4e-5); mc::ok(amb || ok, K + ":generate_example", "%s: %d examples are %s, expected %.6g ...", in.c_str(), n, v.s().c_str(), want[0][0]); held.push_back({ r, v }); }
	double sc = N.score(); int right = 0; bool near = false; F z = noise(A.d.n, A.a.sz[0], g_seed); for (int i = 0; i < A.d.n; i++) { Rows v, s; run(A.a, p.w, D(z.begin() + i * A.a.sz[0], z.begin() + (i + 1) * A.a.sz[0]), 0, A.a.L() - 1, v, s, near); double o = v.back()[0]; near = near || std::fabs(o - std::floor(o) - 0.5) < 1e-3; right += std::floor(o + 0.5) == 1; }
	if (!near) mc::ok(mc::close((double)right / A.d.n, sc, 1e-5, 1e-6), K + ":score", "%s: score %g, the discriminator takes %d of %d generated rows for real", in.c_str(), sc, right, A.d.n);
	for (auto &h : held) mc::ok(same(dump(h.first), h.second), K + ":held", "%s: examples handed out earlier changed", in.c_str());
}
struct Ep { double lr; int epochs; bool ui; }; typedef std::vector<Ep> Calls;
static P start(const Adv &A, int v) { static const double q[] = { 0.5, -0.75, 0.25, 1, -0.375, 0.8, -1.25, 0.6, -0.5 }; P p; p.amb = false; p.b = 0; for (int i = 0; i < A.a.N(); i++) p.w.push_back(q[(i * (v % 4 + 1) + 3 * v + i / 5) % 9]); return p; }
static bool history(const Adv &A, int v, const std::vector<Ep> &h, int route, bool vary) {
	P p0 = start(A, v), p = p0; g_seed = 7 + 13 * v; g_vary = false; int C = A.w ? 5 : 1; std::string in = A.s() + ", start " + wstr(p0.w), K = A.w ? "wgan" : "gan"; for (auto &c : h) in += mc::fmt("gradient_descent(%g, %d%s); ", c.lr, c.epochs, c.ui ? ", ui" : "");
	std::vector<P> ref; if (!vary) { for (auto &c : h) for (int e = 0; e < c.epochs; e++) epoch(A, p, c.lr, std::vector<unsigned>(C + 1, g_seed)); ref.push_back(p); }
	else { int M = C + 3; for (int mask = 0; mask < 1 << M; mask++) if (__builtin_popcount(mask) == C + 1) { std::vector<unsigned> s; for (int i = 0; i < M; i++) if (mask >> i & 1) s.push_back(g_seed + 1 + i); P q = p0; epoch(A, q, h[0].lr, s); ref.push_back(q); } } // any increasing choice of the draws
	for (auto &q : ref) { if (q.amb || !sane(q)) return false; for (double x : q.w) if (std::fabs(x) > 20) return false; }
	mc::state(in + (vary ? " fresh" : "")); Net N(A, route); P g; std::string why; N.score(); bool ok = N.get(g, why); if (!mc::ok(ok, K + ":start", "%s starts with parameters %s", in.c_str(), why.c_str())) return true; N.put(p0.w); if (!vary) look(N, p0, in + " before training");
	Ref<MLPPMatrix> kept = N.make(2); Val kv = dump(kept); g_vary = vary; g_draw = 0; for (auto &c : h) N.train(c.lr, c.epochs, c.ui); g_vary = false; why.clear(); ok = N.get(g, why); mc::transition(); int hit = -1; for (size_t i = 0; ok && i < ref.size() && hit < 0; i++) if (pclose(ref[i], g, 8e-4, 8e-5)) hit = i;
	mc::outcome(mc::fmt("%s %d/%zu", K.c_str(), hit, ref.size())); mc::ok(hit >= 0, K + (vary ? ":fresh-noise" : ":training"), "%s ends with %s, expected %s%s", in.c_str(), why.c_str(), wstr(ref[0].w).c_str(), vary ? " or that with other draws" : "");
	mc::ok(same(dump(kept), kv), K + ":held", "%s: training changed examples handed out before", in.c_str()); mc::ok(same(dump(N.X), Val{ { A.d.n, A.d.k }, A.d.X }), K + ":input-changed", "%s: the real rows are %s afterwards", in.c_str(), dump(N.X).s().c_str());
	if (hit >= 0 && !vary) look(N, g, in);
	return true;
}
static Adv adv(bool w, const I &hid, int k, const I &act, int reg, int n, int v) { Adv A; A.w = w; A.a = Arch{ false, {}, {}, w ? 7 : 4, RegP{ reg, 0.25, 0.5 }, 0, 0, 0 }; A.a.sz.push_back(k); for (int h : hid) A.a.sz.push_back(h); A.a.sz.push_back(1); A.a.act = act; A.a.act.push_back(w ? AF::ACTIVATION_FUNCTION_LINEAR : AF::ACTIVATION_FUNCTION_SIGMOID); A.d = Data{ n, A.m(), 1, {}, {} }; for (int i = 0; i < n * A.m(); i++) A.d.X.push_back(0.25f * ((i * (v % 5 + 3) + v) % 9 - 4)); return A; }
static std::vector<I> words(int len, const I &al) { std::vector<I> r{ {} }; for (int i = 0; i < len; i++) { std::vector<I> n; for (auto &w : r) for (int a : al) { I x = w; x.push_back(a); n.push_back(x); } r = n; } return r; }
static void nets(int H, int w) { I acts{ AF::ACTIVATION_FUNCTION_LINEAR, AF::ACTIVATION_FUNCTION_SIGMOID, AF::ACTIVATION_FUNCTION_TANH, AF::ACTIVATION_FUNCTION_RELU }; if (H > 4 || (!mc::thorough() && H > 3)) acts = { AF::ACTIVATION_FUNCTION_SIGMOID, AF::ACTIVATION_FUNCTION_RELU }; int c = 0;
	for (auto &hid : words(H, { 1, 2 })) for (auto &act : words(H, acts)) { if (H > 3 && !mc::thorough() && c % (H == 5 ? 7 : 2)) { c++; continue; } MC_CASE("%s with hidden layers %s act %s", w ? "wgan" : "gan", mc::fmt("%d %d %d", H, hid[0], hid[H - 1]).c_str(), mc::fmt("%d #%d", act[0], c).c_str()) {
		int ran = 0; for (int k : { 1, 2 }) for (int n : { 1, 3 }) for (int reg = 0; reg < 4; reg++) { if (!mc::thorough() && H > 2 && (reg + c + n / 2 + k) % 2) continue; int v = (c + reg + n) % 6; Adv A = adv(w, hid, k, act, reg, n, v); std::vector<Calls> hs{ Calls{ Ep{ 0.5, 1, false } }, Calls{ Ep{ 0.125, 2, true } }, Calls{ Ep{ 0.125, 1, false }, Ep{ 0.25, 1, false } } }; if (mc::thorough()) { hs.push_back(Calls{ Ep{ 0.25, 3, false }, Ep{ 0.5, 1, true } }); hs.push_back(Calls{ Ep{ 0.0, 1, false } }); }
			for (size_t h = 0; h < hs.size(); h++) for (int t = 0; t < (mc::thorough() ? 3 : 1); t++) ran += history(A, v + t, hs[h], w ? (c + h + reg) % 3 : 0, false); if (reg == 0 && (H < 3 || (mc::thorough() && H == 3))) ran += history(A, v, Calls{ Ep{ 0.5, 1, false } }, 0, true); }
		mc::count("histories", ran); } c++; }
}
// a WGAN put together and taken apart layer by layer
static void edits(const I &ops) { Adv A = adv(true, { 2, 2 }, 2, I{ AF::ACTIVATION_FUNCTION_TANH, AF::ACTIVATION_FUNCTION_SIGMOID }, 1, 2, 3); g_seed = 5; g_vary = false; Ref<MLPPMatrix> X = mkm(2, 2, A.d.X); XW w(2, X); std::vector<std::pair<int, Ref<MLPPHiddenLayer>>> model; std::string in;
	static const int AC[] = { AF::ACTIVATION_FUNCTION_TANH, AF::ACTIVATION_FUNCTION_SIGMOID };
	for (int o : ops) { if (o < 2) { in += mc::fmt("create_layer #%d; ", o); w.create_layer(2, (AF::ActivationFunction)AC[o], MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, REG[1], 0.25, 0.5); model.push_back({ AC[o], w.get_layer(w.get_layer_count() - 1) }); }
		else if (o == 2) { in += "add_layer; "; Ref<MLPPHiddenLayer> y; y.instance(); y->set_n_hidden(2); y->set_activation((AF::ActivationFunction)AC[0]); y->set_reg(REG[1]); y->set_lambda(0.25); y->set_alpha(0.5); w.add_layer(y); model.push_back({ AC[0], y }); }
		else { int i = o - 3; in += mc::fmt("remove_layer %d; ", i); w.remove_layer(i); if (i < (int)model.size()) model.erase(model.begin() + i); }
		mc::transition(); bool ok = w.get_layer_count() == (int)model.size(); for (size_t i = 0; ok && i < model.size(); i++) ok = w.get_layer(i).is_valid() && w.get_layer(i).ptr() == model[i].second.ptr() && w.get_layer(i)->get_activation() == model[i].first; if (!mc::ok(ok && !w.get_layer(model.size()).is_valid() && !w.get_layer(-1).is_valid(), "wgan:layers", "after %s the network has %d layers, expected %zu in order", in.c_str(), w.get_layer_count(), model.size())) return; }
	mc::state(in); if (model.empty()) { w.add_output_layer(); mc::ok(!w._output_layer.is_valid(), "wgan:layers", "an output layer without hidden layers"); return; }
	w.add_output_layer(MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, REG[1], 0.25, 0.5); I act; for (auto &x : model) act.push_back(x.first); Adv B = adv(true, I(model.size(), 2), 2, act, 1, 2, 3); P p = start(B, 2), p0 = p; const Arch &a = B.a;
	for (int l = 0; l < a.L(); l++) { F W(p.w.begin() + a.wi(l, 0, 0), p.w.begin() + a.bi(l, 0)), b(p.w.begin() + a.bi(l, 0), p.w.begin() + a.bi(l, 0) + a.sz[l + 1]); if (l < B.H()) { w.get_layer(l)->set_weights(mkm(2, 2, W)); w.get_layer(l)->set_bias(mkv(b)); } else { w._output_layer->set_weights(mkv(W)); w._output_layer->set_bias(b[0]); } }
	epoch(B, p, 0.25, std::vector<unsigned>(6, g_seed)); if (p.amb) return; w.gradient_descent(0.25, 1, false); P g; g.amb = false; g.b = 0; std::string why; for (int l = 0; l < a.L(); l++) { Val W, b; if (l < B.H()) { W = dump(w.get_layer(l)->get_weights()); b = dump(w.get_layer(l)->get_bias()); } else { W = dump(w._output_layer->get_weights()); b = Val{ { 1 }, { (float)w._output_layer->get_bias() } }; } for (float v : W.v) g.w.push_back(v); for (float v : b.v) g.w.push_back(v); why += W.s() + " "; }
	mc::ok(g.w.size() == p.w.size() && pclose(p, g, 8e-4, 8e-5), "wgan:edited", "%s then training from %s ends with %s, expected %s", in.c_str(), wstr(p0.w).c_str(), why.c_str(), wstr(p.w).c_str()); }
void explore() {
	for (int w = 0; w < 2; w++) for (int H = 1; H <= 5; H++) nets(H, w);
	for (int len = 1; len <= (mc::thorough() ? 6 : 4); len++) for (int first = 0; first < 5; first++) MC_CASE("edits %d from %d", len, first) for (auto &rest : words(len - 1, { 0, 1, 2, 3, 4 })) { I ops{ first }; ops.insert(ops.end(), rest.begin(), rest.end()); edits(ops); }
}
