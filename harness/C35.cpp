// MC: variant=asan
// Layers: every sequence of setter and pass calls on every layer kind against a record of what was stored, and every activation and shape of the affine map.
#include <random>
#include <memory>
#include "act.h"
#include "modules/hidden_layer/hidden_layer.h"
#include "modules/output_layer/output_layer.h"
#include "modules/multi_output_layer/multi_output_layer.h"
static unsigned g_draws = 0;
namespace std { unsigned int random_device::_M_getval() { return ++g_draws * 2654435761u; } }
typedef std::vector<float> F; typedef std::vector<int> I;
typedef MLPPHiddenLayer H; typedef MLPPOutputLayer O; typedef MLPPMultiOutputLayer M;
enum { HID, OUT, MUL };
static const char *KN[] = { "hidden", "output", "multi" };
// all values a layer stores, as plain data; scalars of the output layer are 1-element vectors
struct St { int nh, no, act, cost, reg, wi; float lam, al; Val in, w, b, z, a, zt, at, de; };
struct Lay { // one interface over the three kinds
	int k; Ref<H> h; Ref<O> o; Ref<M> m;
	template <class R> R on(std::function<R(H *)> f, std::function<R(O *)> g, std::function<R(M *)> q) { return k == HID ? f(h.ptr()) : k == OUT ? g(o.ptr()) : q(m.ptr()); }
};
#define EACH(E) (L.k == HID ? (L.h->E) : L.k == OUT ? (L.o->E) : (L.m->E))
static Val sc(float f) { return Val{ { 1 }, { f } }; }
static St rd(Lay &L) {
	St s; s.nh = EACH(get_n_hidden()); s.no = L.k == MUL ? L.m->get_n_output() : 0; s.act = EACH(get_activation()); s.cost = L.k == OUT ? (int)L.o->get_cost() : L.k == MUL ? (int)L.m->get_cost() : 0;
	s.reg = EACH(get_reg()); s.wi = EACH(get_weight_init()); s.lam = EACH(get_lambda()); s.al = EACH(get_alpha()); s.in = dump(EACH(get_input()));
	if (L.k == OUT) { s.w = dump(L.o->get_weights()); s.b = sc(L.o->get_bias()); s.z = dump(L.o->get_z()); s.a = dump(L.o->get_a()); s.zt = sc(L.o->get_z_test()); s.at = sc(L.o->get_a_test()); s.de = dump(L.o->get_delta()); }
	if (L.k == HID) { s.w = dump(L.h->get_weights()); s.b = dump(L.h->get_bias()); s.z = dump(L.h->get_z()); s.a = dump(L.h->get_a()); s.zt = dump(L.h->get_z_test()); s.at = dump(L.h->get_a_test()); s.de = dump(L.h->get_delta()); }
	if (L.k == MUL) { s.w = dump(L.m->get_weights()); s.b = dump(L.m->get_bias()); s.z = dump(L.m->get_z()); s.a = dump(L.m->get_a()); s.zt = dump(L.m->get_z_test()); s.at = dump(L.m->get_a_test()); s.de = dump(L.m->get_delta()); }
	return s;
}
static std::string diff(const St &e, const St &g) {
	std::string r;
#define NUM(f, n) if (!(e.f == g.f)) return mc::fmt("%s:%g:%g", n, (double)e.f, (double)g.f);
	NUM(nh, "n_hidden") NUM(no, "n_output") NUM(act, "activation") NUM(cost, "cost") NUM(reg, "reg") NUM(wi, "weight_init") NUM(lam, "lambda") NUM(al, "alpha")
#define VAL(f, n) if (!same(e.f, g.f)) return std::string(n) + ": stored " + e.f.s() + " now " + g.f.s();
	VAL(in, "input") VAL(w, "weights") VAL(b, "bias") VAL(z, "z") VAL(a, "a") VAL(zt, "z_test") VAL(at, "a_test") VAL(de, "delta")
	return r;
}
static const std::vector<Act> &AA() { static std::vector<Act> a = acts(); return a; }
// activation of a row of z-values; false = outside the domain in which the function is claimed
static bool actv(int id, const F &z, std::vector<double> &out, double &rt, double &at) {
	out.clear();
	if (id == MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX || id == MLPPActivation::ACTIVATION_FUNCTION_ADJ_SOFTMAX) { LD s = 0; for (float f : z) s += expl(f); for (float f : z) out.push_back(expl(f) / s); rt = 2e-5; at = 2e-6; return true; }
	for (auto &a : AA()) if (a.id == id) { rt = a.rtol + 1e-6; at = a.atol; for (float f : z) { if (!a.dom(f) || std::fabs(f) > 30 || (!strcmp(a.n, "arcsch") && std::fabs(f) < 0.1)) return false; // arcsch cancels near the origin in single precision
 out.push_back(a.f(f)); } return true; }
	return false;
}
// what the pass over given rows must leave in z and a
static int outs(int k, const St &s) { return k == OUT ? 1 : s.w.d[1]; }
static bool passok(int k, const St &s, const Val &X, const Val &z, const Val &a, bool test, std::string &why) {
	int n = test ? 1 : X.d[0], q = test ? X.d[0] : X.d[1], m = outs(k, s); I ed = k == OUT || test ? (k == OUT && test ? I{ 1 } : test ? I{ m } : I{ n }) : I{ n, m };
	if (z.d != ed || a.d != ed) { why = "sizes of z " + z.s() + " or a " + a.s(); return false; }
	for (int i = 0; i < n; i++) {
		F row;
		for (int j = 0; j < m; j++) {
			double e = s.b.v[j], mag = std::fabs(e); for (int p = 0; p < q; p++) { double t = (double)X.v[i * q + p] * s.w.v[p * m + j]; e += t; mag += std::fabs(t); }
			if (!mc::close(e, z.v[i * m + j], 0, 2e-6 * mag + 1e-12)) { why = mc::fmt("z[%d][%d] = %.7g, expected %.7g", i, j, z.v[i * m + j], e); return false; }
			row.push_back(z.v[i * m + j]);
		}
		std::vector<double> e; double rt, at;
		if (k == OUT && (s.act == MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX || s.act == MLPPActivation::ACTIVATION_FUNCTION_ADJ_SOFTMAX)) continue;
		if (actv(s.act, row, e, rt, at)) for (int j = 0; j < m; j++) if (!mc::close(e[j], a.v[i * m + j], rt, at)) { why = mc::fmt("a[%d][%d] = %.7g for z = %.7g, expected %.7g", i, j, a.v[i * m + j], row[j], e[j]); return false; }
	}
	return true;
}
static Val seqm(int r, int c, int salt, float sc_ = 0.25f, float off = 0) { Val v{ { r, c }, {} }; for (int i = 0; i < r * c; i++) v.v.push_back(off + sc_ * (((i * 7 + salt * 5) % 9) - 4)); return v; }
static Val seqv(int n, int salt, float sc_ = 0.25f, float off = 0) { Val v = seqm(1, n, salt, sc_, off); v.d = { n }; return v; }
static Ref<MLPPMatrix> mm(const Val &v) { return mkm(v.d[0], v.d[1], v.v); }
enum { NEW, GIVEN, BLANK, NSTART };
static const char *SN[] = { "constructed", "given weights and bias", "default constructed" };
static bool fits(int k, const St &s) { // the parameters in hand suit the stored input
	if (s.in.d.size() != 2 || s.w.v.empty()) return false;
	if (k == HID) return s.w.d == I{ s.in.d[1], s.nh } && s.b.d == I{ s.nh };
	if (k == OUT) return s.w.d == I{ s.nh } && s.in.d[1] == s.nh;
	return s.w.d[0] == s.in.d[1] && s.b.d == I{ s.w.d[1] };
}
struct Run { Lay L; St s; bool drawn; std::string log; }; // drawn: weights and bias are to be drawn afresh at the next pass
static void start(Run &r, int k, int how) {
	r.L.k = k; r.drawn = false; Val X = seqm(3, 2, 1); Lay &L = r.L;
	auto A = MLPPActivation::ACTIVATION_FUNCTION_SIGMOID; auto W = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_UNIFORM; auto R = MLPPReg::REGULARIZATION_TYPE_RIDGE; auto C = MLPPCost::COST_TYPE_CROSS_ENTROPY;
	if (how == BLANK) { L.h.instance(); L.o.instance(); L.m.instance(); }
	else { if (k == HID) L.h = Ref<H>(memnew(H(2, A, mm(X), W, R, 0.5, 0.25))); if (k == OUT) L.o = Ref<O>(memnew(O(2, A, C, mm(X), W, R, 0.5, 0.25))); if (k == MUL) L.m = Ref<M>(memnew(M(2, 2, A, C, mm(X), W, R, 0.5, 0.25))); }
	r.s = rd(L); r.log = SN[how];
	if (how == GIVEN) {
		Val w = k == OUT ? seqv(2, 2) : seqm(2, 2, 2), b = k == OUT ? sc(-0.5f) : seqv(2, 3);
		if (k == HID) { L.h->set_weights(mm(w)); L.h->set_bias(mkv(b.v)); } if (k == OUT) { L.o->set_weights(mkv(w.v)); L.o->set_bias(-0.5f); } if (k == MUL) { L.m->set_weights(mm(w)); L.m->set_bias(mkv(b.v)); }
		r.s.w = w; r.s.b = b;
	}
	if (how == BLANK && k != MUL) r.drawn = true;
	if (how != BLANK) {
		mc::ok(r.s.nh == 2 && r.s.no == (k == MUL ? 2 : 0) && r.s.act == (int)A && r.s.wi == (int)W && r.s.reg == (int)R && r.s.lam == 0.5f && r.s.al == 0.25f && (k == HID || r.s.cost == (int)C) && same(r.s.in, X), mc::fmt("%s:constructor", KN[k]), "%s layer stores other settings than it was constructed with", KN[k]);
		mc::ok(fits(k, r.s), mc::fmt("%s:constructor:shape", KN[k]), "%s layer with weights %s bias %s", KN[k], r.s.w.s().c_str(), r.s.b.s().c_str());
		if (how == NEW) { float d = 0; for (float f : r.s.w.v) { mc::ok(std::isfinite(f), mc::fmt("%s:constructor:weights", KN[k]), "initial weights %s", r.s.w.s().c_str()); d += std::fabs(f); } mc::ok(d > 0, mc::fmt("%s:constructor:weights", KN[k]), "initial weights are all zero"); }
	}
}
enum { NHID, NHID2, NOUT, ACT, COST, INP, INP3, WT, WT3, BI, BI3, Z, AO, ZT, AT, DE, REG_, LAM, AL, WI, FWD, FWD2, TEST, NOP };
static const char *ON[] = { "set_n_hidden(2)", "set_n_hidden(3)", "set_n_output(3)", "set_activation(tanh)", "set_cost(mae)", "set_input(4x2)", "set_input(2x3)", "set_weights", "set_weights(3-wide)", "set_bias", "set_bias(3-wide)", "set_z", "set_a", "set_z_test", "set_a_test", "set_delta", "set_reg", "set_lambda", "set_alpha", "set_weight_init", "forward_pass", "forward_pass twice", "test" };
static bool enabled(int k, int op) { if (k == HID) return op != NOUT && op != COST; if (k == OUT) return op != NOUT && op != BI3; return true; }
static void step(Run &r, int op) {
	Lay &L = r.L; St &s = r.s; int k = L.k; std::string key = mc::fmt("%s:%s", KN[k], ON[op]);
	for (char &c : key) if (c == ' ') c = '-';
	r.log += std::string("; ") + ON[op];
	bool pass = op == FWD || op == FWD2 || op == TEST;
	if (pass) {
		// a pass is defined once the input fits; missing or re-requested parameters are drawn then
		if (s.in.d.size() != 2) return;
		bool draw = k != MUL && (r.drawn || !fits(k, s));
		if (k == OUT && s.in.d[1] != s.nh) return;
		if (k == HID && s.nh <= 0) return;
		if (!draw && !fits(k, s)) return;
		Val X = op == TEST ? seqv(s.in.d[1], 4) : s.in;
		for (int rep = 0; rep < (op == FWD2 ? 2 : 1); rep++) {
			if (op == TEST) { auto x = mkv(X.v); EACH(test(x)); mc::ok(same(X, dump(x)), key + ":row", "%s: the tested row became %s", r.log.c_str(), dump(x).s().c_str()); } else EACH(forward_pass());
			St g = rd(L); mc::transition();
			if (draw) { // adopt what was drawn, once
				St t = s; t.w = g.w; t.b = g.b;
				mc::ok(fits(k, t), key + ":draw", "%s: drew weights %s and bias %s for input %s", r.log.c_str(), g.w.s().c_str(), g.b.s().c_str(), s.in.s().c_str());
				if (!fits(k, t)) { s = g; return; }
				s.w = g.w; s.b = g.b; r.drawn = draw = false;
			}
			std::string why; bool ok = passok(k, s, X, op == TEST ? g.zt : g.z, op == TEST ? g.at : g.a, op == TEST, why);
			mc::ok(ok, key + ":value", "%s layer, %s: input %s weights %s bias %s: %s", KN[k], r.log.c_str(), X.s().c_str(), s.w.s().c_str(), s.b.s().c_str(), why.c_str());
			if (rep) mc::ok(same(s.z, g.z) && same(s.a, g.a), key + ":repeat", "%s layer, %s: a second pass gives z %s a %s after z %s a %s", KN[k], r.log.c_str(), g.z.s().c_str(), g.a.s().c_str(), s.z.s().c_str(), s.a.s().c_str());
			if (op == TEST) { s.zt = g.zt; s.at = g.at; } else { s.z = g.z; s.a = g.a; }
			std::string d = diff(s, g); mc::ok(d.empty(), key + ":other", "%s layer, %s changes %s", KN[k], r.log.c_str(), d.c_str()); if (!d.empty()) { s = g; return; }
		}
		return;
	}
	Val v;
	switch (op) {
		case NHID: EACH(set_n_hidden(2)); s.nh = 2; break;
		case NHID2: EACH(set_n_hidden(3)); s.nh = 3; break;
		case NOUT: L.m->set_n_output(3); s.no = 3; break;
		case ACT: EACH(set_activation(MLPPActivation::ACTIVATION_FUNCTION_TANH)); s.act = MLPPActivation::ACTIVATION_FUNCTION_TANH; break;
		case COST: if (k == OUT) L.o->set_cost(MLPPCost::COST_TYPE_MAE); else L.m->set_cost(MLPPCost::COST_TYPE_MAE); s.cost = MLPPCost::COST_TYPE_MAE; break;
		case INP: v = seqm(4, 2, 5); EACH(set_input(mm(v))); s.in = v; break;
		case INP3: v = seqm(2, 3, 6); EACH(set_input(mm(v))); s.in = v; break;
		case WT: if (k == OUT) { v = seqv(2, 7); L.o->set_weights(mkv(v.v)); } else { v = seqm(2, 2, 7); if (k == HID) L.h->set_weights(mm(v)); else L.m->set_weights(mm(v)); } s.w = v; break;
		case WT3: if (k == OUT) { v = seqv(3, 8); L.o->set_weights(mkv(v.v)); } else { v = seqm(3, 3, 8); if (k == HID) L.h->set_weights(mm(v)); else L.m->set_weights(mm(v)); } s.w = v; break;
		case BI: if (k == OUT) { L.o->set_bias(0.75f); s.b = sc(0.75f); } else { v = seqv(2, 9); if (k == HID) L.h->set_bias(mkv(v.v)); else L.m->set_bias(mkv(v.v)); s.b = v; } break;
		case BI3: v = seqv(3, 10); if (k == HID) L.h->set_bias(mkv(v.v)); else L.m->set_bias(mkv(v.v)); s.b = v; break;
		case Z: if (k == OUT) { v = seqv(3, 11); L.o->set_z(mkv(v.v)); } else { v = seqm(3, 1, 11); if (k == HID) L.h->set_z(mm(v)); else L.m->set_z(mm(v)); } s.z = v; break;
		case AO: if (k == OUT) { v = seqv(3, 12); L.o->set_a(mkv(v.v)); } else { v = seqm(3, 1, 12); if (k == HID) L.h->set_a(mm(v)); else L.m->set_a(mm(v)); } s.a = v; break;
		case ZT: if (k == OUT) { L.o->set_z_test(3); s.zt = sc(3); } else { v = seqv(3, 13); if (k == HID) L.h->set_z_test(mkv(v.v)); else L.m->set_z_test(mkv(v.v)); s.zt = v; } break;
		case AT: if (k == OUT) { L.o->set_a_test(4); s.at = sc(4); } else { v = seqv(3, 14); if (k == HID) L.h->set_a_test(mkv(v.v)); else L.m->set_a_test(mkv(v.v)); s.at = v; } break;
		case DE: if (k == OUT) { v = seqv(3, 15); L.o->set_delta(mkv(v.v)); } else { v = seqm(3, 1, 15); if (k == HID) L.h->set_delta(mm(v)); else L.m->set_delta(mm(v)); } s.de = v; break;
		case REG_: EACH(set_reg(MLPPReg::REGULARIZATION_TYPE_LASSO)); s.reg = MLPPReg::REGULARIZATION_TYPE_LASSO; break;
		case LAM: EACH(set_lambda(0.125)); s.lam = 0.125; break;
		case AL: EACH(set_alpha(0.75)); s.al = 0.75; break;
		case WI: EACH(set_weight_init(MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL)); s.wi = MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL; break;
	}
	// weights are drawn afresh only when none of the right shape have been given since the layer was created or asked to draw them differently
	if (k != MUL) {
		if (op == WI) r.drawn = true;
		bool shaped = k == HID ? s.nh > 0 && !s.w.v.empty() && s.w.d[1] == s.nh && s.b.d == I{ s.nh } && (s.in.d.size() != 2 || s.in.d[1] == s.w.d[0]) : s.nh > 0 && s.w.d == I{ s.nh };
		if (op == WT || op == WT3 || op == NHID || op == NHID2 || (k == HID && (op == BI || op == BI3 || op == INP || op == INP3))) { if (shaped && (op == WT || op == WT3 || op == BI || op == BI3)) r.drawn = false; else if (!shaped) r.drawn = true; }
	}
	mc::transition();
	St g = rd(L); std::string d = diff(s, g); mc::ok(d.empty(), key + ":other", "%s layer, %s changes %s", KN[k], r.log.c_str(), d.c_str()); if (!d.empty()) s = g;
}
static void histories(int k, int how, int depth) {
	for (int a = 0; a < NOP; a++) { if (!enabled(k, a)) continue;
		MC_CASE("hist-%s-%d-%d", KN[k], how, a) {
			std::function<void(std::vector<int> &)> go = [&](std::vector<int> &h) {
				Run r; start(r, k, how); for (int op : h) step(r, op);
				// whatever the history, a pass afterwards computes with what is stored
				step(r, FWD2); step(r, TEST); mc::state(mc::fmt("%s %d ", KN[k], how) + r.s.in.s() + r.s.w.s() + r.s.b.s() + r.s.z.s() + mc::fmt("%d %d %d %d", r.s.nh, r.s.act, r.s.reg, r.drawn));
				if ((int)h.size() < depth) for (int b = 0; b < NOP; b++) { if (!enabled(k, b) || (b == h.back() && b != FWD)) continue; h.push_back(b); go(h); h.pop_back(); }
			};
			std::vector<int> h{ a }; go(h);
		} }
}
static void maps() { // the affine map and every activation, over shapes
	std::vector<int> ids; for (auto &a : AA()) ids.push_back(a.id); ids.push_back(MLPPActivation::ACTIVATION_FUNCTION_SOFTMAX); ids.push_back(MLPPActivation::ACTIVATION_FUNCTION_ADJ_SOFTMAX);
	int N = mc::thorough() ? 5 : 4;
	for (int k = 0; k < 3; k++) for (int id : ids) MC_CASE("map-%s-%d", KN[k], id)
		for (int n = 1; n <= N; n++) for (int q = 1; q <= N; q++) for (int m = 1; m <= (k == OUT ? 1 : N); m++) for (int salt = 0; salt < (mc::thorough() ? 9 : 3); salt++) for (float off : { 0.f, 0.5f, 3.f, -3.f }) for (float g : { 0.0625f, 1.f }) {
			Run r; Lay &L = r.L; L.k = k; Val X = seqm(n, q, salt, g), w = k == OUT ? seqv(q, salt + 1, g) : seqm(q, m, salt + 1, g), b = k == OUT ? sc(off) : seqv(m, salt + 2, g / 8, off);
			auto A = (MLPPActivation::ActivationFunction)id;
			L.h.instance(); L.o.instance(); L.m.instance();
			if (k == HID) { L.h->set_n_hidden(m); L.h->set_activation(A); L.h->set_weights(mm(w)); L.h->set_bias(mkv(b.v)); L.h->set_input(mm(X)); }
			if (k == OUT) { L.o->set_n_hidden(q); L.o->set_activation(A); L.o->set_weights(mkv(w.v)); L.o->set_bias(off); L.o->set_input(mm(X)); }
			if (k == MUL) { L.m->set_n_hidden(q); L.m->set_n_output(m); L.m->set_activation(A); L.m->set_weights(mm(w)); L.m->set_bias(mkv(b.v)); L.m->set_input(mm(X)); }
			EACH(forward_pass()); St s = rd(L); mc::transition(); std::string why;
			mc::ok(same(s.w, w) && same(s.b, b) && same(s.in, X), mc::fmt("%s:map:kept", KN[k]), "%s layer with weights %s bias %s input %s holds %s %s %s after a pass", KN[k], w.s().c_str(), b.s().c_str(), X.s().c_str(), s.w.s().c_str(), s.b.s().c_str(), s.in.s().c_str());
			bool ok = passok(k, s, X, s.z, s.a, false, why); mc::ok(ok, mc::fmt("%s:map:forward", KN[k]), "%s layer, activation %d: input %s weights %s bias %s: %s", KN[k], id, X.s().c_str(), w.s().c_str(), b.s().c_str(), why.c_str());
			for (int i = 0; i < n; i++) { Val x{ { q }, F(X.v.begin() + i * q, X.v.begin() + (i + 1) * q) }; EACH(test(mkv(x.v))); St t = rd(L); mc::transition(); ok = passok(k, t, x, t.zt, t.at, true, why); mc::ok(ok, mc::fmt("%s:map:test", KN[k]), "%s layer, activation %d: row %s weights %s bias %s: %s", KN[k], id, x.s().c_str(), w.s().c_str(), b.s().c_str(), why.c_str());
				t.zt = s.zt; t.at = s.at; std::string d = diff(s, t); mc::ok(d.empty(), mc::fmt("%s:map:test:other", KN[k]), "%s layer: testing a row changes %s", KN[k], d.c_str()); }
			mc::state(mc::fmt("%d %d ", k, id) + X.s() + w.s() + b.s());
		}
}
void explore() {
	for (int k = 0; k < 3; k++) for (int how = 0; how < NSTART; how++) histories(k, how, mc::thorough() ? 4 : 3);
	maps();
}
