// MC: variant=asan
// C37: networks built from layers (ANN, MANN). Every small architecture, activation, cost, regularisation, data set and epoch count against composition and back-propagation in double precision.
#include "net.h"
static Arch mk(bool multi, int k, const I &hid, int out, const I &ha, int oa, int cost, RegP r) { Arch a; a.multi = multi; a.sz = { k }; for (int h : hid) a.sz.push_back(h); a.sz.push_back(out); for (size_t i = 0; i < hid.size(); i++) a.act.push_back(ha[i % ha.size()]); a.act.push_back(oa); a.cost = cost; a.reg = r; a.sched = 0; a.decay = a.drop = 0; return a; }
// n epochs in one call are n calls of one epoch, on the real network alone
static void epochs(const Arch &a, const Data &d, const P &p, double lr) {
	Real A(a, d), B(a, d); A.put(p.w); B.put(p.w); A.train({ O_GD, 3, 1, lr }); for (int i = 0; i < 3; i++) B.train({ O_GD, 1, 1, lr }); P x, y; std::string wx, wy; A.get(x, wx); B.get(y, wy); mc::transition(); bool eq = x.w.size() == y.w.size(); for (size_t i = 0; eq && i < x.w.size(); i++) eq = mc::close(x.w[i], y.w[i], 1e-5, 1e-6) || (std::isnan(x.w[i]) && std::isnan(y.w[i]));
	mc::ok(eq, std::string(a.multi ? "mann" : "ann") + ":epochs", "%s, %s: 3 epochs at once give %s, one at a time %s", a.s().c_str(), d.s().c_str(), wx.c_str(), wy.c_str());
}
static double reg_of(const Arch &a, const D &w) { double t = 0; for (int i = 0; i < a.N(); i++) if (!a.isb(i)) { if (a.reg.kind == RIDGE) t += a.reg.lam / 2 * w[i] * w[i]; if (a.reg.kind == LASSO) t += a.reg.lam * std::fabs(w[i]); if (a.reg.kind == ELASTIC) t += a.reg.lam * (a.reg.al * std::fabs(w[i]) + (1 - a.reg.al) / 2 * w[i] * w[i]); } return t; }
static double cost_of(int c, const D &p, const F &y) { double s = 0; size_t n = p.size(); for (size_t i = 0; i < n; i++) { double r = p[i] - y[i]; s += c <= 1 ? r * r : c == 2 ? std::fabs(r) : c == 3 ? r : c == 4 ? -(y[i] * std::log(p[i]) + (1 - y[i]) * std::log(1 - p[i])) : c == 5 ? -y[i] * std::log(p[i]) : c == 6 ? std::max(0.0, 1 - y[i] * p[i]) : -p[i] * y[i]; } return c == 0 ? s / (2 * n) : c == 1 ? std::sqrt(s / n) : c == 5 ? s : s / n; }
static void costs(const Arch &a, const Data &d, const P &p) {
	if (a.reg.kind == CLIP) return; D o; bool amb = false; for (int i = 0; i < d.n; i++) { Rows v, s; forward(a, p.w, d.x(i), v, s, amb); o.insert(o.end(), v.back().begin(), v.back().end()); } for (double q : o) if ((a.cost == 4 || a.cost == 5) && (q < 5e-3 || q > 1 - 5e-3)) amb = true; if (amb) return;
	Real N(a, d); N.put(p.w); Val v = N.many(N.X); double e = cost_of(a.cost, o, d.Y) + reg_of(a, p.w), g = N.n ? N.n->cost(mkv(v.v), N.y) : N.m->cost(mkm(d.n, d.c, v.v), N.Y); mc::transition();
	mc::ok(mc::close(e, g, 3e-4, 3e-5), std::string(a.multi ? "mann" : "ann") + ":cost", "%s, %s, parameters %s: cost %.7g, expected %.7g", a.s().c_str(), d.s().c_str(), wstr(p.w).c_str(), g, e);
}
void explore() {
	bool T = mc::thorough(); std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 }, { CLIP, -0.3, 0.4 } };
	I all; for (auto &x : acts()) if (x.dom(-3) && x.dom(0) && x.dom(3) && strcmp(x.n, "sinh") && strcmp(x.n, "cosh")) all.push_back(x.id); // defined on the whole line
	const int S = AF::ACTIVATION_FUNCTION_SIGMOID, TH = AF::ACTIVATION_FUNCTION_TANH, LI = AF::ACTIVATION_FUNCTION_LINEAR, SM = AF::ACTIVATION_FUNCTION_SOFTMAX;
	std::vector<I> hids = { {}, { 1 }, { 2 }, { 3, 2 }, { 2, 3 }, { 2, 2 }, { 2, 3, 2 } }; if (T) { hids.push_back({ 3, 1, 3 }); hids.push_back({ 2, 2, 2, 2 }); hids.push_back({ 4, 3 }); }
	std::vector<I> wide = { { 5 }, { 5, 4 }, { 4, 6, 3 }, { 2, 2, 2, 2 } };
	for (int multi = 0; multi < 2; multi++) {
		// every hidden activation with every cost; every output activation
		for (int act : all) MC_CASE("%s: hidden activation %d", multi ? "mann" : "ann", act) for (auto &h : hids) { if (h.empty()) continue; for (int cost = 0; cost < 8; cost++) for (int v = 0; v < (T ? 4 : 1); v++) { bool bin = cost == 4 || cost == 5; int k = 1 + (v + cost) % 3, c = multi ? 1 + (v + cost) % 3 : 1; Arch a = mk(multi, k, h, c, { act, TH }, bin ? S : LI, cost, regs[(cost + v) % (multi ? 5 : 4)]); Data d = net_data(2 + (v + cost) % 3, k, c, v + cost, bin || cost == 6, multi); P p = net_start(a, v + cost); net_history(a, d, p, { { O_GD, 2, 1, 0.1 } }); } }
		for (int act : all) MC_CASE("%s: output activation %d", multi ? "mann" : "ann", act) for (auto &h : hids) for (int v = 0; v < (T ? 6 : 2); v++) { int c = multi ? 1 + v % 3 : 1; Arch a = mk(multi, 2, h, c, { TH, S }, act, v % 4, regs[v % (multi ? 5 : 4)]); Data d = net_data(3, 2, c, v, false, multi); net_history(a, d, net_start(a, v), { { O_GD, 2, 1, 0.1 } }); }
		if (multi) MC_CASE("mann: soft-max output") for (auto &h : hids) for (int c = 2; c <= 4; c++) for (int k = 1; k <= 3; k++) for (int v = 0; v < (T ? 8 : 3); v++) for (auto &r : regs) { Arch a = mk(true, k, h, c, { S, TH }, SM, 5, r); Data d = net_data(2 + v, k, c, v, true, true); net_history(a, d, net_start(a, v), { { O_GD, 3, 1, 0.2 } }); }
		// every small data set
		int sh[][2] = { { 1, 1 }, { 2, 1 }, { 3, 1 }, { 1, 2 }, { 2, 2 } };
		for (auto &q : sh) for (auto &h : hids) MC_CASE("%s: every data set of %d rows of %d features, %zu hidden layers (%d)", multi ? "mann" : "ann", q[0], q[1], h.size(), h.empty() ? 0 : h[0] * 10 + h.back()) tuples(F{ -1, 0, 0.5f, 2 }, q[0] * q[1], [&](const F &X) { int code = 0; for (float f : X) code = code * 5 + int(f * 4 + 9); code &= 0xffff; if (!T && h.size() > 2 && code % 4) return;
			for (int lab = 0; lab < 2; lab++) { int c = multi ? 1 + (code + lab) % 2 : 1; Arch a = mk(multi, q[1], h, c, { S, TH }, lab ? LI : S, lab ? 0 : 4, regs[(code + lab) % (multi ? 5 : 4)]); Data d = net_data(q[0], q[1], c, lab + code, !lab, multi); d.X = X; P p = net_start(a, code); for (int e = 1; e <= 2; e++) net_history(a, d, p, { { O_GD, e, 1, 0.2 } }); costs(a, d, p); epochs(a, d, p, 0.2); } });
		// larger, position coded
		for (int n = 2; n <= (T ? 7 : 5) + 1; n++) for (int k = 1; k <= 5; k++) if (n <= (T ? 7 : 5) ? k <= 3 : k == 5) MC_CASE("%s: %d rows of %d features", multi ? "mann" : "ann", n, k) for (auto &h : k == 5 ? wide : hids) for (int v = 0; v < (T ? 6 : 2); v++) for (int cost = 0; cost < 8; cost++) for (size_t ri = 0; ri < (multi ? 5u : 4u); ri++) { bool bin = cost == 4 || cost == 5; if (!T && ri != (size_t)(v + cost + n) % 4 && cost) continue; int c = multi ? 1 + (v + n) % 3 : 1; Arch a = mk(multi, k, h, c, { TH, S }, bin ? S : LI, cost, regs[ri]); Data d = net_data(n, k, c, v, bin || cost == 6, multi); P p = net_start(a, v + n); net_history(a, d, p, { { O_GD, 3, 1, 0.1 } }); net_history(a, d, p, { { O_GD, 1, 1, 0.2 }, { O_GD, 2, 1, 0.1 } }); costs(a, d, p); }
	}
}
