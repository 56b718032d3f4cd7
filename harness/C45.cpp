// MC: variant=asan
// C45: every optimiser and learning-rate schedule of the layered network. Every history of training calls, batch size, epoch count and sample order against the published update rules.
#include "net.h"
static Arch mk(int k, const I &hid, int ha, int oa, int cost, RegP r) { Arch a; a.multi = false; a.sz = { k }; for (int h : hid) a.sz.push_back(h); a.sz.push_back(1); a.act.assign(hid.size(), ha); a.act.push_back(oa); a.cost = cost; a.reg = r; a.sched = 0; a.decay = a.drop = 0; return a; }
void explore() {
	bool T = mc::thorough(); std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 } };
	const int S = AF::ACTIVATION_FUNCTION_SIGMOID, TH = AF::ACTIVATION_FUNCTION_TANH, LI = AF::ACTIVATION_FUNCTION_LINEAR;
	std::vector<I> hids = { {}, { 2 }, { 3, 2 }, { 2, 3, 2 } };
	// every optimiser, batch size, epoch count, architecture and regularisation
	for (int o = O_SGD; o < N_OPT; o++) for (int n = 1; n <= (T ? 6 : 5); n++) MC_CASE("%s: %d rows", ONM[o], n) for (auto &h : hids) for (int k = 1; k <= 2; k++) for (auto &r : regs) for (int cost : { 0, 4 }) for (int v = 0; v < (T ? 4 : 1); v++) { Arch a = mk(k, h, v % 2 ? TH : S, cost ? S : LI, cost, r); Data d = net_data(n, k, 1, v + n + k, cost, false); P p = net_start(a, v + n + k); g_seed = n * 31 + k + v;
		if (o == O_SGD) { for (int e = 1; e <= (n <= 3 ? 3 : 2); e++) net_history(a, d, p, { { o, e, 1, 0.5 } }, nullptr, e == 1); } else for (int mb = 1; mb <= n; mb++) for (int e = 1; e <= 3; e++) net_history(a, d, p, { { o, e, mb, 0.5 } }, nullptr, mb == 1 && e == 1); }
	// every pair of calls: nothing carries over but the parameters
	for (int o = 0; o < N_OPT; o++) for (int q = 0; q < N_OPT; q++) MC_CASE("%s then %s", ONM[o], ONM[q]) for (auto &h : hids) for (int v = 0; v < (T ? 6 : 2); v++) { Arch a = mk(2, h, TH, LI, 0, regs[v % 4]); int n = 2 + v % 2; Data d = net_data(n, 2, 1, v + o, false, false); g_seed = v + o * 11 + q; net_history(a, d, net_start(a, v + q), { { o, 2, 1 + v % n, 0.4 }, { q, 2, 1 + (v + 1) % n, 0.3 } }); }
	// schedules
	for (int sc = 0; sc <= 4; sc++) for (int o = 0; o < N_OPT; o++) MC_CASE("schedule %d, %s", sc, ONM[o]) for (double decay : { 0.5, 0.25, 1.0, 0.8 }) for (double drop : { 1.0, 2.0, 3.0, 2.5 }) { if (sc != 3 && drop != 1) continue; for (auto &h : hids) { if (h.size() == 3 && !T) continue; Arch a = mk(2, h, TH, LI, 0, regs[0]); a.sched = sc; a.decay = decay; a.drop = drop; int n = o == O_SGD ? 2 : 3; Data d = net_data(n, 2, 1, sc + o, false, false); g_seed = sc + o; for (int e = 1; e <= (o == O_SGD ? 4 : 6); e += T ? 1 : 3) net_history(a, d, net_start(a, sc), { { o, e, 2, 0.5 } }, nullptr, false); } }
	// every row can be drawn
	for (int n = 2; n <= 5; n++) MC_CASE("sgd draws every one of %d rows", n) { Arch a = mk(1, { 2 }, TH, LI, 0, regs[0]); Data d = net_data(n, 1, 1, 1, false, false); for (int i = 0; i < n; i++) d.X[i] = 0.2f + 0.37f * i, d.Y[i] = i * i * 0.5f - 1; std::set<int> seen; for (int sd = 0; sd < 80; sd++) { g_seed = sd; g_draws = 0; net_history(a, d, net_start(a, 1), { { O_SGD, 1, 1, 0.5 } }, &seen, false); } mc::ok((int)seen.size() == n, "ann:sgd:coverage", "%zu of %d rows were ever drawn over 80 seeds", seen.size(), n); }
}
