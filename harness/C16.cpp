// MC: variant=asan
// C16: regularisation terms, their gradients and the weight update agree.
#include "arith.h"
#include "core/reg.h"
typedef Ref<MLPPVector> RV; typedef Ref<MLPPMatrix> RM; typedef MLPPReg R_;
void explore() {
	static Ref<MLPPReg> reg; reg.instance(); R_ *P = reg.ptr();
	std::vector<float> ws = { -2, -0.5f, 0, 0.25f, 1, 3 };
	struct Kind { const char *n; R_::RegularizationType t; } kinds[] = { { "none", R_::REGULARIZATION_TYPE_NONE }, { "ridge", R_::REGULARIZATION_TYPE_RIDGE }, { "lasso", R_::REGULARIZATION_TYPE_LASSO }, { "elastic net", R_::REGULARIZATION_TYPE_ELASTIC_NET }, { "weight clipping", R_::REGULARIZATION_TYPE_WEIGHT_CLIPPING } };
	std::vector<std::vector<float>> samples; std::vector<Dims> dims;
	for (int n = 1; n <= (mc::thorough() ? 4 : 3); n++) tuples(ws, n, [&](const std::vector<float> &w) { samples.push_back(w); });
	for (int n : { 0, 4, 5, 6, 8, 9, 15, 24 }) for (int o = 0; o < 6; o++) { std::vector<float> w; for (int i = 0; i < n; i++) w.push_back(ws[(i * 5 + o + i / 6) % 6]); samples.push_back(w); }
	for (auto &k : kinds) for (float l : { -0.5f, 0.f, 0.1f, 2.f }) for (float a : { 0.f, 0.25f, 1.f, 0.5f }) {
		bool clip = k.t == R_::REGULARIZATION_TYPE_WEIGHT_CLIPPING;
		if (clip ? l > a : l < 0) continue;
		for (auto &w : samples) MC_CASE("%s lambda %g alpha %g on %s", k.n, l, a, (Val{ { (int)w.size() }, w }).s().c_str()) {
			int n = w.size(); double term = 0; std::vector<double> g, nw;
			for (float x : w) {
				double r = l * x * (double)x / 2, s = l * std::fabs(x), dr = l * x, ds = x > 0 ? l : x < 0 ? -l : 0;
				double t = k.t == R_::REGULARIZATION_TYPE_RIDGE ? r : k.t == R_::REGULARIZATION_TYPE_LASSO ? s : k.t == R_::REGULARIZATION_TYPE_ELASTIC_NET ? a * s + (1 - a) * r : 0;
				double d = k.t == R_::REGULARIZATION_TYPE_RIDGE ? dr : k.t == R_::REGULARIZATION_TYPE_LASSO ? ds : k.t == R_::REGULARIZATION_TYPE_ELASTIC_NET ? a * ds + (1 - a) * dr : 0;
				double c = x > a ? a : x < l ? l : x;
				term += t; g.push_back(clip ? c : d); nw.push_back(clip ? c : x - d);
			}
			std::string K = k.n, in = Val{ { n }, w }.s(); mc::state(K + in); mc::outcome(mc::fmt("%.6g", term));
			RV v = mkv(w); mc::transition(3);
			double tv = P->reg_termv(v, l, a, k.t); mc::ok(mc::close(term, tv, 2e-5, 1e-6), K + ":term:vector", "%s penalty (lambda %g, alpha %g) of %s: expected %.7g, got %.7g", k.n, l, a, in.c_str(), term, tv);
			Exp eg, ew; eg.d = ew.d = { n }; eg.v = g; ew.v = nw;
			RV gv = P->reg_deriv_termv(v, l, a, k.t), wv = P->reg_weightsv(v, l, a, k.t);
			mc::ok(agrees(eg, dump(gv)), K + ":gradient:vector", "%s gradient of %s: expected %s, got %s", k.n, in.c_str(), es(eg).c_str(), dump(gv).s().c_str());
			mc::ok(agrees(ew, dump(wv)), K + ":update:vector", "%s update of %s: expected %s, got %s", k.n, in.c_str(), es(ew).c_str(), dump(wv).s().c_str());
			mc::ok(same(Val{ { n }, w }, dump(v)) && wv != v, K + ":argument:vector", "%s changed its argument", k.n);
			for (int rows = 1; rows <= n; rows++) if (n % rows == 0) {
				RM m = mkm(rows, n / rows, w); mc::transition(3);
				double tm = P->reg_termm(m, l, a, k.t); mc::ok(mc::close(term, tm, 2e-5, 1e-6), K + ":term:matrix", "%s penalty (lambda %g, alpha %g) of %s as %d rows: expected %.7g, got %.7g", k.n, l, a, in.c_str(), rows, term, tm);
				RM gm = P->reg_deriv_termm(m, l, a, k.t), wm = P->reg_weightsm(m, l, a, k.t);
				eg.d = ew.d = { rows, n / rows };
				mc::ok(agrees(eg, dump(gm)), K + ":gradient:matrix", "%s gradient of %s: expected %s, got %s", k.n, dump(m).s().c_str(), es(eg).c_str(), dump(gm).s().c_str());
				mc::ok(agrees(ew, dump(wm)), K + ":update:matrix", "%s update of %s: expected %s, got %s", k.n, dump(m).s().c_str(), es(ew).c_str(), dump(wm).s().c_str());
				mc::ok(same(Val{ { rows, n / rows }, w }, dump(m)) && wm != m, K + ":argument:matrix", "%s changed its argument", k.n);
			}
		}
	}
}
