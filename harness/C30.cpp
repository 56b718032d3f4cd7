// MC: variant=asan
// C30: linear regression. Every small data set, start, regularisation, optimiser history and sample order against the update rule.
#include "glm.h"
#include "lin.h"
#include "modules/lin_reg/lin_reg.h"
static double id(double z) { return z; }
enum { MOM, NAG, ADAGRAD, ADADELTA, ADAM, ADAMAX, NADAM, NADAPT };
static const char *AN[] = { "momentum", "nag", "adagrad", "adadelta", "adam", "adamax", "nadam" };
struct M : Inst, MLPPLinReg { M(Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) : MLPPLinReg(X, y, REG[r.kind], r.lam, r.al) {}
	void put(const P &p) { _weights = mkv(F(p.w.begin(), p.w.end())); _bias = p.b; }
	P get() { P p; p.amb = false; for (int i = 0; i < _weights->size(); i++) p.w.push_back(_weights->element_get(i)); p.b = _bias; return p; }
	void train(int o, double lr, int e, int mb) { if (o == GD) gradient_descent(lr, e); if (o == SGD) sgd(lr, e); if (o == MBGD) mbgd(lr, e, mb); }
	void adapt(int o, double lr, int e, int mb, double a, double b, double eps) { if (o == MOM) momentum(lr, e, mb, a); if (o == NAG) nag(lr, e, mb, a); if (o == ADAGRAD) adagrad(lr, e, mb, eps); if (o == ADADELTA) adadelta(lr, e, mb, a, eps); if (o == ADAM) adam(lr, e, mb, a, b, eps); if (o == ADAMAX) adamax(lr, e, mb, a, b, eps); if (o == NADAM) nadam(lr, e, mb, a, b, eps); }
	double one(const F &x) { return model_test(mkv(x)); } Val many(Ref<MLPPMatrix> X) { return dump(model_set_test(X)); } double score() { return MLPPLinReg::score(); } };
static Fam fam() { return { "linear", id, [](double z, double y) { return z - y; }, 1u << GD | 1u << SGD | 1u << MBGD, false, nullptr, [](Ref<MLPPMatrix> X, Ref<MLPPVector> y, const RegP &r) -> Inst * { return new M(X, y, r); } }; }
static void adapt(const Fam &f, const Set &s, const RegP &r, const P &p0, int o, double lr, int epochs, int mb, double a, double b, double eps) {
	P p = p0; D m(s.k, 0.0), v(s.k, 0.0); auto bs = batches(s.n, mb);
	for (int t = 1; t <= epochs; t++) for (auto &rows : bs) {
		if (o == NAG) for (int j = 0; j < s.k; j++) p.w[j] -= a * v[j];
		D g = regderiv(p, r, p.amb); double gb = 0; for (int i : rows) { double e = lin(p, s, i) - s.y[i]; gb += e / rows.size(); for (int j = 0; j < s.k; j++) g[j] += e * s.x(i, j) / rows.size(); }
		for (int j = 0; j < s.k; j++) { double st = 0, G = g[j]; if (std::fabs(G) < 1e-4 && o != MOM && o != NAG && G != 0) p.amb = true;
			switch (o) { case MOM: v[j] = a * v[j] + lr * G; st = v[j]; break; case NAG: v[j] = a * v[j] + lr * G; st = lr * G; break; case ADAGRAD: v[j] += G * G; st = lr * G / std::sqrt(v[j] + eps); break; case ADADELTA: v[j] = a * v[j] + (1 - a) * G * G; st = lr * G / std::sqrt(v[j] + eps); break;
				case ADAM: m[j] = a * m[j] + (1 - a) * G; v[j] = b * v[j] + (1 - b) * G * G; st = lr * (m[j] / (1 - std::pow(a, t))) / (std::sqrt(v[j] / (1 - std::pow(b, t))) + eps); break;
				case ADAMAX: m[j] = a * m[j] + (1 - a) * G; v[j] = std::max(b * v[j], std::fabs(G)); st = lr * (m[j] / (1 - std::pow(a, t))) / (v[j] + eps); break;
				case NADAM: m[j] = a * m[j] + (1 - a) * G; v[j] = b * v[j] + (1 - b) * G * G; st = lr * (a * m[j] / (1 - std::pow(a, t)) + (1 - a) * G / (1 - std::pow(a, t))) / (std::sqrt(v[j] / (1 - std::pow(b, t))) + eps); break; }
			p.w[j] -= st; }
		p.b -= lr * gb;
	}
	if (p.amb || !sane(p)) return;
	Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X); Ref<MLPPVector> y = mkv(s.y); Val fx = dump(X), fy = dump(y); std::string in = mc::fmt("%s, reg %s(%g,%g), start %s: %s(lr %g, %d epochs, batch %d, %g, %g, %g)", ss(s).c_str(), REGN[r.kind], r.lam, r.al, ps(p0).c_str(), AN[o], lr, epochs, mb, a, b, eps), key = std::string("linear:") + AN[o];
	mc::state(in); M *mm = new M(X, y, r); mm->put(p0); mm->adapt(o, lr, epochs, mb, a, b, eps); P g = mm->get(); mc::transition(); mc::outcome(key);
	if (mc::ok(pclose(p, g, 5e-4, 5e-5), key + ":weights", "%s ends with %s, expected %s", in.c_str(), ps(g).c_str(), ps(p).c_str())) predict(f, *mm, g, s, X, in);
	mc::ok(same(fx, dump(X)) && same(fy, dump(y)), key + ":input-changed", "%s: training data changed", in.c_str()); delete mm;
}
static bool solve(DM A, D b, D &x) { int n = A.size(); for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (std::fabs(A[i][c]) > std::fabs(A[p][c])) p = i; if (std::fabs(A[p][c]) < 1e-6) return false; std::swap(A[p], A[c]); std::swap(b[p], b[c]); for (int i = 0; i < n; i++) if (i != c) { double q = A[i][c] / A[c][c]; for (int j = c; j < n; j++) A[i][j] -= q * A[c][j]; b[i] -= q * b[c]; } } x.resize(n); for (int i = 0; i < n; i++) x[i] = b[i] / A[i][i]; return true; }
static void closed(const Fam &f, const Set &s, const RegP &r) {
	D xm(s.k, 0.0); double ym = 0; for (int i = 0; i < s.n; i++) { ym += s.y[i] / (double)s.n; for (int j = 0; j < s.k; j++) xm[j] += s.x(i, j) / s.n; }
	DM G = dm(s.k, s.k); D c(s.k, 0.0); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.k; j++) { c[j] += (s.x(i, j) - xm[j]) * (s.y[i] - ym); for (int l = 0; l < s.k; l++) G[j][l] += (s.x(i, j) - xm[j]) * (s.x(i, l) - xm[l]); }
	double tr = 0; for (int j = 0; j < s.k; j++) tr += G[j][j]; if (std::fabs(ddet(G)) < 0.02 * std::pow(tr / s.k, s.k) || tr < 0.05) return; DM H = G; if (r.kind == RIDGE) for (int j = 0; j < s.k; j++) H[j][j] += r.lam; P e; e.amb = false; if (!solve(H, c, e.w)) return; e.b = ym; for (int j = 0; j < s.k; j++) e.b -= e.w[j] * xm[j];
	Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X); Ref<MLPPVector> y = mkv(s.y); Val fx = dump(X), fy = dump(y); M m(X, y, r); m.normal_equation(); P g = m.get(); std::string in = mc::fmt("%s, reg %s(%g)", ss(s).c_str(), REGN[r.kind], r.lam); mc::state(in); mc::transition(); mc::outcome("normal");
	mc::ok(pclose(e, g, 2e-3, 5e-4), "linear:normal_equation", "%s: %s, expected %s", in.c_str(), ps(g).c_str(), ps(e).c_str()); mc::ok(same(fx, dump(X)) && same(fy, dump(y)), "linear:normal_equation:input-changed", "%s: training data changed", in.c_str()); predict(f, m, g, s, X, in);
}
static void newton(const Fam &f, const Set &s, const RegP &r, const P &p0, double lr, int epochs) {
	P p = p0; for (int t = 0; t < epochs; t++) { DM H = dm(s.k, s.k); D c(s.k, 0.0), d; double gb = 0; for (int i = 0; i < s.n; i++) { double e = lin(p, s, i) - s.y[i]; gb += e; for (int j = 0; j < s.k; j++) { c[j] += e * s.x(i, j); for (int l = 0; l < s.k; l++) H[j][l] += s.x(i, j) * s.x(i, l); } } double tr = 0; for (int j = 0; j < s.k; j++) tr += H[j][j]; if (std::fabs(ddet(H)) < 0.02 * std::pow(tr / s.k, s.k) || tr < 0.05 || !solve(H, c, d)) return; for (int j = 0; j < s.k; j++) p.w[j] -= lr / s.n * d[j]; regstep(p, r); p.b -= lr * gb / s.n; }
	if (p.amb || !sane(p)) return; Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X); Ref<MLPPVector> y = mkv(s.y); Val fx = dump(X), fy = dump(y); M m(X, y, r); m.put(p0); m.newton_raphson(lr, epochs); P g = m.get(); std::string in = mc::fmt("%s, reg %s, start %s, lr %g, %d epochs", ss(s).c_str(), REGN[r.kind], ps(p0).c_str(), lr, epochs); mc::state(in); mc::transition(); mc::outcome("newton");
	mc::ok(pclose(p, g, 2e-3, 5e-4), "linear:newton_raphson", "%s: %s, expected %s", in.c_str(), ps(g).c_str(), ps(p).c_str()); mc::ok(same(fx, dump(X)) && same(fy, dump(y)), "linear:newton_raphson:input-changed", "%s: training data changed", in.c_str()); predict(f, m, g, s, X, in);
}
void explore() {
	Fam f = fam(); explore_family(f, { -1, 0, 0.5f, 2 }, { 0, 1.5f, -1 }, { 0.5f, -0.75f, 0.2f, 0 }); bool T = mc::thorough();
	std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 } }; F xs = { -1, 0, 0.5f, 2 };
	for (int o = 0; o < NADAPT; o++) for (int n = 1; n <= (T ? 7 : 5); n++) for (int k = 1; k <= 3; k++) MC_CASE("linear %s: %d rows of %d features", AN[o], n, k) for (int v = 0; v < (T ? 8 : 2); v++) { F X, y; for (int i = 0; i < n * k; i++) X.push_back(xs[(i * (v + 2) + i / k + v) % 4] + 0.05f * ((i * 7 + v) % 5)); for (int i = 0; i < n; i++) y.push_back((i * (v + 1) + v) % 4 - 1.5f); if (v == 1) for (int i = 0; i < n; i++) X[i * k] = 0; Set s = mkset(n, k, X, y);
		tuples(F{ 0.5f, -0.75f }, k, [&](const F &w) { P p0; p0.amb = false; p0.w = D(w.begin(), w.end()); p0.b = 0.3; for (auto &r : regs) for (int mb = 1; mb <= n; mb++) for (int e = 1; e <= 4; e += (o >= ADAM ? 1 : 2)) { adapt(f, s, r, p0, o, 0.1, e, mb, 0.9, 0.999, 1e-8); adapt(f, s, r, p0, o, 0.05, e, mb, 0.5, 0.7, 0.01); } }); }
	for (int n = 2; n <= 4; n++) for (int k = 1; k <= 2 && n * k <= 6; k++) tuples(F{ -1, 0, 2 }, n * k, [&](const F &X) { MC_CASE("linear closed forms, rows %s", (Val{ { n, k }, X }).s().c_str()) tuples(F{ 0, 1.5f, -1 }, n, [&](const F &y) { Set s = mkset(n, k, X, y); closed(f, s, { NONE, 0, 0 }); closed(f, s, { RIDGE, 0.5, 0 }); P p0; p0.amb = false; p0.w = D(k, 0.5); p0.b = -0.25; for (int e = 1; e <= 3; e += 2) { newton(f, s, { NONE, 0, 0 }, p0, 1, e); newton(f, s, regs[e], p0, 0.5, e); } }); });
	for (int n = 4; n <= 9; n++) for (int k = 1; k <= 3; k++) MC_CASE("linear closed forms, %d rows of %d features", n, k) for (int v = 0; v < 12; v++) { F X, y; for (int i = 0; i < n * k; i++) X.push_back((i * i * (v + 1) + i * 3 + v) % 7 - 3); for (int i = 0; i < n; i++) y.push_back((i * (v + 2)) % 5 - 1.5f); Set s = mkset(n, k, X, y); closed(f, s, { NONE, 0, 0 }); closed(f, s, { RIDGE, 1.5, 0 }); P p0; p0.amb = false; p0.w = D(k, -0.5); p0.b = 0.25; newton(f, s, { NONE, 0, 0 }, p0, 1, 2); newton(f, s, { RIDGE, 0.25, 0 }, p0, 0.5, 3); }
}
