// MC: variant=asan
// C33: soft-max regression. Every small data set, start, regularisation, optimiser history and sample order against the cross-entropy update rule.
#include "glm.h"
#include "modules/softmax_reg/softmax_reg.h"
struct S3 { int n, k, c; F X; I lab; F y() const { F r(n * c, 0.f); for (int i = 0; i < n; i++) r[i * c + lab[i]] = 1; return r; } };
static D probs(const P &p, const S3 &s, int i) { D z(s.c); double m = -1e300, t = 0; for (int q = 0; q < s.c; q++) { z[q] = p.w[s.k * s.c + q]; for (int j = 0; j < s.k; j++) z[q] += p.w[j * s.c + q] * s.X[i * s.k + j]; m = std::max(m, z[q]); } for (double &v : z) t += v = std::exp(v - m); for (double &v : z) v /= t; return z; }
static void step(P &p, const S3 &s, const I &rows, double lr, const RegP &r) {
	int W = s.k * s.c; D g(p.w.size(), 0.0); for (int i : rows) { D h = probs(p, s, i); for (int q = 0; q < s.c; q++) { double e = h[q] - (s.lab[i] == q); g[W + q] += e; for (int j = 0; j < s.k; j++) g[j * s.c + q] += e * s.X[i * s.k + j]; } }
	P a; a.amb = false; for (int j = 0; j < W; j++) a.w.push_back(p.w[j] - lr * g[j]); regstep(a, r); p.amb = p.amb || a.amb; for (int j = 0; j < W; j++) p.w[j] = a.w[j]; for (size_t j = W; j < p.w.size(); j++) p.w[j] -= lr * g[j];
}
static void after(const S3 &s, const RegP &r, const Call &c, const P &p, int ep, std::vector<P> &out, I &fi, int f = -1) { if (ep == c.epochs) { out.push_back(p); fi.push_back(f); return; } if (c.opt == SGD) { for (int i = 0; i < s.n; i++) { P q = p; step(q, s, I{ i }, c.lr, r); after(s, r, c, q, ep + 1, out, fi, ep ? f : i); } return; } P q = p; if (c.opt == MBGD) for (auto &b : batches(s.n, c.mb)) step(q, s, b, c.lr, r); else step(q, s, allrows(s.n), c.lr, r); after(s, r, c, q, ep + 1, out, fi, f); }
static void predict(MLPPSoftmaxReg &m, const P &p, const S3 &s, Ref<MLPPMatrix> X, const std::string &in) {
	Val v = dump(m.model_set_test(X)); mc::ok(v.d == I{ s.n, s.c }, "model_set_test:size", "%s: predictions %s", in.c_str(), v.s().c_str());
	for (int i = 0; i < s.n; i++) { D e = probs(p, s, i); Val g = dump(m.model_test(mkv(F(s.X.begin() + i * s.k, s.X.begin() + (i + 1) * s.k)))); mc::transition(); double sum = 0; bool a = g.d == I{ s.c }, b = v.d == I{ s.n, s.c }; for (int q = 0; q < s.c; q++) { a = a && mc::close(e[q], g.v[q], 3e-4, 3e-5) && g.v[q] >= 0; b = b && mc::close(e[q], v.v[i * s.c + q], 3e-4, 3e-5); if (a) sum += g.v[q]; }
		mc::ok(a && std::fabs(sum - 1) < 1e-4, "model_test", "%s: row %d gives %s, expected %.6g ...", in.c_str(), i, g.s().c_str(), e[0]); mc::ok(b, "model_set_test", "%s: gives %s, expected %.6g ... in row %d", in.c_str(), v.s().c_str(), e[0], i); }
}
static P take(MLPPSoftmaxReg &m) { P g; g.amb = false; g.b = 0; Val w = dump(m.data_weights_get()), b = dump(m.data_bias_get()); for (float v : w.v) g.w.push_back(v); for (float v : b.v) g.w.push_back(v); return g; }
static void history(const S3 &s, const RegP &r, const P &p0, const std::vector<Call> &h, std::set<int> *firsts = nullptr) {
	std::vector<P> ref = { p0 }; I fi; for (auto &c : h) { std::vector<P> nx; fi.clear(); for (auto &p : ref) after(s, r, c, p, 0, nx, fi); ref = nx; } for (auto &p : ref) if (p.amb || !sane(p)) return;
	Ref<MLPPMatrix> X = mkm(s.n, s.k, s.X), y = mkm(s.n, s.c, s.y()); Val fx = dump(X), fy = dump(y); std::string in = mc::fmt("rows %s targets %s, reg %s, start %s: %s", fx.s().c_str(), fy.s().c_str(), REGN[r.kind], ps(p0).c_str(), cs(h).c_str()), key = OPTN[h.back().opt]; mc::state(in);
	bool byprops = (s.n + r.kind + h.back().mb + h.size()) & 1; Ref<MLPPSoftmaxReg> mr = byprops ? Ref<MLPPSoftmaxReg>(memnew(MLPPSoftmaxReg)) : Ref<MLPPSoftmaxReg>(memnew(MLPPSoftmaxReg(X, y, REG[r.kind], r.lam, r.al))); MLPPSoftmaxReg &m = **mr;
	if (byprops) { mc::ok(m.needs_init(), "properties:init", "a model without data says it is ready"); m.set_alpha(7); for (int q = 0; q < 5; q++) switch ((q * 2 + s.k) % 5) { case 0: m.set_input_set(X); break; case 1: m.set_output_set(y); break; case 2: m.set_reg(REG[r.kind]); break; case 3: m.set_lambda(r.lam); break; default: m.set_alpha(r.al); }
		mc::ok(m.get_input_set() == X && m.get_output_set() == y && m.get_reg() == REG[r.kind] && m.get_lambda() == (real_t)r.lam && m.get_alpha() == (real_t)r.al, "properties", "%s: properties not kept", in.c_str()); m.initialize(); mc::ok(!m.needs_init(), "properties:init", "%s: not ready after initialize()", in.c_str()); }
	m.data_weights_set(mkm(s.k, s.c, F(p0.w.begin(), p0.w.begin() + s.k * s.c))); m.data_bias_set(mkv(F(p0.w.begin() + s.k * s.c, p0.w.end()))); predict(m, p0, s, X, in);
	for (auto &c : h) { if (c.opt == GD) m.train_gradient_descent(c.lr, c.epochs); if (c.opt == SGD) m.train_sgd(c.lr, c.epochs); if (c.opt == MBGD) m.train_mbgd(c.lr, c.epochs, c.mb); }
	P g = take(m); int hit = -1; for (size_t i = 0; i < ref.size() && hit < 0; i++) if (pclose(ref[i], g)) hit = i; mc::outcome(mc::fmt("%s %d/%zu", key.c_str(), hit, ref.size())); mc::transition();
	if (mc::ok(hit >= 0, key + ":weights", "%s ends with %s, expected %s%s", in.c_str(), ps(g).c_str(), ps(ref[0]).c_str(), ref.size() > 1 ? " or another sample order" : "")) { if (firsts) firsts->insert(fi[hit]); predict(m, g, s, X, in); int right = 0; bool near = false; for (int i = 0; i < s.n; i++) { D q = probs(g, s, i); bool all = true; for (int c = 0; c < s.c; c++) { near = near || std::fabs(q[c] - 0.5) < 1e-3; all = all && std::round(q[c]) == (s.lab[i] == c); } right += all; } if (!near) mc::ok(mc::close(m.score(), (double)right / s.n, 1e-5, 1e-6), "score", "%s: score %g with %d of %d right", in.c_str(), m.score(), right, s.n); }
	mc::ok(same(fx, dump(X)) && same(fy, dump(y)), key + ":input-changed", "%s: training data changed", in.c_str());
}
static P start(const S3 &s, int v) { static const double g[] = { 0.5, -0.75, 0.2, 0.9, -0.3 }; P p; p.amb = false; p.b = 0; for (int i = 0; i < s.k * s.c + s.c; i++) p.w.push_back(g[(i * (v + 1) + v) % 5]); return p; }
void explore() {
	bool T = mc::thorough(); std::vector<RegP> regs = { { NONE, 0, 0 }, { RIDGE, 0.25, 0.5 }, { LASSO, 0.125, 0.5 }, { ELASTIC, 0.25, 0.75 }, { CLIP, -0.3, 0.4 } };
	int sh[][3] = { { 1, 1, 2 }, { 2, 1, 2 }, { 2, 1, 3 }, { 3, 1, 2 }, { 1, 2, 3 }, { 2, 2, 2 } }; for (auto &d : sh) { int n = d[0], k = d[1], c = d[2]; tuples(F{ -1, 0, 0.5f, 2 }, n * k, [&](const F &X) { MC_CASE("%d classes, every labelling, rows %s", c, (Val{ { n, k }, X }).s().c_str()) { int N = 1; for (int i = 0; i < n; i++) N *= c; for (int l = 0; l < N; l++) { S3 s{ n, k, c, X, {} }; for (int i = 0, q = l; i < n; i++, q /= c) s.lab.push_back(q % c); int hs = l; for (float v : X) hs = std::abs(hs * 5 + int(v * 4 + 9)); P p0 = start(s, hs % 7); for (size_t ri = 0; ri < regs.size(); ri++) { if (n * k > 2 && !T && (int)ri != hs % 5) continue; for (int e = 1; e <= 2; e++) { double lr = e == 1 ? 0.5 : 0.1; history(s, regs[ri], p0, { { GD, e, 0, lr } }); for (int mb = 1; mb <= n; mb++) history(s, regs[ri], p0, { { MBGD, e, mb, lr } }); for (int sd = 0; sd < (n > 1 ? 3 : 1); sd++) { g_seed = hs * 7 + sd * 13 + e; history(s, regs[ri], p0, { { SGD, e, 0, lr } }); } } } } } }); }
	for (int n = 2; n <= (T ? 8 : 6) + 1; n++) for (int k = 1; k <= 6; k++) for (int c = 2; c <= 6; c++) if (n <= (T ? 8 : 6) ? k <= 4 && c <= 4 : k == 6 && c == 6) MC_CASE("%d rows of %d features, %d classes", n, k, c) for (int v = 0; v < (T ? 8 : 3); v++) { S3 s{ n, k, c, {}, {} }; for (int i = 0; i < n * k; i++) s.X.push_back(((i * (v + 2) + i / k + v + i * i) % 7 - 3) * 0.4f); for (int i = 0; i < n; i++) s.lab.push_back((i * (v + 1) + v) % c); P p0 = start(s, v);
		for (auto &r : regs) { for (int mb = 1; mb <= n; mb++) history(s, r, p0, { { MBGD, 2, mb, 0.1 } }); history(s, r, p0, { { GD, 3, 0, 0.1 } }); if (n <= 4) { g_seed = v * 31 + n + k; history(s, r, p0, { { SGD, 3, 0, 0.1 } }); history(s, r, p0, { { SGD, 1, 0, 0.1 }, { GD, 1, 0, 0.2 } }); history(s, r, p0, { { MBGD, 1, 2, 0.1 }, { SGD, 1, 0, 0.2 } }); } history(s, r, p0, { { GD, 1, 0, 0.1 }, { MBGD, 1, 1 + n / 2, 0.1 } }); } }
	for (int n = 2; n <= 5; n++) MC_CASE("sgd draws every one of %d rows", n) { S3 s{ n, 1, 2, {}, {} }; for (int i = 0; i < n; i++) s.X.push_back(0.2f + 0.37f * i), s.lab.push_back(i % 2); std::set<int> seen; for (int sd = 0; sd < 80; sd++) { g_seed = sd; history(s, regs[0], start(s, 1), { { SGD, 1, 0, 0.3 } }, &seen); } mc::ok((int)seen.size() == n, "sgd:coverage", "80 seeds draw only %zu of the %d rows first", seen.size(), n); }
}
