// MC: variant=asan
// C17: descriptive statistics equal their definitions on every sample up to the bound, in every order.
#include <algorithm>
#include "arith.h"
#include "core/stat.h"
typedef Ref<MLPPVector> RV; typedef long double LD;
static MLPPStat *P;
static void num(const char *k, const std::string &in, LD e, double g, double rt = 3e-5, double at = 3e-6) { mc::transition(); mc::outcome(mc::fmt("%s %.6Lg", k, e)); mc::ok(mc::close((double)e, g, rt, at), std::string(k) + ":value", "%s of %s: expected %.7Lg, got %.7g", k, in.c_str(), e, g); }
// the value is either the definition, or exactly the deviating value the known-findings file describes (the repository's own test pins it): anything else is a violation of its own
static void known(const char *k, const char *how, const std::string &in, LD e, LD pinned, double g, double rt = 3e-5) {
	if (!mc::close((double)e, g, rt, 3e-6) && mc::close((double)pinned, g, rt, 3e-6)) { mc::transition(); mc::ok(false, std::string(k) + ":" + how, "%s of %s: expected %.7Lg, got %.7g", k, in.c_str(), e, g); return; }
	num(k, in, e, g, rt);
}
static LD mean(const std::vector<float> &x) { LD s = 0; for (float v : x) s += v; return s / x.size(); }
static LD cov(const std::vector<float> &x, const std::vector<float> &y) { LD a = mean(x), b = mean(y), s = 0; for (size_t i = 0; i < x.size(); i++) s += (x[i] - a) * (y[i] - b); return s / (x.size() - 1); }
static void one(const std::vector<float> &x) {
	int n = x.size(); std::string in = Val{ { n }, x }.s(); RV v = mkv(x); mc::state(in);
	LD m = mean(x), dev = 0, sq = 0, pr = 1, hs = 0; float mx = x[0], mn = x[0]; bool pos = true;
	for (float a : x) { dev += fabsl(a - m); sq += (LD)a * a; pr *= a; hs += 1.0L / a; mx = std::max(mx, a); mn = std::min(mn, a); pos &= a > 0; }
	std::vector<float> s = x; std::sort(s.begin(), s.end());
	num("mean", in, m, P->meanv(v)); num("median", in, n % 2 ? s[n / 2] : ((LD)s[n / 2] + s[n / 2 - 1]) / 2, P->median(v)); num("range", in, (LD)mx - mn, P->range(v)); known("midrange", "half-range", in, ((LD)mx + mn) / 2, ((LD)mx - mn) / 2, P->midrange(v));
	num("absolute average deviation", in, dev / n, P->abs_avg_deviation(v)); num("root mean square", in, sqrtl(sq / n), P->rms(v));
	if (n > 1) { num("variance", in, cov(x, x), P->variancev(v)); num("standard deviation", in, sqrtl(cov(x, x)), P->standard_deviationv(v), 3e-5, 1e-3); }
	std::map<float, int> cnt; int best = 0; for (float a : x) best = std::max(best, ++cnt[a]);
	std::vector<float> modes, got; for (auto &c : cnt) if (c.second == best) modes.push_back(c.first);
	RV r = P->mode(v); for (int i = 0; r.is_valid() && i < r->size(); i++) got.push_back(r->element_get(i));
	std::sort(got.begin(), got.end()); mc::transition();
	mc::ok(got == modes, "mode:value", "mode of %s: got %s", in.c_str(), dump(r).s().c_str());
	if (pos) {
		num("geometric mean", in, powl(pr, 1.0L / n), P->geometric_mean(v)); num("harmonic mean", in, n / hs, P->harmonic_mean(v)); num("contraharmonic mean", in, sq / (m * n), P->contra_harmonic_mean(v));
		for (float p : { -2.f, -1.f, 0.5f, 1.f, 2.f, 3.f }) {
			LD a = 0, u = 0, d = 0; for (float b : x) { a += powl(b, p); u += powl(b, p); d += powl(b, p - 1); }
			num("power mean", in + mc::fmt(" p=%g", p), powl(a / n, 1.0L / p), P->power_mean(v, p)); num("Lehmer mean", in + mc::fmt(" p=%g", p), u / d, P->lehmer_mean(v, p));
		}
	}
	mc::ok(same(Val{ { n }, x }, dump(v)), "sample:unchanged", "a statistic changed its sample %s to %s", in.c_str(), dump(v).s().c_str());
}
static void two(const std::vector<float> &x, const std::vector<float> &y) {
	int n = x.size(); std::string in = Val{ { n }, x }.s() + " and " + Val{ { n }, y }.s(); RV a = mkv(x), b = mkv(y); mc::state(in);
	LD w = 0, s = 0; for (int i = 0; i < n; i++) { w += y[i]; s += (LD)x[i] * y[i]; }
	if (fabsl(w) > 0.1L) num("weighted mean", in, s / w, P->weighted_mean(a, b));
	bool pos = true; for (int i = 0; i < n; i++) pos &= x[i] > 0 && y[i] > 0;
	if (pos) for (float p : { -1.f, 0.5f, 2.f, 3.f }) { LD u = 0, d = 0; for (int i = 0; i < n; i++) { u += y[i] * powl(x[i], p); d += y[i] * powl(x[i], p - 1); } num("weighted Lehmer mean", in + mc::fmt(" p=%g", p), u / d, P->weighted_lehmer_mean(a, b, p)); }
	if (n > 1) {
		LD c = cov(x, y), vx = cov(x, x), vy = cov(y, y);
		num("covariance", in, c, P->covariancev(a, b));
		if (vx > 1e-3L && vy > 1e-3L) { LD r = c / sqrtl(vx * vy); num("correlation", in, r, P->correlation(a, b)); num("determination", in, r * r, P->r2(a, b)); mc::ok(std::fabs(P->correlation(a, b)) <= 1.0001, "correlation:bounds", "correlation of %s outside [-1, 1]", in.c_str()); }
		if (vx > 1e-3L) { LD k = c / vx; num("slope", in, k, P->b1_estimation(a, b)); num("intercept", in, mean(y) - k * mean(x), P->b0_estimation(a, b), 5e-5, 2e-5); }
	}
	mc::ok(same(Val{ { n }, x }, dump(a)) && same(Val{ { n }, y }, dump(b)), "samples:unchanged", "a statistic of two samples changed one of them (%s)", in.c_str());
}
void explore() {
	static Ref<MLPPStat> st; st.instance(); P = st.ptr();
	int L = mc::thorough() ? 7 : 5;
	for (int n = 1; n <= L; n++) tuples({ -3, 0, 1, 2.5f }, n, [&](const std::vector<float> &x) { MC_CASE("sample %s", (Val{ { n }, x }).s().c_str()) one(x); });
	for (int n = 1; n <= (mc::thorough() ? 6 : 5); n++) tuples({ 0.5f, 1, 4, 9.25f }, n, [&](const std::vector<float> &x) { MC_CASE("positive sample %s", (Val{ { n }, x }).s().c_str()) one(x); });
	for (int n : { 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 25, 32, 33, 40, 41 }) for (int o = 0; o < (mc::thorough() ? 60 : 12); o++) MC_CASE("sample of %d, pattern %d", n, o) {
		std::vector<float> x; int m = 1 + o % 5; for (int i = 0; i < n; i++) x.push_back(o < 6 ? ((i * (2 * o + 1) + o) % n) * 0.5f - 2 : ((i * m + i * i * (o % 3) + o) % (3 + o % 4)) + 0.5f);
		one(x);
	}
	std::vector<std::vector<float>> ys;
	for (int n = 1; n <= (mc::thorough() ? 4 : 3); n++) tuples({ -2, 0.5f, 1, 3 }, n, [&](const std::vector<float> &x) { MC_CASE("pairs with %s", (Val{ { n }, x }).s().c_str()) tuples({ -1, 0, 2, 5 }, n, [&](const std::vector<float> &y) { two(x, y); }); });
	for (int n = 1; n <= 3; n++) tuples({ 0.5f, 1, 3 }, n, [&](const std::vector<float> &x) { MC_CASE("positive pairs with %s", (Val{ { n }, x }).s().c_str()) tuples({ 0.25f, 1, 2 }, n, [&](const std::vector<float> &y) { two(x, y); }); });
	for (int n : { 5, 8, 13, 20 }) for (int o = 0; o < 12; o++) MC_CASE("pairs of %d, pattern %d", n, o) { std::vector<float> x, y; for (int i = 0; i < n; i++) { x.push_back((i * (o + 1) + o) % 7 + 0.25f); y.push_back((i * i + o * i) % 5 + 0.5f); } two(x, y); }
	for (int n = 0; n <= 3; n++) for (int m = 0; m <= 3; m++) if (n != m) MC_CASE("samples of different sizes %d and %d", n, m) {
		RV a = mkv(std::vector<float>(n, 2)), b = mkv(std::vector<float>(m, 3)); mc::transition(3);
		mc::ok(P->covariancev(a, b) == 0 && P->weighted_mean(a, b) == 0 && P->weighted_lehmer_mean(a, b, 2) == 0, "sizes:refused", "two samples of %d and %d values were accepted", n, m);
	}
	for (float a : { 0.5f, 1.f, 2.f, 3.5f, 8.f }) for (float b : { 0.25f, 1.f, 2.f, 5.f, 8.f }) MC_CASE("means of the pair %g %g", a, b) {
		std::string in = mc::fmt("%g %g", a, b); LD A = a, B = b;
		num("Heronian mean", in, (A + sqrtl(A * B) + B) / 3, P->heronian_mean(a, b));
		for (float x : { 0.f, 0.25f, 0.5f, 1.f }) num("Heinz mean", in + mc::fmt(" x=%g", x), (powl(A, x) * powl(B, 1 - (LD)x) + powl(A, 1 - (LD)x) * powl(B, x)) / 2, P->heinz_mean(a, b, x));
		known("neuman_sandor", "multiplies", in, a == b ? A : (A - B) / (2 * asinhl((A - B) / (A + B))), (A - B) / 2 * asinhl((A - B) / (A + B)), P->neuman_sandor_mean(a, b), 1e-4);
		for (float p : { 2.f, 3.f, -1.f, 0.5f }) num("Stolarsky mean", in + mc::fmt(" p=%g", p), a == b ? A : powl((powl(A, p) - powl(B, p)) / (p * (A - B)), 1 / ((LD)p - 1)), P->stolarsky_mean(a, b, p), 1e-4);
		num("identric mean", in, a == b ? A : expl(-1) * powl(powl(A, A) / powl(B, B), 1 / (A - B)), P->identric_mean(a, b), 1e-4);
		num("logarithmic mean", in, a == b ? A : (B - A) / (logl(B) - logl(A)), P->log_mean(a, b), 1e-4);
	}
	for (float k : { 0.5f, 1.f, 1.5f, 2.f, 3.f, 10.f }) MC_CASE("Chebyshev bound %g", k) num("Chebyshev bound", mc::fmt("%g", k), 1 - 1 / ((LD)k * k), P->chebyshev_ineq(k));
}
