// MC: variant=asan
// C18: convolution, pooling and image filters over every size, stride and padding up to the bound, against a direct definition.
#include "arith.h"
#include "core/convolutions.h"
static MLPPConvolutions *P;
static std::vector<float> vals(int n, int kind, int seed) { // position-coded values, all distinct in magnitude; kind 0 mixed signs, 1 all negative, 2 all positive, 3.. unit impulse at kind-3
	std::vector<float> v(n);
	for (int i = 0; i < n; i++) { int h = (i * 7 + seed * 3) % 31 + 1; v[i] = kind == 0 ? (i % 3 ? -1 : 1) * h * 0.25f : kind == 1 ? -h * 0.5f - 1 : kind == 2 ? h * 0.5f + 1 : i == kind - 3; }
	return v;
}
struct Ten { int z, y, x; std::vector<float> v; double at(int c, int i, int j) const { return i < 0 || j < 0 || i >= y || j >= x ? 0 : v[(c * y + i) * x + j]; } };
static void cmp(const char *k, const std::string &in, const Exp &e, const Val &g) { mc::transition(); mc::outcome(es(e)); mc::ok(agrees(e, g, 3e-5, 3e-5), std::string(k) + ":value", "%s of %s: expected %s, got %s", k, in.c_str(), es(e).c_str(), g.s().c_str()); }
static void unch(const char *k, const Val &a, const Val &b) { mc::ok(same(a, b), std::string(k) + ":input-changed", "%s changed its input %s to %s", k, a.s().c_str(), b.s().c_str()); }
static Exp conv(const Ten &in, const Ten &f, int S, int pad) { // channel c of the output uses filter slices c*z .. c*z+z-1
	int C = f.z / in.z, oy = (in.y + 2 * pad - f.y) / S + 1, ox = (in.x + 2 * pad - f.x) / S + 1; Exp e; e.d = { C, oy, ox };
	for (int c = 0; c < C; c++) for (int i = 0; i < oy; i++) for (int j = 0; j < ox; j++) { double s = 0; for (int t = 0; t < in.z; t++) for (int k = 0; k < f.y; k++) for (int p = 0; p < f.x; p++) s += in.at(t, i * S + k - pad, j * S + p - pad) * f.at(c * in.z + t, k, p); e.v.push_back(s); }
	return e;
}
static Exp pool(const Ten &in, int F, int S, int type) {
	int oy = (in.y - F) / S + 1, ox = (in.x - F) / S + 1; Exp e; e.d = { in.z, oy, ox };
	for (int c = 0; c < in.z; c++) for (int i = 0; i < oy; i++) for (int j = 0; j < ox; j++) { double s = 0, mn = 1e30, mx = -1e30; for (int k = 0; k < F; k++) for (int p = 0; p < F; p++) { double a = in.at(c, i * S + k, j * S + p); s += a; mn = std::min(mn, a); mx = std::max(mx, a); } e.v.push_back(type == 0 ? s / (F * F) : type == 1 ? mn : mx); }
	return e;
}
static Exp flat2(Exp e) { e.d.erase(e.d.begin()); return e; }
void explore() {
	MLPPConvolutions cv; P = &cv; bool T = mc::thorough(); int N = T ? 7 : 5, FM = T ? 5 : 4;
	for (int y = 1; y <= N; y++) for (int x = 1; x <= N; x++) for (int F = 1; F <= FM; F++) for (int S = 1; S <= 3; S++) MC_CASE("2d windows y=%d x=%d F=%d S=%d", y, x, F, S) {
		for (int pad = 0; pad <= 2; pad++) { if (y + 2 * pad < F || x + 2 * pad < F) continue;
			for (int kind = 0; kind < 3 + (pad == 1 ? y * x : 0); kind++) { Ten a{ 1, y, x, vals(y * x, kind, 1) }, f{ 1, F, F, vals(F * F, 0, 5) }; Val av{ { y, x }, a.v }, fv{ { F, F }, f.v };
				Ref<MLPPMatrix> A = mkm(y, x, a.v), K = mkm(F, F, f.v); std::string in = av.s() + mc::fmt(" F=%d S=%d P=%d", F, S, pad); mc::state(in);
				cmp("convolve_2d", in, flat2(conv(a, f, S, pad)), dump(cv.convolve_2d(A, K, S, pad))); unch("convolve_2d", av, dump(A)); unch("convolve_2d", fv, dump(K)); } }
		for (int kind = 0; kind < 3; kind++) if (F <= y && F <= x) for (int t = 0; t < 3; t++) { Ten a{ 1, y, x, vals(y * x, kind, 2) }; Val av{ { y, x }, a.v }; Ref<MLPPMatrix> A = mkm(y, x, a.v); std::string in = av.s() + mc::fmt(" F=%d S=%d type=%d", F, S, t);
			cmp("pool_2d", in, flat2(pool(a, F, S, t)), dump(cv.pool_2d(A, F, S, (MLPPConvolutions::PoolType)t))); unch("pool_2d", av, dump(A)); }
	}
	int Z = 3, N3 = T ? 5 : 4;
	for (int z = 1; z <= Z; z++) for (int y = 1; y <= N3; y++) for (int x = 1; x <= N3; x++) for (int F = 1; F <= 3; F++) for (int S = 1; S <= 3; S++) MC_CASE("3d windows z=%d y=%d x=%d F=%d S=%d", z, y, x, F, S) {
		for (int pad = 0; pad <= 2; pad++) { if (y + 2 * pad < F || x + 2 * pad < F) continue;
			for (int C = 1; C <= 3; C++) for (int kind = 0; kind < 3 + (pad == 1 && C == 2 ? z * y * x : 0); kind++) { Ten a{ z, y, x, vals(z * y * x, kind, 1) }, f{ z * C, F, F, vals(z * C * F * F, 0, 5) }; Val av{ { z, y, x }, a.v }, fv{ { z * C, F, F }, f.v };
				Ref<MLPPTensor3> A = mkt(z, y, x, a.v), K = mkt(z * C, F, F, f.v); std::string in = av.s() + mc::fmt(" F=%d S=%d P=%d C=%d", F, S, pad, C); mc::state(in);
				cmp("convolve_3d", in, conv(a, f, S, pad), dump(cv.convolve_3d(A, K, S, pad))); unch("convolve_3d", av, dump(A)); unch("convolve_3d", fv, dump(K)); } }
		for (int kind = 0; kind < 3; kind++) for (int t = 0; t < 3; t++) { Ten a{ z, y, x, vals(z * y * x, kind, 2) }; Val av{ { z, y, x }, a.v }; Ref<MLPPTensor3> A = mkt(z, y, x, a.v); std::string in = av.s() + mc::fmt(" F=%d S=%d type=%d", F, S, t);
			if (F <= y && F <= x) { cmp("pool_3d", in, pool(a, F, S, t), dump(cv.pool_3d(A, F, S, (MLPPConvolutions::PoolType)t))); unch("pool_3d", av, dump(A)); }
			if (F == 1 && S == 1) { Exp e; e.d = { z }; for (int c = 0; c < z; c++) { Ten s{ 1, y, x, std::vector<float>(a.v.begin() + c * y * x, a.v.begin() + (c + 1) * y * x) }; double w = 0, mn = 1e30, mx = -1e30; for (float q : s.v) { w += q; mn = std::min(mn, (double)q); mx = std::max(mx, (double)q); } e.v.push_back(t == 0 ? w / s.v.size() : t == 1 ? mn : mx); 
					Exp one; one.d = { 1 }; one.v = { e.v.back() }; Val g; g.d = { 1 }; g.v = { (float)cv.global_pool_2d(mkm(y, x, s.v), (MLPPConvolutions::PoolType)t) }; cmp("global_pool_2d", in, one, g); }
				cmp("global_pool_3d", in, e, dump(cv.global_pool_3d(A, (MLPPConvolutions::PoolType)t))); unch("global_pool_3d", av, dump(A)); } }
	}
	for (int size = 1; size <= (T ? 9 : 6); size++) MC_CASE("gaussian filters of size %d", size) {
		for (double sd : { 0.5, 0.75, 1.0, 2.0, 3.5 }) { Exp e; e.d = { size, size }; auto g = [&](double x, double y) { return std::exp(-(x * x + y * y) / (2 * sd * sd)) / (2 * M_PI * sd * sd); };
			for (int i = 0; i < size; i++) for (int j = 0; j < size; j++) { double a = i - (size - 1) / 2.0, b = (size - 1) / 2.0 - j; e.v.push_back(g(a, b)); mc::ok(mc::close(g(a, b), cv.gaussian_2d(a, b, sd), 3e-5, 1e-9), "gaussian_2d:value", "gaussian_2d(%g, %g, %g)", a, b, sd); }
			cmp("gaussian_filter_2d", mc::fmt("size %d std %g", size, sd), e, dump(cv.gaussian_filter_2d(size, sd))); }
	}
	for (int y = 1; y <= N; y++) for (int x = 1; x <= N; x++) MC_CASE("image derivatives y=%d x=%d", y, x) {
		for (int kind = 0; kind < 3 + y * x; kind++) { Ten a{ 1, y, x, vals(y * x, kind, 4) }; Val av{ { y, x }, a.v }; Ref<MLPPMatrix> A = mkm(y, x, a.v); std::string in = av.s(); mc::state(in);
			Ten DX{ 1, y, x, {} }, DY{ 1, y, x, {} }; Exp ex, ey, em, eo; ex.d = ey.d = em.d = eo.d = { y, x };
			for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) { double dx = a.at(0, i, j + 1) - a.at(0, i, j - 1), dy = a.at(0, i - 1, j) - a.at(0, i + 1, j); DX.v.push_back(dx); DY.v.push_back(dy); ex.v.push_back(dx); ey.v.push_back(dy); em.v.push_back(std::sqrt(dx * dx + dy * dy)); eo.v.push_back(std::atan2(dy, dx)); }
			cmp("dx", in, ex, dump(cv.dx(A))); cmp("dy", in, ey, dump(cv.dy(A))); cmp("grad_magnitude", in, em, dump(cv.grad_magnitude(A)));
			Val go = dump(cv.grad_orientation(A)); Exp eo2 = eo; for (size_t i = 0; i < eo.v.size() && i < go.v.size(); i++) if (std::fabs(std::fabs(eo.v[i]) - M_PI) < 1e-6 && std::fabs(std::fabs(go.v[i]) - M_PI) < 1e-4) eo2.v[i] = go.v[i]; // -pi and pi are the same angle
			cmp("grad_orientation", in, eo2, go);
			auto mul = [](const Ten &p, const Ten &q) { Ten r = p; for (size_t i = 0; i < r.v.size(); i++) r.v[i] *= q.v[i]; return r; };
			Ten G{ 1, 3, 3, {} }; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) G.v.push_back(std::exp(-((i - 1) * (i - 1) + (j - 1) * (j - 1)) / 2.0) / (2 * M_PI));
			Exp xx = conv(mul(DX, DX), G, 1, 1), yy = conv(mul(DY, DY), G, 1, 1), xy = conv(mul(DX, DY), G, 1, 1), all; all.d = { 3, y, x }; for (auto *q : { &xx, &yy, &xy }) all.v.insert(all.v.end(), q->v.begin(), q->v.end());
			cmp("compute_m", in, all, dump(cv.compute_m(A)));
			Vector<Ref<MLPPMatrix>> mv = cv.compute_mv(A); mc::ok(mv.size() == 3, "compute_mv:count", "compute_mv returned %d maps", (int)mv.size()); if (mv.size() == 3) { int q = 0; for (auto *w : { &xx, &yy, &xy }) cmp("compute_mv", in, flat2(*w), dump(mv[q++])); }
			Vector<Vector<CharType>> H = cv.harris_corner_detection(A); bool shape = H.size() == y; for (int i = 0; shape && i < y; i++) shape = H[i].size() == x; mc::ok(shape, "harris:shape", "harris_corner_detection of %s has the wrong shape", in.c_str());
			if (shape) for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) { int q = i * x + j; double det = xx.v[q] * yy.v[q] - xy.v[q] * xy.v[q], tr = xx.v[q] + yy.v[q], r = det - 0.05 * tr * tr, sc = xx.v[q] * yy.v[q] + xy.v[q] * xy.v[q] + tr * tr; CharType w = H[i][j];
				bool fine = sc == 0 ? w == 'N' : std::fabs(r) < 1e-4 * sc ? true : r > 0 ? w == 'C' : w == 'E'; mc::ok(fine, "harris:class", "harris_corner_detection of %s at %d,%d: response %g classified %c", in.c_str(), i, j, r, (char)w); }
			unch("image derivatives", av, dump(A)); }
	}
	MC_CASE("named kernels") {
		auto k = [&](const char *n, Ref<MLPPMatrix> m, int s, std::vector<double> v) { Exp e; e.d = { s, s }; e.v = v; cmp(n, "constructor", e, dump(m)); mc::state(n); };
		k("prewitt_horizontal", cv.get_prewitt_horizontal(), 3, { 1, 1, 1, 0, 0, 0, -1, -1, -1 }); k("prewitt_vertical", cv.get_prewitt_vertical(), 3, { 1, 0, -1, 1, 0, -1, 1, 0, -1 }); k("sobel_horizontal", cv.get_sobel_horizontal(), 3, { 1, 2, 1, 0, 0, 0, -1, -2, -1 }); k("sobel_vertical", cv.get_sobel_vertical(), 3, { -1, 0, 1, -2, 0, 2, -1, 0, 1 }); k("scharr_horizontal", cv.get_scharr_horizontal(), 3, { 3, 10, 3, 0, 0, 0, -3, -10, -3 }); k("scharr_vertical", cv.get_scharr_vertical(), 3, { 3, 0, -3, 10, 0, -10, 3, 0, -3 }); k("roberts_horizontal", cv.get_roberts_horizontal(), 2, { 0, 1, -1, 0 }); k("roberts_vertical", cv.get_roberts_vertical(), 2, { 1, 0, 0, -1 });
	}
}
