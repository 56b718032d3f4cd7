// MC: variant=asan
// C20: the 2-D discrete cosine transform of every block shape and every basis block.
#include "arith.h"
#include "core/transforms.h"
static MLPPTransforms *P;
static void one(int r, int c, const std::vector<float> &v) {
	Val b{ { r, c }, v }; mc::state(b.s()); Ref<MLPPMatrix> A = mkm(r, c, v); Val g = dump(P->discrete_cosine_transform(A)); mc::transition(); Exp e; e.d = { r, c }; double in = 0, out = 0;
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < r; k++) for (int l = 0; l < c; l++) s += (v[k * c + l] - 128.0) * std::cos(M_PI * i * (2 * k + 1) / (2.0 * r)) * std::cos(M_PI * j * (2 * l + 1) / (2.0 * c)); e.v.push_back(s * std::sqrt((i ? 2.0 : 1.0) / r) * std::sqrt((j ? 2.0 : 1.0) / c)); in += (v[i * c + j] - 128.0) * (v[i * c + j] - 128.0); }
	for (float x : g.v) out += (double)x * x;
	mc::outcome(es(e)); mc::ok(agrees(e, g, 2e-4, 2e-3), "dct:value", "DCT of %s: expected %s, got %s", b.s().c_str(), es(e).c_str(), g.s().c_str());
	mc::ok(mc::close(in, out, 1e-3, 1e-2), "dct:energy", "DCT of %s: energy %g became %g", b.s().c_str(), in, out); mc::ok(same(b, dump(A)), "dct:input-changed", "DCT changed its input %s", b.s().c_str());
}
void explore() {
	MLPPTransforms t; P = &t; int N = mc::thorough() ? 9 : 6;
	for (int r = 1; r <= N; r++) for (int c = 1; c <= N; c++) MC_CASE("blocks %dx%d", r, c) {
		for (float k : { 0.f, 64.f, 128.f, 255.f }) one(r, c, std::vector<float>(r * c, k));
		for (int i = 0; i < r * c; i++) for (float a : { -40.f, 127.f }) { std::vector<float> v(r * c, 128); v[i] += a; one(r, c, v); if (i) { v[0] += 30; one(r, c, v); } }
		for (int u = 0; u < r; u++) for (int w = 0; w < c; w++) { std::vector<float> v(r * c); for (int k = 0; k < r; k++) for (int l = 0; l < c; l++) v[k * c + l] = 128 + 100 * std::cos(M_PI * u * (2 * k + 1) / (2.0 * r)) * std::cos(M_PI * w * (2 * l + 1) / (2.0 * c)); one(r, c, v); }
	}
	std::vector<double> px = { 0, 255, 100 }; for (int r = 1; r <= 2; r++) for (int c = 1; c <= 3; c++) MC_CASE("all pixel blocks %dx%d", r, c) tuples(std::vector<float>{ 0, 255, 100 }, r * c, [&](const std::vector<float> &v) { one(r, c, v); });
	for (auto d : std::vector<std::pair<int, int>>{ { 16, 16 }, { 7, 12 }, { 12, 7 }, { 1, 32 }, { 32, 1 }, { 2, 17 }, { 17, 3 } }) MC_CASE("larger blocks %dx%d", d.first, d.second) for (int s = 0; s < 6; s++) { std::vector<float> v(d.first * d.second); for (size_t i = 0; i < v.size(); i++) v[i] = (i * 37 + s * 11 + (i % 7 == (size_t)s) * 90) % 256; one(d.first, d.second, v); }
	MC_CASE("8x8 blocks") for (int s = 0; s < 64; s++) { std::vector<float> v(64); for (int i = 0; i < 64; i++) v[i] = (i * 37 + s * 11 + (i == s) * 90) % 256; one(8, 8, v); }
}
