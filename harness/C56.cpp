// MC: variant=asan
// C56: colours and scalar functions. Every 8-bit level and notation, every half-precision number, every shared-exponent colour of a grid,
// every pair and triple of scalars of small grids, against exact definitions in double precision; the generator against PCG32.
#include "la.h"
#include <set>
static D d(const Color &c) { return { c.r, c.g, c.b, c.a }; }
#define VK(got, want, tol, key, ...) do { D g_ = (got), w_ = (want); CK(nr(g_, w_, tol), key, "%s gives %s, expected %s", mc::fmt(__VA_ARGS__).c_str(), s(g_).c_str(), s(w_).c_str()); } while (0)
#define NK(got, want, key, ...) do { double g_ = (got), w_ = (want); CK(nr(g_, w_, 2e-6), key, "%s gives %.9g, expected %.9g", mc::fmt(__VA_ARGS__).c_str(), g_, w_); } while (0)
#define NKM(mag, got, want, key, ...) do { double g_ = (got), w_ = (want); if (std::fabs(w_) > 1e38) break; CK(std::fabs(g_ - w_) <= 2e-6 * (1 + std::fabs(w_) + (mag)), key, "%s gives %.9g, expected %.9g", mc::fmt(__VA_ARGS__).c_str(), g_, w_); } while (0)
static std::string str(const String &t) { CharString c = t.utf8(); return c.get_data(); }
// ---- colours
static D hsv(double h, double sat, double v) { auto f = [&](double n) { double k = std::fmod(n + h * 6, 6); return v - v * sat * std::max(0.0, std::min(1.0, std::min(k, 4 - k))); }; return { f(5), f(3), f(1) }; }
static int lev(double x, int top) { double v = std::floor(x * top + 0.5); return v < 0 ? 0 : v > top ? top : v; }
static double lin(double x) { return x < 0.04045 ? x / 12.92 : std::pow((x + 0.055) / 1.055, 2.4); }
static double srgb(double x) { return x < 0.0031308 ? x * 12.92 : 1.055 * std::pow(x, 1 / 2.4) - 0.055; }
static void color1(const Color &c) { D a = d(c); std::string in = s(a); mc::state(in); double mx = std::max(a[0], std::max(a[1], a[2])), mn = std::min(a[0], std::min(a[1], a[2]));
	if (mn >= 0 && mx <= 1) { NK(c.get_v(), mx, "Color:hsv", "value of %s", in.c_str()); NK(c.get_s(), mx == 0 ? 0 : (mx - mn) / mx, "Color:hsv", "saturation of %s", in.c_str()); D back = hsv(c.get_h(), c.get_s(), c.get_v()); CK(nr(back, (D{ a[0], a[1], a[2] }), 1e-4) && c.get_h() >= 0 && c.get_h() <= 1, "Color:hsv", "hue %g of %s leads back to %s", c.get_h(), in.c_str(), s(back).c_str()); Color e; e.set_hsv(c.get_h(), c.get_s(), c.get_v(), c.a); VK(d(e), a, 1e-4, "Color:set_hsv", "%s by hue, saturation and value", in.c_str()); Color f = c; f.set_v(0.5); NK(f.get_v(), 0.5, "Color:set_v", "value set on %s", in.c_str()); CK(f.a == c.a, "Color:set_v", "alpha after set_v on %s", in.c_str()); if (mx > 0) { f = c; f.set_s(0.25); VK(d(f), [&] { D r = hsv(c.get_h(), 0.25, mx); r.push_back(a[3]); return r; }(), 1e-4, "Color:set_s", "saturation set on %s", in.c_str()); f = c; f.set_h(0.7f); VK(d(f), [&] { D r = hsv(0.7, c.get_s(), mx); r.push_back(a[3]); return r; }(), 1e-4, "Color:set_h", "hue set on %s", in.c_str()); }
		VK(d(c.to_linear()), (D{ lin(a[0]), lin(a[1]), lin(a[2]), a[3] }), 1e-5, "Color:to_linear", "%s made linear", in.c_str()); VK(d(c.to_srgb()), (D{ srgb(a[0]), srgb(a[1]), srgb(a[2]), a[3] }), 1e-5, "Color:to_srgb", "%s made sRGB", in.c_str()); VK(d(c.to_linear().to_srgb()), a, 1e-4, "Color:to_srgb", "%s to linear and back", in.c_str()); }
	VK(d(c.inverted()), (D{ 1 - a[0], 1 - a[1], 1 - a[2], a[3] }), 1e-6, "Color:inverted", "inverse of %s", in.c_str()); { Color e = c; e.invert(); CK(e == c.inverted(), "Color:inverted", "invert of %s", in.c_str()); } VK(d(c.contrasted()), (D{ std::fmod(a[0] + 0.5, 1), std::fmod(a[1] + 0.5, 1), std::fmod(a[2] + 0.5, 1), a[3] }), 1e-6, "Color:contrasted", "contrast of %s", in.c_str()); { Color e = c; e.contrast(); CK(e == c.contrasted(), "Color:contrasted", "contrast of %s", in.c_str()); } NK(c.get_luminance(), 0.2126 * a[0] + 0.7152 * a[1] + 0.0722 * a[2], "Color:luminance", "luminance of %s", in.c_str());
	for (double q : { 0.0, 0.25, 1.0 }) { VK(d(c.darkened(q)), (D{ a[0] * (1 - q), a[1] * (1 - q), a[2] * (1 - q), a[3] }), 1e-6, "Color:darkened", "%s darkened by %g", in.c_str(), q); VK(d(c.lightened(q)), (D{ a[0] + (1 - a[0]) * q, a[1] + (1 - a[1]) * q, a[2] + (1 - a[2]) * q, a[3] }), 1e-6, "Color:lightened", "%s lightened by %g", in.c_str(), q); }
	int l[4], w[4]; uint32_t rgba = 0, argb, abgr; uint64_t rgba6 = 0, argb6, abgr6; for (int i = 0; i < 4; i++) l[i] = lev(c[i], 255), w[i] = lev(c[i], 65535), rgba = rgba << 8 | l[i], rgba6 = rgba6 << 16 | w[i]; argb = rgba >> 8 | uint32_t(l[3]) << 24; argb6 = rgba6 >> 16 | uint64_t(w[3]) << 48; abgr = uint32_t(l[3]) << 24 | l[2] << 16 | l[1] << 8 | l[0]; abgr6 = uint64_t(w[3]) << 48 | uint64_t(w[2]) << 32 | uint64_t(w[1]) << 16 | w[0]; CK(c.to_rgba32() == rgba && c.to_argb32() == argb && c.to_abgr32() == abgr, "Color:32", "%s packs to %08x, %08x, %08x, expected %08x", in.c_str(), c.to_rgba32(), c.to_argb32(), c.to_abgr32(), rgba); CK(c.to_rgba64() == rgba6 && c.to_argb64() == argb6 && c.to_abgr64() == abgr6, "Color:64", "%s packs to %016lx, %016lx, %016lx, expected %016lx", in.c_str(), (long)c.to_rgba64(), (long)c.to_argb64(), (long)c.to_abgr64(), (long)rgba6);
	CK(c.get_r8() == l[0] && c.get_g8() == l[1] && c.get_b8() == l[2] && c.get_a8() == l[3], "Color:8", "8-bit levels of %s", in.c_str()); CK(str(c.to_html()) == mc::fmt("%02x%02x%02x%02x", l[3], l[0], l[1], l[2]) && str(c.to_html(false)) == mc::fmt("%02x%02x%02x", l[0], l[1], l[2]), "Color:to_html", "%s is written %s", in.c_str(), str(c.to_html()).c_str()); Color e = Color::html(c.to_html()); CK(e.get_r8() == l[0] && e.get_g8() == l[1] && e.get_b8() == l[2] && e.get_a8() == l[3], "Color:html", "%s is read back as %s", str(c.to_html()).c_str(), s(d(e)).c_str());
	D cl = a; for (double &x : cl) x = std::max(0.0, std::min(1.0, x)); VK(d(c.clamp()), cl, 1e-7, "Color:clamp", "%s clamped", in.c_str()); VK(d(-c), (D{ 1 - a[0], 1 - a[1], 1 - a[2], 1 - a[3] }), 1e-6, "Color:negate", "-%s", in.c_str()); for (int i = 0; i < 4; i++) { Color f = c; f[i] += 0.5f; CK(!(f == c) && f != c && !f.is_equal_approx(c) && c == c && c.is_equal_approx(c) && c < f && !(f < c), "Color:equal", "%s equals itself with component %d changed", in.c_str(), i); } }
static void color2(const Color &c, const Color &e) { D a = d(c), b = d(e); std::string in = s(a) + " and " + s(b); auto f = [&](auto g) { D r; for (int i = 0; i < 4; i++) r.push_back(g(a[i], b[i])); return r; }; VK(d(c + e), add(a, b), 1e-6, "Color:plus", "sum of %s", in.c_str()); VK(d(c - e), sub(a, b), 1e-6, "Color:minus", "difference of %s", in.c_str()); VK(d(c * e), f([](double x, double y) { return x * y; }), 1e-6, "Color:times", "product of %s", in.c_str()); bool z = false; for (double x : b) z = z || x == 0; { Color g = c; g += e; VK(d(g), add(a, b), 1e-6, "Color:plus", "sum in place of %s", in.c_str()); g = c; g -= e; VK(d(g), sub(a, b), 1e-6, "Color:minus", "difference in place of %s", in.c_str()); g = c; g *= e; VK(d(g), f([](double x, double y) { return x * y; }), 1e-6, "Color:times", "product in place of %s", in.c_str()); if (!z) { g = c; g /= e; VK(d(g), f([](double x, double y) { return x / y; }), 1e-5, "Color:over", "quotient in place of %s", in.c_str()); VK(d(c / e), f([](double x, double y) { return x / y; }), 1e-5, "Color:over", "quotient of %s", in.c_str()); } g = c; g *= (real_t)3; CK(g == c * (real_t)3, "Color:scale", "3 times %s", in.c_str()); VK(d(g), sc(a, 3), 1e-6, "Color:scale", "3 times %s", in.c_str()); g /= (real_t)4; VK(d(g), sc(a, 0.75), 1e-6, "Color:scale", "three fourths of %s", in.c_str()); VK(d(c / (real_t)4), sc(a, 0.25), 1e-6, "Color:scale", "a fourth of %s", in.c_str()); }
	for (double t : { 0.0, 0.25, 1.0 }) VK(d(c.linear_interpolate(e, t)), lerp(a, b, t), 1e-6, "Color:lerp", "%s interpolated at %g", in.c_str(), t); CK((c < e) == (a < b) && (c == e) == (a == b), "Color:order", "order of %s", in.c_str()); bool ok = true; for (int i = 0; i < 4; i++) ok = ok && a[i] >= 0 && a[i] <= 1 && b[i] >= 0 && b[i] <= 1; if (!ok) return; double al = b[3] + a[3] * (1 - b[3]); D w(4); if (al > 0) for (int i = 0; i < 3; i++) w[i] = (b[i] * b[3] + a[i] * a[3] * (1 - b[3])) / al; w[3] = al; VK(d(c.blend(e)), w, 1e-5, "Color:blend", "%s, the second over the first", in.c_str()); }
static void notations() {
	for (int v = 0; v < 256; v++) MC_CASE("level %d", v) for (int i = 0; i < 4; i++) { int l[4] = { 17, 34, 51, 68 }; l[i] = v; uint32_t h = 0; for (int k = 0; k < 4; k++) h = h << 8 | l[k]; D w; for (int k = 0; k < 4; k++) w.push_back(l[k] / 255.0); VK(d(Color::hex(h)), w, 1e-6, "Color:hex", "%08x", h); CK(Color::hex(h).to_rgba32() == h, "Color:hex", "%08x is packed again to %08x", h, Color::hex(h).to_rgba32()); uint64_t h6 = 0; for (int k = 0; k < 4; k++) h6 = h6 << 16 | l[k] * 257; CK(Color::hex64(h6).to_rgba64() == h6, "Color:hex64", "%016lx is packed again to %016lx", (long)h6, (long)Color::hex64(h6).to_rgba64()); VK(d(Color::color8(l[0], l[1], l[2], l[3])), w, 1e-6, "Color:color8", "levels of %08x", h); Color e(0.1, 0.2, 0.3, 0.4); (i == 0 ? e.set_r8(v) : i == 1 ? e.set_g8(v) : i == 2 ? e.set_b8(v) : e.set_a8(v)); Color x(0.1, 0.2, 0.3, 0.4); x[i] = v / 255.0f; CK(e.is_equal_approx(x), "Color:8", "level %d set on component %d", v, i);
		for (int up = 0; up < 2; up++) for (int hash = 0; hash < 2; hash++) { std::string t = mc::fmt(up ? "%s%02X%02X%02X%02X" : "%s%02x%02x%02x%02x", hash ? "#" : "", l[3], l[0], l[1], l[2]), t6 = mc::fmt(up ? "%s%02X%02X%02X" : "%s%02x%02x%02x", hash ? "#" : "", l[0], l[1], l[2]); D w6 = w; w6[3] = 1; VK(d(Color::html(t.c_str())), w, 1e-6, "Color:html", "%s", t.c_str()); VK(d(Color::html(t6.c_str())), w6, 1e-6, "Color:html", "%s", t6.c_str()); CK(Color::html_is_valid(t.c_str()) && Color::html_is_valid(t6.c_str()), "Color:html_is_valid", "%s is called invalid", t.c_str()); } }
	for (int i = 0; i < 4096; i++) MC_CASE("short notation %03x", i) { std::string t = mc::fmt("#%03x", i), t4 = mc::fmt("%x%03x", i % 16, i); D w = { (i >> 8) / 15.0, (i >> 4 & 15) / 15.0, (i & 15) / 15.0, 1 }; VK(d(Color::html(t.c_str())), w, 1e-6, "Color:html", "%s", t.c_str()); w[3] = (i % 16) / 15.0; VK(d(Color::html(t4.c_str())), w, 1e-6, "Color:html", "%s", t4.c_str()); CK(Color::html_is_valid(t.c_str()) && Color::html_is_valid(t4.c_str()), "Color:html_is_valid", "%s or %s is called invalid", t.c_str(), t4.c_str()); }
	MC_CASE("no notations") for (int n = 0; n <= 10; n++) for (char bad : { '0', 'g', 'G', '/', ':', '@', '`', ' ', '#' }) for (int at = 0; at < std::max(n, 1); at++) for (int hash = 0; hash < 2; hash++) { std::string t(n, 'a'); if (n) t[at] = bad; std::string u = (hash ? "#" : "") + t; std::string z = u.empty() || u[0] != '#' ? u : u.substr(1); bool good = z.size() == 3 || z.size() == 4 || z.size() == 6 || z.size() == 8; for (char ch : z) good = good && ((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f')); CK(Color::html_is_valid(u.c_str()) == good, "Color:html_is_valid", "'%s' is called %s", u.c_str(), good ? "invalid" : "valid"); Color c = Color::html(u.c_str()); if (!good) CK(c == Color(), "Color:html", "'%s' is read as %s", u.c_str(), s(d(c)).c_str()); }
	for (int e = 0; e < 32; e++) MC_CASE("shared exponent %d", e) for (int a : { 0, 1, 2, 100, 255, 256, 257, 300, 510, 511 }) for (int b : { 0, 1, 128, 256, 511 }) for (int c : { 0, 3, 255, 400 }) { uint32_t v = a | b << 9 | c << 18 | uint32_t(e) << 27; double k = std::ldexp(1.0, e - 24); D w = { a * k, b * k, c * k, 1 }; Color x = Color::from_rgbe9995(v); D g = d(x); CK(g == w, "Color:from_rgbe", "%08x is %s, expected %s", v, s(g).c_str(), s(w).c_str()); Color y = Color::from_rgbe9995(x.to_rgbe9995()); CK(y == x, "Color:to_rgbe", "%s is packed to %08x, read as %s", s(g).c_str(), x.to_rgbe9995(), s(d(y)).c_str()); for (double q : { 1.001, 0.77, 1.4 }) { Color o(x.r * q, x.g * q, x.b * q); Color r = Color::from_rgbe9995(o.to_rgbe9995()); double m = std::min(65408.0, std::max((double)o.r, std::max((double)o.g, (double)o.b))); if (m == 0) continue; double ex = std::max(-15.0, std::floor(std::log2(m)) + 1), ulp = std::ldexp(1.0, (int)ex - 9); for (int i = 0; i < 3; i++) CK(std::fabs(r[i] - std::min(65408.0, (double)o[i])) <= ulp * 0.5001 + (m > std::ldexp(511.4, (int)ex - 9) ? ulp : 0), "Color:to_rgbe", "%s is stored as %s", s(d(o)).c_str(), s(d(r)).c_str()); } } }
// ---- half precision
static double half(int h) { int e = h >> 10 & 31, mnt = h & 1023; double v = e == 0 ? std::ldexp(mnt, -24) : std::ldexp(1024 + mnt, e - 25); return h >> 15 ? -v : v; }
static void halves() { for (int hi = 0; hi < 64; hi++) MC_CASE("halves from %d", hi * 1024) for (int h = hi * 1024; h < hi * 1024 + 1024; h++) { int e = h >> 10 & 31; float f = Math::half_to_float(h); mc::state(mc::fmt("h%d", h)); if (e == 31) { CK((h & 1023) ? std::isnan(f) : std::isinf(f) && (f < 0) == (h >> 15), "Math:half", "half %04x reads as %g", h, f); if (!(h & 1023)) CK(Math::make_half_float(f) == h, "Math:half", "half %04x is written as %04x", h, Math::make_half_float(f)); else CK((Math::make_half_float(f) & 0x7fff) > 0x7c00, "Math:half", "a NaN is written as %04x", Math::make_half_float(f)); continue; } CK(f == half(h), "Math:half", "half %04x reads as %.9g, expected %.9g", h, f, half(h)); int w = e == 0 ? 0 : h; CK((Math::make_half_float(f) & (e ? 0xffff : 0x7fff)) == w, "Math:half", "%g is written as %04x, expected %04x", f, Math::make_half_float(f), w);
		if (e && e < 30) { float n = half(h) + (half(h + 1) - half(h)) * 0.875; CK(Math::make_half_float(n) == h, "Math:half", "%.9g is written as %04x, expected %04x", n, Math::make_half_float(n), h); } } MC_CASE("beyond the halves") for (float f : { 65536.0f, 1e9f, -70000.0f }) CK(Math::make_half_float(f) == (f < 0 ? 0xfc00 : 0x7c00), "Math:half", "%g is written as %04x", f, Math::make_half_float(f)); }
// ---- scalars
static double pmod(double x, double y) { double r = std::fmod(x, y); if (r != 0 && (r < 0) != (y < 0)) r += y; return r; }
static bool near_cut(double v, double p, double eps = 1e-4) { double r = std::fabs(std::remainder(v, p)); return r < eps; }
template <class T> static void scal2(const char *tn, double x, double y) { std::string k = "Math:", in = mc::fmt("%g and %g (%s)", x, y, tn); T a = x, b = y; mc::state(in); if (b != 0) { NKM(std::fabs((double)a) + std::fabs((double)b), Math::fposmod(a, b), pmod(a, b), k + "fposmod", "fposmod of %s", in.c_str()); if (b > 0) NKM(std::fabs((double)a) + std::fabs((double)b), Math::fposmodp(a, b), pmod(a, b), k + "fposmod", "fposmodp of %s", in.c_str()); }
	NK(Math::atan2(a, b), std::atan2((double)a, (double)b), k + "atan2", "atan2 of %s", in.c_str()); if (b != 0) NKM(std::fabs((double)a) + std::fabs((double)b), Math::fmod(a, b), std::fmod((double)a, (double)b), k + "fmod", "fmod of %s", in.c_str()); if (a > 0) NKM(std::fabs((double)a) + std::fabs((double)b), Math::pow(a, b), std::pow((double)a, (double)b), k + "pow", "pow of %s", in.c_str());
	if (b > 0) { double p = b * 2, ph = pmod(a, p), e = b - std::fabs(ph - b); NKM(std::fabs((double)a) + std::fabs((double)b), Math::pingpong(a, b), e, k + "pingpong", "pingpong of %s", in.c_str()); } else if (b == 0) NKM(std::fabs((double)a) + std::fabs((double)b), Math::pingpong(a, b), 0, k + "pingpong", "pingpong of %s", in.c_str()); if (b != 0) { double st = std::floor((double)a / (double)b + 0.5) * (double)b; NKM(std::fabs((double)a) + std::fabs((double)b), Math::stepify(a, b), st, k + "stepify", "stepify of %s", in.c_str()); }
	for (double t : { -0.5, 0.0, 0.25, 1.0, 2.0 }) { NKM(std::fabs((double)a) + std::fabs((double)b), Math::lerp(a, b, (T)t), a + ((double)b - a) * t, k + "lerp", "lerp of %s at %g", in.c_str(), t); NK(Math::move_toward(a, b, (T)std::fabs(t)), std::fabs((double)b - a) <= std::fabs(t) ? (double)b : a + (b < a ? -1 : 1) * std::fabs(t), k + "move_toward", "move_toward of %s by %g", in.c_str(), std::fabs(t)); double df = std::remainder((double)b - a, 2 * M_PI); if (std::fabs(std::fabs(df) - M_PI) > 1e-3) { double g = Math::lerp_angle(a, b, (T)t), e = a + df * t; CK(nr(std::cos(g), std::cos(e), 1e-4) && nr(std::sin(g), std::sin(e), 1e-4), k + "lerp_angle", "lerp_angle of %s at %g gives %g, expected %g", in.c_str(), t, g, e); }
		if (a != b) { NK(Math::inverse_lerp(a, b, (T)t), (t - a) / ((double)b - a), k + "inverse_lerp", "inverse_lerp of %s at %g", in.c_str(), t); NK(Math::range_lerp((T)t, a, b, (T)2, (T)-3), 2 - 5 * (t - a) / ((double)b - a), k + "range_lerp", "range_lerp of %g from %s", t, in.c_str()); if (std::fabs((double)a - b) > 1e-3) { double u = std::max(0.0, std::min(1.0, (t - a) / ((double)b - a))); NK(Math::smoothstep(a, b, (T)t), u * u * (3 - 2 * u), k + "smoothstep", "smoothstep of %s at %g", in.c_str(), t); } }
		for (double c : { -1.0, 0.5 }) { T p = c, q = (T)(c + 2); double w = t; NKM(std::fabs((double)a) + std::fabs((double)b), Math::bezier_interpolate(a, p, q, b, (T)t), a * std::pow(1 - w, 3) + p * 3 * w * (1 - w) * (1 - w) + q * 3 * w * w * (1 - w) + b * w * w * w, k + "bezier", "bezier from %s at %g", in.c_str(), t); NKM(std::fabs((double)a) + std::fabs((double)b), Math::cubic_interpolate(a, b, p, q, (T)t), 0.5 * (2 * a + (b - (double)p) * w + (2 * (double)p - 5 * a + 4 * b - q) * w * w + (-(double)p + 3 * a - 3 * b + q) * w * w * w), k + "cubic", "cubic from %s at %g", in.c_str(), t); } }
	for (double hi : { 0.5, 1.0, 3.0 }) { T lo = b, up = b + (T)hi; double r = (double)up - lo, e = lo + pmod((double)a - lo, r); if (near_cut((double)a - lo, r, 1e-4 + 2e-5 * (std::fabs((double)lo) + std::fabs((double)up)))) continue; NKM(std::fabs((double)a) + std::fabs((double)b), Math::wrapf(a, lo, up), e, k + "wrapf", "wrapf of %g into %g..%g (%s)", (double)a, (double)lo, (double)up, tn); } CK(Math::is_equal_approx(a, b) == (a == b), k + "is_equal_approx", "is_equal_approx of %s", in.c_str()); CK(Math::is_equal_approx(a, b, (T)1) == (std::fabs((double)a - b) < 1), k + "is_equal_approx", "is_equal_approx within 1 of %s", in.c_str()); }
template <class T> static void scal1(const char *tn, double x) { T a = x; double v = a; std::string k = "Math:", in = mc::fmt("%.9g (%s)", v, tn); mc::state(in);
#define F1(f, e) NK(Math::f(a), e, k + #f, #f " of %s", in.c_str())
	F1(sin, std::sin(v)); F1(cos, std::cos(v)); F1(tan, std::tan(v)); if (std::fabs(v) < 30) { F1(sinh, std::sinh(v)); F1(cosh, std::cosh(v)); F1(exp, std::exp(v)); F1(exp2, std::exp2(v)); } F1(tanh, std::tanh(v)); F1(asin, std::asin(std::max(-1.0, std::min(1.0, v)))); F1(acos, std::acos(std::max(-1.0, std::min(1.0, v)))); F1(atan, std::atan(v)); if (v >= 0) F1(sqrt, std::sqrt(v)); F1(floor, std::floor(v)); F1(ceil, std::ceil(v)); F1(abs, std::fabs(v)); F1(round, v < 0 ? -std::floor(-v + 0.5) : std::floor(v + 0.5)); F1(erf, std::erf(v)); F1(deg2rad, v * M_PI / 180); F1(rad2deg, v * 180 / M_PI); if (v > 0) { F1(log, std::log(v)); F1(log2, std::log2(v)); F1(log10, std::log10(v)); F1(linear2db, 20 * std::log10(v)); } if (v > -1) F1(log1p, std::log1p(v)); if (std::fabs(v) < 200) F1(db2linear, std::pow(10, v / 20)); F1(sinc, v == 0 ? 1 : std::sin(v) / v); F1(sincn, v == 0 ? 1 : std::sin(M_PI * v) / (M_PI * v)); F1(fract, v - std::floor(v));
	CK(Math::is_zero_approx(a) == (std::fabs(v) < 1e-5) && !Math::is_nan(a) && !Math::is_inf(a), k + "is_zero_approx", "%s: zero %d", in.c_str(), Math::is_zero_approx(a)); for (double c : { 0.5, 1.0, 2.0, 3.5, -0.5, -1.0, -2.0, 0.0 }) { double u = std::max(0.0, std::min(1.0, v)), e = c == 0 ? 0 : c >= 1 ? std::pow(u, c) : c > 0 ? 1 - std::pow(1 - u, 1 / c) : u < 0.5 ? std::pow(2 * u, -c) / 2 : 1 - std::pow(2 - 2 * u, -c) / 2; NK(Math::ease(v, c), e, k + "ease", "ease of %s with %g", in.c_str(), c); } for (double am : { 0.5, 2.0 }) NK(Math::dectime(v, am, 0.25), (v < 0 ? -1 : 1) * std::max(0.0, std::fabs(v) - am * 0.25), k + "dectime", "dectime of %s by %g", in.c_str(), am); }
static void whole() { for (int64_t a = -13; a <= 13; a++) MC_CASE("whole numbers from %ld", (long)a) for (int64_t b = -5; b <= 5; b++) { int64_t e = b ? ((a % b) + b) % b : 0; if (b) CK(Math::posmod(a, b) == e, "Math:posmod", "posmod of %ld by %ld is %ld", (long)a, (long)b, (long)Math::posmod(a, b)); for (int64_t r = 0; r <= 4; r++) { int64_t g = Math::wrapi(a, b, b + r), w = r ? b + (((a - b) % r) + r) % r : b; CK(g == w, "Math:wrapi", "wrapi of %ld into %ld..%ld is %ld", (long)a, (long)b, (long)(b + r), (long)g); } CK(Math::abs((int)a) == std::abs(a) && Math::abs(a) == std::abs(a) && Math::absi((int)a) == std::abs(a) && Math::absi(a) == std::abs(a), "Math:absi", "size of %ld", (long)a); }
	auto pow2 = [](uint64_t v) { return v && !(v & (v - 1)); }; std::vector<uint32_t> xs; for (uint32_t i = 0; i < 5000; i++) xs.push_back(i); for (int i = 12; i < 32; i++) for (int o = -2; o <= 2; o++) xs.push_back((1u << i) + o); MC_CASE("powers of two") for (uint32_t x : xs) { if (x <= 0x80000000u) { uint32_t n = next_power_of_2(x); CK(x == 0 ? n == 0 : pow2(n) && n >= x && n / 2 < x, "Math:power_of_2", "next power of two of %u is %u", x, n); if (x) CK(nearest_power_of_2_templated<uint32_t>(x) == n, "Math:power_of_2", "power of two for %u is %u", x, nearest_power_of_2_templated<uint32_t>(x)); uint32_t p = previous_power_of_2(x); CK(x == 0 ? p == 0 : pow2(p) && p <= x && p > x / 2, "Math:power_of_2", "previous power of two of %u is %u", x, p); uint32_t c = closest_power_of_2(x); if (x) CK(c == (n - x > x - p ? p : n), "Math:power_of_2", "closest power of two of %u is %u", x, c); } if (x < 0x80000000u) { unsigned sh = 0; while (x >> sh) sh++; CK(nearest_shift(x) == sh, "Math:shift", "nearest_shift of %u is %u", x, nearest_shift(x)); } int gs = -1; for (int i = 0; i < 32; i++) if (x == 1u << i) gs = i; CK(get_shift_from_power_of_2(x) == gs, "Math:shift", "shift of %u is %d", x, get_shift_from_power_of_2(x)); if (x < 1610612741u) { uint32_t p = Math::larger_prime(x); bool prime = p > 1; for (uint64_t q = 2; q * q <= p && q < 50000; q++) if (p % q == 0) prime = false; CK(p > x && prime && p <= std::max(13u, x * 3 + 13), "Math:larger_prime", "larger prime than %u is %u", x, p); }
		CK(BSWAP32(x) == ((x & 255) << 24 | (x >> 8 & 255) << 16 | (x >> 16 & 255) << 8 | x >> 24) && BSWAP16((uint16_t)x) == (uint16_t)((x & 255) << 8 | (x >> 8 & 255)) && BSWAP64((uint64_t)x << 8 | 7) == ((uint64_t)BSWAP32(x << 8 | 7) << 32 | BSWAP32(x >> 24)), "Math:bswap", "bytes of %08x reversed", x); }
	MC_CASE("decimals") { for (int i = 0; i < 10; i++) for (int mu = 1; mu < 10; mu++) { double st = mu * std::pow(10, -i); if (i == 0) { CK(Math::step_decimals(st) == 0, "Math:step_decimals", "decimals of %g are %d", st, Math::step_decimals(st)); continue; } CK(Math::step_decimals(st) == i && Math::step_decimals(-st) == i && Math::step_decimals(3 + st) == i && Math::range_step_decimals(st) == i, "Math:step_decimals", "decimals of %g are %d", st, Math::step_decimals(st)); } CK(Math::range_step_decimals(0) == 16, "Math:step_decimals", "decimals of a range without step"); CK(Math::is_nan(NAN) && Math::is_nan((float)NAN) && Math::is_inf(-INFINITY) && Math::is_inf((float)INFINITY) && !Math::is_inf(NAN) && !Math::is_nan(INFINITY) && Math::is_equal_approx((double)INFINITY, (double)INFINITY) && !Math::is_equal_approx((double)INFINITY, (double)-INFINITY), "Math:is_nan", "NaN and infinity"); for (double f = -9; f <= 9; f += 0.375) CK(Math::fast_ftoi(f) == (int)std::nearbyint(f), "Math:fast_ftoi", "whole number near %g is %d", f, Math::fast_ftoi(f)); }
	for (double off : { 0.0, 0.5, -3.0 }) for (double st : { 0.0, 1.0, 2.5 }) MC_CASE("snapping by %g from %g", st, off) for (double t = -7; t <= 7; t += 0.375) { double e = st ? std::floor((t - off) / st + 0.5) * st + off : t; NK(Math::snap_scalar(off, st, t), e, "Math:snap_scalar", "snap of %g", t); for (double sep : { 0.0, 1.0 }) { double g = Math::snap_scalar_separation(off, st, t, sep); if (st == 0) { NK(g, t, "Math:snap_scalar_separation", "snap of %g", t); continue; } double cell = (g - off) / (st + sep), ph = pmod(g - off, st + sep), edge = t >= 0 ? st : st; (void)cell; CK(std::fabs(ph) < 1e-4 || std::fabs(ph - edge) < 1e-4 || std::fabs(ph - (st + sep)) < 1e-4, "Math:snap_scalar_separation", "%g snaps to %g, neither end of a cell of %g and %g from %g", t, g, st, sep, off); } } }
// ---- the generator
struct Pcg { uint64_t st, inc; uint32_t next() { uint64_t o = st; st = o * 6364136223846793005ull + inc; uint32_t x = ((o >> 18) ^ o) >> 27, r = o >> 59; return (x >> r) | (x << (-r & 31)); } Pcg(uint64_t seed, uint64_t seq) { st = 0; inc = (seq << 1) | 1; next(); st += seed; next(); } };
static void gen(bool th) { std::vector<uint64_t> seeds = { 0, 1, 2, 42, 0xffffffffull, 0x123456789abcdefull, ~0ull }; for (int i = 0; i < (th ? 400 : 60); i++) seeds.push_back(i * 0x9e3779b97f4a7c15ull); for (uint64_t sd : seeds) MC_CASE("seed %lu", (unsigned long)sd) { mc::state(mc::fmt("seed%lu", (unsigned long)sd)); RandomPCG g(sd), g2; g2.seed(sd); Math::seed(sd); Pcg r(sd, RandomPCG::DEFAULT_INC); CK(g.get_seed() == sd && g2.get_seed() == sd, "RandomPCG:seed", "seed is %lu", (unsigned long)g.get_seed()); std::vector<uint32_t> out; for (int i = 0; i < 50; i++) { uint32_t e = r.next(), a = g.rand(), b = g2.rand(), c = Math::rand(); out.push_back(e); CK(a == e && b == e && c == e, "RandomPCG:rand", "number %d is %u, after seeding %u, shared %u, expected %u", i, a, b, c, e); } CK(g.get_state() == r.st, "RandomPCG:state", "state"); { RandomPCG h; h.set_state(g.get_state()); uint32_t a = h.rand(), b = g.rand(); CK(a == b, "RandomPCG:state", "number %u after taking over a state, expected %u", a, b); } uint64_t s1 = sd, s2 = sd; uint32_t a = Math::rand_from_seed(&s1), b = Math::rand_from_seed(&s2); CK(a == b && s1 == s2 && a == out[0], "Math:rand_from_seed", "number %u, expected %u", a, out[0]);
		for (uint32_t bd : { 1u, 2u, 3u, 7u, 100u, 0x80000001u }) { std::set<uint32_t> hit; for (int i = 0; i < 60; i++) { uint32_t v = g.rand(bd); CK(v < bd, "RandomPCG:bound", "%u is not below %u", v, bd); hit.insert(v); } if (bd <= 3) CK(hit.size() == bd, "RandomPCG:bound", "%zu of %u values in 60 numbers", hit.size(), bd); } for (auto q : { std::pair<int, int>{ 3, 7 }, { 7, 3 }, { -5, 5 }, { 4, 4 }, { -2, -9 } }) { std::set<int> hit; for (int i = 0; i < 400; i++) { int v = Math::random(q.first, q.second), w = g.random(q.first, q.second); CK(v >= std::min(q.first, q.second) && v <= std::max(q.first, q.second) && w >= std::min(q.first, q.second) && w <= std::max(q.first, q.second), "Math:random", "%d or %d is not within %d..%d", v, w, q.first, q.second); hit.insert(v); } CK(hit.size() == (size_t)std::abs(q.first - q.second) + 1, "Math:random", "%zu values of %d..%d in 400 numbers", hit.size(), q.first, q.second); }
		for (int i = 0; i < 200; i++) { double v = Math::randd(), w = Math::randf(), x = Math::random(2.0, 5.0), y = Math::random(-1.0f, 1.0f); CK(v >= 0 && v <= 1 && w >= 0 && w <= 1 && x >= 2 && x <= 5 && y >= -1 && y <= 1, "Math:randf", "%g, %g, %g, %g", v, w, x, y); } } }
void explore() { SFWCore::setup(); bool th = mc::thorough(); D g = { 0, 0.02, 0.25, 0.5, 0.8, 1 }; std::vector<Color> cs; for (double r : g) for (double q : g) for (double b : g) for (double a : { 0.0, 0.3, 1.0 }) cs.push_back(Color(r, q, b, a)); for (double x : { -0.5, 1.5, 2.0 }) cs.push_back(Color(x, 0.5, 1 - x, 0.5)), cs.push_back(Color(0.1, x, 0.2, x)); for (size_t i = 0; i < cs.size(); i++) MC_CASE("colour %s", s(d(cs[i])).c_str()) { color1(cs[i]); for (size_t j = i % 7; j < cs.size(); j += th ? 1 : 7) color2(cs[i], cs[j]); }
	D hs; for (int i = 0; i <= 48; i++) hs.push_back(i / 48.0); for (double h : hs) MC_CASE("hue %g", h) for (double sa : { 0.0, 0.1, 0.5, 1.0 }) for (double v : { 0.0, 0.3, 1.0 }) { D w = hsv(h, sa, v); w.push_back(0.5); Color c; c.set_hsv(h, sa, v, 0.5); VK(d(c), w, 1e-4, "Color:set_hsv", "hue %g, saturation %g, value %g", h, sa, v); CK(Color().from_hsv(h, sa, v, 0.5) == c, "Color:set_hsv", "from_hsv of hue %g", h); }
	notations(); halves(); D xs = { 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3.25, 7, 10, 100.5, 1e-3, 1e-6, 0.999, 12345.678 }; size_t n = xs.size(); for (size_t i = 1; i < n; i++) xs.push_back(-xs[i]); for (double x : xs) MC_CASE("scalar %g", x) { scal1<double>("double", x); scal1<float>("float", x); for (double y : xs) if (std::fabs(x) < 200 && std::fabs(y) < 200 && std::fabs(x) != 1e-6 && std::fabs(y) != 1e-6) { scal2<double>("double", x, y); if (std::fabs(x) != 1e-3 && std::fabs(y) != 1e-3) scal2<float>("float", x, y); } } whole(); gen(th); }
