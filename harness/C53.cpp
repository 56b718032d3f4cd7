// MC: variant=asan
// C53: vectors, rectangles, boxes and planes. Every tuple of vectors, boxes, segments and planes over small exact grids, against
// per-component arithmetic, the definitions of length, angle and projection, and the set of points each box holds.
#include "mc.h"
#include "sfw.h"
#include <cmath>
#include <vector>
#include <array>
#include <algorithm>
typedef std::vector<double> D;
#define CK(cond, key, ...) do { mc::transition(); mc::S().checks++; if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
static bool nr(double a, double b, double t = 2e-5) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= t * (1 + std::fabs(b)); }
template <class V> static D d(const V &v, int n) { D r; for (int i = 0; i < n; i++) r.push_back(v[i]); return r; }
static D d(const Vector2 &v) { return { v.x, v.y }; } static D d(const Vector2i &v) { return { (double)v.x, (double)v.y }; } static D d(const Vector3 &v) { return { v.x, v.y, v.z }; } static D d(const Vector3i &v) { return { (double)v.x, (double)v.y, (double)v.z }; }
static D d(const Vector4 &v) { return { v.x, v.y, v.z, v.w }; } static D d(const Vector4i &v) { return { (double)v.x, (double)v.y, (double)v.z, (double)v.w }; }
static std::string s(const D &v) { std::string r = "("; for (double x : v) r += mc::fmt(r.size() > 1 ? ", %.7g" : "%.7g", x); return r + ")"; }
template <class V> static std::string S(const V &v) { return s(d(v)); }
static bool nr(const D &a, const D &b, double t = 2e-5) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!nr(a[i], b[i], t)) return false; return true; }
template <class F> static D mp(const D &a, F f) { D r; for (double x : a) r.push_back(f(x)); return r; }
template <class F> static D mp(const D &a, const D &b, F f) { D r; for (size_t i = 0; i < a.size(); i++) r.push_back(f(a[i], b[i])); return r; }
static double dot(const D &a, const D &b) { double r = 0; for (size_t i = 0; i < a.size(); i++) r += a[i] * b[i]; return r; }
static double len(const D &a) { return std::sqrt(dot(a, a)); }
static D sc(const D &a, double k) { return mp(a, [&](double x) { return x * k; }); }
static D add(const D &a, const D &b) { return mp(a, b, [](double x, double y) { return x + y; }); }
static D sub(const D &a, const D &b) { return mp(a, b, [](double x, double y) { return x - y; }); }
static D unit(const D &a) { double l = len(a); return l > 0 ? sc(a, 1 / l) : a; }
static double pm(double x, double m) { double r = std::fmod(x, m); if ((r < 0 && m > 0) || (r > 0 && m < 0)) r += m; return r; }
// the sign of a component that is 0 is not claimed (the code answers 1)
static D sgn(D g, const D &a) { for (size_t i = 0; i < a.size(); i++) if (a[i] == 0) g[i] = 0; return g; }
static double rnd(double x) { return x < 0 ? -std::floor(-x + 0.5) : std::floor(x + 0.5); }
static double snap(double x, double q) { return q == 0 ? x : std::floor(x / q + 0.5) * q; }
#define IS(got, want, key, ...) do { D g_ = got, w_ = want; CK(nr(g_, w_), key, "%s gives %s, expected %s", mc::fmt(__VA_ARGS__).c_str(), s(g_).c_str(), s(w_).c_str()); } while (0)
// ---- what every real vector offers
template <class V> static void unary(const char *T, const V &v) { D a = d(v); std::string k = T, in = S(v); mc::state(k + in);
	IS(D{ v.length() }, D{ len(a) }, k + ":length", "length of %s", in.c_str()); IS(D{ v.length_squared() }, D{ dot(a, a) }, k + ":length", "squared length of %s", in.c_str());
	IS(d(v.normalized()), unit(a), k + ":normalized", "%s normalized", in.c_str()); { V w = v; w.normalize(); CK(w == v.normalized(), k + ":normalized", "normalize of %s differs from normalized", in.c_str()); CK(w.is_normalized() == (len(a) > 0), k + ":is_normalized", "%s normalized is not normalized", in.c_str()); } CK(v.is_normalized() == (std::fabs(dot(a, a) - 1) < 1e-3), k + ":is_normalized", "is_normalized of %s", in.c_str());
	IS(d(-v), sc(a, -1), k + ":negate", "-%s", in.c_str()); IS(d(v.abs()), mp(a, [](double x) { return std::fabs(x); }), k + ":abs", "abs of %s", in.c_str()); IS(sgn(d(v.sign()), a), mp(a, [](double x) { return double((x > 0) - (x < 0)); }), k + ":sign", "sign of %s", in.c_str());
	IS(d(v.floor()), mp(a, [](double x) { return std::floor(x); }), k + ":floor", "floor of %s", in.c_str()); IS(d(v.ceil()), mp(a, [](double x) { return std::ceil(x); }), k + ":ceil", "ceil of %s", in.c_str()); IS(d(v.round()), mp(a, rnd), k + ":round", "round of %s", in.c_str());
	CK(v.is_equal_approx(v) && v == v && !(v != v) && !(v < v) && v <= v && v >= v && !(v > v), k + ":equal", "%s is not equal to itself", in.c_str()); CK(v.is_zero_approx() == (len(a) == 0), k + ":is_zero_approx", "is_zero_approx of %s", in.c_str());
	int mi = v.min_axis(), ma = v.max_axis(); for (double x : a) CK(a[mi] <= x && a[ma] >= x, k + ":axis", "least and greatest axis of %s are %d and %d", in.c_str(), mi, ma);
	for (size_t i = 0; i < a.size(); i++) { V w = v; w[i] = 7; D b = a; b[i] = 7; CK(d(w) == b, k + ":index", "setting component %zu of %s", i, in.c_str()); } { V w = v; w.set_all(3); CK(d(w) == D(a.size(), 3.0), k + ":set_all", "set_all on %s", in.c_str()); } }
template <class V> static void scalar(const char *T, const V &v, double q) { D a = d(v); std::string k = T, in = S(v) + mc::fmt(" and %g", q); IS(d(v * (real_t)q), sc(a, q), k + ":times", "%s, product", in.c_str()); { V w = v; w *= (real_t)q; IS(d(w), sc(a, q), k + ":times", "%s, product in place", in.c_str()); }
	if (q != 0) { IS(d(v / (real_t)q), sc(a, 1 / q), k + ":over", "%s, quotient", in.c_str()); V w = v; w /= (real_t)q; IS(d(w), sc(a, 1 / q), k + ":over", "%s, quotient in place", in.c_str()); } }
template <class V> static void scalar23(const char *T, const V &v, double q) { D a = d(v); std::string k = T, in = S(v) + mc::fmt(" and %g", q); if (q != 0) IS(d(v.posmod(q)), mp(a, [&](double x) { return pm(x, q); }), k + ":posmod", "posmod of %s", in.c_str());
	if (q > 0) { D e = len(a) > q ? sc(a, q / len(a)) : a; IS(d(v.limit_length(q)), e, k + ":limit_length", "%s limited", in.c_str()); } }
static bool lexless(const D &a, const D &b) { return a < b; }
template <class V> static void pair(const char *T, const V &v, const V &w) { D a = d(v), b = d(w); std::string k = T, in = S(v) + " and " + S(w); mc::state(k + in);
	IS(d(v + w), add(a, b), k + ":plus", "sum of %s", in.c_str()); IS(d(v - w), sub(a, b), k + ":minus", "difference of %s", in.c_str()); IS(d(v * w), mp(a, b, [](double x, double y) { return x * y; }), k + ":times", "product of %s", in.c_str()); { V u = v; u += w; IS(d(u), add(a, b), k + ":plus", "sum in place of %s", in.c_str()); u -= w; IS(d(u), a, k + ":minus", "sum less %s", in.c_str()); u *= w; IS(d(u), mp(a, b, [](double x, double y) { return x * y; }), k + ":times", "product in place of %s", in.c_str()); }
	bool z = false; for (double x : b) z = z || x == 0; if (!z) { D q = mp(a, b, [](double x, double y) { return x / y; }); IS(d(v / w), q, k + ":over", "quotient of %s", in.c_str()); V u = v; u /= w; IS(d(u), q, k + ":over", "quotient in place of %s", in.c_str()); }
	CK((v == w) == (a == b) && (v != w) == (a != b) && (v < w) == lexless(a, b) && (v > w) == lexless(b, a) && (v <= w) == !lexless(b, a) && (v >= w) == !lexless(a, b), k + ":order", "order of %s", in.c_str()); CK(v.is_equal_approx(w) == (a == b), k + ":equal", "is_equal_approx of %s", in.c_str()); }
template <class V> static void pair23(const char *T, const V &v, const V &w) { D a = d(v), b = d(w); std::string k = T, in = S(v) + " and " + S(w); double la = len(a), lb = len(b);
	IS(D{ v.dot(w) }, D{ dot(a, b) }, k + ":dot", "dot product of %s", in.c_str()); IS(D{ v.distance_to(w) }, D{ len(sub(a, b)) }, k + ":distance", "distance of %s", in.c_str()); IS(D{ v.distance_squared_to(w) }, D{ dot(sub(a, b), sub(a, b)) }, k + ":distance", "squared distance of %s", in.c_str()); IS(d(v.direction_to(w)), unit(sub(b, a)), k + ":direction", "direction between %s", in.c_str());
	bool z = false; for (double x : b) z = z || x == 0; if (!z) { IS(d(v.posmodv(w)), mp(a, b, pm), k + ":posmod", "posmod of %s", in.c_str()); } IS(d(v.snapped(w)), mp(a, b, snap), k + ":snapped", "snapping of %s", in.c_str());
	if (lb > 0) { IS(d(v.project(w)), sc(b, dot(a, b) / dot(b, b)), k + ":project", "projection of %s", in.c_str()); V n = w.normalized(); D u = d(n); IS(d(v.slide(n)), sub(a, sc(u, dot(a, u))), k + ":slide", "%s, slid along", in.c_str()); IS(d(v.bounce(n)), sub(a, sc(u, 2 * dot(a, u))), k + ":bounce", "%s, bounced off", in.c_str()); IS(d(v.reflect(n)), sub(sc(u, 2 * dot(a, u)), a), k + ":reflect", "%s, reflected", in.c_str()); }
	for (double q : { 0.0, 0.25, 0.5, 1.0, 3.0, -0.5 }) { IS(d(v.linear_interpolate(w, q)), add(a, sc(sub(b, a), q)), k + ":lerp", "%s, interpolated at %g", in.c_str(), q); if (q >= 0) { double l = len(sub(b, a)); D e = l <= q || l < 1e-5 ? b : add(a, sc(sub(b, a), q / l)); IS(d(v.move_toward(w, q)), e, k + ":move_toward", "%s, moved by %g", in.c_str(), q); } }
	if (la > 0 && lb > 0) { double c = std::max(-1.0, std::min(1.0, dot(a, b) / la / lb)), an = std::acos(c); CK(nr(std::fabs(v.angle_to(w)), an, 1e-3), k + ":angle", "angle between %s is %g, expected %g", in.c_str(), v.angle_to(w), an);
		if (c > -0.999) for (double q : { 0.0, 0.25, 0.5, 1.0 }) { V x = v.normalized(), y = w.normalized(); D e = an < 1e-3 ? d(x) : add(sc(d(x), std::sin((1 - q) * an) / std::sin(an)), sc(d(y), std::sin(q * an) / std::sin(an))); D g = d(x.slerp(y, q)); CK(nr(g, e, 1e-4), k + ":slerp", "%s, turned to at %g, gives %s, expected %s", in.c_str(), q, s(g).c_str(), s(e).c_str()); } } }
template <class V> static void curves(const char *T, const V &p, const V &q, const V &r, const V &t) { D a = d(p), b = d(q), c = d(r), e = d(t); std::string k = T, in = S(p) + ", " + S(q) + ", " + S(r) + ", " + S(t); mc::state(k + in); for (double w : { 0.0, 0.25, 0.5, 0.75, 1.0 }) { double o = 1 - w; IS(d(p.bezier_interpolate(q, r, t, w)), add(add(sc(a, o * o * o), sc(b, 3 * o * o * w)), add(sc(c, 3 * o * w * w), sc(e, w * w * w))), k + ":bezier", "curve through %s at %g", in.c_str(), w);
		auto cat = [&](double x, double y, double pre, double post) { return 0.5 * (2 * x + (y - pre) * w + (2 * pre - 5 * x + 4 * y - post) * w * w + (3 * x - pre - 3 * y + post) * w * w * w); }; D x; for (size_t i = 0; i < a.size(); i++) x.push_back(cat(a[i], b[i], c[i], e[i])); IS(d(p.cubic_interpolate(q, r, t, w)), x, k + ":cubic", "cubic through %s at %g", in.c_str(), w); } }
// ---- only in the plane, only in space
static void plane2(const Vector2 &v, const Vector2 &w) { D a = d(v), b = d(w); std::string in = S(v) + " and " + S(w); IS(D{ v.cross(w) }, D{ a[0] * b[1] - a[1] * b[0] }, "Vector2:cross", "cross product of %s", in.c_str()); if (len(a) > 0 && len(b) > 0) CK(nr(v.angle_to(w), std::atan2(a[0] * b[1] - a[1] * b[0], dot(a, b)), 1e-4), "Vector2:angle", "angle from %s is %g", in.c_str(), v.angle_to(w)); if (!(v == w)) CK(nr(v.angle_to_point(w), std::atan2(a[1] - b[1], a[0] - b[0]), 1e-4), "Vector2:angle_to_point", "angle_to_point of %s is %g", in.c_str(), v.angle_to_point(w));
	IS(d(v.min(w)), mp(a, b, [](double x, double y) { return std::min(x, y); }), "Vector2:min", "min of %s", in.c_str()); IS(d(v.max(w)), mp(a, b, [](double x, double y) { return std::max(x, y); }), "Vector2:max", "max of %s", in.c_str()); if (len(b) > 0) { Vector2 n = w.normalized(); for (double q : { 0.0, 1.5 }) { Vector2 g = n.plane_project(q, v); CK(nr(g.dot(n), q, 1e-4) && nr(std::fabs((v - g).dot(n)), (v - g).length(), 1e-4), "Vector2:plane_project", "%s, projected at %g, is %s", in.c_str(), q, S(g).c_str()); } } }
static void turn2(const Vector2 &v) { D a = d(v); std::string in = S(v); for (int i = -8; i <= 8; i++) { double t = i * M_PI / 4; IS(d(v.rotated(t)), (D{ a[0] * std::cos(t) - a[1] * std::sin(t), a[0] * std::sin(t) + a[1] * std::cos(t) }), "Vector2:rotated", "%s, turned by %d eighths", in.c_str(), i); Vector2 w; w.set_rotation(t); IS(d(w), (D{ std::cos(t), std::sin(t) }), "Vector2:set_rotation", "unit vector at %d eighths", i); } if (len(a) > 0) CK(nr(v.angle(), std::atan2(a[1], a[0])), "Vector2:angle", "angle of %s is %g", in.c_str(), v.angle()); for (Vector2 t : { v.tangent(), v.orthogonal() }) CK(t.dot(v) == 0 && nr(t.length(), len(a)), "Vector2:tangent", "%s is no tangent of %s", S(t).c_str(), in.c_str()); CK(v.tangent() == -v.orthogonal() || v.tangent() == v.orthogonal(), "Vector2:tangent", "tangent of %s", in.c_str()); if (a[1] != 0) CK(nr(v.aspect(), a[0] / a[1]), "Vector2:aspect", "aspect of %s", in.c_str()); }
static D crs(const D &a, const D &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static D rodrigues(const D &v, const D &k, double t) { return add(add(sc(v, std::cos(t)), sc(crs(k, v), std::sin(t))), sc(k, dot(k, v) * (1 - std::cos(t)))); }
static void space3(const Vector3 &v, const Vector3 &w) { D a = d(v), b = d(w); std::string in = S(v) + " and " + S(w); IS(d(v.cross(w)), crs(a, b), "Vector3:cross", "cross product of %s", in.c_str()); Basis o = v.outer(w); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CK(nr(o[i][j], a[i] * b[j]), "Vector3:outer", "outer product of %s", in.c_str());
	if (len(b) > 0) { D u = unit(b); for (int i = -4; i <= 4; i++) { double t = i * M_PI / 4; D e = rodrigues(a, u, t), g = d(v.rotated(w.normalized(), t)); CK(nr(g, e, 1e-4), "Vector3:rotated", "%s, turned by %d eighths, gives %s, expected %s", in.c_str(), i, s(g).c_str(), s(e).c_str()); Vector3 r = v; r.rotate(w.normalized(), t); CK(r == v.rotated(w.normalized(), t), "Vector3:rotate", "rotate of %s", in.c_str()); } }
	for (Vector3 ax : { Vector3(0, 0, 1), Vector3(1, 2, -1) }) { D c = crs(a, b); double side = dot(c, d(ax)); if (len(a) > 0 && len(b) > 0 && side != 0) CK(nr(v.signed_angle_to(w, ax), (side < 0 ? -1 : 1) * std::atan2(len(c), dot(a, b)), 1e-4), "Vector3:signed_angle", "signed angle of %s about %s is %g", in.c_str(), S(ax).c_str(), v.signed_angle_to(w, ax)); }
	{ Vector3 x = v; x.snap(w); CK(x == v.snapped(w), "Vector3:snap", "snap of %s", in.c_str()); } if (v <= w || true) { Vector3 lo(std::min(v.x, w.x), std::min(v.y, w.y), std::min(v.z, w.z)), hi(std::max(v.x, w.x), std::max(v.y, w.y), std::max(v.z, w.z)), m(0.5, -1, 2); IS(d(m.clamp(lo, hi)), (D{ std::min(std::max(0.5, (double)lo.x), (double)hi.x), std::min(std::max(-1.0, (double)lo.y), (double)hi.y), std::min(std::max(2.0, (double)lo.z), (double)hi.z) }), "Vector3:clamp", "clamping to %s", in.c_str()); }
	Basis g = v.to_diagonal_matrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CK(g[i][j] == (i == j ? v[i] : 0), "Vector3:diagonal", "diagonal of %s", in.c_str()); for (int i = 0; i < 3; i++) { Vector3 x = v; x.set_axis(i, 9); CK(x.get_axis(i) == 9 && v.get_axis(i) == v[i], "Vector3:axis", "axis %d of %s", i, in.c_str()); } if (v.x != 0 && v.y != 0 && v.z != 0) IS(d(v.inverse()), mp(a, [](double x) { return 1 / x; }), "Vector3:inverse", "inverse of %s", in.c_str()); Vector3 z = v; z.zero(); CK(z == Vector3(), "Vector3:zero", "zero of %s", in.c_str()); }
// ---- integer vectors
static bool rem(const Vector2i &, const Vector2i &, const D &) { return true; } static bool rem(const Vector2i &, int, const D &) { return true; } static void mul(Vector2i &v, const Vector2i &w) { v = v * w; }
template <class V, class W> static bool rem(const V &v, const W &w, const D &e) { return d(v % w) == e; } template <class V> static void mul(V &v, const V &w) { v *= w; }
template <class V, int N> static void ints(const char *T, const std::vector<int> &g) { std::vector<V> all; std::vector<int> c(N, 0); for (;;) { V v; for (int i = 0; i < N; i++) v[i] = g[c[i]]; all.push_back(v); int p = 0; while (p < N && ++c[p] == (int)g.size()) c[p++] = 0; if (p == N) break; }
	for (auto &v : all) MC_CASE("%s %s", T, S(v).c_str()) { D a = d(v); std::string k = T; mc::state(k + S(v)); CK(d(-v) == sc(a, -1) && d(v.abs()) == mp(a, [](double x) { return std::fabs(x); }) && sgn(d(v.sign()), a) == mp(a, [](double x) { return double((x > 0) - (x < 0)); }), k + ":unary", "negation, size and sign of %s", S(v).c_str()); int mi = v.min_axis(), ma = v.max_axis(); for (double x : a) CK(a[mi] <= x && a[ma] >= x, k + ":axis", "least and greatest axis of %s", S(v).c_str());
		for (auto &w : all) { D b = d(w); std::string in = S(v) + " and " + S(w); mc::state(k + in); CK(d(v + w) == add(a, b) && d(v - w) == sub(a, b) && d(v * w) == mp(a, b, [](double x, double y) { return x * y; }), k + ":arithmetic", "sum, difference and product of %s", in.c_str()); bool z = false; for (double x : b) z = z || x == 0; if (!z) CK(d(v / w) == mp(a, b, [](double x, double y) { return std::trunc(x / y); }) && rem(v, w, mp(a, b, [](double x, double y) { return std::fmod(x, y); })), k + ":division", "quotient and remainder of %s", in.c_str()); V u = v; u += w; u -= w; mul(u, w); CK(u == v * w, k + ":in-place", "arithmetic in place of %s", in.c_str());
			CK((v == w) == (a == b) && (v != w) == (a != b) && (v < w) == (a < b) && (v > w) == (a > b) && (v <= w) == (a <= b) && (v >= w) == (a >= b), k + ":order", "order of %s", in.c_str()); }
		for (int q : { -3, -1, 1, 2 }) { V u = v; u *= q; V t = v; t /= q; CK(d(v * q) == sc(a, q) && u == v * q && d(v / q) == mp(a, [&](double x) { return std::trunc(x / q); }) && t == v / q && rem(v, q, mp(a, [&](double x) { return std::fmod(x, q); })), k + ":scalar", "%s and %d", S(v).c_str(), q); } } }
// ---- rectangles: the points they hold
static std::string R(const Rect2 &r) { return S(r.position) + "+" + S(r.size); } static std::string R(const Rect2i &r) { return S(r.position) + "+" + S(r.size); } static std::string R(const AABB &r) { return S(r.position) + "+" + S(r.size); }
static D d(const Rect2 &r) { return { r.position.x, r.position.y, r.size.x, r.size.y }; } static D d(const Rect2i &r) { return { (double)r.position.x, (double)r.position.y, (double)r.size.x, (double)r.size.y }; } static D d(const AABB &r) { return { r.position.x, r.position.y, r.position.z, r.size.x, r.size.y, r.size.z }; }
static void borders(const Rect2 &a, const Rect2 &b, bool cl) { CK(a.intersects(b, true) == cl, "Rect2:intersects:borders", "%s with borders meets %s: %d", R(a).c_str(), R(b).c_str(), a.intersects(b, true)); } static void borders(const Rect2i &, const Rect2i &, bool) {}
template <class RT> static void rects(const char *T, const RT &a, const RT &b) { std::string k = T, in = R(a) + " and " + R(b); mc::state(k + in); D x = d(a), y = d(b), e(4); bool op = true, cl = true, enc = true; for (int i = 0; i < 2; i++) { double lo = std::max(x[i], y[i]), hi = std::min(x[i] + x[i + 2], y[i] + y[i + 2]); op = op && x[i] < y[i] + y[i + 2] && y[i] < x[i] + x[i + 2]; cl = cl && lo <= hi; enc = enc && y[i] >= x[i] && y[i] + y[i + 2] <= x[i] + x[i + 2]; e[i] = lo; e[i + 2] = hi - lo; }
	CK(a.intersects(b) == op && b.intersects(a) == op, k + ":intersects", "%s: intersects gives %d", in.c_str(), a.intersects(b)); borders(a, b, cl); if (!op) e = D(4, 0.0); CK(d(a.intersection(b)) == e && d(a.clip(b)) == e, k + ":intersection", "%s: intersection %s, clip %s, expected %s", in.c_str(), R(a.intersection(b)).c_str(), R(a.clip(b)).c_str(), s(e).c_str()); CK(a.encloses(b) == enc, k + ":encloses", "%s: encloses gives %d", in.c_str(), a.encloses(b));
	D m(4); for (int i = 0; i < 2; i++) { m[i] = std::min(x[i], y[i]); m[i + 2] = std::max(x[i] + x[i + 2], y[i] + y[i + 2]) - m[i]; } CK(d(a.merge(b)) == m, k + ":merge", "%s: merged %s", in.c_str(), R(a.merge(b)).c_str()); CK((a == b) == (x == y) && (a != b) == (x != y), k + ":equal", "%s: equal %d", in.c_str(), a == b); }
template <class RT, class P> static void rect1(const char *T, const RT &a, const P &p) { std::string k = T, in = R(a) + " and " + S(p); D x = d(a), q = d(p), e(4); bool has = true; for (int i = 0; i < 2; i++) { has = has && q[i] >= x[i] && q[i] < x[i] + x[i + 2]; e[i] = std::min(x[i], q[i]); e[i + 2] = std::max(x[i] + x[i + 2], q[i]) - e[i]; } CK(a.has_point(p) == has, k + ":has_point", "%s: has_point %d", in.c_str(), a.has_point(p)); CK(d(a.expand(p)) == e, k + ":expand", "%s: expanded %s", in.c_str(), R(a.expand(p)).c_str()); { RT r = a; r.expand_to(p); CK(r == a.expand(p), k + ":expand", "%s: expand_to", in.c_str()); r = a; r.set_end(p); CK(d(r.get_end()) == q && r.position == a.position, k + ":end", "%s: set_end", in.c_str()); }
	for (int g : { -1, 0, 1, 2 }) { RT r = a; r.grow_by(g); D w = { x[0] - g, x[1] - g, x[2] + 2 * g, x[3] + 2 * g }; CK(d(r) == w && d(a.grow(g)) == w, k + ":grow", "%s grown by %d is %s", R(a).c_str(), g, R(r).c_str()); for (int sd = 0; sd < 4; sd++) { double l = sd == 0 ? g : 0, t = sd == 1 ? g : 0, ri = sd == 2 ? g : 0, bo = sd == 3 ? g : 0; D u = { x[0] - l, x[1] - t, x[2] + l + ri, x[3] + t + bo }; CK(d(a.grow_side((Side)sd, g)) == u && d(a.grow_margin((Margin)sd, g)) == u && d(a.grow_individual(l, t, ri, bo)) == u, k + ":grow_side", "%s grown by %d at side %d is %s", R(a).c_str(), g, sd, R(a.grow_side((Side)sd, g)).c_str()); } }
	CK(a.get_area() == x[2] * x[3] && a.has_no_area() == !(x[2] > 0 && x[3] > 0), k + ":area", "area of %s", R(a).c_str()); }
static bool seg(const D &lo, const D &hi, const D &f, const D &t, double &at, int &ax, double &margin) { double a = 0, b = 1; ax = -1; margin = 1e9; for (size_t i = 0; i < lo.size(); i++) { double v = t[i] - f[i]; if (v == 0) { if (f[i] < lo[i] || f[i] > hi[i]) return false; continue; } double p = (lo[i] - f[i]) / v, q = (hi[i] - f[i]) / v; if (p > q) std::swap(p, q); if (p > a) a = p, ax = i; if (q < b) b = q; } margin = b - a; at = a; return a <= b; }
static std::vector<Vector2> grid2(const std::vector<double> &g) { std::vector<Vector2> r; for (double x : g) for (double y : g) r.push_back(Vector2(x, y)); return r; }
static std::vector<Vector3> grid3(const std::vector<double> &g) { std::vector<Vector3> r; for (double x : g) for (double y : g) for (double z : g) r.push_back(Vector3(x, y, z)); return r; }
static double inside(const std::vector<Vector2> &poly, double x, double y) { double m = 1e9; int n = poly.size(); double area = 0; for (int i = 0; i < n; i++) { auto &a = poly[i], &b = poly[(i + 1) % n]; area += a.x * b.y - a.y * b.x; } for (int i = 0; i < n; i++) { auto &a = poly[i], &b = poly[(i + 1) % n]; double c = ((b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x)) * (area > 0 ? 1 : -1); m = std::min(m, c); } return m; }
// separation of two convex polygons: > 0 apart, < 0 overlapping, along the best edge normal
static double separation(const std::vector<Vector2> &p, const std::vector<Vector2> &q) { double best = -1e9; for (int z = 0; z < 2; z++) { auto &A = z ? q : p; int n = A.size(); for (int i = 0; i < n; i++) { double nx = A[(i + 1) % n].y - A[i].y, ny = A[i].x - A[(i + 1) % n].x, l = std::hypot(nx, ny); if (l == 0) continue; nx /= l; ny /= l; double p0 = 1e9, p1 = -1e9, q0 = 1e9, q1 = -1e9; for (auto &v : p) { double t = v.x * nx + v.y * ny; p0 = std::min(p0, t); p1 = std::max(p1, t); } for (auto &v : q) { double t = v.x * nx + v.y * ny; q0 = std::min(q0, t); q1 = std::max(q1, t); } best = std::max(best, std::max(q0 - p1, p0 - q1)); } } return best; }
static std::vector<Vector2> corners(const Rect2 &r) { return { r.position, r.position + Vector2(r.size.x, 0), r.position + r.size, r.position + Vector2(0, r.size.y) }; }
static void rectgeo(const Rect2 &a) { mc::state(R(a)); CK(a.get_center() == a.position + a.size / 2 && a.get_end() == a.position + a.size, "Rect2:centre", "centre of %s", R(a).c_str());
	for (auto &p : grid2({ -1, 0.5, 1, 2, 3.5 })) { double dx = std::max(std::max((double)a.position.x - p.x, 0.0), (double)p.x - a.get_end().x), dy = std::max(std::max((double)a.position.y - p.y, 0.0), (double)p.y - a.get_end().y); CK(nr(a.distance_to(p), std::hypot(dx, dy)), "Rect2:distance", "%s is %g from %s, expected %g", R(a).c_str(), a.distance_to(p), S(p).c_str(), std::hypot(dx, dy)); if (p.x != 0 && p.y != 0) { double best = -1e9; for (auto &c : corners(a)) best = std::max(best, (double)c.dot(p)); Vector2 g = a.get_support(p); CK(nr(g.dot(p), best) && (a.has_no_area() || (a.grow(1e-3).has_point(g))), "Rect2:support", "the point of %s farthest along %s is not %s", R(a).c_str(), S(p).c_str(), S(g).c_str()); } }
	auto g = grid2({ -1, 0, 0.5, 1.5, 2, 3 }); for (auto &f : g) for (auto &t : g) { double at, mg; int ax; bool hit = seg(d(a.position), d(a.get_end()), d(f), d(t), at, ax, mg); if (hit && mg < 1e-6 && mg != 0) continue; if (hit && mg == 0 && at > 0 && at < 1) continue; Vector2 c, n; bool r = a.intersects_segment(f, t, &c, &n); CK(r == hit && a.intersects_segment(f, t) == hit, "Rect2:segment", "%s meets the segment from %s to %s: %d", R(a).c_str(), S(f).c_str(), S(t).c_str(), r); if (r && hit) { D e = add(d(f), sc(sub(d(t), d(f)), at)); CK(nr(d(c), e, 1e-4), "Rect2:segment:point", "%s is entered from %s to %s at %s", R(a).c_str(), S(f).c_str(), S(t).c_str(), S(c).c_str()); if (ax < 0) CK(n == Vector2(), "Rect2:segment:normal", "%s: normal %s for a start inside, %s", R(a).c_str(), S(n).c_str(), S(f).c_str()); else { int ties = 0; for (int i = 0; i < 2; i++) { double v = t[i] - f[i]; if (v && nr(((v > 0 ? a.position[i] : a.get_end()[i]) - f[i]) / v, at)) ties++; } if (ties == 1) { Vector2 w; w[ax] = t[ax] > f[ax] ? -1 : 1; CK(n == w, "Rect2:segment:normal", "%s entered from %s to %s has the normal %s", R(a).c_str(), S(f).c_str(), S(t).c_str(), S(n).c_str()); } } } }
	for (auto sz : { Vector2(-1, 2), Vector2(-2, -1), Vector2(1, 1), Vector2(3, -1) }) { Rect2 r(a.position, sz), n = r.abs(); CK(n.size == sz.abs() && n.position == Vector2(std::min(r.position.x, r.get_end().x), std::min(r.position.y, r.get_end().y)), "Rect2:abs", "abs of %s is %s", R(r).c_str(), R(n).c_str()); Rect2i ri(Point2i(a.position.x, a.position.y), Size2i(sz.x, sz.y)), ni = ri.abs(); CK(d(ni)[2] == std::fabs(sz.x) && d(ni)[3] == std::fabs(sz.y) && ni.position.x == std::min(ri.position.x, ri.get_end().x) && ni.position.y == std::min(ri.position.y, ri.get_end().y), "Rect2i:abs", "abs of %s is %s", R(ri).c_str(), R(ni).c_str()); } }
static void rectpoly(const Rect2 &a) { if (a.has_no_area()) return; std::vector<std::vector<Vector2>> polys; auto g = grid2({ -1.25, 0.25, 1.25, 2.75 }); for (auto &p : g) for (auto &q : g) for (auto &r : g) { double ar = (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x); if (ar > 0.01) polys.push_back({ p, q, r }); } for (auto &p : polys) for (int rev = 0; rev < 2; rev++) { auto q = p; if (rev) std::reverse(q.begin(), q.end()); double sp = separation(corners(a), q); if (std::fabs(sp) < 1e-4) continue; CK(a.intersects_filled_polygon(q.data(), 3) == (sp < 0), "Rect2:polygon", "%s meets the triangle %s %s %s: %d", R(a).c_str(), S(q[0]).c_str(), S(q[1]).c_str(), S(q[2]).c_str(), sp > 0); }
	for (int i = 0; i < 12; i++) for (auto o : grid2({ -1.75, 0.125, 1.5, 3.25 })) for (auto sz : { Vector2(1, 1), Vector2(2.5, 0.75) }) for (auto sl : { Vector2(1, 1), Vector2(0.5, 2) }) { Transform2D x; x.set_rotation_and_scale(i * M_PI / 6, sl); x.set_origin(o); Rect2 b(Vector2(-0.25, 0.5), sz); auto q = corners(b); for (auto &v : q) v = x.xform(v); double sp = separation(corners(a), q); if (std::fabs(sp) < 1e-3) continue; CK(a.intersects_transformed(x, b) == (sp < 0), "Rect2:transformed", "%s meets %s turned by %d/12 and moved to %s: %d", R(a).c_str(), R(b).c_str(), i, S(o).c_str(), sp > 0); } }
// ---- boxes
static void boxes(const AABB &a, const AABB &b) { std::string in = R(a) + " and " + R(b); D x = d(a), y = d(b), e(6), m(6); bool op = true, cl = true, enc = true; for (int i = 0; i < 3; i++) { double lo = std::max(x[i], y[i]), hi = std::min(x[i] + x[i + 3], y[i] + y[i + 3]); op = op && x[i] < y[i] + y[i + 3] && y[i] < x[i] + x[i + 3]; cl = cl && lo <= hi; enc = enc && y[i] >= x[i] && y[i] + y[i + 3] <= x[i] + x[i + 3]; e[i] = lo; e[i + 3] = hi - lo; m[i] = std::min(x[i], y[i]); m[i + 3] = std::max(x[i] + x[i + 3], y[i] + y[i + 3]) - m[i]; } if (!cl) e = D(6, 0.0);
	CK(a.intersects(b) == op, "AABB:intersects", "%s: intersects %d", in.c_str(), !op); CK(a.intersects_inclusive(b) == cl, "AABB:intersects_inclusive", "%s: intersects_inclusive %d", in.c_str(), !cl); CK(a.encloses(b) == enc, "AABB:encloses", "%s: encloses %d", in.c_str(), !enc); CK(d(a.intersection(b)) == e, "AABB:intersection", "%s: intersection %s", in.c_str(), R(a.intersection(b)).c_str()); CK(d(a.merge(b)) == m, "AABB:merge", "%s: merged %s", in.c_str(), R(a.merge(b)).c_str()); AABB c = a; c.merge_with(b); CK(c == a.merge(b) && (a == b) == (x == y), "AABB:merge", "%s: merge_with", in.c_str()); }
static void box1(const AABB &a) { std::string in = R(a); mc::state(in); D x = d(a); Vector3 e = a.get_end(); CK(a.get_volume() == x[3] * x[4] * x[5] && a.has_no_volume() == !(x[3] > 0 && x[4] > 0 && x[5] > 0) && a.has_no_surface() == !(x[3] > 0 || x[4] > 0 || x[5] > 0) && a.get_center() == a.position + a.size / 2, "AABB:volume", "volume %g, no volume %d, no surface %d of %s", a.get_volume(), a.has_no_volume(), a.has_no_surface(), in.c_str());
	double big = std::max(x[3], std::max(x[4], x[5])), small = std::min(x[3], std::min(x[4], x[5])); CK(a.get_longest_axis_size() == big && x[3 + a.get_longest_axis_index()] == big && a.get_longest_axis()[a.get_longest_axis_index()] == 1 && a.get_longest_axis().length() == 1 && a.get_shortest_axis_size() == small && x[3 + a.get_shortest_axis_index()] == small && a.get_shortest_axis()[a.get_shortest_axis_index()] == 1 && a.get_shortest_axis().length() == 1, "AABB:axes", "longest and shortest axis of %s", in.c_str());
	std::set<D> cs; for (int i = 0; i < 8; i++) { Vector3 c = a.get_endpoint(i); cs.insert(d(c)); for (int j = 0; j < 3; j++) CK(c[j] == a.position[j] || c[j] == e[j], "AABB:endpoint", "corner %d of %s is %s", i, in.c_str(), S(c).c_str()); } if (small > 0) CK(cs.size() == 8, "AABB:endpoint", "%s has %zu corners", in.c_str(), cs.size()); std::set<std::pair<D, D>> es; for (int i = 0; i < 12; i++) { Vector3 f, t; a.get_edge(i, f, t); int df = 0; for (int j = 0; j < 3; j++) df += f[j] != t[j]; es.insert({ std::min(d(f), d(t)), std::max(d(f), d(t)) }); CK((small == 0 || df == 1) && cs.count(d(f)) && cs.count(d(t)), "AABB:edge", "edge %d of %s goes from %s to %s", i, in.c_str(), S(f).c_str(), S(t).c_str()); } if (small > 0) CK(es.size() == 12, "AABB:edge", "%s has %zu edges", in.c_str(), es.size());
	for (auto &p : grid3({ -1, 0.5, 1, 2.5 })) { bool has = true; D q = d(p), w(6); for (int i = 0; i < 3; i++) { has = has && q[i] >= x[i] && q[i] <= x[i] + x[i + 3]; w[i] = std::min(x[i], q[i]); w[i + 3] = std::max(x[i] + x[i + 3], q[i]) - w[i]; } CK(a.has_point(p) == has, "AABB:has_point", "%s has %s: %d", in.c_str(), S(p).c_str(), !has); CK(d(a.expand(p)) == w, "AABB:expand", "%s expanded to %s is %s", in.c_str(), S(p).c_str(), R(a.expand(p)).c_str()); double best = -1e9; for (auto &c : cs) best = std::max(best, dot(c, q)); Vector3 g = a.get_support(p); CK(nr(dot(d(g), q), best) && a.has_point(g), "AABB:support", "the point of %s farthest along %s is not %s", in.c_str(), S(p).c_str(), S(g).c_str());
		AABB r = a; r.set_end(p); CK(r.get_end() == p && r.position == a.position, "AABB:end", "set_end of %s", in.c_str()); AABB n = AABB(a.position, p).abs(); D nd = d(n); for (int i = 0; i < 3; i++) CK(nd[i] == std::min(x[i], x[i] + q[i]) && nd[i + 3] == std::fabs(q[i]), "AABB:abs", "abs of %s+%s is %s", S(a.position).c_str(), S(p).c_str(), R(n).c_str());
		for (double dd : { -1.0, 0.0, 1.0, 2.0 }) { Plane pl(p, dd); double mx = -1e9, mn = 1e9; for (auto &c : cs) { double v = dot(c, q) - dd; mx = std::max(mx, v); mn = std::min(mn, v); } real_t lo, hi; a.project_range_in_plane(pl, lo, hi); CK(nr(lo, mn) && nr(hi, mx), "AABB:project_range", "%s spans %g to %g above the plane %s, %g; expected %g to %g", in.c_str(), lo, hi, S(p).c_str(), dd, mn, mx); CK(a.intersects_plane(pl) == (mx > 0 && mn <= 0), "AABB:plane", "%s meets the plane %s, %g: %d", in.c_str(), S(p).c_str(), dd, a.intersects_plane(pl)); CK(a.inside_convex_shape(&pl, 1) == (mx <= 0), "AABB:inside_convex", "%s lies below the plane %s, %g: %d", in.c_str(), S(p).c_str(), dd, a.inside_convex_shape(&pl, 1)); } }
	for (double g : { -0.5, 0.0, 1.0 }) { AABB r = a; r.grow_by(g); D w = { x[0] - g, x[1] - g, x[2] - g, x[3] + 2 * g, x[4] + 2 * g, x[5] + 2 * g }; CK(d(r) == w && a.grow(g) == r, "AABB:grow", "%s grown by %g is %s", in.c_str(), g, R(r).c_str()); }
	for (double u : { 0.5, 1.0, 4.0 }) { AABB b(a.position - Vector3(1.25, 0.75, 0), a.size + Vector3(0.25, 0, 0.5)), r = b.quantized(u); D q = d(r); bool mul = true; for (double v : q) mul = mul && v / u == std::floor(v / u); CK(mul && r.encloses(b) && r.grow(-u).encloses(b) == false, "AABB:quantize", "%s quantized to %g is %s", R(b).c_str(), u, R(r).c_str()); } }
static void boxseg(const AABB &a, const std::vector<Vector3> &g) { for (auto &f : g) for (auto &t : g) { double at, mg; int ax; D lo = d(a.position), hi = d(a.get_end()), fd = d(f), td = d(t); bool hit = seg(lo, hi, fd, td, at, ax, mg); bool edge = hit && mg < 1e-6 && at > 0 && at < 1; int ties = 0; if (ax >= 0) for (int i = 0; i < 3; i++) { double v = t[i] - f[i]; if (v && nr(((v > 0 ? lo[i] : hi[i]) - f[i]) / v, at)) ties++; }
		if (!edge) { Vector3 c, n; bool r = a.intersects_segment(f, t, &c, &n); CK(r == hit && a.intersects_segment(f, t) == hit, "AABB:segment", "%s meets the segment from %s to %s: %d", R(a).c_str(), S(f).c_str(), S(t).c_str(), r); if (r && hit) { D e = add(fd, sc(sub(td, fd), at)); CK(nr(d(c), e, 1e-4), "AABB:segment:point", "%s is entered from %s to %s at %s", R(a).c_str(), S(f).c_str(), S(t).c_str(), S(c).c_str()); if (ax < 0) CK(n == Vector3(), "AABB:segment:normal", "%s: normal %s for a start inside", R(a).c_str(), S(n).c_str()); else if (ties == 1) { Vector3 w; w[ax] = t[ax] > f[ax] ? -1 : 1; CK(n == w, "AABB:segment:normal", "%s entered from %s to %s has the normal %s", R(a).c_str(), S(f).c_str(), S(t).c_str(), S(n).c_str()); } } }
		if (f == t) continue; D v = sub(td, fd); double far_; D ft = add(fd, sc(v, 100)); bool rh = seg(lo, hi, fd, ft, far_, ax, mg); if (rh && mg < 1e-6) continue; Vector3 c, n; bool r = a.intersects_ray(f, t - f, &c, &n); CK(r == rh && a.intersects_ray(f, t - f) == rh, "AABB:ray", "%s meets the ray from %s along %s: %d", R(a).c_str(), S(f).c_str(), s(v).c_str(), r); bool zero = v[0] == 0 || v[1] == 0 || v[2] == 0; if (!zero) CK(a.smits_intersect_ray(f, t - f, 0, 100) == rh, "AABB:smits", "%s meets the ray from %s along %s: %d", R(a).c_str(), S(f).c_str(), s(v).c_str(), !rh);
		if (r && rh && ax >= 0) { D e = add(fd, sc(sub(ft, fd), far_)); CK(nr(d(c), e, 1e-4), "AABB:ray:point", "%s is met by the ray from %s along %s at %s, expected %s", R(a).c_str(), S(f).c_str(), s(v).c_str(), S(c).c_str(), s(e).c_str()); ties = 0; for (int i = 0; i < 3; i++) if (v[i] && nr(((v[i] > 0 ? lo[i] : hi[i]) - f[i]) / v[i], far_ * 100)) ties++; if (ties == 1) { Vector3 w; w[ax] = v[ax] > 0 ? -1 : 1; CK(n == w, "AABB:ray:normal", "%s met by the ray from %s along %s has the normal %s", R(a).c_str(), S(f).c_str(), s(v).c_str(), S(n).c_str()); } } } }
// ---- planes
static void planes(const std::vector<Vector3> &g) { auto pt = grid3({ -1, 0, 0.5, 2 }); for (auto &p : g) for (auto &q : g) MC_CASE("planes through %s and %s", S(p).c_str(), S(q).c_str()) for (auto &r : g) { D n = crs(sub(d(p), d(r)), sub(d(p), d(q))); if (len(n) == 0) continue; n = unit(n); for (int ccw = 0; ccw < 2; ccw++) { if (ccw) n = sc(n, -1); Plane pl(p, q, r, ccw ? COUNTERCLOCKWISE : CLOCKWISE); std::string in = mc::fmt("the plane through %s, %s, %s", S(p).c_str(), S(q).c_str(), S(r).c_str()); mc::state(in); CK(nr(d(pl.normal), n, 1e-4) && nr(pl.d, dot(n, d(p)), 1e-4), "Plane:points", "%s has the normal %s and distance %g, expected %s", in.c_str(), S(pl.normal).c_str(), pl.d, s(n).c_str()); for (auto &z : { p, q, r }) CK(pl.has_point(z, 1e-4), "Plane:has_point", "%s does not hold %s", in.c_str(), S(z).c_str());
				for (auto &z : pt) { double h = dot(n, d(z)) - dot(n, d(p)); CK(nr(pl.distance_to(z), h, 1e-4), "Plane:distance", "%s is %g from %s", in.c_str(), pl.distance_to(z), S(z).c_str()); if (std::fabs(h) > 1e-4) CK(pl.is_point_over(z) == (h > 0) && !pl.has_point(z, 1e-5), "Plane:over", "%s: side of %s", in.c_str(), S(z).c_str()); D pr = sub(d(z), sc(n, h)); CK(nr(d(pl.project(z)), pr, 1e-4), "Plane:project", "%s: %s projected is %s", in.c_str(), S(z).c_str(), S(pl.project(z)).c_str()); }
				Vector3 any = pl.get_any_point(), pp = pl.get_any_perpendicular_normal(); CK(pl.has_point(any, 1e-4) && nr(pp.length(), 1, 1e-4) && nr(pp.dot(pl.normal), 0, 1e-4) && pl.has_point(pl.center(), 1e-4), "Plane:any", "%s: point %s, perpendicular %s", in.c_str(), S(any).c_str(), S(pp).c_str()); Plane big(pl.normal * 2, pl.d * 2), nn = big.normalized(); CK(nn.is_equal_approx(pl) && (-pl).is_equal_approx_any_side(pl) && !(-pl).is_equal_approx(pl) && Plane(p, pl.normal).is_equal_approx(pl), "Plane:normalize", "%s: normal form", in.c_str()); } } }
static void planeray(const Vector3 &nm, double dd, const std::vector<Vector3> &g) { Plane pl(nm.normalized(), dd); D n = unit(d(nm)); for (auto &f : g) for (auto &t : g) { D v = sub(d(t), d(f)); double den = dot(n, v), h0 = dot(n, d(f)) - dd; if (std::fabs(den) < 1e-4 && den != 0) continue; double at = den == 0 ? -1 : -h0 / den; std::string in = mc::fmt("the plane %s, %g and the line from %s to %s", s(n).c_str(), dd, S(f).c_str(), S(t).c_str()); mc::state(in); Vector3 c; bool parallel = std::fabs(den) < 1e-5; if (parallel || std::fabs(at) > 1e-4) { bool w = !parallel && at > 0; bool r = pl.intersects_ray(f, t - f, &c); CK(r == w, "Plane:ray", "%s: ray meets %d", in.c_str(), r); if (r && w) CK(nr(d(c), add(d(f), sc(v, at)), 1e-3), "Plane:ray:point", "%s: ray meets at %s", in.c_str(), S(c).c_str()); } if (parallel || (std::fabs(at) > 1e-4 && std::fabs(at - 1) > 1e-3)) { bool w = !parallel && at > 0 && at < 1; bool r = pl.intersects_segment(f, t, &c); CK(r == w, "Plane:segment", "%s: segment meets %d", in.c_str(), r); if (r && w) CK(nr(d(c), add(d(f), sc(v, at)), 1e-3), "Plane:segment:point", "%s: segment meets at %s", in.c_str(), S(c).c_str()); } } }
static void threeplanes(const std::vector<Vector3> &g) { for (auto &a : g) MC_CASE("three planes, first along %s", S(a).c_str()) for (auto &b : g) for (auto &c : g) { if (a == Vector3() || b == Vector3() || c == Vector3()) continue; Plane p(a.normalized(), 0.5), q(b.normalized(), -0.25), r(c.normalized(), 1); double det = dot(d(p.normal), crs(d(q.normal), d(r.normal))); if (std::fabs(det) > 1e-7 && std::fabs(det) < 1e-3) continue; Vector3 x; bool hit = p.intersect_3(q, r, &x); std::string in = mc::fmt("planes along %s, %s, %s", S(a).c_str(), S(b).c_str(), S(c).c_str()); mc::state(in); CK(hit == (std::fabs(det) > 1e-4), "Plane:intersect_3", "%s: common point %d", in.c_str(), hit); if (hit) CK(nr(p.distance_to(x), 0, 1e-3) && nr(q.distance_to(x), 0, 1e-3) && nr(r.distance_to(x), 0, 1e-3), "Plane:intersect_3:point", "%s: common point %s", in.c_str(), S(x).c_str()); } }
void explore() {
	SFWCore::setup(); bool th = mc::thorough(); D g2 = { -2, -1, -0.5, 0, 1, 3 }, g3 = { -1.5, 0, 1, 2 }; if (th) g2.push_back(2.25), g3.push_back(-1); auto v2 = grid2(g2); auto v3 = grid3(g3); D qs = { -2, -0.5, 0, 1, 3, 0.75 };
	for (auto &v : v2) MC_CASE("Vector2 %s", S(v).c_str()) { unary("Vector2", v); turn2(v); for (double q : qs) scalar("Vector2", v, q), scalar23("Vector2", v, q); for (auto &w : v2) pair("Vector2", v, w), pair23("Vector2", v, w), plane2(v, w); }
	for (auto &v : v3) MC_CASE("Vector3 %s", S(v).c_str()) { unary("Vector3", v); for (double q : qs) scalar("Vector3", v, q), scalar23("Vector3", v, q); for (auto &w : v3) pair("Vector3", v, w), pair23("Vector3", v, w), space3(v, w); }
	D g4 = { -1.5, 0, 2 }; std::vector<Vector4> v4; for (double a : g4) for (double b : g4) for (double c : g4) for (double e : g4) v4.push_back(Vector4(a, b, c, e)); for (auto &v : v4) MC_CASE("Vector4 %s", S(v).c_str()) { unary("Vector4", v); for (double q : qs) scalar("Vector4", v, q); for (auto &w : v4) { pair("Vector4", v, w); D a = d(v), b = d(w); std::string in = S(v) + " and " + S(w); IS(D{ v.dot(w) }, D{ dot(a, b) }, "Vector4:dot", "dot product of %s", in.c_str()); IS(D{ v.distance_to(w) }, D{ len(sub(a, b)) }, "Vector4:distance", "distance of %s", in.c_str()); for (double q : { 0.0, 0.25, 1.0 }) IS(d(v.linear_interpolate(w, q)), add(a, sc(sub(b, a), q)), "Vector4:lerp", "%s at %g", in.c_str(), q); } }
	auto c2 = grid2({ -1, 0, 2 }); for (auto &p : c2) for (auto &q : c2) MC_CASE("curves from %s by %s", S(p).c_str(), S(q).c_str()) for (auto &r : c2) for (auto &t : c2) { curves("Vector2", p, q, r, t); curves("Vector3", Vector3(p.x, p.y, q.x), Vector3(q.x, q.y, r.y), Vector3(r.x, r.y, t.x), Vector3(t.x, t.y, p.y)); }
	ints<Vector2i, 2>("Vector2i", th ? std::vector<int>{ -70000, -7, -2, -1, 0, 1, 3, 40000 } : std::vector<int>{ -7, -2, -1, 0, 3, 30000 }); ints<Vector3i, 3>("Vector3i", { -7, -1, 0, 3 }); ints<Vector4i, 4>("Vector4i", { -7, 0, 3 });
	std::vector<Rect2i> ri; std::vector<Rect2> rr; for (int x = 0; x < 4; x++) for (int y = 0; y < 3; y++) for (int w = 0; w < 4; w++) for (int h = 0; h < 3; h++) { ri.push_back(Rect2i(x, y, w, h)); rr.push_back(Rect2(x * 0.5f, y, w, h * 0.5f)); } for (int o : { 16777216, -16777217, 2000000001 }) for (int w : { 1, 16777219 }) ri.push_back(Rect2i(o, -o, w, 3)), ri.push_back(Rect2i(o + 1, -o + 1, w, 2));
	for (auto &a : ri) MC_CASE("Rect2i %s", R(a).c_str()) { for (auto &b : ri) { bool big = std::abs(a.position.x) > 99 || std::abs(b.position.x) > 99; if (big && std::fabs((double)a.position.x - b.position.x) > 1e8) continue; rects("Rect2i", a, b); } if (std::abs(a.position.x) < 99) { for (int x = -1; x < 7; x++) for (int y = -1; y < 5; y++) rect1("Rect2i", a, Vector2i(x, y)); CK(a.to_rect2() == Rect2(a.position.x, a.position.y, a.size.x, a.size.y) && Rect2i(a.to_rect2()) == a, "Rect2i:to_rect2", "to_rect2 of %s", R(a).c_str()); } }
	for (auto &a : rr) MC_CASE("Rect2 %s", R(a).c_str()) { for (auto &b : rr) rects("Rect2", a, b); for (auto &p : grid2({ -0.5, 0, 0.75, 1, 2, 4.5 })) rect1("Rect2", a, p); rectgeo(a); } for (auto &a : { Rect2(0, 0, 1, 1), Rect2(0.5, -0.5, 1.5, 0.5), Rect2(-1, 0, 4, 2), Rect2(1, 1, 0.5, 2.5) }) MC_CASE("shapes against %s", R(a).c_str()) rectpoly(a);
	std::vector<AABB> bb; for (auto &p : grid3({ 0, 1, 2.5 })) for (auto &z : grid3({ 0, 1, 2 })) bb.push_back(AABB(p, z)); auto sg = grid3(th ? D{ -1, 0, 0.5, 2, 3 } : D{ -1, 0.5, 2, 3 }); for (auto &a : bb) MC_CASE("AABB %s", R(a).c_str()) { mc::state(R(a)); for (size_t i = 0; i < bb.size(); i += th ? 1 : 2) boxes(a, bb[i]); box1(a); } for (auto &a : { AABB(Vector3(0, 0, 0), Vector3(1, 1, 1)), AABB(Vector3(-0.5, 0, 1), Vector3(2, 1, 0.5)), AABB(Vector3(0, 0.25, 0), Vector3(2.5, 0, 2)), AABB(Vector3(0, 0, 0), Vector3(2, 2, 2)) }) MC_CASE("segments and rays against %s", R(a).c_str()) boxseg(a, sg);
	auto pg = grid3({ 0, 1, -2 }); MC_CASE("boxes around points") for (auto &p : pg) for (auto &q : pg) for (auto &r : pg) { Vector<Vector3> v; v.push_back(p); v.push_back(q); v.push_back(r); AABB b; b.create_from_points(v); AABB e(p, Vector3()); e.expand_to(q); e.expand_to(r); CK(b == e, "AABB:points", "box around %s, %s, %s is %s", S(p).c_str(), S(q).c_str(), S(r).c_str(), R(b).c_str()); }
	planes(grid3(th ? D{ 0, 1, -2 } : D{ 0, 1, -1.5 })); for (auto &n : grid3({ -1, 0, 2 })) if (!(n == Vector3())) MC_CASE("lines against planes along %s", S(n).c_str()) for (double q : { -1.0, 0.0, 0.75 }) planeray(n, q, grid3({ -1, 0.5, 2 })); threeplanes(grid3({ -1, 0, 1 }));
}
