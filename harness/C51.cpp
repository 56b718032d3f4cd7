// MC: variant=asan
// C51: dynamic values (Variant): every pair of values of a universe covering every type: copying, equality, hashing, ordering, every operator against plain
// component arithmetic, membership, member and index access against a flat model, iteration, conversions, blending.
#include "sfw.h"
#include "txt.h"
#include <cmath>
#include <map>
static std::string utf(const String &s) { CharString c = s.utf8(); return c.get_data() ? std::string(c.get_data()) : std::string(); }
typedef Variant V; typedef std::vector<double> F;
struct U1 { std::string n; V v; };
static std::vector<U1> uni; static Object *live = nullptr;
static int ncomp(V::Type t) { switch (t) { case V::BOOL: case V::INT: case V::REAL: return 1; case V::VECTOR2: case V::VECTOR2I: return 2; case V::VECTOR3: case V::VECTOR3I: return 3; case V::VECTOR4: case V::VECTOR4I: case V::RECT2: case V::RECT2I: case V::PLANE: case V::QUATERNION: case V::COLOR: return 4; case V::AABB: case V::TRANSFORM2D: return 6; case V::BASIS: return 9; case V::TRANSFORM: return 12; case V::PROJECTION: return 16; default: return 0; } }
static bool ints(V::Type t) { return t == V::INT || t == V::VECTOR2I || t == V::VECTOR3I || t == V::VECTOR4I || t == V::RECT2I; }
static bool vec(V::Type t) { return t >= V::VECTOR2 && t <= V::VECTOR4I; }
static bool num(V::Type t) { return t == V::INT || t == V::REAL; }
// components: rectangles position then size, matrices by rows (2d transforms and projections by their columns), transforms basis then origin
static F flat(const V &v) { switch (v.get_type()) { case V::BOOL: return { (double)(bool)v }; case V::INT: return { (double)(int64_t)v }; case V::REAL: return { (double)v }; case V::VECTOR2: { Vector2 a = v; return { a.x, a.y }; } case V::VECTOR2I: { Vector2i a = v; return { (double)a.x, (double)a.y }; } case V::VECTOR3: { Vector3 a = v; return { a.x, a.y, a.z }; } case V::VECTOR3I: { Vector3i a = v; return { (double)a.x, (double)a.y, (double)a.z }; } case V::VECTOR4: { Vector4 a = v; return { a.x, a.y, a.z, a.w }; } case V::VECTOR4I: { Vector4i a = v; return { (double)a.x, (double)a.y, (double)a.z, (double)a.w }; }
	case V::RECT2: { Rect2 a = v; return { a.position.x, a.position.y, a.size.x, a.size.y }; } case V::RECT2I: { Rect2i a = v; return { (double)a.position.x, (double)a.position.y, (double)a.size.x, (double)a.size.y }; } case V::PLANE: { Plane a = v; return { a.normal.x, a.normal.y, a.normal.z, a.d }; } case V::QUATERNION: { Quaternion a = v; return { a.x, a.y, a.z, a.w }; } case V::COLOR: { Color a = v; return { a.r, a.g, a.b, a.a }; } case V::AABB: { AABB a = v; return { a.position.x, a.position.y, a.position.z, a.size.x, a.size.y, a.size.z }; }
	case V::TRANSFORM2D: { Transform2D a = v; F f; for (int i = 0; i < 3; i++) { f.push_back(a.columns[i].x); f.push_back(a.columns[i].y); } return f; } case V::BASIS: { Basis a = v; F f; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f.push_back(a.rows[i][j]); return f; } case V::TRANSFORM: { Transform a = v; F f; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f.push_back(a.basis.rows[i][j]); for (int j = 0; j < 3; j++) f.push_back(a.origin[j]); return f; } case V::PROJECTION: { Projection a = v; F f; for (int i = 0; i < 4; i++) { f.push_back(a.matrix[i].x); f.push_back(a.matrix[i].y); f.push_back(a.matrix[i].z); f.push_back(a.matrix[i].w); } return f; } default: return F(); } }
static V build(V::Type t, const F &f) { auto r = [&](int i) { return (real_t)f[i]; }; auto n = [&](int i) { return (int)f[i]; }; auto v3 = [&](int i) { return Vector3(r(i), r(i + 1), r(i + 2)); }; switch (t) { case V::BOOL: return f[0] != 0; case V::INT: return (int64_t)f[0]; case V::REAL: return f[0]; case V::VECTOR2: return Vector2(r(0), r(1)); case V::VECTOR2I: return Vector2i(n(0), n(1)); case V::VECTOR3: return v3(0); case V::VECTOR3I: return Vector3i(n(0), n(1), n(2)); case V::VECTOR4: return Vector4(r(0), r(1), r(2), r(3)); case V::VECTOR4I: return Vector4i(n(0), n(1), n(2), n(3)); case V::RECT2: return Rect2(r(0), r(1), r(2), r(3)); case V::RECT2I: return Rect2i(n(0), n(1), n(2), n(3)); case V::PLANE: return Plane(r(0), r(1), r(2), r(3)); case V::QUATERNION: return Quaternion(r(0), r(1), r(2), r(3)); case V::COLOR: return Color(r(0), r(1), r(2), r(3)); case V::AABB: return AABB(v3(0), v3(3));
	case V::TRANSFORM2D: { Transform2D a; for (int i = 0; i < 3; i++) a.columns[i] = Vector2(r(2 * i), r(2 * i + 1)); return a; } case V::BASIS: { Basis b; for (int i = 0; i < 9; i++) b.rows[i / 3][i % 3] = r(i); return b; } case V::TRANSFORM: { Transform b; for (int i = 0; i < 9; i++) b.basis.rows[i / 3][i % 3] = r(i); b.origin = v3(9); return b; } case V::PROJECTION: { Projection p; for (int i = 0; i < 4; i++) p.matrix[i] = Vector4(r(4 * i), r(4 * i + 1), r(4 * i + 2), r(4 * i + 3)); return p; } default: return V(); } }
static std::string show(const V &v) { std::string s = utf(V::get_type_name(v.get_type())) + " " + (v.get_type() == V::REAL ? mc::fmt("%.17g", (double)v) : utf(String(v))); return s.substr(0, 70); }
static const V::Type geo[] = { V::VECTOR2, V::VECTOR2I, V::VECTOR3, V::VECTOR3I, V::VECTOR4, V::VECTOR4I, V::RECT2, V::RECT2I, V::PLANE, V::QUATERNION, V::COLOR, V::AABB, V::TRANSFORM2D, V::BASIS, V::TRANSFORM, V::PROJECTION };
static void universe() {
	auto add = [](const V &v) { uni.push_back({ mc::fmt("#%d %s", (int)uni.size(), show(v).c_str()), v }); };
	add(V()); add(false); add(true); for (int64_t i : { (int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)2, (int64_t)7, (int64_t)63, (int64_t)64, (int64_t)-9, INT64_MAX, INT64_MIN, (int64_t)1 << 40 }) add(i);
	for (double d : { 0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.75, 1e10, (double)INFINITY }) add(d); for (const char *s : { "", "a", "b", "ab", "1", "2.5", "x", "%d|" }) add(String(s)); add(StringName("a")); add(StringName("b")); add(StringName()); add(StringName("ab"));
	for (V::Type t : geo) { int n = ncomp(t); F z(n, 0), o(n, 1), k, m; for (int i = 0; i < n; i++) { k.push_back(i + 1); m.push_back(ints(t) ? (i % 2 ? -3 - i : 2) : (i % 2 ? -1.5 - i : 0.25)); } F l = k; l[n - 1] = -2; F e = k; e[0] = 2; for (auto &f : { z, o, k, m, l, e }) add(build(t, f)); if (!ints(t)) { F q = z; q[n - 1] = -0.0; add(build(t, q)); } }
	add(Quaternion(Vector3(0, 0, 1), 1)); add(Quaternion()); add(Basis()); add(Transform()); add(Transform2D()); add(Projection()); add(Basis(Vector3(0, 1, 0), 0.5)); add(Transform(Basis(Vector3(0, 1, 0), 0.5), Vector3(1, 2, 3)));
	{ Array a, b, c, d; b.push_back(1); c.push_back(1); c.push_back("a"); d.push_back(1.0); add(a); add(b); add(c); add(d); add(b.duplicate()); Array e; e.push_back(b); add(e); Dictionary x, y; y["a"] = 1; y[1] = b; add(x); add(y); add(y.duplicate()); Array fz; fz.push_back(0.0); add(fz); Array gz; gz.push_back(-0.0); add(gz); }
	for (int k = 0; k < 6; k++) { PoolVector<uint8_t> b; PoolVector<int> i; PoolVector<real_t> r; PoolVector<String> s; PoolVector<Vector2> v2; PoolVector<Vector2i> v2i; PoolVector<Vector3> v3; PoolVector<Vector3i> v3i; PoolVector<Vector4> v4; PoolVector<Vector4i> v4i; PoolVector<Color> c; static const int L[6][3] = { { 0, 0, 0 }, { 1, 1, 0 }, { 2, 1, 2 }, { 2, 2, 1 }, { 1, 2, 0 }, { 1, 0, 0 } };
		for (int j = 0; j < L[k][0]; j++) { int q = L[k][1 + j]; b.push_back(q); i.push_back(q); r.push_back(k == 5 ? -0.0f : (float)q); s.push_back(q ? q > 1 ? "b" : "a" : ""); v2.push_back(Vector2(q, 1)); v2i.push_back(Vector2i(q, 1)); v3.push_back(Vector3(q, 1, 2)); v3i.push_back(Vector3i(q, 1, 2)); v4.push_back(Vector4(q, 1, 2, 3)); v4i.push_back(Vector4i(q, 1, 2, 3)); c.push_back(Color(q, 1, 0, 1)); }
		add(b); add(i); add(r); add(s); add(v2); add(v2i); add(v3); add(v3i); add(v4); add(v4i); add(c); }
	live = memnew(Object); add(V(live)); add(V((Object *)nullptr)); Object *dead = memnew(Object); V dv(dead); memdelete(dead); add(dv); Ref<Reference> rr; rr.instance(); add(V(rr)); add(V(RefPtr()));
}
static bool cmpd(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool close(const F &a, const F &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!cmpd(a[i], b[i]) && !(std::fabs(a[i] - b[i]) <= 1e-5 * (1 + std::fabs(b[i])))) return false; return true; }
static bool eqf(const F &a, const F &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
static std::string sf(const F &f) { std::string s = "("; for (double d : f) s += mc::fmt("%.9g ", d); return s + ")"; }
static bool same(const V &a, const V &b) { // indistinguishable
	if (a.get_type() != b.get_type()) return false; if (a.get_type() == V::DICTIONARY) return Dictionary(a) == Dictionary(b) || Dictionary(a).deep_equal(Dictionary(b)); if (a.get_type() == V::OBJECT) return (Object *)a == (Object *)b; if (a.get_type() == V::REAL) return cmpd(a, b); if (ncomp(a.get_type())) { F x = flat(a), y = flat(b); for (size_t i = 0; i < x.size(); i++) if (!cmpd(x[i], y[i])) return false; return a.get_type() == V::INT ? (int64_t)a == (int64_t)b : true; } return a.hash_compare(b); }
static bool ev(V::Operator o, const V &a, const V &b, V &r) { bool ok = false; V::evaluate(o, a, b, r, ok); return ok; }
// content of a pool array (or plain array) as a list of values
static bool list(const V &v, std::vector<V> &l) { if (v.get_type() < V::ARRAY) return false; Array a = v; for (int i = 0; i < a.size(); i++) l.push_back(a[i]); return true; }
// the expected result of an arithmetic operator: 0 nothing claimed, 1 this value, 2 refused
static int ref(V::Operator o, const V &a, const V &b, V &r) {
	V::Type x = a.get_type(), y = b.get_type(); F p = flat(a), q = flat(b); bool arith = o >= V::OP_ADD && o <= V::OP_DIVIDE; double big = 9e15;
	if (x == V::INT && y == V::INT) { uint64_t m = (uint64_t)(int64_t)a, n = (uint64_t)(int64_t)b; int64_t sa = a, sb = b; switch (o) { case V::OP_ADD: r = (int64_t)(m + n); return 1; case V::OP_SUBTRACT: r = (int64_t)(m - n); return 1; case V::OP_MULTIPLY: r = (int64_t)(m * n); return 1; case V::OP_DIVIDE: if (!sb) return 2; r = sb == -1 ? (int64_t)(0 - m) : sa / sb; return 1; case V::OP_MODULE: if (!sb) return 2; r = sb == -1 ? (int64_t)0 : sa % sb; return 1; case V::OP_BIT_AND: r = (int64_t)(m & n); return 1; case V::OP_BIT_OR: r = (int64_t)(m | n); return 1; case V::OP_BIT_XOR: r = (int64_t)(m ^ n); return 1; case V::OP_SHIFT_LEFT: if (sb < 0 || sb > 63) return 2; r = (int64_t)(m << sb); return 1; case V::OP_SHIFT_RIGHT: if (sb < 0 || sb > 63) return 2; r = (int64_t)(sa >> sb); return 1; default: break; } }
	if (o == V::OP_BIT_NEGATE) { if (x != V::INT) return 2; r = ~(int64_t)a; return 1; } if (o >= V::OP_SHIFT_LEFT && o <= V::OP_BIT_XOR) return 2;
	if (o == V::OP_MODULE) return x == V::STRING ? 0 : 2;
	if (o == V::OP_NEGATE || o == V::OP_POSITIVE) { if (!num(x) && !vec(x) && x != V::PLANE && x != V::QUATERNION && (x != V::COLOR || o == V::OP_POSITIVE)) return 2; if (x == V::COLOR) { r = Color(1 - p[0], 1 - p[1], 1 - p[2], 1 - p[3]); return 1; } if (o == V::OP_POSITIVE) { r = a; return 1; } if (x == V::INT) { r = (int64_t)(0 - (uint64_t)(int64_t)a); return 1; } for (double &d : p) d = -d; r = build(x, p); return 1; }
	if (o == V::OP_STRING_CONCAT) { r = String(a) + String(b); return 1; }
	if (arith && num(x) && num(y)) { if (o == V::OP_DIVIDE && q[0] == 0) return 2; double d = o == V::OP_ADD ? p[0] + q[0] : o == V::OP_SUBTRACT ? p[0] - q[0] : o == V::OP_MULTIPLY ? p[0] * q[0] : p[0] / q[0]; r = d; return 1; }
	auto op1 = [&](double m, double n, bool i) { double d = o == V::OP_ADD ? m + n : o == V::OP_SUBTRACT ? m - n : o == V::OP_MULTIPLY ? m * n : m / n; return i ? std::trunc(d) : (double)(float)d; };
	if (arith && (vec(x) || x == V::COLOR || x == V::QUATERNION) && (x == y) && !(x == V::QUATERNION && (o == V::OP_MULTIPLY || o == V::OP_DIVIDE))) { F f; for (size_t i = 0; i < p.size(); i++) { if (ints(x) && o == V::OP_DIVIDE && q[i] == 0) return 2; f.push_back(op1(p[i], q[i], ints(x))); } r = build(x, f); return 1; }
	if ((o == V::OP_MULTIPLY || o == V::OP_DIVIDE) && (vec(x) || x == V::COLOR || (x == V::QUATERNION && y == V::REAL)) && num(y)) { double k = q[0]; if (ints(x)) { if (o == V::OP_DIVIDE && k == 0) return 2; if (k != std::trunc(k) || std::fabs(k) > 1e6) return 0; } if (x == V::QUATERNION && o == V::OP_DIVIDE && k == 0) return 2; if (std::fabs(k) > big && !std::isinf(k)) return 0; F f; for (double d : p) { double e = op1(d, (float)k, ints(x)); if (ints(x) && std::fabs(e) > 2e9) return 0; f.push_back(e); } r = build(x, f); return 1; }
	if (o == V::OP_MULTIPLY && num(x) && vec(y)) { double k = p[0]; if (ints(y) && (k != std::trunc(k) || std::fabs(k) > 1e6)) return 0; if (std::fabs(k) > big && !std::isinf(k)) return 0; F f; for (double d : q) f.push_back(op1(k, d, ints(y))); r = build(y, f); return 1; }
	if (o == V::OP_MULTIPLY && (x == V::BASIS || x == V::TRANSFORM) && (y == V::VECTOR3 || y == V::VECTOR3I)) { F f; for (int i = 0; i < 3; i++) f.push_back(p[3 * i] * q[0] + p[3 * i + 1] * q[1] + p[3 * i + 2] * q[2] + (x == V::TRANSFORM ? p[9 + i] : 0)); if (y == V::VECTOR3I) return 0; r = build(V::VECTOR3, f); return 1; }
	if (o == V::OP_MULTIPLY && (x == V::BASIS || x == V::TRANSFORM) && x == y) { F f; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += p[3 * i + k] * q[3 * k + j]; f.push_back(s); } if (x == V::TRANSFORM) for (int i = 0; i < 3; i++) f.push_back(p[3 * i] * q[9] + p[3 * i + 1] * q[10] + p[3 * i + 2] * q[11] + p[9 + i]); r = build(x, f); return 1; }
	if (o == V::OP_MULTIPLY && x == V::TRANSFORM2D && (y == V::VECTOR2 || y == x)) { auto tr = [&](double u, double v, bool o2) { return F{ p[0] * u + p[2] * v + (o2 ? p[4] : 0), p[1] * u + p[3] * v + (o2 ? p[5] : 0) }; }; if (y == V::VECTOR2) { r = build(y, tr(q[0], q[1], true)); return 1; } F f; for (int c = 0; c < 3; c++) { F g = tr(q[2 * c], q[2 * c + 1], c == 2); f.push_back(g[0]); f.push_back(g[1]); } r = build(x, f); return 1; }
	if (o == V::OP_MULTIPLY && x == V::PROJECTION && (y == V::VECTOR4 || y == x)) { int n = y == x ? 4 : 1; F f; for (int c = 0; c < n; c++) for (int i = 0; i < 4; i++) { double s = 0; for (int k = 0; k < 4; k++) s += p[4 * k + i] * q[4 * c + k]; f.push_back(s); } r = build(y, f); return 1; }
	if (o == V::OP_MULTIPLY && x == V::QUATERNION && x == y) { double ax = p[0], ay = p[1], az = p[2], aw = p[3], bx = q[0], by = q[1], bz = q[2], bw = q[3]; r = build(x, { aw * bx + ax * bw + ay * bz - az * by, aw * by + ay * bw + az * bx - ax * bz, aw * bz + az * bw + ax * by - ay * bx, aw * bw - ax * bx - ay * by - az * bz }); return 1; }
	if (o == V::OP_MULTIPLY && ((x == V::QUATERNION && (y == V::VECTOR3 || y == V::VECTOR3I)) || (x == V::TRANSFORM2D && y == V::VECTOR2I) || (x == V::PROJECTION && (y == V::VECTOR3 || y == V::PLANE)))) return 0; // unit quaternions and homogeneous coordinates: see the geometry property
	if (o == V::OP_ADD && x == V::STRING && (y == V::STRING || y == V::STRING_NAME)) { r = String(a) + String(b); return 1; }
	if (o == V::OP_ADD && x >= V::ARRAY && x == y) { Array s; std::vector<V> l; list(a, l); list(b, l); for (auto &e : l) s.push_back(e); r = s; return 3; } // as a list
	return arith ? 2 : 0;
}
static int truth(const V &v) { V::Type t = v.get_type(); F f = flat(v); if (t == V::NIL) return 0; if (t == V::STRING) return String(v).length() > 0; if (t == V::STRING_NAME) return -1; if (t == V::OBJECT) return (Object *)v != nullptr ? 1 : v.is_invalid_object() ? -1 : 0; if (t == V::DICTIONARY) return Dictionary(v).size() > 0; std::vector<V> l; if (list(v, l)) return !l.empty(); bool z = true; for (double d : f) if (d != 0) z = false; if (num(t) || t == V::BOOL || vec(t) || t == V::RECT2 || t == V::RECT2I || t == V::AABB || t == V::PLANE) return !z; return -1; }
static void pairs() {
	int N = (int)uni.size(); for (int i = 0; i < N; i++) MC_CASE("value %s", uni[i].n.c_str()) {
		const V &a = uni[i].v; mc::state(mc::fmt("%d %s", i, show(a).c_str())); V::Type x = a.get_type(); { V c(a), d; d = a; d = d; mc::ok(same(c, a) && same(d, a) && a.hash_compare(c) && a.hash() == c.hash() && d.hash() == a.hash() && String(c) == String(a) && same(a.duplicate(true), a) && (x == V::OBJECT || a.deep_equal(c)), "copy", "a copy of %s differs", show(a).c_str()); int t = truth(a); mc::ok(a.booleanize() == !a.is_zero() && (t < 0 || a.booleanize() == (t == 1)), "truth", "%s counts as %s", show(a).c_str(), a.booleanize() ? "true" : "false"); mc::ok((bool)a == a.booleanize(), "bool", "%s as bool", show(a).c_str()); V rr; mc::ok(ev(V::OP_NOT, a, V(), rr) && (bool)rr == !a.booleanize(), "not", "not %s", show(a).c_str()); V zz(a); zz.zero(); }
		for (int j = 0; j < N; j++) { const V &b = uni[j].v; V::Type y = b.get_type(); mc::transition(); std::string w = show(a) + " and " + show(b);
			{ V c(a); c = b; V d(b); d = a; mc::ok(same(c, b) && same(d, a), "assign", "assigning over another value: %s", w.c_str()); }
			bool hc = a.hash_compare(b); mc::ok(hc == b.hash_compare(a) && (!hc || a.hash() == b.hash()), "hash", "equal keys with different hashes or an asymmetric comparison: %s (%08x %08x)", w.c_str(), a.hash(), b.hash()); if (a == b && x != V::DICTIONARY && x != V::OBJECT) mc::ok(hc, "hash_compare", "equal values are different keys: %s", w.c_str());
			bool e = a == b; mc::ok(e == (b == a) && e == !(a != b) && (x == y || !e) && (i != j || e), "equal", "== is not a symmetric equality: %s", w.c_str()); if (x == y && ncomp(x)) { bool want = x == V::INT ? (int64_t)a == (int64_t)b : eqf(flat(a), flat(b)); bool nearly = close(flat(a), flat(b)); mc::ok(e == want || (nearly && e), "equal:value", "== gives %d for %s", e, w.c_str()); }
			// ordering
			bool l = a < b, g = b < a; mc::ok(!(l && g) && !(l && e) && (x == y || l == (x < y)) && (i != j || !l), "less", "< is not an order: %s (%d %d)", w.c_str(), l, g); bool ordered = num(x) || vec(x) || x == V::STRING || x == V::BOOL || x == V::ARRAY || x > V::ARRAY; if (x == y && ordered && x != V::OBJECT) { bool d = x == V::ARRAY; mc::ok(e || l || g || d, "less:total", "neither is first: %s", w.c_str()); if (vec(x)) { F p = flat(a), q = flat(b); mc::ok(l == std::lexicographical_compare(p.begin(), p.end(), q.begin(), q.end()), "less:lexicographic", "%s: < gives %d", w.c_str(), l); } if (x == V::REAL) mc::ok(l == ((double)a < (double)b), "less:real", "%s", w.c_str()); if (x == V::INT) mc::ok(l == ((int64_t)a < (int64_t)b), "less:int", "%s", w.c_str()); if (x == V::STRING) mc::ok(l == (utf(a) < utf(b)), "less:text", "%s", w.c_str()); if (x > V::ARRAY) { std::vector<V> m, n; list(a, m); list(b, n); bool want = m.size() < n.size() || (m.size() == n.size() && std::lexicographical_compare(m.begin(), m.end(), n.begin(), n.end(), [](const V &p, const V &q) { return p.get_type() == V::COLOR ? Color(p) < Color(q) : p < q; })); mc::ok(l == want, "less:pool", "%s: < gives %d", w.c_str(), l); } }
			if (l && x == y) for (int k = 0; k < N; k++) if (uni[k].v.get_type() == x && b < uni[k].v) mc::ok(a < uni[k].v, "less:transitive", "%s but not before %s", w.c_str(), show(uni[k].v).c_str());
			// comparison operators agree with each other
			V r; V res[6]; bool ok[6]; for (int o = 0; o < 6; o++) ok[o] = ev((V::Operator)o, a, b, res[o]); V rv; if (ok[0] && ok[1]) mc::ok((bool)res[0] == !(bool)res[1], "op:neq", "== and != agree for %s", w.c_str()); mc::ok(ok[0] == ok[1], "op:eqvalid", "== and != are not both defined: %s", w.c_str()); mc::ok(ok[2] == ok[4] && ok[3] == ok[5], "op:ordvalid", "< and > are not both defined: %s", w.c_str()); V back; if (ok[2]) { bool k = ev(V::OP_GREATER, b, a, back); if (k) mc::ok((bool)back == (bool)res[2], "op:greater", "< and > disagree for %s", w.c_str()); } if (ok[3]) { bool k = ev(V::OP_GREATER_EQUAL, b, a, back); if (k) mc::ok((bool)back == (bool)res[3], "op:greater_equal", "<= and >= disagree for %s", w.c_str()); if (ok[2] && ok[0] && !(x == V::REAL && std::isnan((double)a))) mc::ok((bool)res[3] == ((bool)res[2] || (bool)res[0]), "op:less_equal", "<= is not < or ==: %s", w.c_str()); } if (num(x) && num(y)) { double p = flat(a)[0], q = flat(b)[0]; if (x == V::REAL || y == V::REAL) mc::ok((bool)res[0] == (p == q) && (bool)res[2] == (p < q) && (bool)res[3] == (p <= q), "op:numbers", "comparing %s", w.c_str()); }
			if (x == V::NIL && y != V::NIL && y != V::OBJECT) mc::ok(ok[0] && !(bool)res[0], "op:nil", "nil == %s", w.c_str()); if (y == V::NIL && x != V::NIL && x != V::OBJECT) mc::ok(ok[0] && !(bool)res[0], "op:nil", "== nil: %s", w.c_str());
			// the other operators
			for (int o = V::OP_ADD; o < V::OP_MAX; o++) { V got, want; V::Operator p = (V::Operator)o; bool valid = ev(p, a, b, got); mc::transition(); if (p == V::OP_IN) continue; std::string nm = utf(V::get_operator_name(p)); if (p >= V::OP_AND && p <= V::OP_NOT) { bool m = a.booleanize(), n = b.booleanize(); bool t = p == V::OP_AND ? m && n : p == V::OP_OR ? m || n : p == V::OP_XOR ? m != n : !m; mc::ok(valid && got.get_type() == V::BOOL && (bool)got == t, "op:" + nm, "%s of %s gives %s", nm.c_str(), w.c_str(), show(got).c_str()); continue; }
				int k = ref(p, a, b, want); if (k == 2) mc::ok(!valid, "op:" + nm + ":refuse", "%s of %s was not refused but gives %s", nm.c_str(), w.c_str(), show(got).c_str()); if (k == 1) { bool good = valid && (got.get_type() == want.get_type() || (num(x) && y == V::VECTOR2I && got.get_type() == V::VECTOR2)) && (x == V::INT && (y == V::INT || p == V::OP_NEGATE) ? (int64_t)got == (int64_t)want : ncomp(got.get_type()) ? close(flat(got), flat(want)) : got == want); mc::ok(good, "op:" + nm, "%s of %s gives %s%s, expected %s", nm.c_str(), w.c_str(), valid ? "" : "(refused) ", show(got).c_str(), show(want).c_str()); } if (k == 3) { std::vector<V> m, n; list(got, m); list(want, n); bool good = valid && got.get_type() == x && m.size() == n.size(); for (size_t q = 0; good && q < m.size(); q++) good = same(m[q], n[q]); mc::ok(good, "op:concat", "%s gives %s", w.c_str(), show(got).c_str()); }
				V al(a); bool v2 = false; V::evaluate(p, al, b, al, v2); mc::ok(v2 == valid && (!valid || same(al, got) || al.get_type() == V::OBJECT), "op:alias", "%s of %s stored over its operand gives %s instead of %s", nm.c_str(), w.c_str(), show(al).c_str(), show(got).c_str()); }
			// membership
			bool vin = false; bool in = b.in(a, &vin); std::vector<V> ls; if (y == V::STRING && x == V::STRING) mc::ok(vin && in == (utf(b).find(utf(a)) != std::string::npos && !String(a).empty() ? true : in && String(a).empty()), "in:text", "%s", w.c_str()); if (y == V::DICTIONARY) mc::ok(vin && in == Dictionary(b).has(a), "in:dictionary", "%s", w.c_str()); if (y >= V::ARRAY) { list(b, ls); bool want = false, any = false; for (auto &q : ls) { V t; bool k = ev(V::OP_EQUAL, q, a, t); want = want || (k && (bool)t); any = any || k; } if (y == V::ARRAY || (any && (!num(x) || std::trunc(flat(a)[0]) == flat(a)[0]) && (!num(x) || std::fabs(flat(a)[0]) < 255) && vin)) mc::ok(vin && in == want, "in:array", "%s gives %d", w.c_str(), in); } V q; bool qv = ev(V::OP_IN, a, b, q); mc::ok(qv == vin && (!qv || (bool)q == in), "in:operator", "%s", w.c_str());
		}
	}
}
// ---- members and indices
struct Mem { const char *n; std::vector<int> at; V::Type t; };
static std::vector<Mem> members(V::Type t) { switch (t) { case V::VECTOR2: case V::VECTOR2I: return { { "x", { 0 }, V::REAL }, { "y", { 1 }, V::REAL } }; case V::VECTOR3: case V::VECTOR3I: return { { "x", { 0 }, V::REAL }, { "y", { 1 }, V::REAL }, { "z", { 2 }, V::REAL } }; case V::VECTOR4: case V::VECTOR4I: case V::QUATERNION: return { { "x", { 0 }, V::REAL }, { "y", { 1 }, V::REAL }, { "z", { 2 }, V::REAL }, { "w", { 3 }, V::REAL } }; case V::PLANE: return { { "x", { 0 }, V::REAL }, { "y", { 1 }, V::REAL }, { "z", { 2 }, V::REAL }, { "d", { 3 }, V::REAL }, { "normal", { 0, 1, 2 }, V::VECTOR3 } }; case V::RECT2: return { { "position", { 0, 1 }, V::VECTOR2 }, { "size", { 2, 3 }, V::VECTOR2 } }; case V::RECT2I: return { { "position", { 0, 1 }, V::VECTOR2I }, { "size", { 2, 3 }, V::VECTOR2I } }; case V::AABB: return { { "position", { 0, 1, 2 }, V::VECTOR3 }, { "size", { 3, 4, 5 }, V::VECTOR3 } };
	case V::COLOR: return { { "r", { 0 }, V::REAL }, { "g", { 1 }, V::REAL }, { "b", { 2 }, V::REAL }, { "a", { 3 }, V::REAL } }; case V::BASIS: return { { "x", { 0, 3, 6 }, V::VECTOR3 }, { "y", { 1, 4, 7 }, V::VECTOR3 }, { "z", { 2, 5, 8 }, V::VECTOR3 } }; case V::TRANSFORM: return { { "basis", { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, V::BASIS }, { "origin", { 9, 10, 11 }, V::VECTOR3 } }; case V::TRANSFORM2D: return { { "x", { 0, 1 }, V::VECTOR2 }, { "y", { 2, 3 }, V::VECTOR2 }, { "origin", { 4, 5 }, V::VECTOR2 } }; case V::PROJECTION: return { { "x", { 0, 1, 2, 3 }, V::VECTOR4 }, { "y", { 4, 5, 6, 7 }, V::VECTOR4 }, { "z", { 8, 9, 10, 11 }, V::VECTOR4 }, { "w", { 12, 13, 14, 15 }, V::VECTOR4 } }; default: return {}; } }
static std::vector<std::vector<int>> indices(V::Type t) { std::vector<std::vector<int>> r; if (vec(t) || t == V::COLOR) for (int i = 0; i < ncomp(t); i++) r.push_back({ i }); if (t == V::BASIS || t == V::TRANSFORM) for (int i = 0; i < 3; i++) r.push_back({ i, 3 + i, 6 + i }); if (t == V::TRANSFORM) r.push_back({ 9, 10, 11 }); if (t == V::TRANSFORM2D) for (int i = 0; i < 3; i++) r.push_back({ 2 * i, 2 * i + 1 }); if (t == V::PROJECTION) for (int i = 0; i < 4; i++) r.push_back({ 4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3 }); return r; }
static F pick(const F &f, const std::vector<int> &at) { F r; for (int i : at) r.push_back(f[i]); return r; }
static void access() {
	static const char *names[] = { "x", "y", "z", "w", "d", "normal", "position", "size", "end", "basis", "origin", "r", "g", "b", "a", "", "X", "nothing" };
	for (size_t u = 0; u < uni.size(); u++) if (int nc = ncomp(uni[u].v.get_type())) MC_CASE("members of %s", uni[u].n.c_str()) { V v = uni[u].v; V::Type t = v.get_type(); F f = flat(v); auto ms = members(t);
		for (const char *n : names) for (int how = 0; how < 3; how++) { const Mem *m = nullptr; for (auto &q : ms) if (!strcmp(q.n, n)) m = &q; bool end = !strcmp(n, "end") && (t == V::RECT2 || t == V::RECT2I || t == V::AABB); mc::transition(); V key = how == 0 ? V(String(n)) : V(StringName(n)); auto get = [&](const V &o, bool &ok) { ok = false; return how == 2 ? o.get_named(StringName(n), &ok) : o.get(key, &ok); }; auto set = [&](V &o, const V &val, bool &ok) { ok = false; if (how == 2) o.set_named(StringName(n), val, &ok); else o.set(key, val, &ok); }; bool ok; V g = get(v, ok); std::string w = mc::fmt("%s of %s (%s)", n, show(v).c_str(), how == 0 ? "text" : how == 1 ? "name" : "named");
			if (!m && !end) { V c(v); bool so; set(c, V(1.5), so); if (!ok || true) mc::ok(!ok && !so && same(c, v), "member:unknown", "%s: get %d set %d", w.c_str(), ok, so); continue; }
			if (end) { int h = nc / 2; F e; for (int i = 0; i < h; i++) e.push_back(f[i] + f[h + i]); mc::ok(ok && close(flat(g), e), "member:end", "%s is %s", w.c_str(), show(g).c_str()); F tgt; for (int i = 0; i < h; i++) tgt.push_back(10 + 3 * i); V c(v); bool so; V val = build(t == V::RECT2 ? V::VECTOR2 : t == V::RECT2I ? V::VECTOR2I : V::VECTOR3, tgt); set(c, val, so); F x = f; for (int i = 0; i < h; i++) x[h + i] = tgt[i] - f[i]; mc::ok(so && close(flat(c), x), "member:set end", "%s set gives %s", w.c_str(), show(c).c_str()); continue; }
			mc::ok(ok && eqf(flat(g), pick(f, m->at)), "member:get", "%s gives %s", w.c_str(), show(g).c_str());
			for (double s : { 5.0, -3.0 }) { F val; for (size_t i = 0; i < m->at.size(); i++) val.push_back(s + (double)i * 2); std::vector<V> vals = { build(m->t, val) }; if (m->t == V::REAL) vals.push_back((int64_t)s); for (auto &q : vals) { V c(v); bool so; set(c, q, so); F x = f; for (size_t i = 0; i < m->at.size(); i++) x[m->at[i]] = val[i]; mc::ok(so && c.get_type() == t && eqf(flat(c), x), "member:set", "%s set to %s gives %s", w.c_str(), show(q).c_str(), show(c).c_str()); mc::ok(same(v, uni[u].v), "member:original", "changing a copy of %s changed it", show(v).c_str()); } }
			V c(v); bool so; set(c, V("text"), so); mc::ok(!so && same(c, v), "member:wrongtype", "%s set to a text: %d %s", w.c_str(), so, show(c).c_str()); }
		auto is = indices(t); if (!is.empty()) for (int i = -6; i <= 6; i++) for (int how = 0; how < 2; how++) { mc::transition(); V key = how ? V((double)i) : V(i); bool ok = false; V g = v.get(key, &ok); int n = (int)is.size(); int k = i; V val = is[0].size() == 1 ? V(7.0) : build(is[0].size() == 2 ? V::VECTOR2 : is[0].size() == 3 ? V::VECTOR3 : V::VECTOR4, F{ 7, 8, 9, 10 }); V c(v); bool so = false; c.set(key, val, &so); if (k < 0) { if (!ok) { mc::ok(!so && same(c, v), "index:negative", "index %d of %s cannot be read but written", i, show(v).c_str()); continue; } k += n; } if (k < 0 || k >= n) { mc::ok(!ok && !so && same(c, v), "index:range", "index %d of %s: get %d set %d", i, show(v).c_str(), ok, so); continue; } if (how && t == V::COLOR) continue; F x = f, y = flat(val); for (size_t q = 0; q < is[k].size(); q++) x[is[k][q]] = y[q]; mc::ok(ok && eqf(flat(g), pick(f, is[k])), "index:get", "index %d of %s gives %s", i, show(v).c_str(), show(g).c_str()); mc::ok(so && eqf(flat(c), x), "index:set", "index %d of %s set to %s gives %s", i, show(v).c_str(), show(val).c_str(), show(c).c_str()); }
	}
	for (size_t u = 0; u < uni.size(); u++) { V v = uni[u].v; if (v.get_type() < V::ARRAY && v.get_type() != V::STRING) continue; MC_CASE("elements of %s", uni[u].n.c_str()) { std::vector<V> l; if (v.get_type() == V::STRING) { String s = v; for (int i = 0; i < s.length(); i++) l.push_back(s.substr(i, 1)); } else list(v, l); int n = (int)l.size();
		for (int i = -n - 2; i <= n + 1; i++) for (int how = 0; how < 2; how++) { mc::transition(); V key = how ? V((double)i) : V(i); int k = i < 0 ? i + n : i; bool ok = false, so = false; V g = v.get(key, &ok); bool in = k >= 0 && k < n; mc::ok(ok == in && (!in || same(g, l[k]) || (num(g.get_type()) && flat(g) == flat(l[k]))), "element:get", "element %d of %s gives %s (%d)", i, show(v).c_str(), show(g).c_str(), ok); if (n && v.get_type() != V::ARRAY) { V c(v); V val = l[n - 1 - (in ? k : 0)]; c.set(key, val, &so); std::vector<V> m, x = l; if (v.get_type() == V::STRING) { String s = c; for (int q = 0; q < s.length(); q++) m.push_back(s.substr(q, 1)); } else list(c, m); if (in) x[k] = val; bool good = so == in && m.size() == x.size(); for (size_t q = 0; good && q < m.size(); q++) good = same(m[q], x[q]); mc::ok(good && same(v, uni[u].v), "element:set", "element %d of %s set to %s gives %s", i, show(v).c_str(), show(val).c_str(), show(c).c_str()); } }
		if (v.get_type() == V::ARRAY && n) { V c = Array(v).duplicate(), d(c); bool so = false; c.set(n - 1, "new", &so); mc::ok(so && Array(d)[n - 1] == V("new") && Array(d).size() == n, "element:shared", "an array is shared by its copies"); }
		for (const V &key : { V("x"), V(), V(Vector2()) }) { bool ok = true; v.get(key, &ok); V c(v); bool so = true; c.set(key, V(1), &so); mc::ok(!ok && !so && same(c, v), "element:badkey", "element %s of %s", show(key).c_str(), show(v).c_str()); } } }
	// iteration
	struct It { V v; std::vector<double> e; }; std::vector<It> its; for (int n : { -2, 0, 1, 3 }) { std::vector<double> e; for (int i = 0; i < n; i++) e.push_back(i); its.push_back({ n, e }); its.push_back({ (double)n, e }); std::vector<double> h = e; if (n >= 0) h.push_back(n); its.push_back({ n + 0.5, n < 0 ? e : h }); } for (int a = -2; a <= 3; a++) for (int b = -2; b <= 3; b++) { std::vector<double> e; for (int i = a; i < b; i++) e.push_back(i); its.push_back({ Vector2(a, b), e }); its.push_back({ Vector2i(a, b), e }); for (int s = -3; s <= 3; s++) { std::vector<double> q; if (s) for (int i = a; s > 0 ? i < b : i > b; i += s) q.push_back(i); its.push_back({ Vector3(a, b, s), q }); its.push_back({ Vector3i(a, b, s), q }); } }
	MC_CASE("iteration over ranges") for (auto &t : its) { mc::transition(); std::vector<double> g; V it; bool ok = true; bool more = t.v.iter_init(it, ok); bool v2 = true; while (more && g.size() < 50) { g.push_back(t.v.iter_get(it, v2)); more = t.v.iter_next(it, v2); } mc::ok(ok && v2 && g == t.e, "iterate:range", "%s yields %s, expected %s", show(t.v).c_str(), sf(g).c_str(), sf(t.e).c_str()); }
	for (size_t u = 0; u < uni.size(); u++) { V v = uni[u].v; if (v.get_type() < V::DICTIONARY && v.get_type() != V::STRING) continue; MC_CASE("iteration over %s", uni[u].n.c_str()) { std::vector<V> l, g; if (v.get_type() == V::STRING) { String s = v; for (int i = 0; i < s.length(); i++) l.push_back(s.substr(i, 1)); } else if (v.get_type() == V::DICTIONARY) { Array k = Dictionary(v).keys(); for (int i = 0; i < k.size(); i++) l.push_back(k[i]); } else list(v, l); V it; bool ok = true, v2 = true; bool more = v.iter_init(it, ok); while (more && g.size() < 50) { g.push_back(v.iter_get(it, v2)); more = v.iter_next(it, v2); } bool good = ok && v2 && l.size() == g.size(); for (size_t i = 0; good && i < l.size(); i++) good = same(l[i], g[i]) || (num(l[i].get_type()) && flat(l[i]) == flat(g[i])); mc::transition(); mc::ok(good, "iterate:elements", "%s yields %d elements instead of %d", show(v).c_str(), (int)g.size(), (int)l.size()); } }
}
// ---- conversions and blending
template <class T> static V as(const V &v) { T t = v; return V(t); }
static void conversions() {
	MC_CASE("convertibility") for (int a = 0; a < V::VARIANT_MAX; a++) for (int b = 0; b < V::VARIANT_MAX; b++) { mc::transition(); bool c = V::can_convert((V::Type)a, (V::Type)b), s = V::can_convert_strict((V::Type)a, (V::Type)b); mc::ok((!s || c) && (a != b || (c && s)), "convert:table", "%s to %s: %d, strictly %d", utf(V::get_type_name((V::Type)a)).c_str(), utf(V::get_type_name((V::Type)b)).c_str(), c, s); }
	std::map<int, V (*)(const V &)> conv = { { V::BOOL, as<bool> }, { V::INT, as<int64_t> }, { V::REAL, as<double> }, { V::STRING, as<String> }, { V::STRING_NAME, as<StringName> }, { V::VECTOR2, as<Vector2> }, { V::VECTOR2I, as<Vector2i> }, { V::VECTOR3, as<Vector3> }, { V::VECTOR3I, as<Vector3i> }, { V::VECTOR4, as<Vector4> }, { V::VECTOR4I, as<Vector4i> }, { V::RECT2, as<Rect2> }, { V::RECT2I, as<Rect2i> }, { V::PLANE, as<Plane> }, { V::QUATERNION, as<Quaternion> }, { V::COLOR, as<Color> }, { V::AABB, as<AABB> }, { V::BASIS, as<Basis> }, { V::TRANSFORM, as<Transform> }, { V::TRANSFORM2D, as<Transform2D> }, { V::PROJECTION, as<Projection> }, { V::ARRAY, as<Array> }, { V::DICTIONARY, as<Dictionary> }, { V::POOL_BYTE_ARRAY, as<PoolVector<uint8_t>> }, { V::POOL_INT_ARRAY, as<PoolVector<int>> }, { V::POOL_REAL_ARRAY, as<PoolVector<real_t>> }, { V::POOL_STRING_ARRAY, as<PoolVector<String>> }, { V::POOL_VECTOR2_ARRAY, as<PoolVector<Vector2>> }, { V::POOL_VECTOR2I_ARRAY, as<PoolVector<Vector2i>> }, { V::POOL_VECTOR3_ARRAY, as<PoolVector<Vector3>> }, { V::POOL_VECTOR3I_ARRAY, as<PoolVector<Vector3i>> }, { V::POOL_VECTOR4_ARRAY, as<PoolVector<Vector4>> }, { V::POOL_VECTOR4I_ARRAY, as<PoolVector<Vector4i>> }, { V::POOL_COLOR_ARRAY, as<PoolVector<Color>> } };
	for (size_t u = 0; u < uni.size(); u++) MC_CASE("conversions of %s", uni[u].n.c_str()) { const V &v = uni[u].v; V::Type t = v.get_type(); F f = flat(v); for (auto &c : conv) { V::Type to = (V::Type)c.first; bool range = true; for (double d : f) if (!(std::fabs(d) < 2e9)) range = false; if ((ints(to) && to != V::INT && !range) || (to == V::INT && t == V::REAL && !(std::fabs(f[0]) < 9e18))) continue; V r = c.second(v); mc::transition(); std::string w = mc::fmt("%s as %s gives %s", show(v).c_str(), utf(V::get_type_name(to)).c_str(), show(r).c_str()); mc::ok(r.get_type() == to, "convert:type", "%s", w.c_str()); if (t == to) { mc::ok(same(r, v), "convert:same", "%s", w.c_str()); continue; }
			if ((num(t) || t == V::BOOL) && num(to)) mc::ok(to == V::INT ? (int64_t)r == (t == V::INT ? (int64_t)v : (int64_t)f[0]) : (double)r == f[0], "convert:number", "%s", w.c_str()); if (vec(t) && vec(to)) { int n = std::min(ncomp(t), ncomp(to)); F g = flat(r); bool good = V::can_convert(t, to); for (int i = 0; good && i < n; i++) good = g[i] == (ints(to) ? std::trunc(f[i]) : f[i]); for (int i = n; good && i < ncomp(to); i++) good = g[i] == 0; if (V::can_convert(t, to)) mc::ok(good, "convert:vector", "%s", w.c_str()); } if ((t == V::RECT2 && to == V::RECT2I) || (t == V::RECT2I && to == V::RECT2)) { F g = flat(r); bool good = true; for (int i = 0; i < 4; i++) good = good && g[i] == (ints(to) ? std::trunc(f[i]) : f[i]); mc::ok(good, "convert:rect", "%s", w.c_str()); }
			if (t == V::STRING && to == V::STRING_NAME) mc::ok(String((r.operator StringName())) == String(v), "convert:name", "%s", w.c_str()); if (t == V::STRING_NAME && to == V::STRING) mc::ok(StringName(String(r)) == v.operator StringName(), "convert:name", "%s", w.c_str()); if (t == V::STRING && to == V::INT) mc::ok((int64_t)r == String(v).to_int64(), "convert:textnumber", "%s", w.c_str()); if (t == V::INT && to == V::STRING) mc::ok(utf(r) == std::to_string((int64_t)v), "convert:numbertext", "%s", w.c_str()); if (t == V::BOOL && to == V::STRING) mc::ok(utf(r) == ((bool)v ? "True" : "False"), "convert:booltext", "%s", w.c_str());
			if (t == V::BASIS && to == V::TRANSFORM) { F e = f; e.resize(12, 0); mc::ok(eqf(flat(r), e), "convert:basis", "%s", w.c_str()); } if (t == V::TRANSFORM && to == V::BASIS) { F e = f; e.resize(9); mc::ok(eqf(flat(r), e), "convert:basis", "%s", w.c_str()); } if (t == V::TRANSFORM2D && to == V::TRANSFORM) { F e = { f[0], f[2], 0, f[1], f[3], 0, 0, 0, 1, f[4], f[5], 0 }; mc::ok(eqf(flat(r), e), "convert:transform2d", "%s", w.c_str()); } if (t == V::TRANSFORM && to == V::TRANSFORM2D) { F e = { f[0], f[3], f[1], f[4], f[9], f[10] }; mc::ok(eqf(flat(r), e), "convert:transform", "%s", w.c_str()); }
			if (t >= V::ARRAY && to >= V::ARRAY && V::can_convert(t, to)) { std::vector<V> a, b; list(v, a); list(r, b); mc::ok(a.size() == b.size(), "convert:arraysize", "%s", w.c_str()); V::Type arr = t == V::ARRAY ? to : t; (void)arr; if (t > V::ARRAY && to == V::ARRAY) { V back = conv[t](r); mc::ok(same(back, v), "convert:roundtrip", "%s and back %s", w.c_str(), show(back).c_str()); } if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) if (num(a[i].get_type()) && num(b[i].get_type()) && to != V::POOL_BYTE_ARRAY) mc::ok(flat(b[i])[0] == (ints(b[i].get_type()) ? std::trunc(flat(a[i])[0]) : flat(a[i])[0]), "convert:element", "%s", w.c_str()); } } }
	for (size_t u = 0; u < uni.size(); u++) MC_CASE("blending %s", uni[u].n.c_str()) for (size_t w = 0; w < uni.size(); w++) { const V &a = uni[u].v, &b = uni[w].v; if (a.get_type() != b.get_type()) continue; V::Type t = a.get_type(); bool sane = true; for (double d : flat(a)) if (!(std::fabs(d) < 1e6)) sane = false; for (double d : flat(b)) if (!(std::fabs(d) < 1e6)) sane = false; for (float c : { 0.0f, 0.5f, 1.0f }) { mc::transition(); V r; V::interpolate(a, b, c, r); std::string s = show(a) + " and " + show(b); bool lin = num(t) || vec(t) || t == V::RECT2 || t == V::RECT2I || t == V::AABB || t == V::COLOR; if (t == V::OBJECT || t == V::NIL) continue; mc::ok(r.get_type() == t, "interpolate:type", "%s interpolated gives %s", s.c_str(), show(r).c_str()); if (lin && sane && (!ints(t) || c != 0.5f)) { F p = flat(a), q = flat(b), e; for (size_t i = 0; i < p.size(); i++) e.push_back(p[i] + (q[i] - p[i]) * c); mc::ok(close(flat(r), e), "interpolate:linear", "%s at %g gives %s", s.c_str(), c, show(r).c_str()); }
			if (sane && (num(t) || vec(t) || t == V::RECT2 || t == V::RECT2I || t == V::AABB || t == V::COLOR)) { V bl; V::blend(a, b, c, bl); V sb; V::sub(a, b, sb); F p = flat(a), q = flat(b), e, d; for (size_t i = 0; i < p.size(); i++) { e.push_back(p[i] + q[i] * c); d.push_back(p[i] - q[i]); } mc::ok(bl.get_type() == t && sb.get_type() == t, "blend:type", "%s blended gives %s and %s", s.c_str(), show(bl).c_str(), show(sb).c_str()); if (!ints(t) || c != 0.5f) { bool cl = t == V::COLOR; if (cl) for (double &z : e) z = std::max(0.0, std::min(1.0, z)); if (cl) for (double &z : d) z = std::max(0.0, std::min(1.0, z)); F bf = flat(bl), sf2 = flat(sb); if (cl) { for (double &z : bf) z = std::max(0.0, std::min(1.0, z)); for (double &z : sf2) z = std::max(0.0, std::min(1.0, z)); } mc::ok(close(bf, e), "blend:sum", "%s at %g gives %s", s.c_str(), c, show(bl).c_str()); mc::ok(close(sf2, d), "blend:sub", "%s subtracted gives %s", s.c_str(), show(sb).c_str()); } } } }
}
// ---- order and equality are transitive
static void triples() {
	size_t n = uni.size(); std::vector<std::vector<char>> lt(n, std::vector<char>(n)), eq = lt, hc = lt;
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { lt[i][j] = uni[i].v < uni[j].v; eq[i][j] = uni[i].v == uni[j].v; hc[i][j] = uni[i].v.hash_compare(uni[j].v); }
	for (size_t j = 0; j < n; j++) MC_CASE("chains through %s", uni[j].n.c_str()) for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) { bool l = lt[i][j] && lt[j][k], e = eq[i][j] && eq[j][k], h = hc[i][j] && hc[j][k]; if (!l && !e && !h) continue; mc::transition(); if ((!l || lt[i][k]) && (!e || eq[i][k]) && (!h || hc[i][k])) continue; mc::fail(l && !lt[i][k] ? "less:transitive" : e && !eq[i][k] ? "equal:transitive" : "hash:transitive", "%s, %s and %s", show(uni[i].v).c_str(), show(uni[j].v).c_str(), show(uni[k].v).c_str()); }
}
void explore() { universe(); pairs(); access(); conversions(); triples(); }
