// MC: variant=asan
// C54: bases, quaternions and spatial transforms. Every 3x3 matrix over a small grid, every rotation of an axis/angle and Euler grid and
// every pair of a set of transforms, against matrix algebra in double precision.
#include "la.h"
#include <set>
static Mt quat(const D &q) { double x = q[0], y = q[1], z = q[2], w = q[3]; return Mt(3, { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y) }); }
#define MK(got, want, key, ...) do { Mt g_ = (got), w_ = (want); CK(nr(g_, w_), key, "%s gives %s, expected %s", mc::fmt(__VA_ARGS__).c_str(), S(g_).c_str(), S(w_).c_str()); } while (0)
#define VK(got, want, key, ...) do { D g_ = (got), w_ = (want); CK(nr(g_, w_), key, "%s gives %s, expected %s", mc::fmt(__VA_ARGS__).c_str(), s(g_).c_str(), s(w_).c_str()); } while (0)
static const std::vector<Vector3> &probes() { static std::vector<Vector3> p = { Vector3(1, 0, 0), Vector3(0, 1, 0), Vector3(0, 0, 1), Vector3(2, -3, 0.5), Vector3(-1, 4, -2) }; return p; }
// ---- any matrix
static void basis1(const Basis &b) {
	Mt x = m(b); std::string in = S(x); mc::state(in); double dt = det(x);
	CK(nr(b.determinant(), dt), "Basis:determinant", "determinant of %s is %g, expected %g", in.c_str(), b.determinant(), dt);
	MK(m(b.transposed()), tr(x), "Basis:transposed", "transpose of %s", in.c_str()); { Basis c = b; c.transpose(); MK(m(c), tr(x), "Basis:transposed", "transpose in place of %s", in.c_str()); }
	D cl, rl; for (int i = 0; i < 3; i++) {
		cl.push_back(len(x.col(i))); rl.push_back(len(x.row(i)));
		CK(d(b.get_column(i)) == x.col(i) && d(b.get_axis(i)) == x.col(i) && d(b.get_row(i)) == x.row(i) && d(b[i]) == x.row(i) && b.get_main_diagonal()[i] == x(i, i), "Basis:parts", "column, row or diagonal %d of %s", i, in.c_str());
		Basis c = b, r = b; c.set_column(i, Vector3(7, 8, 9)); r.set_row(i, Vector3(7, 8, 9)); Basis a = b; a.set_axis(i, Vector3(7, 8, 9)); Mt wc = x, wr = x; for (int j = 0; j < 3; j++) wc(j, i) = 7 + j, wr(i, j) = 7 + j; CK(m(c).a == wc.a && m(a).a == wc.a && m(r).a == wr.a, "Basis:parts", "setting column or row %d of %s", i, in.c_str()); }
	for (auto &p : probes()) { VK(d(b.xform(p)), x * d(p), "Basis:xform", "%s applied to %s", in.c_str(), S(p).c_str()); VK(d(b.xform_inv(p)), tr(x) * d(p), "Basis:xform_inv", "%s applied from behind to %s", in.c_str(), S(p).c_str()); CK(nr(b.tdotx(p), dot(x.col(0), d(p))) && nr(b.tdoty(p), dot(x.col(1), d(p))) && nr(b.tdotz(p), dot(x.col(2), d(p))), "Basis:tdot", "column products of %s with %s", in.c_str(), S(p).c_str());
		Vector3i pi(p.x * 2, p.y, p.z * 2); bool whole = true; for (double v : x.a) whole = whole && v == std::floor(v); if (whole) { VK(d(b.xform(pi)), x * d(pi), "Basis:xform", "%s applied to %s", in.c_str(), S(pi).c_str()); VK(d(b.xform_inv(pi)), tr(x) * d(pi), "Basis:xform_inv", "%s applied from behind to %s", in.c_str(), S(pi).c_str()); } }
	double sg = dt < 0 ? -1 : 1; VK(d(b.get_scale_abs()), cl, "Basis:scale", "lengths of the axes of %s", in.c_str()); if (std::fabs(dt) > 1e-4) { VK(d(b.get_scale()), sc(cl, sg), "Basis:scale", "scale of %s", in.c_str()); VK(d(b.get_scale_local()), sc(rl, sg), "Basis:scale", "local scale of %s", in.c_str()); }
	CK(b.is_orthogonal() == ortho(x, 1e-3), "Basis:is_orthogonal", "is_orthogonal of %s is %d", in.c_str(), b.is_orthogonal()); bool dg = true, sy = true; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (i != j && x(i, j) != 0) dg = false; if (x(i, j) != x(j, i)) sy = false; }
	CK(b.is_diagonal() == dg, "Basis:is_diagonal", "is_diagonal of %s", in.c_str()); CK(b.is_symmetric() == sy, "Basis:is_symmetric", "is_symmetric of %s", in.c_str()); CK(b.is_rotation() == (ortho(x, 1e-3) && dt > 0), "Basis:is_rotation", "is_rotation of %s is %d", in.c_str(), b.is_rotation());
	if (sy) { Basis c = b, r = c.diagonalize(); Mt e = m(r) * x * tr(m(r)); CK(ortho(m(r), 1e-3) && nr(e, m(c), 1e-3), "Basis:diagonalize", "%s diagonalized is %s by %s", in.c_str(), S(m(c)).c_str(), S(m(r)).c_str()); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) CK(std::fabs(c[i][j]) < 1e-3, "Basis:diagonalize", "%s diagonalized is %s", in.c_str(), S(m(c)).c_str()); }
	Vector3 f(2, -0.5, 3); MK(m(b.scaled(f)), diag(d(f)) * x, "Basis:scaled", "%s scaled", in.c_str()); MK(m(b.scaled_local(f)), x * diag(d(f)), "Basis:scaled_local", "%s scaled locally", in.c_str()); { Basis c = b; c.scale(f); CK(c == b.scaled(f), "Basis:scaled", "scale of %s", in.c_str()); c = b; c.scale_local(f); CK(c == b.scaled_local(f), "Basis:scaled_local", "scale_local of %s", in.c_str()); }
	for (double q : { -2.0, 0.5 }) { MK(m(b * (real_t)q), Mt(3, sc(x.a, q)), "Basis:times", "%s times %g", in.c_str(), q); Basis c = b; c *= (real_t)q; CK(c == b * (real_t)q, "Basis:times", "%s times %g in place", in.c_str(), q); }
	if (std::fabs(dt) > 1e-3) {
		MK(m(b.inverse()), inv(x), "Basis:inverse", "inverse of %s", in.c_str()); { Basis c = b; c.invert(); CK(c == b.inverse(), "Basis:inverse", "invert of %s", in.c_str()); } Vector3 n(0.6, 0, -0.8); VK(d(b.xform_normal(n)), unit(tr(inv(x)) * d(n)), "Basis:normal", "normal under %s", in.c_str());
		Basis o = b.orthonormalized(); Mt y = m(o); D c0 = unit(x.col(0)), c1 = unit(sub(x.col(1), sc(c0, dot(c0, x.col(1))))), c2 = unit(sub(sub(x.col(2), sc(c0, dot(c0, x.col(2)))), sc(c1, dot(c1, x.col(2))))); VK(y.col(0), c0, "Basis:orthonormalized", "first axis of %s made orthonormal", in.c_str()); VK(y.col(1), c1, "Basis:orthonormalized", "second axis of %s made orthonormal", in.c_str()); VK(y.col(2), c2, "Basis:orthonormalized", "third axis of %s made orthonormal", in.c_str());
		Mt g = m(b.orthogonalized()); VK(g.col(0), sc(c0, cl[0]), "Basis:orthogonalized", "first axis of %s made orthogonal", in.c_str()); VK(g.col(1), sc(c1, cl[1]), "Basis:orthogonalized", "second axis of %s made orthogonal", in.c_str()); VK(g.col(2), sc(c2, cl[2]), "Basis:orthogonalized", "third axis of %s made orthogonal", in.c_str()); }
	CK(b == b && !(b != b) && b.is_equal_approx(b), "Basis:equal", "%s is not equal to itself", in.c_str()); for (int i = 0; i < 9; i++) { Basis c = b; c[i / 3][i % 3] += 1; CK(!(c == b) && c != b && !c.is_equal_approx(b), "Basis:equal", "%s equals itself with entry %d changed", in.c_str(), i); } }
static void basis2(const Basis &a, const Basis &b) { Mt x = m(a), y = m(b); std::string in = S(x) + " and " + S(y); MK(m(a * b), x * y, "Basis:product", "product of %s", in.c_str()); { Basis c = a; c *= b; MK(m(c), x * y, "Basis:product", "product in place of %s", in.c_str()); } MK(m(a + b), Mt(3, add(x.a, y.a)), "Basis:plus", "sum of %s", in.c_str()); MK(m(a - b), Mt(3, sub(x.a, y.a)), "Basis:minus", "difference of %s", in.c_str()); { Basis c = a; c += b; c -= a; MK(m(c), y, "Basis:plus", "sum less the first of %s", in.c_str()); }
	MK(m(a.transpose_xform(b)), tr(x) * y, "Basis:transpose_xform", "product with the transpose of %s", in.c_str()); for (double t : { 0.0, 0.25, 1.0 }) MK(m(a.lerp(b, t)), Mt(3, lerp(x.a, y.a, t)), "Basis:lerp", "%s interpolated at %g", in.c_str(), t); CK((a == b) == (x.a == y.a), "Basis:equal", "equality of %s", in.c_str()); }
// ---- rotations
static D qd(const D &k, double t) { D r = sc(k, std::sin(t / 2)); r.push_back(std::cos(t / 2)); return r; }
static void rot(const D &k, int step, int den) { double t = step * M_PI / den; Mt r = turn(k, t); std::string in = mc::fmt("the turn by %d/%d pi about %s", step, den, s(k).c_str()); mc::state(in); Vector3 a = V(k); Basis b(a, t); MK(m(b), r, "Basis:axis_angle", "%s", in.c_str()); CK(b.is_rotation(), "Basis:is_rotation", "%s is no rotation", in.c_str());
	Vector3 ga; real_t gt; b.get_axis_angle(ga, gt); CK(nr(ga.length(), 1, 1e-3) && nr(turn(unit(d(ga)), gt), r, 2e-3), "Basis:get_axis_angle", "axis and angle of %s are %s and %g", in.c_str(), S(ga).c_str(), gt); b.get_rotation_axis_angle(ga, gt); CK(nr(turn(unit(d(ga)), gt), r, 2e-3), "Basis:get_axis_angle", "rotation axis and angle of %s are %s and %g", in.c_str(), S(ga).c_str(), gt);
	Quaternion q(a, t); VK(d(q), qd(k, t), "Quaternion:axis_angle", "%s", in.c_str()); CK(q.is_normalized(), "Quaternion:is_normalized", "%s", in.c_str()); MK(m(Basis(q)), r, "Basis:quaternion", "%s from a quaternion", in.c_str()); Quaternion p = b.get_quaternion(); CK(nr(quat(d(p)), r, 1e-3) && nr(p.length(), 1), "Basis:get_quaternion", "quaternion of %s is %s", in.c_str(), S(p).c_str()); p = b.get_rotation_quaternion(); CK(nr(quat(d(p)), r, 1e-3), "Basis:get_quaternion", "rotation quaternion of %s is %s", in.c_str(), S(p).c_str());
	for (auto &v : probes()) { VK(d(q.xform(v)), r * d(v), "Quaternion:xform", "%s of %s", in.c_str(), S(v).c_str()); D e = d(q); Quaternion g = q * v; D w = crs(e, d(v)); D want = { e[3] * v.x + w[0], e[3] * v.y + w[1], e[3] * v.z + w[2], -(e[0] * v.x + e[1] * v.y + e[2] * v.z) }; VK(d(g), want, "Quaternion:times", "%s times the vector %s", in.c_str(), S(v).c_str()); }
	VK(d(q.inverse()), qd(k, -t), "Quaternion:inverse", "inverse of %s", in.c_str()); Vector3 qa = q.get_axis(); real_t qt = q.get_angle(); CK(nr(turn(unit(d(qa)), qt), r, 2e-3), "Quaternion:get_axis", "axis and angle of the quaternion of %s are %s and %g", in.c_str(), S(qa).c_str(), qt); q.get_axis_angle(qa, qt); CK(nr(turn(unit(d(qa)), qt), r, 2e-3), "Quaternion:get_axis", "axis and angle of the quaternion of %s are %s and %g", in.c_str(), S(qa).c_str(), qt);
	Quaternion el = q.log().exp(); CK(nr(quat(d(el)), r, 1e-3), "Quaternion:exp", "exp of log of %s is %s", in.c_str(), S(el).c_str()); CK(nr(m(Basis(q.get_euler_yxz())), r, 5e-3) && nr(quat(d(Quaternion(q.get_euler_yxz()))), r, 5e-3), "Quaternion:get_euler", "euler angles of %s are %s", in.c_str(), S(q.get_euler_yxz()).c_str()); { Basis c; c.set_euler_xyz(q.get_euler_xyz()); CK(nr(m(c), r, 5e-3), "Quaternion:get_euler", "xyz angles of %s are %s", in.c_str(), S(q.get_euler_xyz()).c_str()); }
	Basis o(1, 2, 0, 0, -1, 1, 3, 0, 1); MK(m(o.rotated(a, t)), r * m(o), "Basis:rotated", "a basis after %s", in.c_str()); MK(m(o.rotated_local(a, t)), m(o) * r, "Basis:rotated_local", "a basis before %s", in.c_str()); MK(m(o.rotated(q)), r * m(o), "Basis:rotated", "a basis after the quaternion of %s", in.c_str()); { Basis c = o; c.rotate(a, t); CK(c == o.rotated(a, t), "Basis:rotated", "rotate by %s", in.c_str()); c = o; c.rotate_local(a, t); CK(c == o.rotated_local(a, t), "Basis:rotated_local", "rotate_local by %s", in.c_str()); c = o; c.rotate(q); CK(c == o.rotated(q), "Basis:rotated", "rotate by the quaternion of %s", in.c_str()); }
	for (auto f : { Vector3(1, 2, 0.5), Vector3(-1, -2, -0.5) }) { Mt w = r * diag(d(f)); Basis c(a, t, f); MK(m(c), w, "Basis:axis_angle_scale", "%s with scale %s", in.c_str(), S(f).c_str()); MK(m(Basis(q, f)), w, "Basis:quaternion_scale", "the quaternion of %s with scale %s", in.c_str(), S(f).c_str()); VK(d(c.get_scale()), d(f), "Basis:scale", "scale of %s with scale %s", in.c_str(), S(f).c_str()); MK(quat(d(c.get_rotation_quaternion())), r, "Basis:rotation_of_scaled", "rotation of %s with scale %s", in.c_str(), S(f).c_str()); { Basis e; e.set_euler(c.get_rotation_euler()); CK(nr(m(e), r, 5e-3), "Basis:rotation_of_scaled", "euler rotation of %s with scale %s", in.c_str(), S(f).c_str()); } Vector3 xa; real_t xt; c.get_rotation_axis_angle(xa, xt); CK(nr(turn(unit(d(xa)), xt), r, 5e-3), "Basis:rotation_of_scaled", "rotation axis %s and angle %g of %s with scale %s", S(xa).c_str(), xt, in.c_str(), S(f).c_str());
		Basis rr; Vector3 ps = c.rotref_posscale_decomposition(rr); CK(ortho(m(rr), 1e-3) && nr(m(rr) * diag(d(ps)), w, 1e-3) && ps.x > 0 && ps.y > 0 && ps.z > 0, "Basis:decomposition", "%s with scale %s splits into %s and %s", in.c_str(), S(f).c_str(), S(m(rr)).c_str(), S(ps).c_str()); MK(m(c.orthogonalized()), w, "Basis:orthogonalized", "%s with scale %s, made orthogonal", in.c_str(), S(f).c_str()); }
	Basis u = b * (real_t)2.5; CK(nr(u.get_uniform_scale(), 2.5), "Basis:uniform", "uniform scale of 2.5 times %s", in.c_str()); u.make_scale_uniform(); MK(m(u), Mt(3, sc(r.a, 2.5)), "Basis:uniform", "2.5 times %s made uniform", in.c_str()); Basis z; z.from_z(V(r.col(2))); CK(ortho(m(z), 1e-3) && nr(m(z).row(2), r.col(2)), "Basis:from_z", "basis from %s is %s", s(r.col(2)).c_str(), S(m(z)).c_str());
	// turning a function on the sphere, given by its nine harmonics: the turned function at the turned direction is the function at the direction
	auto har = [](const D &v) { double x = v[0], y = v[1], z = v[2]; return D{ 0.2820947918, -0.4886025119 * y, 0.4886025119 * z, -0.4886025119 * x, 1.0925484306 * x * y, -1.0925484306 * y * z, 0.3153915653 * (3 * z * z - 1), -1.0925484306 * x * z, 0.5462742153 * (x * x - y * y) }; };
	for (int i = 0; i < 9; i++) { real_t c[9]; D e; for (int j = 0; j < 9; j++) c[j] = j == i ? 2 : 0.25f * (j % 3), e.push_back(c[j]); b.rotate_sh(c); for (auto &p : probes()) { D v = unit(d(p)); double want = dot(e, har(v)), got = dot(D(c, c + 9), har(r * v)); CK(nr(got, want, 1e-3), "Basis:rotate_sh", "harmonics turned by %s are %g at the turned %s, expected %g", in.c_str(), got, s(v).c_str(), want); } } }
static void euler(const Vector3 &e, const std::string &en) { struct O { const char *n; int a[3]; void (Basis::*set)(const Vector3 &); Vector3 (Basis::*get)() const; }; static const O os[6] = { { "xyz", { 0, 1, 2 }, &Basis::set_euler_xyz, &Basis::get_euler_xyz }, { "xzy", { 0, 2, 1 }, &Basis::set_euler_xzy, &Basis::get_euler_xzy }, { "yxz", { 1, 0, 2 }, &Basis::set_euler_yxz, &Basis::get_euler_yxz }, { "yzx", { 1, 2, 0 }, &Basis::set_euler_yzx, &Basis::get_euler_yzx }, { "zxy", { 2, 0, 1 }, &Basis::set_euler_zxy, &Basis::get_euler_zxy }, { "zyx", { 2, 1, 0 }, &Basis::set_euler_zyx, &Basis::get_euler_zyx } };
	for (auto &o : os) { Mt w = ax(o.a[0], e[o.a[0]]) * ax(o.a[1], e[o.a[1]]) * ax(o.a[2], e[o.a[2]]); Basis b; (b.*o.set)(e); mc::state(en + o.n); MK(m(b), w, std::string("Basis:set_euler_") + o.n, "angles %s in order %s", en.c_str(), o.n); Vector3 g = (b.*o.get)(); Basis c; (c.*o.set)(g); CK(nr(m(c), w, 5e-3), std::string("Basis:get_euler_") + o.n, "angles %s in order %s are read back as %s, another rotation", en.c_str(), o.n, S(g).c_str());
		bool lock = std::fabs(std::fabs(std::sin(e[o.a[1]])) - 1) < 1e-3; if (!lock && std::fabs(e[o.a[1]]) < 1.57 && std::fabs(e[o.a[0]]) < 3.1 && std::fabs(e[o.a[2]]) < 3.1) CK(nr(d(g), d(e), 2e-3), std::string("Basis:get_euler_") + o.n, "angles %s in order %s are read back as %s", en.c_str(), o.n, S(g).c_str());
		if (o.a[0] == 1 && o.a[1] == 0) { MK(m(Basis(e)), w, "Basis:euler", "angles %s", en.c_str()); Quaternion q(e); MK(quat(d(q)), w, "Quaternion:euler", "quaternion of angles %s", en.c_str()); q = Quaternion(); q.set_euler_yxz(e); MK(quat(d(q)), w, "Quaternion:euler", "quaternion of angles %s", en.c_str()); CK(nr(m(Basis(b.get_rotation_euler())), w, 5e-3), "Basis:get_rotation_euler", "angles %s are read back as %s", en.c_str(), S(b.get_rotation_euler()).c_str()); Vector3 f(2, 0.5, 3); MK(m(Basis(e, f)), w * diag(d(f)), "Basis:euler_scale", "angles %s with scale", en.c_str()); Basis o2(1, 2, 0, 0, -1, 1, 3, 0, 1); MK(m(o2.rotated(e)), w * m(o2), "Basis:rotated", "a basis after angles %s", en.c_str()); o2.rotate(e); CK(o2 == Basis(1, 2, 0, 0, -1, 1, 3, 0, 1).rotated(e), "Basis:rotated", "rotate by angles %s", en.c_str()); }
		if (o.a[0] == 0 && o.a[1] == 1) { Quaternion q; q.set_euler_xyz(e); MK(quat(d(q)), w, "Quaternion:euler", "quaternion of angles %s in order xyz", en.c_str()); } } }
static D qmul(const D &a, const D &b) { D v = add(add(sc(D{ b[0], b[1], b[2] }, a[3]), sc(D{ a[0], a[1], a[2] }, b[3])), crs(a, b)); v.push_back(a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]); return v; }
static D arc(const D &a, const D &b, double t) { double c = std::max(-1.0, std::min(1.0, dot(a, b))), an = std::acos(c); if (an < 1e-3) return a; return add(sc(a, std::sin((1 - t) * an) / std::sin(an)), sc(b, std::sin(t * an) / std::sin(an))); }
static void quats(const Quaternion &a, const Quaternion &b) { D x = d(a), y = d(b); std::string in = s(x) + " and " + s(y); mc::state(in); VK(d(a * b), qmul(x, y), "Quaternion:times", "product of %s", in.c_str()); { Quaternion c = a; c *= b; VK(d(c), qmul(x, y), "Quaternion:times", "product in place of %s", in.c_str()); } MK(quat(d(a * b)), quat(x) * quat(y), "Quaternion:times", "turn by the product of %s", in.c_str()); VK(d(a + b), add(x, y), "Quaternion:plus", "sum of %s", in.c_str()); VK(d(a - b), sub(x, y), "Quaternion:minus", "difference of %s", in.c_str()); { Quaternion c = a; c += b; c -= a; VK(d(c), y, "Quaternion:plus", "sum less the first of %s", in.c_str()); } VK(d(-a), sc(x, -1), "Quaternion:negate", "negation of %s", s(x).c_str()); VK(d(a * (real_t)3), sc(x, 3), "Quaternion:scale", "3 times %s", s(x).c_str()); VK(d(a / (real_t)4), sc(x, 0.25), "Quaternion:scale", "a fourth of %s", s(x).c_str());
	double c = dot(x, y); CK(nr(a.dot(b), c) && (a == b) == (x == y) && (a != b) == (x != y) && nr((a * (real_t)3).length(), 3) && nr((a * (real_t)3).length_squared(), 9) && !(a * (real_t)3).is_normalized(), "Quaternion:dot", "product %g of %s", a.dot(b), in.c_str()); VK(d((a * (real_t)3).normalized()), x, "Quaternion:normalized", "3 times %s normalized", s(x).c_str()); CK(nr(a.angle_to(b), 2 * std::acos(std::min(1.0, std::fabs(c))), 5e-3), "Quaternion:angle_to", "angle of %s is %g, expected %g", in.c_str(), a.angle_to(b), 2 * std::acos(std::min(1.0, std::fabs(c))));
	for (double t : { 0.0, 0.25, 0.5, 1.0 }) { if (std::fabs(c) > 1e-3) { D w = arc(x, c < 0 ? sc(y, -1) : y, t); MK(quat(d(a.slerp(b, t))), quat(w), "Quaternion:slerp", "%s, interpolated at %g", in.c_str(), t); MK(m(Basis(a).slerp(Basis(b), t)), quat(w), "Basis:slerp", "the turns %s, interpolated at %g", in.c_str(), t); } if (std::fabs(c) < 0.999) VK(d(a.slerpni(b, t)), arc(x, y, t), "Quaternion:slerpni", "%s, interpolated the given way at %g", in.c_str(), t); }
	if (std::fabs(c) > 1e-3 && std::fabs(c) < 0.999) { Quaternion bb = c < 0 ? -b : b; Quaternion del = a.inverse() * bb, pre = a * del.inverse(), post = bb * del; for (double t : { 0.0, 1.0 }) { MK(quat(d(a.cubic_slerp(bb, pre, post, t))), quat(t ? y : x), "Quaternion:cubic", "cubic curve through %s at %g", in.c_str(), t); } for (double t : { 0.0, 0.25, 0.5, 1.0 }) { D w = arc(x, c < 0 ? sc(y, -1) : y, t); CK(nr(quat(d(a.spherical_cubic_interpolate(bb, pre, post, t))), quat(w), 5e-3), "Quaternion:spherical_cubic", "cubic curve at constant speed through %s at %g gives %s, expected %s", in.c_str(), t, S(a.spherical_cubic_interpolate(bb, pre, post, t)).c_str(), s(w).c_str()); } } }
static void dirs(const D &a, const D &b) { std::string in = s(a) + " to " + s(b); if (dot(a, b) > -0.999) { Quaternion q(V(a), V(b)); CK(nr(quat(d(q)) * a, b, 1e-3) && nr(q.length(), 1, 1e-3), "Quaternion:arc", "shortest turn from %s is %s", in.c_str(), S(q).c_str()); if (dot(a, b) < 0.999) CK(nr(q.get_angle(), std::acos(dot(a, b)), 2e-3), "Quaternion:arc", "shortest turn from %s is by %g", in.c_str(), q.get_angle()); Basis r; r.rotate_to_align(V(a), V(b)); if (std::fabs(dot(a, b)) < 0.999) CK(nr(m(r) * a, b, 1e-3) && ortho(m(r), 1e-3) && det(m(r)) > 0, "Basis:rotate_to_align", "aligning %s gives %s", in.c_str(), S(m(r)).c_str()); }
	if (std::fabs(dot(a, b)) < 0.99) for (int front = 0; front < 2; front++) { Mt x = m(Basis::looking_at(V(sc(a, 3)), V(b), front)); D z = front ? a : sc(a, -1), xx = unit(crs(b, z)), y = crs(z, xx); Mt w; for (int i = 0; i < 3; i++) w(i, 0) = xx[i], w(i, 1) = y[i], w(i, 2) = z[i]; MK(x, w, "Basis:looking_at", "looking along %s as up, front %d", in.c_str(), front); if (!front) { Transform t; t.origin = Vector3(1, -2, 3); Transform l = t.looking_at(t.origin + V(sc(a, 2)), V(b)); MK(m(l), lift(w, d(t.origin)), "Transform:looking_at", "looking along %s as up", in.c_str()); Transform k; k.set_look_at(t.origin, t.origin + V(sc(a, 2)), V(b)); CK(k.is_equal_approx(l), "Transform:looking_at", "set_look_at along %s as up", in.c_str()); } } }
// ---- transforms
static D box(const Mt &x, const AABB &a) { D lo(3, 1e30), hi(3, -1e30); for (int i = 0; i < 8; i++) { D c = d(a.position); for (int j = 0; j < 3; j++) if (i >> j & 1) c[j] += a.size[j]; c = pt(x, c); for (int j = 0; j < 3; j++) lo[j] = std::min(lo[j], c[j]), hi[j] = std::max(hi[j], c[j]); } return { lo[0], lo[1], lo[2], hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2] }; }
static D plane(const Mt &x, const Plane &p) { Mt b(3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b(i, j) = x(i, j); D n = unit(tr(inv(b)) * d(p.normal)), o = pt(x, sc(d(p.normal), p.d)); n.push_back(dot(n, o)); return n; }
static void trans1(const Transform &t) { Mt x = m(t); std::string in = S(x); mc::state(in); Mt b = m(t.basis); bool rigid = ortho(b, 1e-3); double dt = det(b); auto ps = probes();
	for (auto &p : ps) { VK(d(t.xform(p)), pt(x, d(p)), "Transform:xform", "%s applied to %s", in.c_str(), S(p).c_str()); if (rigid) VK(d(t.xform_inv(p)), pt(inv(x), d(p)), "Transform:xform_inv", "%s undone on %s", in.c_str(), S(p).c_str()); }
	PoolVector<Vector3> pv; for (auto &p : ps) pv.push_back(p); auto gv = t.xform(pv), gi = t.xform_inv(pv); CK(gv.size() == (int)ps.size() && gi.size() == (int)ps.size(), "Transform:array", "size of an array under %s", in.c_str()); for (int i = 0; i < gv.size(); i++) CK(gv[i] == t.xform(ps[i]) && gi[i] == t.xform_inv(ps[i]), "Transform:array", "element %d of an array under %s", i, in.c_str());
	bool whole = true; for (double v : x.a) whole = whole && v == std::floor(v); if (whole) { PoolVector<Vector3i> pi; for (int i = 0; i < 4; i++) pi.push_back(Vector3i(i * 3 - 4, 2 - i, i * i)); auto qi = t.xform(pi); for (int i = 0; i < 4; i++) { VK(d(t.xform(pi[i])), pt(x, d(pi[i])), "Transform:xform", "%s applied to %s", in.c_str(), S(pi[i]).c_str()); CK(qi[i] == t.xform(pi[i]), "Transform:array", "element %d of an array under %s", i, in.c_str()); if (rigid) { VK(d(t.xform_inv(pi[i])), pt(inv(x), d(pi[i])), "Transform:xform_inv", "%s undone on %s", in.c_str(), S(pi[i]).c_str()); CK(t.xform_inv(pi)[i] == t.xform_inv(pi[i]), "Transform:array", "element %d of an array undone under %s", i, in.c_str()); } } }
	for (auto &a : { AABB(Vector3(0, 0, 0), Vector3(1, 2, 3)), AABB(Vector3(-1, 0.5, -2), Vector3(0.5, 1, 0)) }) { VK(d(t.xform(a)), box(x, a), "Transform:box", "box %s under %s", S(a).c_str(), in.c_str()); if (rigid) VK(d(t.xform_inv(a)), box(inv(x), a), "Transform:box", "box %s undone under %s", S(a).c_str(), in.c_str()); }
	if (std::fabs(dt) > 1e-3) { MK(m(t.affine_inverse()), inv(x), "Transform:affine_inverse", "inverse of %s", in.c_str()); { Transform u = t; u.affine_invert(); CK(u == t.affine_inverse(), "Transform:affine_inverse", "affine_invert of %s", in.c_str()); } if (rigid) { MK(m(t.inverse()), inv(x), "Transform:inverse", "inverse of %s", in.c_str()); Transform u = t; u.invert(); CK(u == t.inverse(), "Transform:inverse", "invert of %s", in.c_str()); }
		for (auto &p : { Plane(0, 0, 1, 2), Plane(0.6f, -0.8f, 0, -1), Plane(0.48f, 0.6f, 0.64f, 0) }) { VK(d(t.xform(p)), plane(x, p), "Transform:plane", "plane %s under %s", S(p).c_str(), in.c_str()); VK(d(t.xform_inv(p)), plane(inv(x), p), "Transform:plane", "plane %s undone under %s", S(p).c_str(), in.c_str()); VK(d(t.xform_fast(p, t.basis.inverse().transposed())), plane(x, p), "Transform:plane", "plane %s under %s, fast", S(p).c_str(), in.c_str()); VK(d(Transform::xform_inv_fast(p, t.affine_inverse(), t.basis.transposed())), plane(inv(x), p), "Transform:plane", "plane %s undone under %s, fast", S(p).c_str(), in.c_str()); }
		MK(m(t.orthonormalized()), lift(m(t.basis.orthonormalized()), d(t.origin)), "Transform:orthonormalized", "%s made orthonormal", in.c_str()); MK(m(t.orthogonalized()), lift(m(t.basis.orthogonalized()), d(t.origin)), "Transform:orthogonalized", "%s made orthogonal", in.c_str()); { Transform u = t; u.orthonormalize(); CK(u == t.orthonormalized(), "Transform:orthonormalized", "orthonormalize of %s", in.c_str()); u = t; u.orthogonalize(); CK(u == t.orthogonalized(), "Transform:orthogonalized", "orthogonalize of %s", in.c_str()); } }
	Vector3 f(2, -1, 0.5), v(1, 2, -3), k(0, 0.6, 0.8); double ph = 0.7; Mt R = lift(turn(d(k), ph), D(3)), F = lift(diag(d(f)), D(3)), T = lift(Mt(3), d(v)); D o = d(t.origin); struct C { const char *n; Transform a; Mt w; };
	auto g = [&](void (*fn)(Transform &)) { Transform u = t; fn(u); return u; }; std::vector<C> cs = { { "rotated", t.rotated(k, ph), R * x }, { "rotate", g([](Transform &u) { u.rotate(Vector3(0, 0.6, 0.8), 0.7); }), R * x }, { "rotated_local", t.rotated_local(k, ph), x * R }, { "rotate_local", g([](Transform &u) { u.rotate_local(Vector3(0, 0.6, 0.8), 0.7); }), x * R }, { "rotate_basis", g([](Transform &u) { u.rotate_basis(Vector3(0, 0.6, 0.8), 0.7); }), lift(turn(d(k), ph) * b, o) }, { "scaled", t.scaled(f), F * x }, { "scale", g([](Transform &u) { u.scale(Vector3(2, -1, 0.5)); }), F * x }, { "scaled_local", t.scaled_local(f), x * F }, { "scale_basis", g([](Transform &u) { u.scale_basis(Vector3(2, -1, 0.5)); }), lift(diag(d(f)) * b, o) }, { "translated", t.translated(v), T * x }, { "translated_local", t.translated_local(v), x * T }, { "translate_local", g([](Transform &u) { u.translate_local(Vector3(1, 2, -3)); }), x * T }, { "translate_localv", g([](Transform &u) { u.translate_localv(Vector3(1, 2, -3)); }), x * T }, { "translate_localr", g([](Transform &u) { u.translate_localr(1, 2, -3); }), x * T }, { "translate_local xyz", g([](Transform &u) { u.translate_local(1, 2, -3); }), x * T }, { "times", t * (real_t)2, lift(Mt(3, sc(b.a, 2)), sc(o, 2)) } };
	for (auto &c : cs) MK(m(c.a), c.w, std::string("Transform:") + c.n, "%s of %s", c.n, in.c_str()); { Transform u(x(0, 0), x(0, 1), x(0, 2), x(1, 0), x(1, 1), x(1, 2), x(2, 0), x(2, 1), x(2, 2), o[0], o[1], o[2]), w(V(b.col(0)), V(b.col(1)), V(b.col(2)), t.origin), z(t.basis, t.origin), y; y.set(x(0, 0), x(0, 1), x(0, 2), x(1, 0), x(1, 1), x(1, 2), x(2, 0), x(2, 1), x(2, 2), o[0], o[1], o[2]); CK(u == t && w == t && z == t && y == t && !(u != t) && u.is_equal_approx(t), "Transform:construct", "building %s", in.c_str()); u.origin.y += 1; CK(u != t && !(u == t) && !u.is_equal_approx(t), "Transform:equal", "%s with another origin", in.c_str()); } }
static void trans2(const Transform &a, const Transform &b) { Mt x = m(a), y = m(b); std::string in = S(x) + " and " + S(y); MK(m(a * b), x * y, "Transform:product", "product of %s", in.c_str()); { Transform c = a; c *= b; MK(m(c), x * y, "Transform:product", "product in place of %s", in.c_str()); } bool ra = ortho(m(a.basis), 1e-3), rb = ortho(m(b.basis), 1e-3); if (ra) MK(m(a.inverse_xform(b)), inv(x) * y, "Transform:inverse_xform", "%s seen from the first", in.c_str());
	CK((a == b) == (x.a == y.a), "Transform:equal", "equality of %s", in.c_str()); Mt p = m(a.basis), q = m(b.basis); auto plain = [](const Mt &r) { return det(r) > 0 && nr(tr(r) * r, diag({ dot(r.col(0), r.col(0)), dot(r.col(1), r.col(1)), dot(r.col(2), r.col(2)) }), 1e-3); }; if (!plain(p) || !plain(q)) return; D sa, sb; for (int i = 0; i < 3; i++) sa.push_back(len(p.col(i))), sb.push_back(len(q.col(i))); Mt r0 = p * diag({ 1 / sa[0], 1 / sa[1], 1 / sa[2] }), r1 = q * diag({ 1 / sb[0], 1 / sb[1], 1 / sb[2] }); D q0 = d(B(r0).get_quaternion()), q1 = d(B(r1).get_quaternion()); double c = dot(q0, q1); if (std::fabs(c) < 1e-3) return; if (c < 0) q1 = sc(q1, -1);
	for (double t : { 0.0, 0.25, 0.5, 1.0 }) { Mt w = lift(quat(arc(q0, q1, t)) * diag(lerp(sa, sb, t)), lerp(d(a.origin), d(b.origin), t)); CK(nr(m(a.spherical_interpolate_with(b, t)), w, 1e-3), "Transform:spherical_interpolate_with", "%s, interpolated at %g: %s, expected %s", in.c_str(), t, S(m(a.spherical_interpolate_with(b, t))).c_str(), S(w).c_str()); Transform l = a.interpolate_with(b, t); if (t == 0 || t == 1) MK(m(l), t ? y : x, "Transform:interpolate_with", "%s, interpolated at %g", in.c_str(), t); VK(d(l.origin), lerp(d(a.origin), d(b.origin), t), "Transform:interpolate_with", "origin of %s, interpolated at %g", in.c_str(), t); } (void)rb; }
void explore() {
	SFWCore::setup(); bool th = mc::thorough();
	{ D g = { -1, 0, 1 }; for (int i = 0; i < 81; i++) MC_CASE("matrices whose first entries are %d", i) for (int j = 0; j < 243; j += th || i % 3 == 0 ? 1 : 2) { int c[9], a = i, b = j; for (int k = 0; k < 4; k++) c[k] = a % 3, a /= 3; for (int k = 4; k < 9; k++) c[k] = b % 3, b /= 3; basis1(Basis(g[c[0]], g[c[1]], g[c[2]], g[c[3]], g[c[4]], g[c[5]], g[c[6]], g[c[7]], g[c[8]])); } }
	std::vector<Basis> bs; { D g = { 2, -0.5, 0, 1.5, -3, 1, 0.25 }; for (int i = 0; i < 60; i++) { D v; for (int k = 0; k < 9; k++) v.push_back(g[(i * (k * 3 + 1) + k * k + i / 7) % 7]); bs.push_back(B(Mt(3, v))); } } for (auto &a : bs) MC_CASE("matrix %s", S(m(a)).c_str()) { basis1(a); for (auto &b : bs) basis2(a, b); }
	MC_CASE("the 24 square-on turns") { std::set<D> seen; for (int i = 0; i < 24; i++) { Basis b; b.set_orthogonal_index(i); Mt x = m(b); CK(ortho(x) && det(x) > 0, "Basis:orthogonal_index", "turn %d is %s", i, S(x).c_str()); seen.insert(x.a); CK(b.get_orthogonal_index() == i, "Basis:orthogonal_index", "turn %d is read back as %d", i, b.get_orthogonal_index()); Basis c = b * Basis(Vector3(0.6, 0.8, 0), 0.2); CK(c.get_orthogonal_index() == i, "Basis:orthogonal_index", "turn %d, slightly turned, is read back as %d", i, c.get_orthogonal_index()); } CK(seen.size() == 24, "Basis:orthogonal_index", "%zu different turns", seen.size()); for (auto f : { Vector3(1, 2, 3), Vector3(-1, 0, 2) }) { MK(m(Basis::from_scale(f)), diag(d(f)), "Basis:from_scale", "scale %s", S(f).c_str()); Basis b(1, 1, 1, 1, 1, 1, 1, 1, 1); b.set_diagonal(f); MK(m(b), diag(d(f)), "Basis:set_diagonal", "diagonal %s", S(f).c_str()); b.set_zero(); MK(m(b), diag({ 0, 0, 0 }), "Basis:set_zero", "set_zero"); } }
	std::vector<D> axs; for (auto &v : grid3({ -1, 0, 1 })) if (v != Vector3()) axs.push_back(unit(d(v))); if (th) for (auto &v : grid3({ -0.3, 0.5, 2 })) axs.push_back(unit(d(v))); for (auto &k : axs) MC_CASE("turns about %s", s(k).c_str()) { for (int i = -24; i <= 24; i++) rot(k, i, 12); for (int i : { 1, -1, 3 }) rot(k, i, 1000); for (auto &b : axs) dirs(k, b); }
	int n = th ? 12 : 8; for (int i = -n / 2; i <= n / 2; i++) for (int j = -n / 2; j <= n / 2; j++) MC_CASE("angles %d, %d of %d", i, j, n) for (int k = -n / 2; k <= n / 2; k++) euler(Vector3(i * 2 * M_PI / n, j * 2 * M_PI / n, k * 2 * M_PI / n), mc::fmt("(%d, %d, %d)/%d turns", i, j, k, n));
	std::vector<Quaternion> qs; for (size_t i = 0; i < 26; i += 2) for (int k : { 0, 1, 3, 5, 6, 9, 12, 14, 20 }) if (k || !i) qs.push_back(Quaternion(V(axs[i]), k * M_PI / 12)); for (auto &a : qs) MC_CASE("quaternion %s", S(a).c_str()) for (auto &b : qs) quats(a, b);
	std::vector<Transform> ts; for (auto &o : { Vector3(0, 0, 0), Vector3(1, -2, 3), Vector3(-5, 0.5, 2) }) { for (int i = 0; i < 8; i++) ts.push_back(Transform(Basis(V(axs[i * 3]), i * 0.6), o)); for (int i : { 3, 8, 17, 22 }) { Basis b; b.set_orthogonal_index(i); ts.push_back(Transform(b, o)); } for (int i = 0; i < 6; i++) ts.push_back(Transform(Basis(V(axs[i * 4 + 1]), i * 0.5, Vector3(1 + i, 0.5, 2)), o)); for (int i = 0; i < (th ? 12 : 4); i++) ts.push_back(Transform(bs[i * 2], o)); ts.push_back(Transform(Basis(-1, 0, 0, 0, 1, 0, 0, 0, 1), o)); }
	for (auto &a : ts) MC_CASE("transform %s", S(m(a)).c_str()) { trans1(a); for (auto &b : ts) trans2(a, b); }
}
