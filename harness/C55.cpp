// MC: variant=asan
// C55: planar transforms, projections and triangles. Every transform, frustum and triangle of small grids, against matrix algebra and
// solid geometry in double precision.
#include "la.h"
#define MK(got, want, key, ...) do { Mt g_ = (got), w_ = (want); CK(nr(g_, w_), key, "%s gives %s, expected %s", mc::fmt(__VA_ARGS__).c_str(), S(g_).c_str(), S(w_).c_str()); } while (0)
#define VK(got, want, key, ...) do { D g_ = (got), w_ = (want); CK(nr(g_, w_), key, "%s gives %s, expected %s", mc::fmt(__VA_ARGS__).c_str(), s(g_).c_str(), s(w_).c_str()); } while (0)
// ---- the plane
static Mt rot2(double t) { return Mt(2, { std::cos(t), -std::sin(t), std::sin(t), std::cos(t) }); }
static Mt base(const Mt &x) { return Mt(2, { x(0, 0), x(0, 1), x(1, 0), x(1, 1) }); }
static D box(const Mt &x, const Rect2 &a) { D lo(2, 1e30), hi(2, -1e30); for (int i = 0; i < 4; i++) { D c = d(a.position); for (int j = 0; j < 2; j++) if (i >> j & 1) c[j] += a.size[j]; c = pt(x, c); for (int j = 0; j < 2; j++) lo[j] = std::min(lo[j], c[j]), hi[j] = std::max(hi[j], c[j]); } return { lo[0], lo[1], hi[0] - lo[0], hi[1] - lo[1] }; }
static void flat1(const Transform2D &t) { Mt x = m(t), b = base(x); std::string in = S(x); mc::state(in); bool rigid = ortho(b, 1e-3); double dt = det(b); D o = d(t.get_origin()); static const std::vector<Vector2> ps = { Vector2(1, 0), Vector2(0, 1), Vector2(2, -3), Vector2(-1.5, 0.25) };
	for (auto &p : ps) { VK(d(t.xform(p)), pt(x, d(p)), "Transform2D:xform", "%s applied to %s", in.c_str(), S(p).c_str()); VK(d(t.basis_xform(p)), b * d(p), "Transform2D:basis_xform", "axes of %s applied to %s", in.c_str(), S(p).c_str()); VK(d(t.basis_xform_inv(p)), tr(b) * d(p), "Transform2D:basis_xform_inv", "axes of %s undone on %s", in.c_str(), S(p).c_str()); if (rigid) VK(d(t.xform_inv(p)), pt(inv(x), d(p)), "Transform2D:xform_inv", "%s undone on %s", in.c_str(), S(p).c_str()); CK(nr(t.tdotx(p), dot(b.row(0), d(p))) && nr(t.tdoty(p), dot(b.row(1), d(p))), "Transform2D:tdot", "row products of %s", in.c_str()); }
	PoolVector<Vector2> pv; for (auto &p : ps) pv.push_back(p); auto gv = t.xform(pv), gi = t.xform_inv(pv); CK(gv.size() == 4 && gi.size() == 4, "Transform2D:array", "size of an array under %s", in.c_str()); for (int i = 0; i < gv.size(); i++) CK(gv[i] == t.xform(ps[i]) && gi[i] == t.xform_inv(ps[i]), "Transform2D:array", "element %d of an array under %s", i, in.c_str());
	bool whole = true; for (double v : x.a) whole = whole && v == std::floor(v); if (whole) { PoolVector<Vector2i> pi; for (int i = 0; i < 4; i++) pi.push_back(Vector2i(i * 3 - 4, 2 - i)); auto qi = t.xform(pi), ri = t.xform_inv(pi); for (int i = 0; i < 4; i++) { VK(d(t.xform(pi[i])), pt(x, d(pi[i])), "Transform2D:xform", "%s applied to %s", in.c_str(), S(pi[i]).c_str()); VK(d(t.basis_xform(pi[i])), b * d(pi[i]), "Transform2D:basis_xform", "axes of %s applied to %s", in.c_str(), S(pi[i]).c_str()); VK(d(t.basis_xform_inv(pi[i])), tr(b) * d(pi[i]), "Transform2D:basis_xform_inv", "axes of %s undone on %s", in.c_str(), S(pi[i]).c_str()); CK(qi[i] == t.xform(pi[i]) && ri[i] == t.xform_inv(pi[i]), "Transform2D:array", "element %d of an array under %s", i, in.c_str()); if (rigid) VK(d(t.xform_inv(pi[i])), pt(inv(x), d(pi[i])), "Transform2D:xform_inv", "%s undone on %s", in.c_str(), S(pi[i]).c_str()); } }
	for (auto &r : { Rect2(0, 0, 1, 2), Rect2(-1, 0.5, 3, 0.5) }) { VK(d(t.xform(r)), box(x, r), "Transform2D:rect", "rectangle %s under %s", S(r).c_str(), in.c_str()); if (rigid) VK(d(t.xform_inv(r)), box(inv(x), r), "Transform2D:rect", "rectangle %s undone under %s", S(r).c_str(), in.c_str()); }
	CK(nr(t.basis_determinant(), dt), "Transform2D:determinant", "determinant of %s is %g", in.c_str(), t.basis_determinant()); if (std::fabs(dt) > 1e-3) { MK(m(t.affine_inverse()), inv(x), "Transform2D:affine_inverse", "inverse of %s", in.c_str()); { Transform2D u = t; u.affine_invert(); CK(u == t.affine_inverse(), "Transform2D:affine_inverse", "affine_invert of %s", in.c_str()); } if (rigid) { MK(m(t.inverse()), inv(x), "Transform2D:inverse", "inverse of %s", in.c_str()); Transform2D u = t; u.invert(); CK(u == t.inverse(), "Transform2D:inverse", "invert of %s", in.c_str()); }
		D c0 = unit(b.col(0)), c1 = unit(sub(b.col(1), sc(c0, dot(c0, b.col(1))))); Transform2D u = t.orthonormalized(); VK(d(u.columns[0]), c0, "Transform2D:orthonormalized", "%s made orthonormal, first axis", in.c_str()); VK(d(u.columns[1]), c1, "Transform2D:orthonormalized", "%s made orthonormal, second axis", in.c_str()); CK(u.get_origin() == t.get_origin(), "Transform2D:orthonormalized", "%s made orthonormal, origin", in.c_str()); u = t; u.orthonormalize(); CK(u == t.orthonormalized(), "Transform2D:orthonormalized", "orthonormalize of %s", in.c_str());
		double an = std::atan2(b(1, 0), b(0, 0)), l0 = len(b.col(0)), l1 = len(b.col(1)), sg = dt < 0 ? -1 : 1; Vector2 sz = t.get_scale(); VK(d(sz), (D{ l0, sg * l1 }), "Transform2D:scale", "scale of %s", in.c_str()); CK(nr(std::cos(t.get_rotation()), std::cos(an)) && nr(std::sin(t.get_rotation()), std::sin(an)), "Transform2D:rotation", "rotation of %s is %g, expected %g", in.c_str(), t.get_rotation(), an);
		MK(m(Transform2D(t.get_rotation(), t.get_scale(), t.get_skew(), t.get_origin())), x, "Transform2D:decompose", "rotation %g, scale %s and skew %g of", t.get_rotation(), S(sz).c_str(), t.get_skew()); u = t; u.set_scale(Vector2(2, 3)); MK(m(u), lift(Mt(2, { 2 * b(0, 0) / l0, 3 * b(0, 1) / l1, 2 * b(1, 0) / l0, 3 * b(1, 1) / l1 }), o), "Transform2D:set_scale", "set_scale on %s", in.c_str());
		for (double q : { 0.0, 0.3, -0.5 }) { u = t; u.set_skew(q); CK(nr(u.get_skew(), q, 1e-3) && nr(d(u.columns[0]), b.col(0)) && nr(len(d(u.columns[1])), l1, 1e-3) && u.get_origin() == t.get_origin(), "Transform2D:set_skew", "skew %g set on %s gives %s", q, in.c_str(), S(m(u)).c_str()); } }
	for (double q : { 0.0, 1.0, 2.5, -2.0 }) { Transform2D u = t; if (std::fabs(dt) > 1e-3) { double l0 = len(b.col(0)), l1 = len(b.col(1)); if (std::fabs(dot(b.col(0), b.col(1))) < 1e-4 * l0 * l1) { u.set_rotation(q); MK(m(u), lift(rot2(q) * diag({ l0, dt < 0 ? -l1 : l1 }), o), "Transform2D:set_rotation", "rotation %g set on %s", q, in.c_str()); } } u = t; u.set_rotation_and_scale(q, Vector2(2, -0.5)); MK(m(u), lift(rot2(q) * diag({ 2, -0.5 }), o), "Transform2D:set_rotation_and_scale", "rotation %g and scale set on %s", q, in.c_str()); u = t; u.set_rotation_scale_and_skew(q, Vector2(2, 0.5), 0.4); MK(m(u), lift(Mt(2, { 2 * std::cos(q), -0.5 * std::sin(q + 0.4), 2 * std::sin(q), 0.5 * std::cos(q + 0.4) }), o), "Transform2D:set_rotation_scale_and_skew", "rotation %g, scale and skew set on %s", q, in.c_str()); MK(m(Transform2D(q, t.get_origin())), lift(rot2(q), o), "Transform2D:construct", "rotation %g at %s", q, s(o).c_str()); }
	struct C { const char *n; Transform2D a; Mt w; }; auto g = [&](void (*fn)(Transform2D &)) { Transform2D u = t; fn(u); return u; }; Vector2 f(2, -0.5), v(3, -1); Mt R = lift(rot2(0.7), D(2)), F = lift(diag(d(f)), D(2)), T = lift(Mt(2), d(v)), fb = lift(diag(d(f)) * b, o);
	std::vector<C> cs = { { "rotated", t.rotated(0.7), R * x }, { "rotate", g([](Transform2D &u) { u.rotate(0.7); }), R * x }, { "rotated_local", t.rotated_local(0.7), x * R }, { "scaled", t.scaled(f), F * x }, { "scale", g([](Transform2D &u) { u.scale(Vector2(2, -0.5)); }), F * x }, { "scaled_local", t.scaled_local(f), x * F }, { "basis_scaled", t.basis_scaled(f), fb }, { "scale_basis", g([](Transform2D &u) { u.scale_basis(Vector2(2, -0.5)); }), fb }, { "translated", t.translated(v), T * x }, { "translate", g([](Transform2D &u) { u.translate(Vector2(3, -1)); }), T * x }, { "translate xy", g([](Transform2D &u) { u.translate(3, -1); }), T * x }, { "translater", g([](Transform2D &u) { u.translater(3, -1); }), T * x }, { "translatev", g([](Transform2D &u) { u.translatev(Vector2(3, -1)); }), T * x }, { "translated_local", t.translated_local(v), x * T }, { "translate_local", g([](Transform2D &u) { u.translate_local(Vector2(3, -1)); }), x * T }, { "translate_local xy", g([](Transform2D &u) { u.translate_local(3, -1); }), x * T }, { "translate_localr", g([](Transform2D &u) { u.translate_localr(3, -1); }), x * T }, { "translate_localv", g([](Transform2D &u) { u.translate_localv(Vector2(3, -1)); }), x * T }, { "untranslated", t.untranslated(), lift(b, D(2)) }, { "times", t * (real_t)2, lift(Mt(2, sc(b.a, 2)), sc(o, 2)) } };
	for (auto &c : cs) MK(m(c.a), c.w, std::string("Transform2D:") + c.n, "%s of %s", c.n, in.c_str()); for (int i = 0; i < 3; i++) { CK(t.get_axis(i) == t.columns[i] && t.get_column(i) == t.columns[i] && t[i] == t.columns[i], "Transform2D:columns", "column %d of %s", i, in.c_str()); Transform2D u = t, w = t; u.set_axis(i, Vector2(7, 8)); w.set_column(i, Vector2(7, 8)); CK(u == w && u.columns[i] == Vector2(7, 8) && u.columns[(i + 1) % 3] == t.columns[(i + 1) % 3] && u != t && !(u == t) && !u.is_equal_approx(t), "Transform2D:columns", "setting column %d of %s", i, in.c_str()); }
	Transform2D u(b(0, 0), b(1, 0), b(0, 1), b(1, 1), o[0], o[1]), w(t.columns[0], t.columns[1], t.columns[2]); CK(u == t && w == t && !(u != t) && u.is_equal_approx(t), "Transform2D:construct", "building %s", in.c_str());
	if (dt > 1e-3 && std::fabs(dot(b.col(0), b.col(1))) < 1e-4) for (auto &p : ps) { Vector2 q = t.get_origin() + p; Transform2D l = t.looking_at(q); D c = unit(d(p)); MK(m(l), lift(Mt(2, { c[0], -c[1], c[1], c[0] }), o), "Transform2D:looking_at", "%s looking at %s", in.c_str(), S(q).c_str()); } }
static void flat2(const Transform2D &a, const Transform2D &b) { Mt x = m(a), y = m(b); std::string in = S(x) + " and " + S(y); MK(m(a * b), x * y, "Transform2D:product", "product of %s", in.c_str()); { Transform2D c = a; c *= b; MK(m(c), x * y, "Transform2D:product", "product in place of %s", in.c_str()); } CK((a == b) == (x.a == y.a), "Transform2D:equal", "equality of %s", in.c_str()); Mt p = base(x), q = base(y); auto plain = [](const Mt &r) { return det(r) > 1e-3 && std::fabs(dot(r.col(0), r.col(1))) < 1e-4; }; if (!plain(p) || !plain(q)) return; double t0 = std::atan2(p(1, 0), p(0, 0)), t1 = std::atan2(q(1, 0), q(0, 0)), df = std::remainder(t1 - t0, 2 * M_PI); if (std::fabs(df) > 3.1) return; D sa = { len(p.col(0)), len(p.col(1)) }, sb = { len(q.col(0)), len(q.col(1)) };
	for (double t : { 0.0, 0.25, 0.5, 1.0 }) { Mt w = lift(rot2(t0 + df * t) * diag(lerp(sa, sb, t)), lerp({ x(0, 2), x(1, 2) }, { y(0, 2), y(1, 2) }, t)); CK(nr(m(a.interpolate_with(b, t)), w, 1e-3), "Transform2D:interpolate_with", "%s, interpolated at %g: %s, expected %s", in.c_str(), t, S(m(a.interpolate_with(b, t))).c_str(), S(w).c_str()); } }
// ---- projections: what a frustum is, by its edges on the near plane
struct Fr { bool persp; double l, r, b, t, n, f; };
static D ndc(const Mt &x, const D &v) { D w = v; w.push_back(1); w = x * w; return { w[0] / w[3], w[1] / w[3], w[2] / w[3] }; }
static D corner(const Fr &k, double x, double y, double z) { double dz = k.n + (k.f - k.n) * z, g = k.persp ? dz / k.n : 1; return { (k.l + (k.r - k.l) * x) * g, (k.b + (k.t - k.b) * y) * g, -dz }; }
static void proj(const Projection &p, const Fr &k, const std::string &in) { Mt x = m(p); mc::state(in + S(x)); for (double i : { 0.0, 0.3, 1.0 }) for (double j : { 0.0, 0.6, 1.0 }) for (double z : { 0.0, 1.0 }) { D c = corner(k, i, j, z); CK(nr(ndc(x, c), (D{ 2 * i - 1, 2 * j - 1, 2 * z - 1 }), 1e-3), "Projection:map", "%s takes %s to %s", in.c_str(), s(c).c_str(), s(ndc(x, c)).c_str()); Vector3 g = p.xform(V(c)); CK(nr(d(g), (D{ 2 * i - 1, 2 * j - 1, 2 * z - 1 }), 1e-3), "Projection:xform", "%s applied to %s is %s", in.c_str(), s(c).c_str(), S(g).c_str()); }
	CK(p.is_orthogonal() == !k.persp, "Projection:is_orthogonal", "is_orthogonal of %s", in.c_str()); CK(nr(p.get_z_near(), k.n, 2e-3) && nr(p.get_z_far(), k.f, 2e-2), "Projection:near_far", "near and far of %s are %g and %g", in.c_str(), p.get_z_near(), p.get_z_far()); bool mid = std::fabs(k.l + k.r) < 1e-6 && std::fabs(k.b + k.t) < 1e-6; double w = (k.r - k.l) / 2, h = (k.t - k.b) / 2;
	if (mid) { Vector2 v = p.get_viewport_half_extents(), fe = p.get_far_plane_half_extents(); double g = k.persp ? k.f / k.n : 1; CK(nr(d(v), (D{ w, h }), 2e-3), "Projection:half_extents", "half extents of %s are %s, expected %g, %g", in.c_str(), S(v).c_str(), w, h); CK(nr(d(fe), (D{ w * g, h * g }), 2e-2), "Projection:half_extents", "far half extents of %s are %s, expected %g, %g", in.c_str(), S(fe).c_str(), w * g, h * g); CK(nr(p.get_aspect(), w / h, 2e-3), "Projection:aspect", "aspect of %s is %g, expected %g", in.c_str(), p.get_aspect(), w / h); CK(nr(p.get_lod_multiplier(), k.persp ? 2 * w / k.n : w, 2e-3), "Projection:lod", "detail factor of %s is %g", in.c_str(), p.get_lod_multiplier()); }
	if (k.persp) { if (k.l < 0 && k.r > 0) { double fov = (std::atan(k.r / k.n) - std::atan(k.l / k.n)) * 180 / M_PI; CK(std::fabs(p.get_fov() - fov) < 0.2, "Projection:fov", "field of view of %s is %g, expected %g", in.c_str(), p.get_fov(), fov); } for (double zn : { k.n * 0.5, k.n * 2 }) { Projection q = p.perspective_znear_adjusted(zn); Fr e = k; double g = zn / k.n; e.l *= g; e.r *= g; e.b *= g; e.t *= g; e.n = zn; for (int i = 0; i < 8; i++) { D c = corner(e, i & 1, i >> 1 & 1, i >> 2); CK(nr(ndc(m(q), c), (D{ (i & 1) * 2.0 - 1, (i >> 1 & 1) * 2.0 - 1, (i >> 2) * 2.0 - 1 }), 2e-3), "Projection:znear", "%s with near %g takes %s to %s", in.c_str(), zn, s(c).c_str(), s(ndc(m(q), c)).c_str()); } } }
	Transform vw(Basis(Vector3(0.6, 0, 0.8), 0.5), Vector3(1, 2, -3)); for (auto &t : { Transform(), vw }) { Vector3 e[8]; CK(p.get_endpoints(t, e), "Projection:endpoints", "%s has no corners", in.c_str()); static const int who[8][3] = { { 0, 1, 1 }, { 0, 0, 1 }, { 1, 1, 1 }, { 1, 0, 1 }, { 0, 1, 0 }, { 0, 0, 0 }, { 1, 1, 0 }, { 1, 0, 0 } }; for (int i = 0; i < 8; i++) { D c = pt(m(t), corner(k, who[i][0], who[i][1], who[i][2])); CK(nr(d(e[i]), c, 1e-2), "Projection:endpoints", "corner %d of %s is %s, expected %s", i, in.c_str(), S(e[i]).c_str(), s(c).c_str()); }
		Vector<Plane> pl = p.get_projection_planes(t); CK(pl.size() == 6, "Projection:planes", "%s has %d planes", in.c_str(), pl.size()); for (double i : { -0.2, 0.4, 1.2 }) for (double j : { -0.3, 0.7, 1.1 }) for (double z : { -0.005, 0.5, 1.1 }) { D c = corner(k, i, j, z); if (k.persp && -c[2] <= 0.1 * k.n) continue; D wc = pt(m(t), c); static const char *nm[6] = { "near", "far", "left", "top", "right", "bottom" }; bool out[6] = { z < 0, z > 1, i < 0, j > 1, i > 1, j < 0 }; for (int a = 0; a < 6; a++) { double h = pl[a].distance_to(V(wc)); if (std::fabs(h) < 1e-4) continue; CK((h > 0) == out[a], "Projection:planes", "%s: %s lies %g over the %s plane", in.c_str(), s(wc).c_str(), h, nm[a]); Plane q = p.get_projection_plane((Projection::Planes)a); CK((q.distance_to(V(c)) > 0) == out[a], "Projection:planes", "%s: the %s plane is %s", in.c_str(), nm[a], S(q).c_str()); } } }
	CK(nr(p.determinant(), det(x), 1e-3), "Projection:determinant", "determinant of %s is %g, expected %g", in.c_str(), p.determinant(), det(x)); Mt iv = m(p.inverse()); CK(nr(x * iv, Mt(4), 2e-3), "Projection:inverse", "inverse of %s is %s", in.c_str(), S(iv).c_str()); { Projection q = p; q.invert(); CK(q == p.inverse(), "Projection:inverse", "invert of %s", in.c_str()); }
	{ Projection q = p; q.flip_y(); Mt w = x; for (int i = 0; i < 4; i++) w(i, 1) = -w(i, 1); MK(m(q), w, "Projection:flip_y", "%s flipped", in.c_str()); CK(p.flipped_y() == q, "Projection:flip_y", "flipped_y of %s", in.c_str()); } { Projection q = p.jitter_offseted(Vector2(0.5, -2)); Mt w = x; w(0, 3) += 0.5; w(1, 3) -= 2; MK(m(q), w, "Projection:jitter", "%s, shifted", in.c_str()); Projection r = p; r.add_jitter_offset(Vector2(0.5, -2)); CK(r == q, "Projection:jitter", "add_jitter_offset on %s", in.c_str()); }
	for (auto &v : { Vector4(1, 2, -3, 1), Vector4(0, -1, 0.5, 2) }) { VK(d(p.xform(v)), x * d(v), "Projection:xform4", "%s applied to %s", in.c_str(), S(v).c_str()); VK(d(p.xform_inv(v)), tr(x) * d(v), "Projection:xform_inv4", "%s applied from behind to %s", in.c_str(), S(v).c_str()); } Projection tp(vw); MK(m(tp), m(vw), "Projection:transform", "a transform as projection"); MK(m((Transform)tp), m(vw), "Projection:transform", "a projection as transform"); MK(m(p * tp), x * m(vw), "Projection:product", "%s times a transform", in.c_str()); MK(m(tp * p), m(vw) * x, "Projection:product", "a transform times %s", in.c_str()); CK(!(p != p) && p == p && !(tp == p) && tp != p, "Projection:equal", "%s equals itself", in.c_str()); }
static void projections(bool th) { D fovs = { 30, 60, 90, 120 }, as = { 0.5, 1, 1.75 }, zn = { 0.125, 1 }, zf = { 8, 100 }; if (th) fovs.push_back(10), fovs.push_back(150), as.push_back(3), zn.push_back(0.5), zf.push_back(20);
	for (double fov : fovs) for (double a : as) MC_CASE("perspective %g, aspect %g", fov, a) for (double n : zn) for (double f : zf) { for (int fl = 0; fl < 2; fl++) { double t = std::tan(fov * M_PI / 360) * n, h = fl ? t / a : t, w = fl ? t : t * a; std::string in = mc::fmt("perspective %g, aspect %g, %g to %g, flip %d", fov, a, n, f, fl); Fr k = { true, -w, w, -h, h, n, f }; Projection p; p.set_perspective(fov, a, n, f, (bool)fl); proj(p, k, in); CK(Projection::create_perspective(fov, a, n, f, (bool)fl) == p, "Projection:create", "%s", in.c_str()); Mt x = m(p); for (int eye = 1; eye <= 2; eye++) for (double cv : { 2.0, 5.0 }) { Projection q; q.set_perspective(fov, a, n, f, (bool)fl, eye, 0.5, cv); for (double u : { -1.0, 0.5 }) { D c = { u, 0.25, -cv }, e = ndc(x, c), g = ndc(m(q), c); CK(nr(e, g, 1e-3), "Projection:eyes", "%s: eye %d sees %s, on the plane where both eyes agree, at %s, expected %s", in.c_str(), eye, s(c).c_str(), s(g).c_str(), s(e).c_str()); D far_ = { u, 0.25, -(cv + 1) }; double sh = ndc(m(q), far_)[0] - ndc(x, far_)[0]; CK(eye == 1 ? sh < 0 : sh > 0, "Projection:eyes", "%s: eye %d sees what lies beyond shifted by %g", in.c_str(), eye, sh); } } } CK(nr(Projection::get_fovy(fov, a), 2 * std::atan(a * std::tan(fov * M_PI / 360)) * 180 / M_PI, 1e-3), "Projection:get_fovy", "vertical angle of %g at %g is %g", fov, a, Projection::get_fovy(fov, a)); }
	for (double l : { -2.0, -1.0, 0.5 }) for (double w : { 1.0, 3.0 }) MC_CASE("sides from %g by %g", l, w) for (double b : { -1.0, 0.25 }) for (double h : { 2.0, 0.5 }) for (double n : zn) for (double f : zf) for (int pe = 0; pe < 2; pe++) { Fr k = { (bool)pe, l, l + w, b, b + h, n, f }; std::string in = mc::fmt("%s %g..%g, %g..%g, %g..%g", pe ? "frustum" : "box", l, l + w, b, b + h, n, f); Projection p; if (pe) p.set_frustum(l, l + w, b, b + h, n, f); else p.set_orthogonal(l, l + w, b, b + h, n, f); proj(p, k, in); CK((pe ? Projection::create_frustum(l, l + w, b, b + h, n, f) : Projection::create_orthogonal(l, l + w, b, b + h, n, f)) == p, "Projection:create", "%s", in.c_str()); }
	for (double sz : { 0.5, 2.0 }) for (double a : as) MC_CASE("size %g, aspect %g", sz, a) for (int fl = 0; fl < 2; fl++) for (double n : zn) for (double f : zf) { double w = fl ? sz : sz * a, h = fl ? sz / a : sz; { Fr k = { false, -w / 2, w / 2, -h / 2, h / 2, n, f }; Projection p; p.set_orthogonal(sz, a, n, f, (bool)fl); proj(p, k, mc::fmt("box of size %g, aspect %g, flip %d, %g..%g", sz, a, fl, n, f)); CK(Projection::create_orthogonal_aspect(sz, a, n, f, (bool)fl) == p, "Projection:create", "box of size %g", sz); } Vector2 of(0.25, -0.5); Fr k = { true, -w / 2 + of.x, w / 2 + of.x, -h / 2 + of.y, h / 2 + of.y, n, f }; Projection p; p.set_frustum(sz, a, of, n, f, (bool)fl); proj(p, k, mc::fmt("frustum of size %g, aspect %g, flip %d, %g..%g", sz, a, fl, n, f)); CK(Projection::create_frustum_aspect(sz, a, of, n, f, (bool)fl) == p, "Projection:create", "frustum of size %g", sz); }
	MC_CASE("fixed matrices") { Projection p; MK(m(p), Mt(4), "Projection:identity", "a new projection"); p.set_zero(); MK(m(p), Mt(4, D(16)), "Projection:zero", "set_zero"); p.set_identity(); MK(m(p), Mt(4), "Projection:identity", "set_identity"); p.set_light_bias(); D v = ndc(m(p), { -1, 0.5, 1 }); VK(v, (D{ 0, 0.75, 1 }), "Projection:light_bias", "light bias of (-1, 0.5, 1)"); for (int fl = 0; fl < 2; fl++) { p.set_depth_correction(fl); VK(ndc(m(p), { 0.5, 0.25, -1 }), (D{ 0.5, fl ? -0.25 : 0.25, 0 }), "Projection:depth_correction", "depth correction, flip %d", fl); CK(Projection::create_depth_correction(fl) == p, "Projection:create", "depth correction"); } p.set_light_atlas_rect(Rect2(0.25, 0.5, 0.125, 0.0625)); VK(ndc(m(p), { 1, 2, 3 }), (D{ 0.375, 0.625, 3 }), "Projection:light_atlas", "place in the atlas"); CK(Projection::create_light_atlas_rect(Rect2(0.25, 0.5, 0.125, 0.0625)) == p, "Projection:create", "light atlas"); p.make_scale(Vector3(2, 3, -1)); VK(ndc(m(p), { 1, 2, 3 }), (D{ 2, 6, -3 }), "Projection:make_scale", "make_scale"); for (auto &b : { AABB(Vector3(0, 1, 2), Vector3(2, 3, 4)), AABB(Vector3(-3, -1, 0), Vector3(1, 0.5, 8)) }) { p = Projection::create_fit_aabb(b); for (int i = 0; i < 8; i++) { Vector3 c = b.position + b.size * Vector3(i & 1, i >> 1 & 1, i >> 2); VK(ndc(m(p), d(c)), (D{ (i & 1) * 2.0 - 1, (i >> 1 & 1) * 2.0 - 1, (i >> 2) * 2.0 - 1 }), "Projection:fit", "fit to %s of %s", S(b).c_str(), S(c).c_str()); } Projection q; q.scale_translate_to_fit(b); CK(q == p, "Projection:fit", "scale_translate_to_fit to %s", S(b).c_str()); } } }
// ---- triangles
static D nearest(const D &p, const D &a, const D &b, const D &c) { D best; double bd = 1e30; auto tryp = [&](const D &q) { double v = len(sub(p, q)); if (v < bd) bd = v, best = q; }; auto seg = [&](const D &u, const D &v) { D w = sub(v, u); double t = dot(w, w) > 0 ? dot(sub(p, u), w) / dot(w, w) : 0; tryp(add(u, sc(w, std::max(0.0, std::min(1.0, t))))); }; seg(a, b); seg(b, c); seg(c, a); D n = crs(sub(b, a), sub(c, a)); if (dot(n, n) > 0) { D q = sub(p, sc(n, dot(sub(p, a), n) / dot(n, n))); if (dot(crs(sub(b, a), sub(q, a)), n) >= 0 && dot(crs(sub(c, b), sub(q, b)), n) >= 0 && dot(crs(sub(a, c), sub(q, c)), n) >= 0) tryp(q); } return best; }
static double gap(const std::vector<D> &a, const std::vector<D> &b) { std::vector<D> axes = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; D e[3] = { sub(a[1], a[0]), sub(a[2], a[1]), sub(a[0], a[2]) }; axes.push_back(crs(e[0], e[1])); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { D u(3); u[j] = 1; axes.push_back(crs(e[i], u)); } double best = -1e30; for (auto &x : axes) { double l = len(x); if (l < 1e-9) continue; double a0 = 1e30, a1 = -1e30, b0 = 1e30, b1 = -1e30; for (auto &p : a) { double v = dot(p, x) / l; a0 = std::min(a0, v); a1 = std::max(a1, v); } for (auto &p : b) { double v = dot(p, x) / l; b0 = std::min(b0, v); b1 = std::max(b1, v); } best = std::max(best, std::max(a0 - b1, b0 - a1)); } return best; }
static double area(const D &a, const D &b, const D &c) { return len(crs(sub(b, a), sub(c, a))) / 2; }
static void face(const Face3 &f, bool th) { D a = d(f.vertex[0]), b = d(f.vertex[1]), c = d(f.vertex[2]); std::string in = s(a) + s(b) + s(c); mc::state(in); D n = crs(sub(a, c), sub(a, b)); double ar = area(a, b, c); CK(nr(f.get_area(), ar), "Face3:area", "area of %s is %g, expected %g", in.c_str(), f.get_area(), ar); CK(nr(f.get_twice_area_squared(), 4 * ar * ar), "Face3:area", "squared double area of %s is %g", in.c_str(), f.get_twice_area_squared()); VK(d(f.get_median_point()), sc(add(add(a, b), c), 1 / 3.0), "Face3:median", "middle of %s", in.c_str()); CK(f.is_degenerate() == (ar < 1e-9), "Face3:is_degenerate", "is_degenerate of %s is %d", in.c_str(), f.is_degenerate()); AABB bb = f.get_aabb(); for (int i = 0; i < 3; i++) { double lo = std::min(a[i], std::min(b[i], c[i])), hi = std::max(a[i], std::max(b[i], c[i])); CK(bb.position[i] == lo && bb.get_end()[i] == hi, "Face3:aabb", "box of %s is %s", in.c_str(), S(bb).c_str()); }
	auto g = grid3(th ? D{ -1, 0.25, 0.5, 1, 2 } : D{ -1, 0.25, 1, 2 }); if (ar < 1e-9) return; D u = unit(n); VK(d(f.get_plane()), (D{ u[0], u[1], u[2], dot(u, a) }), "Face3:plane", "plane of %s", in.c_str()); VK(d(f.get_plane(COUNTERCLOCKWISE)), (D{ -u[0], -u[1], -u[2], -dot(u, a) }), "Face3:plane", "plane of %s, counted the other way", in.c_str());
	for (auto &p : g) { D q = nearest(d(p), a, b, c), r = d(f.get_closest_point_to(p)); CK(nr(len(sub(d(p), r)), len(sub(d(p), q)), 1e-3) && nr(r, q, 1e-3), "Face3:closest", "point of %s closest to %s is %s, expected %s", in.c_str(), S(p).c_str(), s(r).c_str(), s(q).c_str());
		for (auto &q2 : g) { D v = sub(d(q2), d(p)); double den = dot(n, v); if (std::fabs(den) < 1e-6) continue; double t = dot(n, sub(a, d(p))) / den; D h = add(d(p), sc(v, t)); double e0 = dot(crs(sub(a, h), sub(b, h)), n), e1 = dot(crs(sub(b, h), sub(c, h)), n), e2 = dot(crs(sub(c, h), sub(a, h)), n); if (e0 < 0 || e1 < 0 || e2 < 0) e0 = -e0, e1 = -e1, e2 = -e2; double mn = std::min(e0, std::min(e1, e2)); if (std::fabs(mn) < 1e-4 || std::fabs(t) < 1e-4 || std::fabs(t - 1) < 1e-4) continue; bool in2 = mn > 0; Vector3 x; bool r1 = f.intersects_ray(p, V(v), &x); CK(r1 == (in2 && t > 0), "Face3:ray", "%s meets the ray from %s along %s: %d", in.c_str(), S(p).c_str(), s(v).c_str(), r1); if (r1) CK(nr(d(x), h, 1e-3), "Face3:ray", "%s meets the ray from %s along %s at %s", in.c_str(), S(p).c_str(), s(v).c_str(), S(x).c_str()); r1 = f.intersects_segment(p, q2, &x); CK(r1 == (in2 && t > 0 && t < 1), "Face3:segment", "%s meets the segment from %s to %s: %d", in.c_str(), S(p).c_str(), S(q2).c_str(), r1); if (r1) CK(nr(d(x), h, 1e-3), "Face3:segment", "%s meets the segment from %s to %s at %s", in.c_str(), S(p).c_str(), S(q2).c_str(), S(x).c_str()); }
		for (auto &z : { Vector3(0.5, 0.5, 0.5), Vector3(2, 0.25, 1) }) { AABB bx(p + Vector3(0.0625, 0.03125, -0.0625), z); std::vector<D> cs; for (int i = 0; i < 8; i++) cs.push_back(d(bx.position + bx.size * Vector3(i & 1, i >> 1 & 1, i >> 2))); double sp = gap({ a, b, c }, cs); if (std::fabs(sp) > 1e-4) { CK(f.intersects_aabb(bx) == (sp < 0), "Face3:box", "%s meets the box %s: %d", in.c_str(), S(bx).c_str(), f.intersects_aabb(bx)); CK(f.intersects_aabb2(bx) == (sp < 0), "Face3:box", "%s meets the box %s, second way: %d", in.c_str(), S(bx).c_str(), f.intersects_aabb2(bx)); } }
		if (p == Vector3()) continue; for (double k : { -0.5, 0.0, 0.375 }) { Plane pl(p.normalized(), k); D hn = d(pl.normal), h = { dot(hn, a) - k, dot(hn, b) - k, dot(hn, c) - k }; bool near_ = false, over = false, under = false, on = false; for (double v : h) { on = on || std::fabs(v) < 1e-3; if (std::fabs(v) < 1e-3) near_ = near_ || std::fabs(v) > 1e-7; if (v > 1e-3) over = true; if (v < -1e-3) under = true; } if (near_) continue; Face3 res[3]; bool ov[3]; int cnt = f.split_by_plane(pl, res, ov); std::string pi = mc::fmt("%s split by the plane %s", in.c_str(), S(pl).c_str()); CK(over && under ? cnt == (on ? 2 : 3) : cnt <= (over || under ? 1 : 2), "Face3:split", "%s gives %d parts", pi.c_str(), cnt); if (over && under) { double sum = 0; D ctr(3); for (int i = 0; i < cnt; i++) { D x = d(res[i].vertex[0]), y = d(res[i].vertex[1]), z = d(res[i].vertex[2]); double w = area(x, y, z); sum += w; ctr = add(ctr, sc(add(add(x, y), z), w / 3)); for (auto &q : { x, y, z }) { double v = dot(hn, q) - k; CK(ov[i] ? v > -1e-3 : v < 1e-3, "Face3:split", "%s: part %d, said to be %s, reaches %g", pi.c_str(), i, ov[i] ? "over" : "under", v); } CK(dot(crs(sub(x, z), sub(x, y)), n) > -1e-6, "Face3:split", "%s: part %d faces the other way", pi.c_str(), i); } CK(nr(sum, ar, 1e-3) && nr(ctr, sc(add(add(a, b), c), ar / 3), 2e-3), "Face3:split", "%s: the parts measure %g of %g", pi.c_str(), sum, ar); } }
		Transform t(Basis(Vector3(0, 0.6, 0.8), 0.5), Vector3(1, -1, 2)); Vector3 nm = p.normalized(); double v[3], mx = -1e9, mn = 1e9; for (int i = 0; i < 3; i++) v[i] = dot(d(nm), pt(m(t), d(f.vertex[i]))), mx = std::max(mx, v[i]), mn = std::min(mn, v[i]); real_t lo, hi; f.project_range(nm, t, lo, hi); CK(nr(lo, mn, 1e-3) && nr(hi, mx, 1e-3), "Face3:project_range", "range of %s along %s is %g to %g, expected %g to %g", in.c_str(), S(nm).c_str(), lo, hi, mn, mx); Vector3 vs[3]; int vc = 0; f.get_support(nm, t, vs, &vc, 3); double best = -1e9; for (int i = 0; i < vc; i++) best = std::max(best, dot(d(nm), d(vs[i]))); CK(vc >= 1 && vc <= 3 && nr(best, mx, 1e-3), "Face3:support", "%d farthest vertices of %s along %s reach %g, expected %g", vc, in.c_str(), S(nm).c_str(), best, mx); }
	Math::seed(7919); for (int i = 0; i < 20; i++) { D p = d(f.get_random_point_inside()); CK(len(sub(nearest(p, a, b, c), p)) < 1e-4, "Face3:random", "random point %s in %s", s(p).c_str(), in.c_str()); } }
static void faces(const Face3 &f, const Face3 &g) { D a = d(f.vertex[0]), u = unit(crs(sub(a, d(f.vertex[2])), sub(a, d(f.vertex[1])))); bool over = false, under = false; for (int i = 0; i < 3; i++) { double h = dot(u, sub(d(g.vertex[i]), a)); if (std::fabs(h) < 1e-3 && std::fabs(h) > 1e-7) return; if (h > 1e-3) over = true; if (h < -1e-3) under = true; } Face3::Side w = over && under ? Face3::SIDE_SPANNING : over ? Face3::SIDE_OVER : under ? Face3::SIDE_UNDER : Face3::SIDE_COPLANAR, r = f.get_side_of(g); CK(r == w, "Face3:side", "side %d, expected %d, of a triangle at %s against one at %s", r, w, S(g.vertex[0]).c_str(), s(a).c_str()); }
void explore() {
	SFWCore::setup(); bool th = mc::thorough(); std::vector<Transform2D> ts; D g = th ? D{ -1, 0, 0.5, 1, 2 } : D{ -1, 0, 1, 2 }; for (double a : g) for (double b : g) for (double c : g) for (double e : g) ts.push_back(Transform2D(a, b, c, e, a + 2 * c, b - e)); for (int i = 0; i < 24; i++) for (auto &z : { Vector2(1, 1), Vector2(2, 0.5), Vector2(1, -3) }) ts.push_back(Transform2D(i * M_PI / 12, z, i % 3 * 0.3, Vector2(i, -2 * i + 1)));
	for (size_t i = 0; i < ts.size(); i++) MC_CASE("transform %s", S(m(ts[i])).c_str()) { flat1(ts[i]); for (size_t j = 0; j < ts.size(); j += th ? 1 : 1 + (i + j) % 3) flat2(ts[i], ts[j]); }
	projections(th);
	auto pg = grid3({ 0, 1 }); pg.push_back(Vector3(0.5, 0.25, -1)); pg.push_back(Vector3(2, -0.5, 0.75)); for (size_t i = 0; i < pg.size(); i++) for (size_t j = 0; j < pg.size(); j++) MC_CASE("triangles on %s and %s", S(pg[i]).c_str(), S(pg[j]).c_str()) for (size_t k = 0; k < pg.size(); k++) { if (!th && (i > j || i > k)) continue; Face3 f(pg[i], pg[j], pg[k]); face(f, th); if (f.get_area() > 1e-6) for (size_t x = 0; x < 6; x++) for (size_t y = x + 1; y < 8; y++) faces(f, Face3(pg[x], pg[y], pg[9 - (x + y) % 3])); }
}
