// small double-precision linear algebra: the oracle of the geometry harnesses
#pragma once
#include "mc.h"
#include "sfw.h"
#include <cmath>
#include <vector>
#include <algorithm>
typedef std::vector<double> D;
#define CK(cond, key, ...) do { mc::transition(); mc::S().checks++; if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
static inline bool nr(double a, double b, double t = 1e-4) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= t * (1 + std::fabs(b)); }
static inline bool nr(const D &a, const D &b, double t = 1e-4) { if (a.size() != b.size()) return false; double m = 0; for (double x : b) m = std::max(m, std::fabs(x)); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= t * (1 + m))) return false; return true; }
static inline D d(const Vector2 &v) { return { v.x, v.y }; }
static inline D d(const Vector3 &v) { return { v.x, v.y, v.z }; }
static inline D d(const Vector2i &v) { return { (double)v.x, (double)v.y }; }
static inline D d(const Vector3i &v) { return { (double)v.x, (double)v.y, (double)v.z }; }
static inline D d(const Vector4 &v) { return { v.x, v.y, v.z, v.w }; }
static inline D d(const Quaternion &q) { return { q.x, q.y, q.z, q.w }; }
static inline D d(const AABB &a) { return { a.position.x, a.position.y, a.position.z, a.size.x, a.size.y, a.size.z }; }
static inline D d(const Rect2 &a) { return { a.position.x, a.position.y, a.size.x, a.size.y }; }
static inline D d(const Plane &p) { return { p.normal.x, p.normal.y, p.normal.z, p.d }; }
static inline std::string s(const D &v) { std::string r = "("; for (double x : v) r += mc::fmt(r.size() > 1 ? ", %.6g" : "%.6g", x); return r + ")"; }
template <class V> static inline std::string S(const V &v) { return s(d(v)); }
static inline double dot(const D &a, const D &b) { double r = 0; for (size_t i = 0; i < a.size(); i++) r += a[i] * b[i]; return r; }
static inline double len(const D &a) { return std::sqrt(dot(a, a)); }
static inline D sc(const D &a, double k) { D r = a; for (double &x : r) x *= k; return r; }
static inline D add(const D &a, const D &b) { D r = a; for (size_t i = 0; i < a.size(); i++) r[i] += b[i]; return r; }
static inline D sub(const D &a, const D &b) { return add(a, sc(b, -1)); }
static inline D unit(const D &a) { double l = len(a); return l > 0 ? sc(a, 1 / l) : a; }
static inline D crs(const D &a, const D &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static inline D lerp(const D &a, const D &b, double t) { return add(a, sc(sub(b, a), t)); }
// square matrices, row by row
struct Mt { int n; D a; Mt(int n_ = 3) : n(n_), a(n_ * n_) { for (int i = 0; i < n; i++) a[i * n + i] = 1; } Mt(int n_, const D &v) : n(n_), a(v) {} double &operator()(int i, int j) { return a[i * n + j]; } double operator()(int i, int j) const { return a[i * n + j]; }
	D col(int j) const { D r; for (int i = 0; i < n; i++) r.push_back(a[i * n + j]); return r; } D row(int i) const { return D(a.begin() + i * n, a.begin() + i * n + n); } };
static inline Mt operator*(const Mt &x, const Mt &y) { Mt r(x.n, D(x.n * x.n)); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) for (int k = 0; k < x.n; k++) r(i, j) += x(i, k) * y(k, j); return r; }
static inline D operator*(const Mt &x, const D &v) { D r(x.n); for (int i = 0; i < x.n; i++) for (int k = 0; k < x.n; k++) r[i] += x(i, k) * v[k]; return r; }
static inline Mt tr(const Mt &x) { Mt r(x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) r(i, j) = x(j, i); return r; }
static inline Mt diag(const D &v) { Mt r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i, i) = v[i]; return r; }
static inline bool gj(const Mt &x, Mt *inv, double *det) { int n = x.n; Mt a = x, b(n); double dt = 1; for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (std::fabs(a(r, c)) > std::fabs(a(p, c))) p = r; if (std::fabs(a(p, c)) < 1e-12) { if (det) *det = 0; return false; } if (p != c) { dt = -dt; for (int k = 0; k < n; k++) std::swap(a(p, k), a(c, k)), std::swap(b(p, k), b(c, k)); } double v = a(c, c); dt *= v; for (int k = 0; k < n; k++) a(c, k) /= v, b(c, k) /= v; for (int r = 0; r < n; r++) if (r != c) { double f = a(r, c); for (int k = 0; k < n; k++) a(r, k) -= f * a(c, k), b(r, k) -= f * b(c, k); } } if (det) *det = dt; if (inv) *inv = b; return true; }
static inline double det(const Mt &x) { double v = 0; gj(x, nullptr, &v); return v; }
static inline Mt inv(const Mt &x) { Mt r(x.n); gj(x, &r, nullptr); return r; }
static inline bool nr(const Mt &a, const Mt &b, double t = 1e-4) { return nr(a.a, b.a, t); }
static inline bool ortho(const Mt &m, double t = 1e-4) { return nr(m * tr(m), Mt(m.n), t); }
static inline Mt m(const Basis &b) { Mt r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = b[i][j]; return r; }
static inline Mt m(const Transform &t) { Mt r(4); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) r(i, j) = t.basis[i][j]; r(i, 3) = t.origin[i]; } return r; }
static inline Mt m(const Transform2D &t) { Mt r(3); for (int j = 0; j < 3; j++) { r(0, j) = t.columns[j].x; r(1, j) = t.columns[j].y; } return r; }
static inline Mt m(const Projection &p) { Mt r(4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r(i, j) = p.matrix[j][i]; return r; }
static inline std::string S(const Mt &x) { return s(x.a); }
static inline Basis B(const Mt &x) { return Basis(x(0, 0), x(0, 1), x(0, 2), x(1, 0), x(1, 1), x(1, 2), x(2, 0), x(2, 1), x(2, 2)); }
static inline Vector3 V(const D &v) { return Vector3(v[0], v[1], v[2]); }
// the turn by t about the unit axis k (Rodrigues)
static inline Mt turn(const D &k, double t) { Mt r; double c = std::cos(t), sn = std::sin(t); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = (i == j ? c : 0) + (1 - c) * k[i] * k[j]; r(0, 1) -= sn * k[2]; r(0, 2) += sn * k[1]; r(1, 0) += sn * k[2]; r(1, 2) -= sn * k[0]; r(2, 0) -= sn * k[1]; r(2, 1) += sn * k[0]; return r; }
static inline Mt ax(int i, double t) { D k(3); k[i] = 1; return turn(k, t); }
static inline Mt lift(const Mt &b, const D &o) { int n = b.n; Mt r(n + 1); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) r(i, j) = b(i, j); r(i, n) = o[i]; } return r; }
static inline D pt(const Mt &x, D v, double w = 1) { v.push_back(w); v = x * v; double q = v.back(); v.pop_back(); (void)q; return v; }
static inline std::vector<Vector2> grid2(const D &g) { std::vector<Vector2> r; for (double x : g) for (double y : g) r.push_back(Vector2(x, y)); return r; }
static inline std::vector<Vector3> grid3(const D &g) { std::vector<Vector3> r; for (double x : g) for (double y : g) for (double z : g) r.push_back(Vector3(x, y, z)); return r; }
