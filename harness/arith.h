// Three-form element-wise arithmetic: operand states, forms and aliasing patterns, shared by C02, C05 and C11.
#ifndef MC_ARITH_H
#define MC_ARITH_H
#include "mc.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"

typedef std::vector<int> Dims;
struct Val {
	Dims d; // vector {n}; matrix {rows, cols}; tensor {z, y, x}
	std::vector<float> v;
	std::string s() const {
		std::string r = "(";
		for (int i : d) r += mc::fmt("%d ", i);
		r += ":";
		for (float f : v) r += mc::fmt(" %.7g", f);
		return r + ")";
	}
};
static inline int prod(const Dims &d) { int p = 1; for (int i : d) p *= i; return p; }
static inline bool same(const Val &a, const Val &b) {
	if (a.d != b.d || a.v.size() != b.v.size()) return false;
	for (size_t i = 0; i < a.v.size(); i++) if (memcmp(&a.v[i], &b.v[i], 4) && !(a.v[i] == b.v[i])) return false;
	return true;
}
struct Exp { Dims d; std::vector<double> v; };
static inline bool agrees(const Exp &e, const Val &b, double rtol = 2e-5, double atol = 2e-6) {
	if (e.d != b.d || e.v.size() != b.v.size()) return false;
	for (size_t i = 0; i < e.v.size(); i++) {
		double x = e.v[i], y = b.v[i];
		if (std::fabs(x) > 3.3e38 && std::isinf(y) && (x > 0) == (y > 0)) continue;
		if (!mc::close(x, y, rtol, atol)) return false;
	}
	return true;
}
static inline std::string es(const Exp &e) { Val v; v.d = e.d; for (double x : e.v) v.v.push_back((float)x); return v.s(); }

static inline Ref<MLPPVector> mkv(const std::vector<float> &v) { Ref<MLPPVector> r; r.instance(); r->resize(v.size()); for (size_t i = 0; i < v.size(); i++) r->element_set(i, v[i]); return r; }
static inline Ref<MLPPMatrix> mkm(int rows, int cols, const std::vector<float> &v) { Ref<MLPPMatrix> r; r.instance(); r->resize(Size2i(cols, rows)); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) r->element_set(i, j, v[i * cols + j]); return r; }
static inline Ref<MLPPTensor3> mkt(int z, int y, int x, const std::vector<float> &v) { Ref<MLPPTensor3> r; r.instance(); r->resize(Size3i(x, y, z)); for (int k = 0; k < z; k++) for (int i = 0; i < y; i++) for (int j = 0; j < x; j++) r->element_set(k, i, j, v[(k * y + i) * x + j]); return r; }
static inline Val dump(Ref<MLPPVector> r) { Val o; if (!r.is_valid()) { o.d = { -1 }; return o; } o.d = { r->size() }; for (int i = 0; i < r->size(); i++) o.v.push_back(r->element_get(i)); return o; }
static inline Val dump(Ref<MLPPMatrix> r) { Val o; if (!r.is_valid()) { o.d = { -1 }; return o; } o.d = { r->size().y, r->size().x }; for (int i = 0; i < r->size().y; i++) for (int j = 0; j < r->size().x; j++) o.v.push_back(r->element_get(i, j)); return o; }
static inline Val dump(Ref<MLPPTensor3> r) { Val o; if (!r.is_valid()) { o.d = { -1 }; return o; } Size3i s = r->size(); o.d = { s.z, s.y, s.x }; for (int k = 0; k < s.z; k++) for (int i = 0; i < s.y; i++) for (int j = 0; j < s.x; j++) o.v.push_back(r->element_get(k, i, j)); return o; }
template <class T> struct Mk;
template <> struct Mk<MLPPVector> { static Ref<MLPPVector> mk(const Val &v) { return mkv(v.v); } static const char *n() { return "vec"; } };
template <> struct Mk<MLPPMatrix> { static Ref<MLPPMatrix> mk(const Val &v) { return mkm(v.d[0], v.d[1], v.v); } static const char *n() { return "mat"; } };
template <> struct Mk<MLPPTensor3> { static Ref<MLPPTensor3> mk(const Val &v) { return mkt(v.d[0], v.d[1], v.d[2], v.v); } static const char *n() { return "ten"; } };

template <class T> struct BinOp {
	std::string name;
	double (*f)(double, double);
	void (*ip)(T &, const Ref<T> &);
	Ref<T> (*n)(T &, const Ref<T> &);
	void (*b)(T &, const Ref<T> &, const Ref<T> &); // may be null
};
template <class T> struct UnOp {
	std::string name;
	double (*f)(double);
	void (*ip)(T &);
	Ref<T> (*n)(T &);
	void (*b)(T &, const Ref<T> &);
};
template <class T> struct ScOp {
	std::string name;
	double (*f)(double, double); // f(element, scalar)
	void (*ip)(T &, real_t);
	Ref<T> (*n)(T &, real_t);
	void (*b)(T &, const Ref<T> &, real_t);
};

template <class T> struct Arith {
	typedef Ref<T> O;
	std::vector<Val> dests; // stale destinations
	std::string key(const std::string &op, const char *form) { return std::string(Mk<T>::n()) + ":" + op + ":" + form; }
	void unchanged(const std::string &k, const Val &was, const O &r, const char *who) {
		Val now = dump(r);
		mc::ok(same(was, now), k + ":operand", "%s: operand %s was %s and became %s", k.c_str(), who, was.s().c_str(), now.s().c_str());
	}
	void result(const std::string &k, const Exp &e, const O &r, const std::string &in) {
		mc::transition();
		Val now = dump(r);
		mc::state(std::string(Mk<T>::n()) + now.s());
		mc::ok(agrees(e, now), k + ":value", "%s on %s: expected %s, got %s", k.c_str(), in.c_str(), es(e).c_str(), now.s().c_str());
	}
	void bin(const BinOp<T> &o, const Val &A, const Val &B) {
		std::string in = A.s() + " " + B.s();
		if (A.d == B.d) {
			Exp e; e.d = A.d;
			for (size_t i = 0; i < A.v.size(); i++) e.v.push_back(o.f(A.v[i], B.v[i]));
			{ std::string k = key(o.name, "inplace"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B); o.ip(*a.ptr(), b); result(k, e, a, in); unchanged(k, B, b, "b"); }
			{ std::string k = key(o.name, "n"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B); O r = o.n(*a.ptr(), b); result(k, e, r, in); unchanged(k, A, a, "a"); unchanged(k, B, b, "b"); mc::ok(r.ptr() != a.ptr() && r.ptr() != b.ptr(), k + ":fresh", "%s returns one of its operands", k.c_str()); }
			if (o.b) {
				for (const Val &D : dests) { std::string k = key(o.name, "b"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B), c = Mk<T>::mk(D); o.b(*c.ptr(), a, b); result(k, e, c, in + " dest " + D.s()); unchanged(k, A, a, "a"); unchanged(k, B, b, "b"); }
				{ std::string k = key(o.name, "b:dest=a"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B); o.b(*a.ptr(), a, b); result(k, e, a, in); unchanged(k, B, b, "b"); }
				{ std::string k = key(o.name, "b:dest=b"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B); o.b(*b.ptr(), a, b); result(k, e, b, in); unchanged(k, A, a, "a"); }
			}
			if (same(A, B)) {
				{ std::string k = key(o.name, "inplace:self"); O a = Mk<T>::mk(A); o.ip(*a.ptr(), a); result(k, e, a, in); }
				{ std::string k = key(o.name, "n:self"); O a = Mk<T>::mk(A); O r = o.n(*a.ptr(), a); result(k, e, r, in); unchanged(k, A, a, "a"); }
				if (o.b) { std::string k = key(o.name, "b:all-same"); O a = Mk<T>::mk(A); o.b(*a.ptr(), a, a); result(k, e, a, in); }
			}
		} else {
			mc::transition();
			{ std::string k = key(o.name, "inplace:mismatch"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B); o.ip(*a.ptr(), b); unchanged(k, A, a, "a"); unchanged(k, B, b, "b"); }
			{ std::string k = key(o.name, "n:mismatch"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B); O r = o.n(*a.ptr(), b); mc::ok(!r.is_valid(), k + ":null", "%s on %s: expected no result, got %s", k.c_str(), in.c_str(), dump(r).s().c_str()); unchanged(k, A, a, "a"); unchanged(k, B, b, "b"); }
			if (o.b) for (const Val &D : dests) { std::string k = key(o.name, "b:mismatch"); O a = Mk<T>::mk(A), b = Mk<T>::mk(B), c = Mk<T>::mk(D); o.b(*c.ptr(), a, b); unchanged(k, A, a, "a"); unchanged(k, B, b, "b"); unchanged(k, D, c, "destination"); }
		}
	}
	void bin_null(const BinOp<T> &o, const Val &A) {
		mc::transition();
		O nul;
		{ std::string k = key(o.name, "inplace:null"); O a = Mk<T>::mk(A); o.ip(*a.ptr(), nul); unchanged(k, A, a, "a"); }
		{ std::string k = key(o.name, "n:null"); O a = Mk<T>::mk(A); O r = o.n(*a.ptr(), nul); mc::ok(!r.is_valid(), k + ":null", "%s gives a result for a missing operand", k.c_str()); unchanged(k, A, a, "a"); }
		if (o.b) {
			std::string k = key(o.name, "b:null");
			O a = Mk<T>::mk(A), c = Mk<T>::mk(A);
			o.b(*c.ptr(), a, nul); unchanged(k, A, c, "destination"); unchanged(k, A, a, "a");
			o.b(*c.ptr(), nul, a); unchanged(k, A, c, "destination"); unchanged(k, A, a, "a");
			o.b(*c.ptr(), nul, nul); unchanged(k, A, c, "destination");
		}
	}
	void un(const UnOp<T> &o, const Val &A) {
		Exp e; e.d = A.d;
		for (float x : A.v) e.v.push_back(o.f(x));
		std::string in = A.s();
		{ std::string k = key(o.name, "inplace"); O a = Mk<T>::mk(A); o.ip(*a.ptr()); result(k, e, a, in); }
		{ std::string k = key(o.name, "n"); O a = Mk<T>::mk(A); O r = o.n(*a.ptr()); result(k, e, r, in); unchanged(k, A, a, "a"); mc::ok(r.ptr() != a.ptr(), k + ":fresh", "%s returns its operand", k.c_str()); }
		for (const Val &D : dests) { std::string k = key(o.name, "b"); O a = Mk<T>::mk(A), c = Mk<T>::mk(D); o.b(*c.ptr(), a); result(k, e, c, in + " dest " + D.s()); unchanged(k, A, a, "a"); }
		{ std::string k = key(o.name, "b:dest=a"); O a = Mk<T>::mk(A); o.b(*a.ptr(), a); result(k, e, a, in); }
		{ std::string k = key(o.name, "b:null"); O a = Mk<T>::mk(A); o.b(*a.ptr(), O()); unchanged(k, A, a, "destination"); }
	}
	void sc(const ScOp<T> &o, const Val &A, float s) {
		Exp e; e.d = A.d;
		for (float x : A.v) e.v.push_back(o.f(x, s));
		std::string in = A.s() + mc::fmt(" scalar %g", s);
		{ std::string k = key(o.name, "inplace"); O a = Mk<T>::mk(A); o.ip(*a.ptr(), s); result(k, e, a, in); }
		{ std::string k = key(o.name, "n"); O a = Mk<T>::mk(A); O r = o.n(*a.ptr(), s); result(k, e, r, in); unchanged(k, A, a, "a"); mc::ok(r.ptr() != a.ptr(), k + ":fresh", "%s returns its operand", k.c_str()); }
		for (const Val &D : dests) { std::string k = key(o.name, "b"); O a = Mk<T>::mk(A), c = Mk<T>::mk(D); o.b(*c.ptr(), a, s); result(k, e, c, in + " dest " + D.s()); unchanged(k, A, a, "a"); }
		{ std::string k = key(o.name, "b:dest=a"); O a = Mk<T>::mk(A); o.b(*a.ptr(), a, s); result(k, e, a, in); }
		{ std::string k = key(o.name, "b:null"); O a = Mk<T>::mk(A); o.b(*a.ptr(), O(), s); unchanged(k, A, a, "destination"); }
	}
};

#define BIN(T, nm, expr) BinOp<T>{ #nm, [](double x, double y) -> double { return expr; }, [](T &a, const Ref<T> &b) { a.nm(b); }, [](T &a, const Ref<T> &b) { return a.nm##n(b); }, [](T &c, const Ref<T> &a, const Ref<T> &b) { c.nm##b(a, b); } }
#define UN(T, nm, expr) UnOp<T>{ #nm, [](double x) -> double { return expr; }, [](T &a) { a.nm(); }, [](T &a) { return a.nm##n(); }, [](T &c, const Ref<T> &a) { c.nm##b(a); } }
#define SC(T, nm, expr) ScOp<T>{ #nm, [](double x, double s) -> double { return expr; }, [](T &a, real_t s) { a.nm(s); }, [](T &a, real_t s) { return a.nm##n(s); }, [](T &c, const Ref<T> &a, real_t s) { c.nm##b(s, a); } }
#define SC_AS(T, nm, expr) ScOp<T>{ #nm, [](double x, double s) -> double { return expr; }, [](T &a, real_t s) { a.nm(s); }, [](T &a, real_t s) { return a.nm##n(s); }, [](T &c, const Ref<T> &a, real_t s) { c.nm##b(a, s); } }

template <class T> std::vector<UnOp<T>> unops() {
	return { UN(T, log, std::log(x)), UN(T, log10, std::log10(x)), UN(T, exp, std::exp(x)), UN(T, erf, std::erf(x)),
		UN(T, sqrt, std::sqrt(x)), UN(T, cbrt, std::cbrt(x)), UN(T, abs, std::fabs(x)), UN(T, sin, std::sin(x)), UN(T, cos, std::cos(x)) };
}

// all tuples of length n over vals
static inline void tuples(const std::vector<float> &vals, int n, const std::function<void(const std::vector<float> &)> &f) {
	std::vector<float> t(n);
	std::function<void(int)> rec = [&](int i) { if (i == n) { f(t); return; } for (float v : vals) { t[i] = v; rec(i + 1); } };
	rec(0);
}
// position-coded value patterns for larger shapes
static inline std::vector<Val> patterns(const Dims &d) {
	std::vector<Val> r;
	int n = prod(d);
	const float tab[7] = { 0.5f, -1, 2, 3, -0.25f, 1, 4 };
	for (int p = 0; p < 4; p++) {
		Val v; v.d = d;
		for (int i = 0; i < n; i++) v.v.push_back(p == 0 ? i + 1 : p == 1 ? tab[(i * 3 + 1) % 7] : p == 2 ? -(i + 1) * 0.5f : tab[(i * 5 + 2) % 7] * (i % 2 ? 1 : -1));
		r.push_back(v);
	}
	return r;
}
#endif
