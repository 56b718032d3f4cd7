// MC: variant=asan
// C06: products, transposition and related structural operations against their definitions.
#include "arith.h"
typedef MLPPMatrix T;
typedef Ref<MLPPMatrix> RM;
typedef Ref<MLPPVector> RV;

static Exp mm(const Val &A, const Val &B) { Exp e; int h = A.d[0], n = A.d[1], w = B.d[1]; e.d = { h, w }; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { double s = 0; for (int k = 0; k < n; k++) s += (double)A.v[i * n + k] * B.v[k * w + j]; e.v.push_back(s); } return e; }
static Exp kr(const Val &A, const Val &B) { Exp e; int h = A.d[0] * B.d[0], w = A.d[1] * B.d[1]; e.d = { h, w }; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) e.v.push_back((double)A.v[(i / B.d[0]) * A.d[1] + j / B.d[1]] * B.v[(i % B.d[0]) * B.d[1] + j % B.d[1]]); return e; }
static Exp tr(const Val &A) { Exp e; e.d = { A.d[1], A.d[0] }; for (int j = 0; j < A.d[1]; j++) for (int i = 0; i < A.d[0]; i++) e.v.push_back(A.v[i * A.d[1] + j]); return e; }
static Val val(const Exp &e) { Val v; v.d = e.d; for (double x : e.v) v.v.push_back((float)x); return v; }

void explore() {
	Arith<T> ar;
	ar.dests = { Val{ { 0, 0 }, {} }, Val{ { 1, 1 }, { 9 } }, Val{ { 2, 2 }, { 8, 9, 7, 6 } }, Val{ { 3, 2 }, { 7, 8, 9, 6, 5, 4 } } };
	std::vector<Val> all;
	all.push_back(Val{ { 0, 0 }, {} });
	auto shape = [&](int h, int w, const std::vector<float> &vs) { tuples(vs, h * w, [&](const std::vector<float> &t) { all.push_back(Val{ { h, w }, t }); }); };
	shape(1, 1, { 0, 1, -2, 3 });
	shape(2, 2, mc::thorough() ? std::vector<float>{ 0, 1, -2 } : std::vector<float>{ 1, -2 });
	int mx = mc::thorough() ? 5 : 4;
	for (int h = 1; h <= mx; h++) for (int w = 1; w <= mx; w++) if (h * w > 1 && !(h == 2 && w == 2)) { std::vector<Val> ps = patterns({ h, w }); for (size_t i = 0; i < (h <= 3 && w <= 3 ? ps.size() : 2); i++) all.push_back(ps[i]); }

	for (Dims d : { Dims{ 5, 9 }, Dims{ 9, 5 }, Dims{ 8, 8 }, Dims{ 17, 16 }, Dims{ 16, 17 }, Dims{ 33, 3 }, Dims{ 3, 33 } }) all.push_back(patterns(d)[1]);
	for (const Val &A : all) MC_CASE("products of %s with every matrix, all forms", A.s().c_str()) for (const Val &B : all) {
		std::string in = A.s() + " x " + B.s();
		mc::step(in);
		bool fits = A.d[1] == B.d[0];
		if (fits) {
			Exp e = mm(A, B);
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); a->mult(b); ar.result("mat:mult:inplace", e, a, in); ar.unchanged("mat:mult:inplace", B, b, "b"); }
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); RM r = a->multn(b); ar.result("mat:mult:n", e, r, in); ar.unchanged("mat:mult:n", A, a, "a"); ar.unchanged("mat:mult:n", B, b, "b"); }
			for (const Val &D : ar.dests) { RM a = Mk<T>::mk(A), b = Mk<T>::mk(B), c = Mk<T>::mk(D); c->multb(a, b); ar.result("mat:mult:b", e, c, in + " dest " + D.s()); ar.unchanged("mat:mult:b", A, a, "a"); ar.unchanged("mat:mult:b", B, b, "b"); }
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); a->multb(a, b); ar.result("mat:mult:b:dest=a", e, a, in); ar.unchanged("mat:mult:b:dest=a", B, b, "b"); }
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); b->multb(a, b); ar.result("mat:mult:b:dest=b", e, b, in); ar.unchanged("mat:mult:b:dest=b", A, a, "a"); }
			if (same(A, B)) { { RM a = Mk<T>::mk(A); a->mult(a); ar.result("mat:mult:self", e, a, in); } { RM a = Mk<T>::mk(A); ar.result("mat:mult:n:self", e, a->multn(a), in); } { RM a = Mk<T>::mk(A); a->multb(a, a); ar.result("mat:mult:b:all-same", e, a, in); } }
			// (AB)^T = B^T A^T on the objects themselves
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); ar.result("mat:mult:transpose-law", tr(dump(a->multn(b))), b->transposen()->multn(a->transposen()), in); }
		} else {
			RM a = Mk<T>::mk(A), b = Mk<T>::mk(B);
			a->mult(b); ar.unchanged("mat:mult:mismatch", A, a, "a");
			mc::ok(!a->multn(b).is_valid(), "mat:mult:n:mismatch", "%s: a product of non-conforming matrices", in.c_str());
			for (const Val &D : ar.dests) { RM c = Mk<T>::mk(D); c->multb(a, b); ar.unchanged("mat:mult:b:mismatch", D, c, "destination"); }
			ar.unchanged("mat:mult:mismatch", A, a, "a"); ar.unchanged("mat:mult:mismatch", B, b, "b");
			mc::transition(3);
		}
		if (A.d[0] * B.d[0] <= 9 && A.d[1] * B.d[1] <= 9 && A.d[0] && B.d[0]) {
			Exp e = kr(A, B);
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); RM r = a->kronecker_productn(b); ar.result("mat:kronecker:n", e, r, in); ar.unchanged("mat:kronecker:n", A, a, "a"); ar.unchanged("mat:kronecker:n", B, b, "b"); }
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); a->kronecker_product(b); ar.result("mat:kronecker:inplace", e, a, in); ar.unchanged("mat:kronecker:inplace", B, b, "b"); }
			for (const Val &D : ar.dests) { RM a = Mk<T>::mk(A), b = Mk<T>::mk(B), c = Mk<T>::mk(D); c->kronecker_productb(a, b); ar.result("mat:kronecker:b", e, c, in); ar.unchanged("mat:kronecker:b", A, a, "a"); ar.unchanged("mat:kronecker:b", B, b, "b"); }
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); a->kronecker_productb(a, b); ar.result("mat:kronecker:b:dest=a", e, a, in); }
			{ RM a = Mk<T>::mk(A), b = Mk<T>::mk(B); b->kronecker_productb(a, b); ar.result("mat:kronecker:b:dest=b", e, b, in); }
			if (same(A, B)) { RM a = Mk<T>::mk(A); a->kronecker_product(a); ar.result("mat:kronecker:self", e, a, in); }
		}
	}
	for (const Val &A : all) MC_CASE("transposition, powers, flattening, trace and vector products of %s", A.s().c_str()) {
		std::string in = A.s();
		int h = A.d[0], w = A.d[1];
		Exp e = tr(A);
		{ RM a = Mk<T>::mk(A); a->transpose(); ar.result("mat:transpose:inplace", e, a, in); a->transpose(); ar.result("mat:transpose:twice", tr(val(e)), a, in); }
		{ RM a = Mk<T>::mk(A); RM r = a->transposen(); ar.result("mat:transpose:n", e, r, in); ar.unchanged("mat:transpose:n", A, a, "a"); }
		for (const Val &D : ar.dests) { RM a = Mk<T>::mk(A), c = Mk<T>::mk(D); c->transposeb(a); ar.result("mat:transpose:b", e, c, in + " dest " + D.s()); ar.unchanged("mat:transpose:b", A, a, "a"); }
		{ RM a = Mk<T>::mk(A); a->transposeb(a); ar.result("mat:transpose:b:dest=a", e, a, in); }
		{ RM a = Mk<T>::mk(A); a->transposeb(RM()); a->mult(RM()); a->multb(a, RM()); a->multb(RM(), a); a->kronecker_product(RM()); a->kronecker_productb(a, RM()); a->kronecker_productb(RM(), a); ar.unchanged("mat:null", A, a, "a"); mc::ok(!a->multn(RM()).is_valid() && !a->kronecker_productn(RM()).is_valid(), "mat:n:null", "result for a missing operand"); }
		{ RM a = Mk<T>::mk(A); RV f = a->flatten(); mc::ok(dump(f).v == A.v, "mat:flatten", "flatten of %s is %s", in.c_str(), dump(f).s().c_str()); for (int n : { 0, 1, 4, 30 }) { RV o = mkv(std::vector<float>(n, 5)); a->flatteno(o); mc::ok(dump(o).v == A.v, "mat:flatteno", "flatteno of %s is %s", in.c_str(), dump(o).s().c_str()); } a->flatteno(RV()); ar.unchanged("mat:flatten", A, a, "a"); }
		if (h == w) {
			double t = 0; for (int i = 0; i < h; i++) t += A.v[i * w + i];
			RM a = Mk<T>::mk(A); mc::ok(mc::close(a->trace(), t), "mat:trace", "trace of %s is %g", in.c_str(), a->trace()); ar.unchanged("mat:trace", A, a, "a");
			Exp p; p.d = { h, w }; for (int i = 0; i < h * w; i++) p.v.push_back(i % (w + 1) == 0);
			for (int n = 0; n <= 4; n++) { mc::step(in + mc::fmt(" power %d", n)); ar.result("mat:matrix_power", p, a->matrix_powern(n), in + mc::fmt(" power %d", n)); ar.unchanged("mat:matrix_power", A, a, "a"); Exp q; q.d = p.d; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { double s = 0; for (int k = 0; k < w; k++) s += p.v[i * w + k] * A.v[k * w + j]; q.v.push_back(s); } p = q; }
		}
		for (int n : { 0, 1, 2, 3, 4, 5, w > 5 ? w : 6 }) for (const Val &V : patterns({ n })) {
			RM a = Mk<T>::mk(A); RV v = mkv(V.v);
			mc::step(in + " vector " + V.s());
			if (n == w) {
				Exp m; m.d = { h }; for (int i = 0; i < h; i++) { double s = 0; for (int k = 0; k < w; k++) s += (double)A.v[i * w + k] * V.v[k]; m.v.push_back(s); }
				RV r = a->mult_vec(v);
				mc::transition();
				mc::ok(agrees(m, dump(r)), "mat:mult_vec:n", "%s times %s: expected %s, got %s", in.c_str(), V.s().c_str(), es(m).c_str(), dump(r).s().c_str());
				for (int d : { 0, 1, 2, 4, 7 }) { RV o = mkv(std::vector<float>(d, 3)); a->mult_veco(v, o); mc::ok(agrees(m, dump(o)), "mat:mult_vec:o", "%s times %s: expected %s, got %s", in.c_str(), V.s().c_str(), es(m).c_str(), dump(o).s().c_str()); }
				mc::ok(same(V, dump(v)), "mat:mult_vec:operand", "mult_vec changed its vector");
				a->mult_veco(v, v); mc::ok(agrees(m, dump(v)), "mat:mult_vec:o:dest=v", "%s times %s in place: expected %s, got %s", in.c_str(), V.s().c_str(), es(m).c_str(), dump(v).s().c_str());
			} else if (n > w) {
				mc::ok(!a->mult_vec(v).is_valid(), "mat:mult_vec:mismatch", "a product with a vector that is too long");
				RV o = mkv({ 3, 4 }); a->mult_veco(v, o); mc::ok(dump(o).v == std::vector<float>{ 3, 4 }, "mat:mult_vec:o:mismatch", "destination changed by a refused product");
			}
			ar.unchanged("mat:mult_vec", A, a, "a");
		}
		{ RM a = Mk<T>::mk(A); mc::ok(!a->mult_vec(RV()).is_valid(), "mat:mult_vec:null", "result"); RV o = mkv({ 3 }); a->mult_veco(RV(), o); a->mult_veco(o, RV()); mc::ok(dump(o).v == std::vector<float>{ 3 }, "mat:mult_vec:o:null", "changed"); }
	}
}
