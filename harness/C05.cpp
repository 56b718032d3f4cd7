// MC: variant=asan
// C05: matrix arithmetic in all forms, aliasing patterns and destinations.
#include "arith.h"
typedef MLPPMatrix T;

void explore() {
	std::vector<BinOp<T>> bins = { BIN(T, add, x + y), BIN(T, sub, x - y), BIN(T, hadamard_product, x *y), BIN(T, division_element_wise, x / y), BIN(T, max, std::fmax(x, y)), BIN(T, min, std::fmin(x, y)) };
	std::vector<UnOp<T>> uns = unops<T>();
	std::vector<ScOp<T>> scs = { SC(T, scalar_multiply, x *s), SC(T, scalar_add, x + s), SC_AS(T, exponentiate, std::pow(x, s)) };
	Arith<T> ar;
	ar.dests = { Val{ { 0, 0 }, {} }, Val{ { 1, 1 }, { 9 } }, Val{ { 2, 2 }, { 8, 9, 7, 6 } }, Val{ { 3, 2 }, { 7, 8, 9, 6, 5, 4 } }, Val{ { 1, 5 }, { 1, 2, 3, 4, 5 } } };
	std::vector<float> vals = { 1, -1, 2, 0.5f, 3, 0 }, few = { 1, -2, 0.5f };
	if (mc::thorough()) vals.insert(vals.end(), { -0.5f, 10, -7.25f });
	std::vector<Val> all;
	all.push_back(Val{ { 0, 0 }, {} });
	auto shape = [&](int h, int w, const std::vector<float> &vs) { tuples(vs, h * w, [&](const std::vector<float> &t) { all.push_back(Val{ { h, w }, t }); }); };
	shape(1, 1, vals); shape(1, 2, vals); shape(2, 1, few);
	shape(2, 2, mc::thorough() ? few : std::vector<float>{ 1, -2 });
	for (Dims d : { Dims{ 1, 3 }, Dims{ 3, 1 }, Dims{ 2, 3 }, Dims{ 3, 2 }, Dims{ 3, 3 }, Dims{ 4, 5 }, Dims{ 2, 9 } }) for (const Val &p : patterns(d)) all.push_back(p);
	for (const Val &A : all) {
		MC_CASE("matrix %s, every unary and scalar operation, every form and destination", A.s().c_str()) {
			for (auto &o : uns) { mc::step(A.s() + " " + o.name); ar.un(o, A); }
			for (auto &o : scs) for (float s : { 0.f, 1.f, 2.f, -1.f, 0.5f, 3.f }) { mc::step(A.s() + " " + o.name + mc::fmt(" %g", s)); ar.sc(o, A, s); }
			for (auto &o : bins) { mc::step(A.s() + " " + o.name + " null"); ar.bin_null(o, A); }
		}
		MC_CASE("matrix %s against every matrix, every binary operation, form and aliasing pattern", A.s().c_str()) {
			for (const Val &B : all) {
				if (A.d != B.d && &B - &all[0] > 0 && (&B)[-1].d == B.d) continue; // one representative per mismatching shape
				for (auto &o : bins) { mc::step(A.s() + " " + o.name + " " + B.s()); ar.bin(o, A, B); }
			}
		}
	}
	// a vector added to every row
	std::vector<Dims> hw; for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) hw.push_back({ h, w }); for (Dims d : { Dims{ 9, 2 }, Dims{ 2, 17 }, Dims{ 5, 8 }, Dims{ 17, 5 } }) hw.push_back(d);
	for (Dims d : hw) for (const Val &A : patterns(d)) for (int n = 0; n <= std::max(4, d[1] + 1); n++) if (n <= 4 || n >= d[1]) for (const Val &V : patterns({ n })) {
		int h = d[0], w = d[1];
		MC_CASE("add vector %s to the rows of %s", V.s().c_str(), A.s().c_str()) {
			auto vsame = [&](Ref<MLPPVector> v, const char *k) { mc::ok(same(V, dump(v)), std::string(k) + ":operand", "%s changed its vector", k); };
			if (n == w) {
				Exp e; e.d = A.d; for (int k = 0; k < h * w; k++) e.v.push_back((double)A.v[k] + V.v[k % w]);
				{ Ref<T> a = Mk<T>::mk(A); Ref<MLPPVector> v = mkv(V.v); a->add_vec(v); ar.result("mat:add_vec:inplace", e, a, A.s()); vsame(v, "add_vec"); }
				{ Ref<T> a = Mk<T>::mk(A); Ref<MLPPVector> v = mkv(V.v); Ref<T> r = a->add_vecn(v); ar.result("mat:add_vec:n", e, r, A.s()); ar.unchanged("mat:add_vec:n", A, a, "a"); vsame(v, "add_vecn"); }
				for (const Val &D : ar.dests) { Ref<T> a = Mk<T>::mk(A), c = Mk<T>::mk(D); Ref<MLPPVector> v = mkv(V.v); c->add_vecb(a, v); ar.result("mat:add_vec:b", e, c, A.s() + " dest " + D.s()); ar.unchanged("mat:add_vec:b", A, a, "a"); vsame(v, "add_vecb"); }
				{ Ref<T> a = Mk<T>::mk(A); Ref<MLPPVector> v = mkv(V.v); a->add_vecb(a, v); ar.result("mat:add_vec:b:dest=a", e, a, A.s()); }
			} else {
				Ref<MLPPVector> v = mkv(V.v);
				{ Ref<T> a = Mk<T>::mk(A); a->add_vec(v); ar.unchanged("mat:add_vec:mismatch", A, a, "a"); }
				{ Ref<T> a = Mk<T>::mk(A); Ref<T> r = a->add_vecn(v); mc::ok(!r.is_valid(), "mat:add_vec:n:mismatch", "a result for a vector of the wrong length"); ar.unchanged("mat:add_vec:n:mismatch", A, a, "a"); }
				for (const Val &D : ar.dests) { Ref<T> a = Mk<T>::mk(A), c = Mk<T>::mk(D); c->add_vecb(a, v); ar.unchanged("mat:add_vec:b:mismatch", D, c, "destination"); ar.unchanged("mat:add_vec:b:mismatch", A, a, "a"); }
				{ Ref<T> a = Mk<T>::mk(A); a->add_vec(Ref<MLPPVector>()); ar.unchanged("mat:add_vec:null", A, a, "a"); mc::ok(!a->add_vecn(Ref<MLPPVector>()).is_valid(), "mat:add_vec:n:null", "result for null"); a->add_vecb(Ref<T>(), v); a->add_vecb(a, Ref<MLPPVector>()); ar.unchanged("mat:add_vec:b:null", A, a, "a"); }
			}
		}
	}
	// outer product and diagonal setting
	for (int h : { 0, 1, 2, 3, 4, 9, 17 }) for (int w : { 0, 1, 2, 3, 4, 9, 17 }) if ((h == 0) == (w == 0)) for (const Val &V : patterns({ h })) for (const Val &W : patterns({ w })) {
		MC_CASE("outer product of %s and %s; diagonals", V.s().c_str(), W.s().c_str()) {
			Exp e; e.d = { h, w }; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) e.v.push_back((double)V.v[i] * W.v[j]);
			Ref<MLPPVector> v = mkv(V.v), x = mkv(W.v);
			auto vs = [&]() { mc::ok(same(V, dump(v)) && same(W, dump(x)), "mat:outer_product:operand", "outer product changed an operand"); };
			for (const Val &D : ar.dests) {
				{ Ref<T> c = Mk<T>::mk(D); c->outer_product(v, x); ar.result("mat:outer_product:inplace", e, c, V.s() + W.s() + " dest " + D.s()); vs(); }
				{ Ref<T> c = Mk<T>::mk(D); Ref<T> r = c->outer_productn(v, x); ar.result("mat:outer_product:n", e, r, V.s() + W.s()); ar.unchanged("mat:outer_product:n", D, c, "a"); vs(); }
				{ Ref<T> c = Mk<T>::mk(D); c->outer_product(v, Ref<MLPPVector>()); c->outer_product(Ref<MLPPVector>(), v); ar.unchanged("mat:outer_product:null", D, c, "a"); mc::ok(!c->outer_productn(v, Ref<MLPPVector>()).is_valid() && !c->outer_productn(Ref<MLPPVector>(), v).is_valid(), "mat:outer_product:n:null", "result for null"); }
			}
			// diagonals: the first min(rows, columns, length) diagonal elements
			for (const Val &A : patterns({ h, w })) {
				for (const Val *d : { &V, &W }) {
					Exp s, z; s.d = z.d = A.d;
					for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { bool on = i == j && i < (int)d->v.size(); s.v.push_back(on ? d->v[i] : A.v[i * w + j]); z.v.push_back(on ? d->v[i] : 0); }
					if ((int)d->v.size() < std::min(h, w)) for (int i = d->v.size(); i < std::min(h, w); i++) z.v[i * w + i] = 0;
					Ref<MLPPVector> dv = mkv(d->v);
					{ Ref<T> a = Mk<T>::mk(A); a->diagonal_set(dv); ar.result("mat:diagonal_set:inplace", s, a, A.s() + d->s()); }
					{ Ref<T> a = Mk<T>::mk(A); Ref<T> r = a->diagonal_setn(dv); ar.result("mat:diagonal_set:n", s, r, A.s() + d->s()); ar.unchanged("mat:diagonal_set:n", A, a, "a"); }
					{ Ref<T> a = Mk<T>::mk(A); a->diagonal_zeroed(dv); ar.result("mat:diagonal_zeroed:inplace", z, a, A.s() + d->s()); }
					{ Ref<T> a = Mk<T>::mk(A); Ref<T> r = a->diagonal_zeroedn(dv); ar.result("mat:diagonal_zeroed:n", z, r, A.s() + d->s()); ar.unchanged("mat:diagonal_zeroed:n", A, a, "a"); }
					{ Ref<T> a = Mk<T>::mk(A); a->diagonal_set(Ref<MLPPVector>()); a->diagonal_zeroed(Ref<MLPPVector>()); ar.unchanged("mat:diagonal:null", A, a, "a"); }
				}
			}
		}
	}
}
