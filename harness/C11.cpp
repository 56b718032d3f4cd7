// MC: variant=asan
// C11: tensor arithmetic in all forms, aliasing patterns and destinations.
#include "arith.h"
typedef MLPPTensor3 T;

void explore() {
	std::vector<BinOp<T>> bins = { BIN(T, add, x + y), BIN(T, sub, x - y), BIN(T, hadamard_product, x *y), BIN(T, division_element_wise, x / y), BIN(T, max, std::fmax(x, y)) };
	std::vector<UnOp<T>> uns = { UN(T, sqrt, std::sqrt(x)), UN(T, abs, std::fabs(x)) };
	std::vector<ScOp<T>> scs = { SC(T, scalar_multiply, x *s), SC(T, scalar_add, x + s), SC_AS(T, exponentiate, std::pow(x, s)) };
	Arith<T> ar;
	ar.dests = { Val{ { 0, 0, 0 }, {} }, Val{ { 1, 1, 1 }, { 9 } }, Val{ { 2, 1, 2 }, { 8, 9, 7, 6 } }, Val{ { 1, 2, 3 }, { 7, 8, 9, 6, 5, 4 } }, Val{ { 3, 2, 1 }, { 1, 2, 3, 4, 5, 6 } }, Val{ { 2, 3, 2 }, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 } } };
	std::vector<float> vals = { 1, -1, 2, 0.5f, 3, 0 }, few = { 1, -2, 0.5f };
	if (mc::thorough()) { vals.insert(vals.end(), { -0.5f, 10, -7.25f }); few.insert(few.end(), { 3, 0 }); }
	std::vector<Val> all;
	all.push_back(Val{ { 0, 0, 0 }, {} });
	auto shape = [&](Dims d, const std::vector<float> &vs) { tuples(vs, prod(d), [&](const std::vector<float> &t) { all.push_back(Val{ d, t }); }); };
	shape({ 1, 1, 1 }, vals); shape({ 1, 1, 2 }, few); shape({ 1, 2, 1 }, few); shape({ 2, 1, 1 }, few); shape({ 1, 1, 3 }, { 1, -2 });
	for (Dims d : { Dims{ 1, 2, 2 }, Dims{ 2, 1, 2 }, Dims{ 2, 2, 1 }, Dims{ 1, 2, 3 }, Dims{ 3, 2, 1 }, Dims{ 2, 3, 1 }, Dims{ 2, 3, 2 }, Dims{ 3, 2, 4 }, Dims{ 2, 5, 3 } }) for (const Val &p : patterns(d)) all.push_back(p);
	for (const Val &A : all) {
		MC_CASE("tensor %s, every unary and scalar operation, every form and destination", A.s().c_str()) {
			for (auto &o : uns) { mc::step(A.s() + " " + o.name); ar.un(o, A); }
			for (auto &o : scs) for (float s : { 0.f, 1.f, 2.f, -1.f, 0.5f, 3.f, -2.f }) { mc::step(A.s() + " " + o.name + mc::fmt(" %g", s)); ar.sc(o, A, s); }
			for (auto &o : bins) { mc::step(A.s() + " " + o.name + " null"); ar.bin_null(o, A); }
			// approximate equality within the tolerance
			for (float d : { 0.f, 1e-7f, 0.1f }) for (size_t i = 0; i < A.v.size(); i++) for (float tol : { 1e-5f, 0.5f }) {
				Val B = A; B.v[i] += d;
				Ref<T> a = Mk<T>::mk(A), b = Mk<T>::mk(B);
				mc::ok(a->is_equal_approx(b, tol) == (std::fabs(B.v[i] - A.v[i]) < tol), "ten:is_equal_approx", "%s against %s with tolerance %g", A.s().c_str(), B.s().c_str(), tol);
			}
		}
		MC_CASE("tensor %s against every tensor, every binary operation, form and aliasing pattern", A.s().c_str()) {
			for (const Val &B : all) {
				if (A.d != B.d && &B - &all[0] > 0 && (&B)[-1].d == B.d) continue;
				for (auto &o : bins) { mc::step(A.s() + " " + o.name + " " + B.s()); ar.bin(o, A, B); }
			}
		}
		MC_CASE("tensor %s times every vector; flattening", A.s().c_str()) {
			Ref<T> a = Mk<T>::mk(A);
			Exp f; f.d = { prod(A.d) }; f.v.assign(A.v.begin(), A.v.end());
			Ref<MLPPVector> fl = a->flatten(); mc::ok(agrees(f, dump(fl), 0, 0), "ten:flatten", "%s flattens to %s", A.s().c_str(), dump(fl).s().c_str());
			for (int n = 0; n < 4; n++) { Ref<MLPPVector> o = mkv(std::vector<float>(n, 7)); a->flatteno(o); mc::ok(agrees(f, dump(o), 0, 0), "ten:flatteno", "%s flattens to %s", A.s().c_str(), dump(o).s().c_str()); }
			if (A.v.size()) for (const Val &V : patterns({ A.d[2] })) {
				mc::transition();
				Ref<MLPPVector> v = mkv(V.v);
				Exp e; e.d = { A.d[0], A.d[1] };
				for (int k = 0; k < A.d[0] * A.d[1]; k++) { double s = 0; for (int j = 0; j < A.d[2]; j++) s += (double)A.v[k * A.d[2] + j] * V.v[j]; e.v.push_back(s); }
				Ref<MLPPMatrix> r = a->tensor_vec_mult(v);
				mc::ok(agrees(e, dump(r)), "ten:tensor_vec_mult", "%s times %s: expected %s, got %s", A.s().c_str(), V.s().c_str(), es(e).c_str(), dump(r).s().c_str());
				mc::ok(same(V, dump(v)), "ten:tensor_vec_mult:operand", "the vector changed");
				ar.unchanged("ten:tensor_vec_mult", A, a, "a");
			}
		}
	}
}
