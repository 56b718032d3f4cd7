// MC: variant=asan
// C02: vector arithmetic in all forms, aliasing patterns and destinations.
#include "arith.h"
typedef MLPPVector T;

void explore() {
	std::vector<BinOp<T>> bins = { BIN(T, add, x + y), BIN(T, sub, x - y), BIN(T, hadamard_product, x *y), BIN(T, division_element_wise, x / y), BIN(T, max, std::fmax(x, y)), BIN(T, min, std::fmin(x, y)) };
	std::vector<UnOp<T>> uns = unops<T>();
	std::vector<ScOp<T>> scs = { SC(T, scalar_multiply, x *s), SC(T, scalar_add, x + s), SC_AS(T, exponentiate, std::pow(x, s)) };
	Arith<T> ar;
	ar.dests = { Val{ { 0 }, {} }, Val{ { 1 }, { 9 } }, Val{ { 2 }, { 8, 9 } }, Val{ { 3 }, { 7, 8, 9 } }, Val{ { 5 }, { 1, 2, 3, 4, 5 } } };
	std::vector<float> vals = { 1, -1, 2, 0.5f, -0.5f, 3, 0 };
	if (mc::thorough()) vals.insert(vals.end(), { 10, -7.25f, 100, 0.001f });
	std::vector<float> few = { 1, -2, 0.5f };
	std::vector<Val> all;
	for (int n = 0; n <= 3; n++) tuples(n <= 2 ? vals : few, n, [&](const std::vector<float> &t) { all.push_back(Val{ { n }, t }); });
	for (int n : { 4, 7, 16, 17 }) for (const Val &p : patterns({ n })) all.push_back(p);
	for (const Val &A : all) {
		MC_CASE("vector %s, every unary and scalar operation, every form and destination", A.s().c_str()) {
			for (auto &o : uns) { mc::step(A.s() + " " + o.name); ar.un(o, A); }
			for (auto &o : scs) for (float s : { 0.f, 1.f, 2.f, -1.f, 0.5f, 3.f }) { mc::step(A.s() + " " + o.name + mc::fmt(" %g", s)); ar.sc(o, A, s); }
			for (auto &o : bins) { mc::step(A.s() + " " + o.name + " null"); ar.bin_null(o, A); }
		}
		MC_CASE("vector %s against every vector, every binary operation, form and aliasing pattern", A.s().c_str()) {
			for (const Val &B : all) {
				bool small = A.d[0] <= 2 && B.d[0] <= 2;
				if (!small && A.d != B.d && &B - &all[0] > 0 && (&B)[-1].d == B.d) continue; // one representative per mismatching shape
				for (auto &o : bins) { mc::step(A.s() + " " + o.name + " " + B.s()); ar.bin(o, A, B); }
			}
		}
	}
	// subtracting every row of a matrix
	std::vector<Dims> rc; for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) rc.push_back({ r, c }); for (Dims d : { Dims{ 9, 2 }, Dims{ 2, 17 }, Dims{ 5, 8 }, Dims{ 17, 5 } }) rc.push_back(d);
	for (Dims d : rc) { int rows = d[0], cols = d[1];
		for (const Val &M : patterns({ rows, cols })) for (int n = 1; n <= std::max(3, cols + 1); n++) if (n <= 3 || n >= cols) for (const Val &A : patterns({ n })) {
			MC_CASE("subtract rows of %s from %s", M.s().c_str(), A.s().c_str()) {
				Ref<MLPPMatrix> m = mkm(rows, cols, M.v);
				Exp e; e.d = A.d;
				for (int j = 0; j < n; j++) { double s = A.v[j]; if (n == cols) for (int i = 0; i < rows; i++) s -= M.v[i * cols + j]; e.v.push_back(s); }
				auto munch = [&](const char *k) { mc::ok(same(M, dump(m)), std::string(k) + ":operand", "%s changed its matrix operand", k); };
				if (n == cols) {
					{ Ref<T> a = mkv(A.v); a->subtract_matrix_rows(m); ar.result("vec:subtract_matrix_rows:inplace", e, a, A.s()); munch("subtract_matrix_rows"); }
					{ Ref<T> a = mkv(A.v); Ref<T> r = a->subtract_matrix_rowsn(m); ar.result("vec:subtract_matrix_rows:n", e, r, A.s()); ar.unchanged("vec:subtract_matrix_rows:n", A, a, "a"); munch("subtract_matrix_rowsn"); }
					for (const Val &D : ar.dests) { Ref<T> a = mkv(A.v), c = mkv(D.v); c->subtract_matrix_rowsb(a, m); ar.result("vec:subtract_matrix_rows:b", e, c, A.s() + " dest " + D.s()); ar.unchanged("vec:subtract_matrix_rows:b", A, a, "a"); munch("subtract_matrix_rowsb"); }
					{ Ref<T> a = mkv(A.v); a->subtract_matrix_rowsb(a, m); ar.result("vec:subtract_matrix_rows:b:dest=a", e, a, A.s()); }
				} else {
					{ Ref<T> a = mkv(A.v); a->subtract_matrix_rows(m); ar.unchanged("vec:subtract_matrix_rows:mismatch", A, a, "a"); }
					{ Ref<T> a = mkv(A.v); Ref<T> r = a->subtract_matrix_rowsn(m); mc::ok(!r.is_valid() || same(A, dump(r)), "vec:subtract_matrix_rows:n:mismatch", "expected no result or an unchanged copy"); ar.unchanged("vec:subtract_matrix_rows:n:mismatch", A, a, "a"); }
					for (const Val &D : ar.dests) { Ref<T> a = mkv(A.v), c = mkv(D.v); c->subtract_matrix_rowsb(a, m); ar.unchanged("vec:subtract_matrix_rows:b:mismatch", D, c, "destination"); }
				}
			}
		}
	}
}
