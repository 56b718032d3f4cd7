// MC: variant=asan
// C03: vector products, norms and reductions.
#include "arith.h"
typedef MLPPVector T;

static void scalar_result(const char *k, double e, double g, const std::string &in) {
	mc::transition();
	mc::outcome(mc::fmt("%s %g", k, e));
	mc::ok(mc::close(e, g, 2e-5, 1e-5), k, "%s on %s: expected %g, got %g", k, in.c_str(), e, g);
}

void explore() {
	Arith<T> ar;
	std::vector<float> vals = { -2, 0, 1, 3, 0.5f };
	if (mc::thorough()) vals.insert(vals.end(), { -1, 100 });
	std::vector<Val> all;
	for (int n = 0; n <= 3; n++) tuples(vals, n, [&](const std::vector<float> &t) { all.push_back(Val{ { n }, t }); });
	if (mc::thorough()) tuples({ -1, 0, 2 }, 4, [&](const std::vector<float> &t) { all.push_back(Val{ { 4 }, t }); });
	for (int n : { 4, 5, 8, 17 }) for (const Val &p : patterns({ n })) all.push_back(p);
	for (const Val &A : all) {
		MC_CASE("reductions of %s", A.s().c_str()) {
			Ref<T> a = mkv(A.v);
			double s = 0, q = 0;
			for (float x : A.v) { s += x; q += (double)x * x; }
			mc::state(A.s());
			scalar_result("vec:sum_elements", s, a->sum_elements(), A.s());
			scalar_result("vec:norm_sq", q, a->norm_sq(), A.s());
			scalar_result("vec:norm_2", std::sqrt(q), a->norm_2(), A.s());
			if (A.v.size()) {
				double mx = A.v[0], mn = A.v[0];
				for (float x : A.v) { mx = std::fmax(mx, x); mn = std::fmin(mn, x); }
				scalar_result("vec:max_element", mx, a->max_element(), A.s());
				scalar_result("vec:min_element", mn, a->min_element(), A.s());
				int i = a->max_element_index(), j = a->min_element_index();
				mc::ok(i >= 0 && i < (int)A.v.size() && A.v[i] == mx, "vec:max_element_index", "max_element_index on %s: %d", A.s().c_str(), i);
				mc::ok(j >= 0 && j < (int)A.v.size() && A.v[j] == mn, "vec:min_element_index", "min_element_index on %s: %d", A.s().c_str(), j);
			}
			Ref<MLPPMatrix> d = a->diagnm();
			int n = A.v.size();
			Exp e; e.d = { n, n };
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e.v.push_back(i == j ? A.v[i] : 0);
			mc::transition();
			if (n) mc::ok(agrees(e, dump(d)), "vec:diagnm", "diagnm on %s: %s", A.s().c_str(), dump(d).s().c_str());
			ar.unchanged("vec:reductions", A, a, "a");
			// missing operands
			Ref<T> nul;
			mc::ok(!a->cross(nul).is_valid(), "vec:cross:null", "cross with a missing operand");
			mc::ok(!a->outer_product(nul).is_valid(), "vec:outer_product:null", "outer_product with a missing operand");
			mc::ok(a->dot(nul) == 0 && a->euclidean_distance(nul) == 0 && a->euclidean_distance_squared(nul) == 0, "vec:null", "dot/distance with a missing operand");
			ar.unchanged("vec:null", A, a, "a");
		}
		MC_CASE("products of %s with every vector", A.s().c_str()) {
			for (const Val &B : all) {
				mc::step(A.s() + " " + B.s());
				for (int alias = 0; alias < (same(A, B) ? 2 : 1); alias++) {
					Ref<T> a = mkv(A.v), b = alias ? a : mkv(B.v);
					std::string in = A.s() + B.s() + (alias ? " same object" : "");
					int n = A.v.size(), m = B.v.size();
					if (n == m) {
						double d = 0, q = 0;
						for (int i = 0; i < n; i++) { d += (double)A.v[i] * B.v[i]; q += ((double)A.v[i] - B.v[i]) * ((double)A.v[i] - B.v[i]); }
						scalar_result("vec:dot", d, a->dot(b), in);
						scalar_result("vec:euclidean_distance_squared", q, a->euclidean_distance_squared(b), in);
						scalar_result("vec:euclidean_distance", std::sqrt(q), a->euclidean_distance(b), in);
					} else {
						mc::ok(a->dot(b) == 0 && a->euclidean_distance(b) == 0 && a->euclidean_distance_squared(b) == 0, "vec:mismatch", "dot/distance of different lengths %s", in.c_str());
					}
					Ref<T> c = a->cross(b);
					mc::transition();
					if (n == 3 && m == 3) {
						Exp e; e.d = { 3 };
						e.v = { (double)A.v[1] * B.v[2] - (double)A.v[2] * B.v[1], (double)A.v[2] * B.v[0] - (double)A.v[0] * B.v[2], (double)A.v[0] * B.v[1] - (double)A.v[1] * B.v[0] };
						mc::ok(agrees(e, dump(c)), "vec:cross", "cross %s: expected %s got %s", in.c_str(), es(e).c_str(), dump(c).s().c_str());
					} else mc::ok(!c.is_valid(), "vec:cross:mismatch", "cross of %s is not refused", in.c_str());
					Ref<MLPPMatrix> o = a->outer_product(b);
					mc::transition();
					Exp e; e.d = { n, m };
					for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) e.v.push_back((double)A.v[i] * B.v[j]);
					if (n && m) mc::ok(agrees(e, dump(o)), "vec:outer_product", "outer_product %s: expected %s got %s", in.c_str(), es(e).c_str(), dump(o).s().c_str());
					ar.unchanged("vec:products", A, a, "a");
					ar.unchanged("vec:products", B, b, "b");
				}
			}
		}
	}
	for (int n = 0; n <= 5; n++) for (int k : { -3, 0, 1, 7 }) MC_CASE("constant vectors n=%d k=%d", n, k) {
		Ref<T> x; x.instance(); x->push_back(4);
		struct { const char *nm; Ref<T> v; double k; } c[] = { { "vecn_zero", x->vecn_zero(n), 0 }, { "vecn_one", x->vecn_one(n), 1 }, { "vecn_full", x->vecn_full(n, k), (double)k }, { "create_vec_zero", T::create_vec_zero(n), 0 }, { "create_vec_one", T::create_vec_one(n), 1 }, { "create_vec_full", T::create_vec_full(n, k), (double)k } };
		for (auto &q : c) { Exp e; e.d = { n }; e.v.assign(n, q.k); mc::transition(); mc::ok(agrees(e, dump(q.v)), std::string("vec:") + q.nm, "%s(%d): %s", q.nm, n, dump(q.v).s().c_str()); }
		mc::ok(x->size() == 1 && x->element_get(0) == 4, "vec:const:operand", "constructing changed the object");
	}
}
