// MC: variant=asan
// C10: the rank-3 tensor is a stack of grids under every history of editing operations.
#include "hist.h"
#include "core/mlpp_tensor3.h"

typedef std::vector<float> L;
struct G { int z = 0, y = 0, x = 0; L d; float &at(int k, int i, int j) { return d[(k * y + i) * x + j]; } int ds() const { return z * y * x; } };
struct M { G a, b, g; L v; }; // g: a matrix (z == 1)
struct Dims3 { int z, y, x; };
struct R {
	Ref<MLPPTensor3> a, b;
	Ref<MLPPMatrix> g;
	Ref<MLPPVector> v;
	R() { a.instance(); b.instance(); g.instance(); v.instance(); }
};
static std::string ls(const L &l) { std::string s = "["; for (float f : l) s += mc::f2s(f) + " "; return s + "]"; }
static std::string gs(const G &g) { return mc::fmt("{%dx%dx%d ", g.z, g.y, g.x) + ls(g.d) + "}"; }
static Vector<real_t> vv(const L &l) { Vector<real_t> v; for (float f : l) v.push_back(f); return v; }
static PoolRealArray pv(const L &l) { PoolRealArray v; for (float f : l) v.push_back(f); return v; }
static Ref<MLPPVector> mv(const L &l) { Ref<MLPPVector> v; v.instance(); for (float f : l) v->push_back(f); return v; }
static Ref<MLPPMatrix> mm(int h, int w, const L &l) { Ref<MLPPMatrix> m; m.instance(); m->resize(Size2i(w, h)); for (int i = 0; i < h * w; i++) m->element_set(i / w, i % w, l[i]); return m; }
static L lv(const Vector<real_t> &v) { L l; for (int i = 0; i < v.size(); i++) l.push_back(v[i]); return l; }
static L lp(const PoolRealArray &v) { L l; for (int i = 0; i < v.size(); i++) l.push_back(v[i]); return l; }
static L lm(const Ref<MLPPVector> &v) { L l; if (v.is_valid()) for (int i = 0; i < v->size(); i++) l.push_back(v->element_get(i)); return l; }
static G lg(const Ref<MLPPMatrix> &m) { G g; if (!m.is_valid()) { g.z = -1; return g; } g.z = 1; g.y = m->size().y; g.x = m->size().x; for (int i = 0; i < g.y; i++) for (int j = 0; j < g.x; j++) g.d.push_back(m->element_get(i, j)); return g; }
static bool eq(const G &a, const G &b) { return a.z == b.z && a.y == b.y && a.x == b.x && a.d == b.d; }
static Ref<MLPPVector> dv() { return mv({ -5, -6 }); }
static Ref<MLPPMatrix> dm() { return mm(2, 1, { -5, -6 }); }

static std::string rg(Ref<MLPPTensor3> t) { // every public way of reading has to agree
	G g;
	Size3i s = t->size();
	g.z = s.z; g.y = s.y; g.x = s.x;
	std::string bad;
	auto same = [&](bool c, const char *what) { if (!c && bad.empty()) bad = what; };
	for (int k = 0; k < g.z; k++) for (int i = 0; i < g.y; i++) for (int j = 0; j < g.x; j++) g.d.push_back(t->element_get(k, i, j));
	same(t->data_size() == g.ds() && t->empty() == (g.z == 0 && g.y == 0 && g.x == 0), "data_size/empty");
	same(t->z_slice_data_size() == g.x * g.y && t->z_slice_size() == Size2i(g.x, g.y), "z_slice_size");
	if (g.ds()) {
		same(lv(t->to_flat_vector()) == g.d, "to_flat_vector"); same(lp(t->to_flat_pool_vector()) == g.d, "to_flat_pool_vector");
		std::vector<real_t> fs = t->to_flat_std_vector(); same(L(fs.begin(), fs.end()) == g.d, "to_flat_std_vector");
		same(lm(t->flatten()) == g.d, "flatten"); Ref<MLPPVector> f = dv(); t->flatteno(f); same(lm(f) == g.d, "flatteno");
		Vector<uint8_t> fb = t->to_flat_byte_array(); same(fb.size() == g.ds() * 4 && !memcmp(fb.ptr(), g.d.data(), fb.size()), "to_flat_byte_array");
		for (int q = 0; q < g.ds(); q++) { int k = q / (g.x * g.y), i = q / g.x % g.y, j = q % g.x; same(t->calculate_index(k, i, j) == q && t->element_get_index(q) == g.d[q] && t->ptr()[q] == g.d[q] && t->ptrw()[q] == g.d[q] && (*t.ptr())[q] == g.d[q] && t->calculate_z_slice_index(k) == k * g.x * g.y, "flat index"); }
		std::vector<std::vector<std::vector<real_t>>> sv = t->to_std_vector();
		same((int)sv.size() == g.z, "to_std_vector");
		for (int k = 0; k < g.z && bad.empty(); k++) { same((int)sv[k].size() == g.y, "to_std_vector"); for (int i = 0; i < g.y && bad.empty(); i++) { L row(g.d.begin() + (k * g.y + i) * g.x, g.d.begin() + (k * g.y + i + 1) * g.x); same(sv[k][i] == row, "to_std_vector"); } }
		for (int k = 0; k < g.z; k++) {
			for (int i = 0; i < g.y; i++) {
				L row(g.d.begin() + (k * g.y + i) * g.x, g.d.begin() + (k * g.y + i + 1) * g.x);
				same(lv(t->row_get_vector(k, i)) == row, "row_get_vector"); same(lp(t->row_get_pool_vector(k, i)) == row, "row_get_pool_vector"); same(lm(t->row_get_mlpp_vector(k, i)) == row, "row_get_mlpp_vector");
				Ref<MLPPVector> d = dv(); t->row_get_into_mlpp_vector(k, i, d); same(lm(d) == row, "row_get_into");
			}
			G sl; sl.z = 1; sl.y = g.y; sl.x = g.x; sl.d = L(g.d.begin() + k * g.y * g.x, g.d.begin() + (k + 1) * g.y * g.x);
			same(lv(t->z_slice_get_vector(k)) == sl.d, "z_slice_get_vector"); same(lp(t->z_slice_get_pool_vector(k)) == sl.d, "z_slice_get_pool_vector"); same(lm(t->z_slice_get_mlpp_vector(k)) == sl.d, "z_slice_get_mlpp_vector");
			Ref<MLPPVector> d = dv(); t->z_slice_get_into_mlpp_vector(k, d); same(lm(d) == sl.d, "z_slice_get_into_mlpp_vector");
			same(eq(lg(t->z_slice_get_mlpp_matrix(k)), sl), "z_slice_get_mlpp_matrix"); Ref<MLPPMatrix> e = dm(); t->z_slice_get_into_mlpp_matrix(k, e); same(eq(lg(e), sl), "z_slice_get_into_mlpp_matrix");
		}
		for (int j = 0; j < g.x; j++) { G sl; sl.z = 1; sl.y = g.z; sl.x = g.y; for (int k = 0; k < g.z; k++) for (int i = 0; i < g.y; i++) sl.d.push_back(g.at(k, i, j)); same(eq(lg(t->x_slice_get(j)), sl), "x_slice_get"); Ref<MLPPMatrix> e = dm(); t->x_slice_get_into(j, e); same(eq(lg(e), sl), "x_slice_get_into"); }
		for (int i = 0; i < g.y; i++) { G sl; sl.z = 1; sl.y = g.z; sl.x = g.x; for (int k = 0; k < g.z; k++) for (int j = 0; j < g.x; j++) sl.d.push_back(g.at(k, i, j)); same(eq(lg(t->y_slice_get(i)), sl), "y_slice_get"); Ref<MLPPMatrix> e = dm(); t->y_slice_get_into(i, e); same(eq(lg(e), sl), "y_slice_get_into"); }
	}
	return gs(g) + (bad.empty() ? "" : " but " + bad + " differs");
}

typedef mc::Op<M, R> O;
static std::vector<O> build(int maxz, int maxds) {
	std::vector<O> ops;
	auto add = [&](const std::string &n, std::function<bool(M &, std::string &)> m, std::function<std::string(R &)> r) { ops.push_back(O{ n, m, r }); };
	auto nop = [](M &, std::string &) { return true; };
	// shapes and contents
	for (auto s : { Dims3{ 0, 0, 0 }, Dims3{ 1, 1, 1 }, Dims3{ 2, 1, 2 }, Dims3{ 1, 2, 3 }, Dims3{ 3, 2, 1 }, Dims3{ 2, 3, 2 } }) if (s.z <= maxz && s.z * s.y * s.x <= maxds)
		add(mc::fmt("resize(%dx%dx%d)+write", s.z, s.y, s.x), [=](M &m, std::string &) { m.a.z = s.z; m.a.y = s.y; m.a.x = s.x; m.a.d.clear(); for (int k = 0; k < m.a.ds(); k++) m.a.d.push_back(k + 1); return true; },
				[=](R &r) { r.a->resize(Size3i(s.x, s.y, s.z)); int q = 1; for (int k = 0; k < s.z; k++) for (int i = 0; i < s.y; i++) for (int j = 0; j < s.x; j++) r.a->element_set(k, i, j, q++); return ""; });
	for (auto s : { Dims3{ 1, 2, 1 }, Dims3{ 2, 2, 1 }, Dims3{ 1, 2, 2 }, Dims3{ 3, 1, 2 }, Dims3{ 1, 1, 4 }, Dims3{ 0, 1, 2 }, Dims3{ 2, 1, 3 } })
		add(mc::fmt("shape_set(%dx%dx%d)", s.z, s.y, s.x), [=](M &m, std::string &) { if (s.z * s.y * s.x == m.a.ds() && s.z <= maxz) { m.a.z = s.z; m.a.y = s.y; m.a.x = s.x; } return s.z <= maxz; }, [=](R &r) { r.a->shape_set(Size3i(s.x, s.y, s.z)); return ""; });
	add("fill(2)", [](M &m, std::string &) { for (float &f : m.a.d) f = 2; return true; }, [](R &r) { r.a->fill(2); return ""; });
	add("clear", [](M &m, std::string &) { m.a = G(); return true; }, [](R &r) { r.a->clear(); return ""; });
	add("reset", [](M &m, std::string &) { m.a = G(); return true; }, [](R &r) { r.a->reset(); return ""; });
	// adding slices
	auto zadd = [=](M &m, const L &l) { if (l.empty()) return true; if ((int)l.size() != m.a.x * m.a.y) return true; if (m.a.z >= maxz || m.a.ds() + (int)l.size() > maxds) return false; m.a.d.insert(m.a.d.end(), l.begin(), l.end()); m.a.z++; return true; };
	for (L l : { L{}, L{ 9 }, L{ 5, 6 }, L{ 1, 2, 3 }, L{ 8, 7, 6, 5, 4, 3 } }) {
		add("z_slice_add" + ls(l), [=](M &m, std::string &) { return zadd(m, l); }, [=](R &r) { r.a->z_slice_add(vv(l)); return ""; });
		add("z_slice_add_pool" + ls(l), [=](M &m, std::string &) { return zadd(m, l); }, [=](R &r) { r.a->z_slice_add_pool_vector(pv(l)); return ""; });
		add("z_slice_add_mlpp" + ls(l), [=](M &m, std::string &) { return zadd(m, l); }, [=](R &r) { r.a->z_slice_add_mlpp_vector(mv(l)); return ""; });
		for (int i : { -1, 0, 1, 3 }) {
			auto set = [=](M &m, std::string &) { if (l.empty()) return false; if (i >= 0 && i < m.a.z && (int)l.size() == m.a.x * m.a.y) std::copy(l.begin(), l.end(), m.a.d.begin() + i * l.size()); return true; };
			add(mc::fmt("z_slice_set(%d)", i) + ls(l), set, [=](R &r) { r.a->z_slice_set_vector(i, vv(l)); return ""; });
			add(mc::fmt("z_slice_set_pool(%d)", i) + ls(l), set, [=](R &r) { r.a->z_slice_set_pool_vector(i, pv(l)); return ""; });
			add(mc::fmt("z_slice_set_mlpp(%d)", i) + ls(l), set, [=](R &r) { r.a->z_slice_set_mlpp_vector(i, mv(l)); return ""; });
			for (int k : { -1, 0, 1 }) {
				auto rset = [=](M &m, std::string &) { if (l.empty()) return false; if (k >= 0 && k < m.a.z && i >= 0 && i < m.a.y && (int)l.size() == m.a.x) for (int j = 0; j < m.a.x; j++) m.a.at(k, i, j) = l[j]; return true; };
				add(mc::fmt("row_set(%d,%d)", k, i) + ls(l), rset, [=](R &r) { r.a->row_set_vector(k, i, vv(l)); return ""; });
				add(mc::fmt("row_set_pool(%d,%d)", k, i) + ls(l), rset, [=](R &r) { r.a->row_set_pool_vector(k, i, pv(l)); return ""; });
				add(mc::fmt("row_set_mlpp(%d,%d)", k, i) + ls(l), rset, [=](R &r) { r.a->row_set_mlpp_vector(k, i, mv(l)); return ""; });
			}
		}
	}
	struct Mat { int h, w; L l; };
	std::vector<Mat> mats = { { 0, 0, {} }, { 1, 1, { 9 } }, { 1, 2, { 11, 12 } }, { 2, 1, { 13, 14 } }, { 2, 2, { 21, 22, 23, 24 } }, { 2, 3, { 31, 32, 33, 34, 35, 36 } }, { 3, 2, { 41, 42, 43, 44, 45, 46 } } };
	for (auto &q : mats) {
		std::string n = mc::fmt("{%dx%d}", q.h, q.w);
		auto is = [=](M &m) { return m.a.y == q.h && m.a.x == q.w; };
		add("z_slice_add_matrix" + n, [=](M &m, std::string &) { return is(m) || q.l.empty() ? zadd(m, q.l) : true; }, [=](R &r) { r.a->z_slice_add_mlpp_matrix(mm(q.h, q.w, q.l)); return ""; });
		for (int i : { -1, 0, 1, 2 }) {
			if (q.l.empty()) continue;
			add(mc::fmt("z_slice_set_matrix(%d)", i) + n, [=](M &m, std::string &) { if (is(m) && i >= 0 && i < m.a.z) std::copy(q.l.begin(), q.l.end(), m.a.d.begin() + i * q.l.size()); return true; }, [=](R &r) { r.a->z_slice_set_mlpp_matrix(i, mm(q.h, q.w, q.l)); return ""; });
			add(mc::fmt("x_slice_set(%d)", i) + n, [=](M &m, std::string &) { if (m.a.z == q.h && m.a.y == q.w && i >= 0 && i < m.a.x) for (int k = 0; k < m.a.z; k++) for (int y = 0; y < m.a.y; y++) m.a.at(k, y, i) = q.l[k * q.w + y]; return true; }, [=](R &r) { r.a->x_slice_set(i, mm(q.h, q.w, q.l)); return ""; });
			add(mc::fmt("y_slice_set(%d)", i) + n, [=](M &m, std::string &) { if (m.a.z == q.h && m.a.x == q.w && i >= 0 && i < m.a.y) for (int k = 0; k < m.a.z; k++) for (int x = 0; x < m.a.x; x++) m.a.at(k, i, x) = q.l[k * q.w + x]; return true; }, [=](R &r) { r.a->y_slice_set(i, mm(q.h, q.w, q.l)); return ""; });
		}
		if (q.l.size()) {
			add("set_from_matrix" + n, [=](M &m, std::string &) { m.a.z = 1; m.a.y = q.h; m.a.x = q.w; m.a.d = q.l; return true; }, [=](R &r) { r.a->set_from_mlpp_matrix(mm(q.h, q.w, q.l)); return ""; });
			add("set_from_matrixr" + n, [=](M &m, std::string &) { m.a.z = 1; m.a.y = q.h; m.a.x = q.w; m.a.d = q.l; return true; }, [=](R &r) { r.a->set_from_mlpp_matrixr(*mm(q.h, q.w, q.l).ptr()); return ""; });
			add("a=matrix-ctor" + n, [=](M &m, std::string &) { m.a.z = 1; m.a.y = q.h; m.a.x = q.w; m.a.d = q.l; return true; }, [=](R &r) { r.a = Ref<MLPPTensor3>(memnew(MLPPTensor3(*mm(q.h, q.w, q.l).ptr()))); return ""; });
		}
	}
	add("missing operands", nop, [](R &r) { r.a->z_slice_add_mlpp_vector(Ref<MLPPVector>()); r.a->z_slice_add_mlpp_matrix(Ref<MLPPMatrix>()); r.a->z_slice_set_mlpp_vector(0, Ref<MLPPVector>()); r.a->z_slice_set_mlpp_matrix(0, Ref<MLPPMatrix>());
		r.a->row_set_mlpp_vector(0, 0, Ref<MLPPVector>()); r.a->x_slice_set(0, Ref<MLPPMatrix>()); r.a->y_slice_set(0, Ref<MLPPMatrix>()); r.a->row_get_into_mlpp_vector(0, 0, Ref<MLPPVector>()); r.a->z_slice_get_into_mlpp_vector(0, Ref<MLPPVector>()); r.a->z_slice_get_into_mlpp_matrix(0, Ref<MLPPMatrix>());
		r.a->x_slice_get_into(0, Ref<MLPPMatrix>()); r.a->y_slice_get_into(0, Ref<MLPPMatrix>()); r.a->flatteno(Ref<MLPPVector>()); r.a->set_from_mlpp_tensor3(Ref<MLPPTensor3>()); r.a->set_from_mlpp_matrix(Ref<MLPPMatrix>()); return r.a->is_equal_approx(Ref<MLPPTensor3>()) ? "equal to null" : ""; });
	for (int i : { -1, 0, 1, 2, 4 }) {
		add(mc::fmt("z_slice_remove(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < m.a.z) { int f = m.a.x * m.a.y; m.a.d.erase(m.a.d.begin() + i * f, m.a.d.begin() + (i + 1) * f); m.a.z--; } return true; }, [=](R &r) { r.a->z_slice_remove(i); return ""; });
		add(mc::fmt("z_slice_remove_unordered(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < m.a.z) { int f = m.a.x * m.a.y; std::copy(m.a.d.end() - f, m.a.d.end(), m.a.d.begin() + i * f); m.a.d.resize(m.a.d.size() - f); m.a.z--; } return true; }, [=](R &r) { r.a->z_slice_remove_unordered(i); return ""; });
		for (int j : { -1, 0, 1, 2 })
			add(mc::fmt("z_slice_swap(%d,%d)", i, j), [=](M &m, std::string &) { int f = m.a.x * m.a.y; if (i >= 0 && i < m.a.z && j >= 0 && j < m.a.z && i != j) std::swap_ranges(m.a.d.begin() + i * f, m.a.d.begin() + (i + 1) * f, m.a.d.begin() + j * f); return true; }, [=](R &r) { r.a->z_slice_swap(i, j); return ""; });
		add(mc::fmt("element_set_index(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < m.a.ds()) m.a.d[i] = 4; return true; }, [=](R &r) { r.a->element_set_index(i, 4); return ""; });
		add(mc::fmt("element_get_index(%d)", i), [=](M &m, std::string &o) { o = i >= 0 && i < m.a.ds() ? mc::f2s(m.a.d[i]) : "0"; return true; }, [=](R &r) { return mc::f2s(r.a->element_get_index(i)); });
		// refused readings give nothing and leave their target alone
		add(mc::fmt("slices_get(%d)", i), [=](M &m, std::string &o) { bool z = i >= 0 && i < m.a.z, y = i >= 0 && i < m.a.y, x = i >= 0 && i < m.a.x; if (m.a.ds() == 0) z = y = x = false; if (m.a.ds() == 0 && i >= 0) return false; o = mc::fmt("%d%d%d%d", z, y, x, m.a.z > 0 && y); return true; },
				[=](R &r) { Ref<MLPPVector> v1 = dv(), v2 = dv(); Ref<MLPPMatrix> m1 = dm(), m2 = dm(), m3 = dm(); r.a->z_slice_get_into_mlpp_vector(i, v1); r.a->z_slice_get_into_mlpp_matrix(i, m1); r.a->x_slice_get_into(i, m2); r.a->y_slice_get_into(i, m3); r.a->row_get_into_mlpp_vector(0, i, v2);
					L d5{ -5, -6 }; G d; d.z = 1; d.y = 2; d.x = 1; d.d = d5;
					bool z = r.a->z_slice_get_mlpp_matrix(i).is_valid(), y = r.a->y_slice_get(i).is_valid(), x = r.a->x_slice_get(i).is_valid(), w = r.a->row_get_mlpp_vector(0, i).is_valid();
					if (!z && (lm(v1) != d5 || !eq(lg(m1), d) || r.a->z_slice_get_vector(i).size() || r.a->z_slice_get_pool_vector(i).size() || r.a->z_slice_get_mlpp_vector(i).is_valid())) return std::string("refused z slice changes its target");
					if (!x && !eq(lg(m2), d)) return std::string("refused x slice changes its target");
					if (!y && !eq(lg(m3), d)) return std::string("refused y slice changes its target");
					if (!w && (lm(v2) != d5 || r.a->row_get_vector(0, i).size() || r.a->row_get_pool_vector(0, i).size())) return std::string("refused row changes its target");
					return mc::fmt("%d%d%d%d", z, y, x, w); });
	}
	for (int k : { -1, 0, 1, 3 }) for (int i : { -1, 0, 1, 3 }) for (int j : { -1, 0, 1, 3 }) {
		add(mc::fmt("element_set(%d,%d,%d)", k, i, j), [=](M &m, std::string &) { if (k >= 0 && k < m.a.z && i >= 0 && i < m.a.y && j >= 0 && j < m.a.x) m.a.at(k, i, j) = -3; return true; }, [=](R &r) { r.a->element_set(k, i, j, -3); return ""; });
		add(mc::fmt("element_get(%d,%d,%d)", k, i, j), [=](M &m, std::string &o) { o = k >= 0 && k < m.a.z && i >= 0 && i < m.a.y && j >= 0 && j < m.a.x ? mc::f2s(m.a.at(k, i, j)) : "0"; return true; }, [=](R &r) { return mc::f2s(r.a->element_get(k, i, j)); });
	}
	// copies
	add("swap(a,b)", [](M &m, std::string &) { std::swap(m.a, m.b); return true; }, [](R &r) { SWAP(r.a, r.b); return ""; });
	auto copy = [](M &m, std::string &) { m.b = m.a; return true; };
	auto conv = [](M &m, std::string &) { if (m.a.ds() == 0) m.b = G(); else m.b = m.a; return true; };
	add("b=duplicate(a)", copy, [](R &r) { r.b = r.a->duplicate_fast(); return ""; });
	add("b.set_from(a)", copy, [](R &r) { r.b->set_from_mlpp_tensor3(r.a); return ""; });
	add("b.set_from_r(a)", copy, [](R &r) { r.b->set_from_mlpp_tensor3r(*r.a.ptr()); return ""; });
	add("a.set_from(a)", nop, [](R &r) { r.a->set_from_mlpp_tensor3(r.a); r.a->set_from_mlpp_tensor3r(*r.a.ptr()); return ""; });
	add("b.data(a)", copy, [](R &r) { r.b->set_data(r.a->get_data()); return ""; });
	add("bad data", nop, [](R &r) { Array d; r.a->set_data(d); d = r.a->get_data(); d.push_back(1); r.a->set_data(d); Array e; e.push_back(Size3i(7, 1, 1)); e.push_back(PoolRealArray()); r.a->set_data(e); return ""; });
	auto mats_of = [](R &r) { Vector<Ref<MLPPMatrix>> v; for (int k = 0; k < r.a->size().z; k++) v.push_back(r.a->z_slice_get_mlpp_matrix(k)); return v; };
	auto arr_of = [](R &r) { Array v; for (int k = 0; k < r.a->size().z; k++) v.push_back(r.a->z_slice_get_mlpp_matrix(k)); return v; };
	add("b.matrices(a)", conv, [=](R &r) { r.b->set_from_mlpp_matricess(mats_of(r)); return ""; });
	add("b.matrices_array(a)", conv, [=](R &r) { r.b->set_from_mlpp_matrices_array(arr_of(r)); return ""; });
	add("b=array-ctor(a)", conv, [=](R &r) { r.b = Ref<MLPPTensor3>(memnew(MLPPTensor3(arr_of(r)))); return ""; });
	add("b.std(a)", conv, [](R &r) { r.b->set_from_std_vectors(r.a->to_std_vector()); return ""; });
	add("b=std-ctor(a)", conv, [](R &r) { r.b = Ref<MLPPTensor3>(memnew(MLPPTensor3(r.a->to_std_vector()))); return ""; });
	auto rows = [](M &m, std::string &) { if (m.a.ds() == 0) m.b = G(); else { m.b.z = 1; m.b.y = m.a.y; m.b.x = m.a.x; m.b.d = L(m.a.d.begin(), m.a.d.begin() + m.a.y * m.a.x); } return true; };
	add("b.vectors(a rows)", rows, [](R &r) { Vector<Ref<MLPPVector>> v; if (r.a->data_size()) for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_mlpp_vector(0, i)); r.b->set_from_mlpp_vectors(v); return ""; });
	add("b.vectors_array(a rows)", rows, [](R &r) { Array v; if (r.a->data_size()) for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_mlpp_vector(0, i)); r.b->set_from_mlpp_vectors_array(v); return ""; });
	auto empt = [](M &m, std::string &) { m.b = G(); return true; };
	add("b.vectors(null)", empt, [](R &r) { Vector<Ref<MLPPVector>> v; v.resize(2); r.b->set_from_mlpp_vectors(v); return ""; });
	add("b.matrices({empty})", empt, [](R &r) { Vector<Ref<MLPPMatrix>> v; v.push_back(mm(0, 0, {})); r.b->set_from_mlpp_matricess(v); return ""; });
	add("b.vectors({empty})", empt, [](R &r) { Vector<Ref<MLPPVector>> v; v.push_back(mv({})); r.b->set_from_mlpp_vectors(v); return ""; });
	add("b.std({{}})", empt, [](R &r) { std::vector<std::vector<std::vector<real_t>>> v(1); r.b->set_from_std_vectors(v); return ""; });
	add("g=slice(0); a.slice(1)=g", [](M &m, std::string &) { if (m.a.ds() == 0) return false; if (m.a.z > 1) { int f = m.a.x * m.a.y; std::copy(m.a.d.begin(), m.a.d.begin() + f, m.a.d.begin() + f); } return true; }, [](R &r) { r.a->z_slice_get_into_mlpp_matrix(0, r.g); r.a->z_slice_set_mlpp_matrix(1, r.g); return ""; });
	add("a.add(slice 0)", [=](M &m, std::string &) { if (m.a.ds() == 0) return false; return zadd(m, L(m.a.d.begin(), m.a.d.begin() + m.a.x * m.a.y)); }, [](R &r) { Ref<MLPPMatrix> t = r.a->z_slice_get_mlpp_matrix(0); r.a->z_slice_add_mlpp_matrix(t); return ""; });
	add("equal(a,b)", [](M &m, std::string &o) { o = eq(m.a, m.b) ? "1" : "0"; return true; }, [](R &r) { return std::string(r.a->is_equal_approx(r.b) ? "1" : "0"); });
	return ops;
}

void explore() {
	mc::Explorer<M, R> e; e.held = Memory::get_mem_usage;
	e.label = "tensor3";
	e.mdump = [](const M &m) { return gs(m.a) + "|" + gs(m.b); };
	e.rdump = [](R &r) { return rg(r.a) + "|" + rg(r.b); };
	e.ops = build(3, mc::thorough() ? 12 : 12);
	e.all_sequences(mc::thorough() ? 2 : 1);
	e.bfs(mc::thorough() ? 6 : 4, mc::thorough() ? 6000 : 320);
}
