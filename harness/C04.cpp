// MC: variant=asan
// C04: the matrix is a grid of numbers under every history of editing operations.
#include "hist.h"
#include "core/mlpp_matrix.h"

typedef std::vector<float> L;
struct G { int w = 0; std::vector<L> r; }; // w: row width, kept when the last row goes
struct M { G a, b; L v; };
struct R {
	Ref<MLPPMatrix> a, b;
	Ref<MLPPVector> v;
	R() { a.instance(); b.instance(); v.instance(); }
};
static std::string ls(const L &l) { std::string s = "["; for (float f : l) s += mc::f2s(f) + " "; return s + "]"; }
static std::string gs(const G &g) { std::string s = mc::fmt("{%dx%d ", (int)g.r.size(), g.w); for (auto &x : g.r) s += ls(x); return s + "}"; }
static G flat(int h, int w, const L &f) { G g; g.w = w; for (int i = 0; i < h; i++) g.r.push_back(L(f.begin() + i * w, f.begin() + i * w + w)); return g; }
static L fl(const G &g) { L l; for (auto &x : g.r) l.insert(l.end(), x.begin(), x.end()); return l; }

static G rg(Ref<MLPPMatrix> m) { // every public way of reading has to agree
	G g;
	int h = m->size().y, w = m->size().x;
	g.w = w;
	bool same = true;
	for (int i = 0; i < h; i++) { L row; for (int j = 0; j < w; j++) row.push_back(m->element_get(i, j)); g.r.push_back(row); }
	L f = fl(g);
	same &= m->data_size() == h * w && m->empty() == (h * w == 0);
	if (h * w) {
		Vector<real_t> fv = m->to_flat_vector(); PoolRealArray fp = m->to_flat_pool_vector(); std::vector<real_t> fs = m->to_flat_std_vector(); Vector<uint8_t> fb = m->to_flat_byte_array();
		Ref<MLPPVector> ff = m->flatten();
		same &= fv.size() == h * w && fp.size() == h * w && (int)fs.size() == h * w && fb.size() == h * w * 4 && ff->size() == h * w;
		if (same) for (int k = 0; k < h * w; k++) {
			float b; memcpy(&b, fb.ptr() + 4 * k, 4);
			float c[9] = { fv[k], fp[k], fs[k], b, ff->element_get(k), m->ptr()[k], m->ptrw()[k], (*m.ptr())[k], m->element_get_index(k) };
			for (float x : c) same &= x == f[k];
			same &= m->calculate_index(k / w, k % w) == k;
		}
		std::vector<std::vector<real_t>> sv = m->to_std_vector();
		same &= (int)sv.size() == h;
		for (int i = 0; i < h && same; i++) same &= sv[i] == g.r[i];
	}
	for (int i = 0; i < h; i++) {
		Vector<real_t> a = m->row_get_vector(i); PoolRealArray p = m->row_get_pool_vector(i); Ref<MLPPVector> v = m->row_get_mlpp_vector(i); Ref<MLPPVector> t; t.instance(); t->resize(2); t->fill(7);
		if (w) m->row_get_into_mlpp_vector(i, t); else t->resize(0);
		same &= a.size() == w && p.size() == w && v->size() == w && t->size() == w;
		if (same) for (int j = 0; j < w; j++) same &= a[j] == g.r[i][j] && p[j] == g.r[i][j] && v->element_get(j) == g.r[i][j] && t->element_get(j) == g.r[i][j];
	}
	if (!same) g.r.push_back(L{ -999 });
	return g;
}
static Vector<real_t> vv(const L &l) { Vector<real_t> v; for (float f : l) v.push_back(f); return v; }
static PoolRealArray pv(const L &l) { PoolRealArray v; for (float f : l) v.push_back(f); return v; }
static Ref<MLPPVector> mv(const L &l) { Ref<MLPPVector> v; v.instance(); for (float f : l) v->push_back(f); return v; }

typedef mc::Op<M, R> O;
static std::vector<O> build(int maxh, int maxw, bool wide, std::vector<L> extra = {}, std::vector<int> far = {}) {
	std::vector<O> ops;
	auto add = [&](const std::string &n, std::function<bool(M &, std::string &)> m, std::function<std::string(R &)> r) { ops.push_back(O{ n, m, r }); };
	std::vector<L> rows = { { 1 }, { 1, 2 }, { 3, 4 }, { 5, 6, 7 }, {} };
	if (wide) rows.push_back({ 8, 9, 10 });
	rows.insert(rows.end(), extra.begin(), extra.end());
	auto plus = [&](std::vector<int> v) { v.insert(v.end(), far.begin(), far.end()); return v; };
	auto radd = [=](M &m, const L &l) { // false: outside the alphabet
		if (l.empty()) return true;
		if (m.a.w == 0 && m.a.r.size()) return false; // rows without columns cannot be widened one by one
		if (m.a.w == 0) m.a.w = l.size();
		if ((int)l.size() != m.a.w) return true;
		if ((int)m.a.r.size() >= maxh) return false;
		m.a.r.push_back(l); return true; };
	for (auto &l : rows) {
		add("row_add" + ls(l), [=](M &m, std::string &) { return radd(m, l); }, [=](R &r) { r.a->row_add(vv(l)); return ""; });
		add("row_add_pool" + ls(l), [=](M &m, std::string &) { return radd(m, l); }, [=](R &r) { r.a->row_add_pool_vector(pv(l)); return ""; });
		add("row_add_mlpp" + ls(l), [=](M &m, std::string &) { return radd(m, l); }, [=](R &r) { r.a->row_add_mlpp_vector(mv(l)); return ""; });
		for (int i : plus({ -1, 0, 1, 3 })) {
			auto set = [=](M &m, std::string &) { if (l.empty()) return false; if (i >= 0 && i < (int)m.a.r.size() && (int)l.size() == m.a.w) m.a.r[i] = l; return true; };
			add(mc::fmt("row_set(%d)", i) + ls(l), set, [=](R &r) { r.a->row_set_vector(i, vv(l)); return ""; });
			if (i == 1 || i == 3 || wide) {
				add(mc::fmt("row_set_pool(%d)", i) + ls(l), set, [=](R &r) { r.a->row_set_pool_vector(i, pv(l)); return ""; });
				add(mc::fmt("row_set_mlpp(%d)", i) + ls(l), set, [=](R &r) { r.a->row_set_mlpp_vector(i, mv(l)); return ""; });
				add(mc::fmt("row_set_std(%d)", i) + ls(l), set, [=](R &r) { r.a->set_row_std_vector(i, std::vector<real_t>(l)); return ""; });
			}
		}
	}
	add("row_add_mlpp(null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->row_add_mlpp_vector(Ref<MLPPVector>()); return ""; });
	add("row_set_mlpp(0,null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->row_set_mlpp_vector(0, Ref<MLPPVector>()); return ""; });
	auto rowsadd = [=](M &m, const G &o) {
		if (o.w == 0 || o.r.empty()) return true;
		if (m.a.w == 0 && m.a.r.size()) return false;
		if (m.a.w == 0) m.a.w = o.w;
		if (o.w != m.a.w) return true;
		if ((int)(m.a.r.size() + o.r.size()) > maxh) return false;
		std::vector<L> t = o.r;
		m.a.r.insert(m.a.r.end(), t.begin(), t.end()); return true; };
	add("rows_add(b)", [=](M &m, std::string &) { return rowsadd(m, m.b); }, [](R &r) { r.a->rows_add_mlpp_matrix(r.b); return ""; });
	add("rows_add(a)", [=](M &m, std::string &) { G t = m.a; return rowsadd(m, t); }, [](R &r) { r.a->rows_add_mlpp_matrix(r.a); return ""; });
	add("rows_add(null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->rows_add_mlpp_matrix(Ref<MLPPMatrix>()); return ""; });
	for (int i : plus({ -1, 0, 1, 2, 4 })) {
		add(mc::fmt("row_remove(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < (int)m.a.r.size()) m.a.r.erase(m.a.r.begin() + i); return true; }, [=](R &r) { r.a->row_remove(i); return ""; });
		add(mc::fmt("row_remove_unordered(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < (int)m.a.r.size()) { m.a.r[i] = m.a.r.back(); m.a.r.pop_back(); } return true; }, [=](R &r) { r.a->row_remove_unordered(i); return ""; });
		for (int j : plus({ -1, 0, 1, 2 }))
			add(mc::fmt("row_swap(%d,%d)", i, j), [=](M &m, std::string &) { int h = m.a.r.size(); if (i >= 0 && i < h && j >= 0 && j < h) std::swap(m.a.r[i], m.a.r[j]); return true; }, [=](R &r) { r.a->row_swap(i, j); return ""; });
		add(mc::fmt("row_get(%d)", i), [=](M &m, std::string &o) { bool in = i >= 0 && i < (int)m.a.r.size(); o = in ? ls(m.a.r[i]) : "[]"; return true; },
				[=](R &r) { Vector<real_t> v = r.a->row_get_vector(i); PoolRealArray p = r.a->row_get_pool_vector(i); Ref<MLPPVector> q = r.a->row_get_mlpp_vector(i); Ref<MLPPVector> t; t.instance(); t->push_back(-5); r.a->row_get_into_mlpp_vector(i, t);
					L l, l2, l3, l4; for (int k = 0; k < v.size(); k++) l.push_back(v[k]); for (int k = 0; k < p.size(); k++) l2.push_back(p[k]); if (q.is_valid()) for (int k = 0; k < q->size(); k++) l3.push_back(q->element_get(k));
					for (int k = 0; k < t->size(); k++) l4.push_back(t->element_get(k));
					bool in = i >= 0 && i < r.a->size().y;
					return std::string(l == l2 && l == l3 && (in ? l4 == l : (l4 == L{ -5 } && !q.is_valid())) ? ls(l) : "differ"); });
		for (int j : plus({ -1, 0, 1, 3 })) {
			add(mc::fmt("element_set(%d,%d)", i, j), [=](M &m, std::string &) { if (i >= 0 && i < (int)m.a.r.size() && j >= 0 && j < m.a.w) m.a.r[i][j] = -3; return true; }, [=](R &r) { r.a->element_set(i, j, -3); return ""; });
			add(mc::fmt("element_get(%d,%d)", i, j), [=](M &m, std::string &o) { o = i >= 0 && i < (int)m.a.r.size() && j >= 0 && j < m.a.w ? mc::f2s(m.a.r[i][j]) : "0"; return true; }, [=](R &r) { return mc::f2s(r.a->element_get(i, j)); });
		}
		add(mc::fmt("element_set_index(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < (int)m.a.r.size() * m.a.w) m.a.r[i / m.a.w][i % m.a.w] = 4; return true; }, [=](R &r) { r.a->element_set_index(i, 4); return ""; });
		add(mc::fmt("element_get_index(%d)", i), [=](M &m, std::string &o) { o = i >= 0 && i < (int)m.a.r.size() * m.a.w ? mc::f2s(m.a.r[i / m.a.w][i % m.a.w]) : "0"; return true; }, [=](R &r) { return mc::f2s(r.a->element_get_index(i)); });
		add(mc::fmt("v=row(%d)", i), [=](M &m, std::string &) { if (i >= 0 && i < (int)m.a.r.size()) m.v = m.a.r[i]; return true; }, [=](R &r) { r.a->row_get_into_mlpp_vector(i, r.v); return ""; });
		add(mc::fmt("row_set(%d,v)", i), [=](M &m, std::string &) { if (i >= 0 && i < (int)m.a.r.size() && (int)m.v.size() == m.a.w) m.a.r[i] = m.v; return true; }, [=](R &r) { r.a->row_set_mlpp_vector(i, r.v); return ""; });
	}
	add("row_get_into(0,null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->row_get_into_mlpp_vector(0, Ref<MLPPVector>()); return ""; });
	for (int h : { 0, 1, 2, 3 }) for (int w : { 0, 1, 2, 3 }) if (h <= maxh && w <= maxw && (h == 0) == (w == 0)) // resizing leaves the contents to the caller: they are written here
		add(mc::fmt("resize(%dx%d)+write", h, w), [=](M &m, std::string &) { L l; for (int k = 0; k < h * w; k++) l.push_back(k + 1); m.a = flat(h, w, l); return true; }, [=](R &r) { r.a->resize(Size2i(w, h)); for (int k = 0; k < h * w; k++) r.a->element_set(k / w, k % w, k + 1); return ""; });
	add("fill(2)", [](M &m, std::string &) { for (auto &l : m.a.r) for (float &f : l) f = 2; return true; }, [](R &r) { r.a->fill(2); return ""; });
	add("clear", [](M &m, std::string &) { m.a = G(); return true; }, [](R &r) { r.a->clear(); return ""; });
	add("reset", [](M &m, std::string &) { m.a = G(); return true; }, [](R &r) { r.a->reset(); return ""; });
	add("transpose", [](M &m, std::string &) { if (m.a.w == 0 || m.a.r.empty()) return false; G t; t.w = m.a.r.size(); for (int j = 0; j < m.a.w; j++) { L l; for (auto &x : m.a.r) l.push_back(x[j]); t.r.push_back(l); } m.a = t; return true; }, [](R &r) { r.a->transpose(); return ""; });
	add("swap(a,b)", [](M &m, std::string &) { std::swap(m.a, m.b); return true; }, [](R &r) { SWAP(r.a, r.b); return ""; });
	// copies; an empty matrix converted to a list of rows has no rows, so its width is not part of the result
	auto copy = [](M &m, std::string &) { m.b = m.a; return true; };
	auto conv = [](M &m, std::string &) { m.b = m.a; if (m.b.r.empty()) m.b.w = 0; return true; };
	add("b=duplicate(a)", copy, [](R &r) { r.b = r.a->duplicate_fast(); return ""; });
	add("b.set_from(a)", copy, [](R &r) { r.b->set_from_mlpp_matrix(r.a); return ""; });
	add("b.set_from_r(a)", copy, [](R &r) { r.b->set_from_mlpp_matrixr(*r.a.ptr()); return ""; });
	add("a.set_from(a)", [](M &, std::string &) { return true; }, [](R &r) { r.a->set_from_mlpp_matrix(r.a); return ""; });
	add("a.set_from(null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->set_from_mlpp_matrix(Ref<MLPPMatrix>()); return ""; });
	add("a.set_from_ptr(null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->set_from_ptr(NULL, 1, 1); return ""; });
	add("b=copy-ctor(a)", copy, [](R &r) { r.b = Ref<MLPPMatrix>(memnew(MLPPMatrix(*r.a.ptr()))); return ""; });
	add("b.data(a)", copy, [](R &r) { r.b->set_data(r.a->get_data()); return ""; });
	add("b.ptr(a)", [](M &m, std::string &) { if (m.a.r.empty()) return false; m.b = m.a; return true; }, [](R &r) { r.b->set_from_ptr(r.a->ptr(), r.a->size().y, r.a->size().x); return ""; });
	add("b=ptr-ctor(a)", [](M &m, std::string &) { if (m.a.r.empty()) return false; m.b = m.a; return true; }, [](R &r) { r.b = Ref<MLPPMatrix>(memnew(MLPPMatrix(r.a->ptr(), r.a->size().y, r.a->size().x))); return ""; });
	auto rowsv = [](R &r) { Vector<Vector<real_t>> v; for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_vector(i)); return v; };
	auto rowsm = [](R &r) { Vector<Ref<MLPPVector>> v; for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_mlpp_vector(i)); return v; };
	add("b.vectors(a)", conv, [=](R &r) { r.b->set_from_vectors(rowsv(r)); return ""; });
	add("b=vectors-ctor(a)", conv, [=](R &r) { r.b = Ref<MLPPMatrix>(memnew(MLPPMatrix(rowsv(r)))); return ""; });
	add("b.mlpp_vectors(a)", conv, [=](R &r) { r.b->set_from_mlpp_vectors(rowsm(r)); return ""; });
	add("b.mlpp_vectors_array(a)", conv, [=](R &r) { Array v; for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_mlpp_vector(i)); r.b->set_from_mlpp_vectors_array(v); return ""; });
	add("b.arrays(a)", conv, [=](R &r) { Array v; for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_pool_vector(i)); r.b->set_from_arrays(v); return ""; });
	add("b=arrays-ctor(a)", conv, [=](R &r) { Array v; for (int i = 0; i < r.a->size().y; i++) v.push_back(r.a->row_get_pool_vector(i)); r.b = Ref<MLPPMatrix>(memnew(MLPPMatrix(v))); return ""; });
	add("b.std(a)", conv, [=](R &r) { r.b->set_from_std_vectors(r.a->to_std_vector()); return ""; });
	add("b=std-ctor(a)", conv, [=](R &r) { r.b = Ref<MLPPMatrix>(memnew(MLPPMatrix(r.a->to_std_vector()))); return ""; });
	// conversions from rows without columns give an empty matrix, ready to take rows of any width
	auto empt = [](M &m, std::string &) { m.b = G(); return true; };
	add("b.vectors({{},{}})", empt, [](R &r) { Vector<Vector<real_t>> v; v.resize(2); r.b->set_from_vectors(v); return ""; });
	add("b.mlpp_vectors({{}})", empt, [](R &r) { Vector<Ref<MLPPVector>> v; v.push_back(mv({})); r.b->set_from_mlpp_vectors(v); return ""; });
	add("b.arrays({{}})", empt, [](R &r) { Array v; v.push_back(PoolRealArray()); r.b->set_from_arrays(v); return ""; });
	add("b.std({{}})", empt, [](R &r) { std::vector<std::vector<real_t>> v(1); r.b->set_from_std_vectors(v); return ""; });
	add("b.mlpp_array({{}})", empt, [](R &r) { Array v; v.push_back(mv({})); r.b->set_from_mlpp_vectors_array(v); return ""; });
	add("equal(a,b)", [](M &m, std::string &o) { o = m.a.w == m.b.w && m.a.r == m.b.r ? "1" : "0"; return true; }, [](R &r) { return mc::fmt("%d%s", r.a->is_equal_approx(r.b), r.b->is_equal_approx(r.a) == r.a->is_equal_approx(r.b) ? "" : "asym"); });
	add("equal(a,a)", [](M &, std::string &o) { o = "1"; return true; }, [](R &r) { return mc::fmt("%d", r.a->is_equal_approx(r.a)); });
	add("equal(a,null)", [](M &, std::string &o) { o = "0"; return true; }, [](R &r) { return mc::fmt("%d", r.a->is_equal_approx(Ref<MLPPMatrix>())); });
	add("string(a)", [](M &m, std::string &o) { int n = 0; for (float f : fl(m.a)) { (void)f; n++; } o = mc::fmt("%d", n); return true; },
			[](R &r) { String s = r.a->to_string(); int n = 0; bool in = false; for (int i = 0; i < s.length(); i++) { bool d = (s[i] >= '0' && s[i] <= '9') || s[i] == '.' || s[i] == '-'; if (d && !in) n++; in = d; } return mc::fmt("%d", n); });
	return ops;
}

void explore() {
	mc::Explorer<M, R> e; e.held = Memory::get_mem_usage;
	e.label = "mat";
	e.mdump = [](const M &m) { return gs(m.a) + gs(m.b) + ls(m.v); };
	e.rdump = [](R &r) { L v; for (int i = 0; i < r.v->size(); i++) v.push_back(r.v->element_get(i)); return gs(rg(r.a)) + gs(rg(r.b)) + ls(v); };
	e.ops = build(4, 3, false);
	e.all_sequences(1);
	e.all_sequences(2);
	e.within = [](const M &m) { return m.a.r.size() <= 3 && m.b.r.size() <= 2; };
	e.bfs(mc::thorough() ? 7 : 4, mc::thorough() ? 40000 : 1200);
	// larger matrices of every aspect: every operation, then a few more
	struct HW { int h, w; };
	for (HW q : { HW{ 1, 4 }, HW{ 2, 4 }, HW{ 4, 2 }, HW{ 2, 7 }, HW{ 3, 5 }, HW{ 5, 3 }, HW{ 5, 2 }, HW{ 9, 3 }, HW{ 6, 6 }, HW{ 12, 7 }, HW{ 3, 17 }, HW{ 20, 1 } }) {
		int h = q.h, w = q.w;
		L row; for (int j = 0; j < w; j++) row.push_back(500 + j);
		e.ops = build(24, 5, true, { row }, { h / 2, h - 1, h, w - 1 });
		for (size_t o = 0; o < e.ops.size(); o++) {
			if (o % 16 == 0 && !mc::next(mc::fmt("%d rows of %d, then operations %d to %d, and another", h, w, (int)o, (int)o + 15))) { o += 15; continue; }
			M m; R r;
			for (int i = 0; i < h; i++) { L l; for (int j = 0; j < w; j++) l.push_back(20 * i + j); m.a.w = w; m.a.r.push_back(l); r.a->row_add(vv(l)); }
			if (!e.both(m, r, (int)o, mc::fmt("%dx%d", h, w))) continue;
			for (const char *n : { "row_remove(1)", "row_swap(2,0)", "row_remove_unordered(0)", "transpose" })
				for (size_t k = 0; k < e.ops.size(); k++) if (e.ops[k].name == n) { e.both(m, r, (int)k, e.ops[o].name); break; }
		}
	}
}
