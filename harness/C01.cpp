// MC: variant=asan
// C01: the vector is an ordered list of numbers under every history of editing operations.
#include "hist.h"
#include "core/mlpp_vector.h"
#include "core/mlpp_matrix.h"

typedef std::vector<float> L;
struct M { L a, b; };
struct R {
	Ref<MLPPVector> a, b;
	R() { a.instance(); b.instance(); }
};

static std::string ls(const L &l) { std::string s = "["; for (float f : l) s += mc::f2s(f) + " "; return s + "]"; }
static L rl(Ref<MLPPVector> v) {
	// every public way of reading has to agree
	L l;
	for (int i = 0; i < v->size(); i++) l.push_back(v->element_get(i));
	const real_t *p = v->ptr();
	for (int i = 0; i < v->size(); i++)
		if (memcmp(&p[i], &l[i], 4) || (*v.ptr())[i] != l[i] || v->element_get_ref(i) != l[i] || v->ptrw()[i] != l[i]) l.push_back(-999);
	if (v->empty() != (v->size() == 0)) l.push_back(-998);
	return l;
}

typedef mc::Op<M, R> O;
static void build(mc::Explorer<M, R> &e, const std::vector<float> &vals, int maxlen) {
	auto &ops = e.ops;
	auto add = [&](const std::string &n, std::function<bool(M &, std::string &)> m, std::function<std::string(R &)> r) { ops.push_back(O{ n, m, r }); };
	auto far = [&](std::vector<int> v) { if (maxlen > 6) v.insert(v.end(), { 8, 9, 16, 17, 31, 32, 33, 34 }); return v; };
#define FITS(k) if ((int)m.a.size() + (k) > maxlen) return false
	for (float v : vals) {
		add(mc::fmt("push_back(%g)", v), [=](M &m, std::string &) { FITS(1); m.a.push_back(v); return true; }, [=](R &r) { r.a->push_back(v); return ""; });
		add(mc::fmt("erase(%g)", v), [=](M &m, std::string &) { for (size_t i = 0; i < m.a.size(); i++) if (m.a[i] == v) { m.a.erase(m.a.begin() + i); break; } return true; }, [=](R &r) { r.a->erase(v); return ""; });
		add(mc::fmt("erase_multiple_unordered(%g)", v), [=](M &m, std::string &o) {
			int c = 0; size_t i = 0;
			while (i < m.a.size()) if (m.a[i] == v) { m.a[i] = m.a.back(); m.a.pop_back(); c++; } else i++;
			o = mc::fmt("%d", c); return true; }, [=](R &r) { return mc::fmt("%d", r.a->erase_multiple_unordered(v)); });
		add(mc::fmt("ordered_insert(%g)", v), [=](M &m, std::string &) { FITS(1); size_t i = 0; while (i < m.a.size() && !(v < m.a[i])) i++; m.a.insert(m.a.begin() + i, v); return true; }, [=](R &r) { r.a->ordered_insert(v); return ""; });
		add(mc::fmt("fill(%g)", v), [=](M &m, std::string &) { for (float &x : m.a) x = v; return true; }, [=](R &r) { r.a->fill(v); return ""; });
		for (int from : far({ -2, 0, 1, 2, 7 }))
			add(mc::fmt("find(%g,%d)", v, from), [=](M &m, std::string &o) { int f = -1; for (int i = from < 0 ? 1000 : from; i < (int)m.a.size(); i++) if (m.a[i] == v) { f = i; break; } o = mc::fmt("%d", f); return true; }, [=](R &r) { return mc::fmt("%d", r.a->find(v, from)); });
		for (int p : far({ -1, 0, 1, 2, 4, 6 }))
			add(mc::fmt("insert(%d,%g)", p, v), [=](M &m, std::string &) { FITS(1); if (p >= 0 && p <= (int)m.a.size()) m.a.insert(m.a.begin() + p, v); return true; }, [=](R &r) { r.a->insert(p, v); return ""; });
		for (int p : far({ 0, 2 }))
			add(mc::fmt("element_set(%d,%g)", p, v), [=](M &m, std::string &) { if (p < (int)m.a.size()) m.a[p] = v; return true; }, [=](R &r) { r.a->element_set(p, v); return ""; });
	}
	for (int p : { -1, 3, 100 })
		add(mc::fmt("element_set(%d,9)", p), [=](M &m, std::string &) { if (p >= 0 && p < (int)m.a.size()) m.a[p] = 9; return true; }, [=](R &r) { r.a->element_set(p, 9); return ""; });
	for (int p : { -1, 3, 100 })
		add(mc::fmt("element_get(%d)", p), [=](M &m, std::string &o) { o = p >= 0 && p < (int)m.a.size() ? mc::f2s(m.a[p]) : "0"; return true; }, [=](R &r) { return mc::f2s(r.a->element_get(p)); });
	for (int p : far({ -2, -1, 0, 1, 2, 3, 5 })) {
		add(mc::fmt("remove(%d)", p), [=](M &m, std::string &) { if (p >= 0 && p < (int)m.a.size()) m.a.erase(m.a.begin() + p); return true; }, [=](R &r) { r.a->remove(p); return ""; });
		add(mc::fmt("remove_unordered(%d)", p), [=](M &m, std::string &) { if (p >= 0 && p < (int)m.a.size()) { m.a[p] = m.a.back(); m.a.pop_back(); } return true; }, [=](R &r) { r.a->remove_unordered(p); return ""; });
	}
	for (int n : far({ 0, 1, 2, 4, 5 })) // growing leaves the new cells to the caller: they are filled here
		add(mc::fmt("resize(%d)+fill tail", n), [=](M &m, std::string &) { m.a.resize(n, 5); return true; }, [=](R &r) { int o = r.a->size(); r.a->resize(n); for (int i = o; i < n; i++) r.a->element_set(i, 5); return ""; });
	add("clear", [](M &m, std::string &) { m.a.clear(); return true; }, [](R &r) { r.a->clear(); return ""; });
	add("reset", [](M &m, std::string &) { m.a.clear(); return true; }, [](R &r) { r.a->reset(); return ""; });
	add("invert", [](M &m, std::string &) { std::reverse(m.a.begin(), m.a.end()); return true; }, [](R &r) { r.a->invert(); return ""; });
	add("sort", [](M &m, std::string &) { std::sort(m.a.begin(), m.a.end()); return true; }, [](R &r) { r.a->sort(); return ""; });
	add("swap(a,b)", [](M &m, std::string &) { std::swap(m.a, m.b); return true; }, [](R &r) { SWAP(r.a, r.b); return ""; });
	add("append(b)", [=](M &m, std::string &) { FITS((int)m.b.size()); m.a.insert(m.a.end(), m.b.begin(), m.b.end()); return true; }, [](R &r) { r.a->append_mlpp_vector(r.b); return ""; });
	add("append(a)", [=](M &m, std::string &) { FITS((int)m.a.size()); L t = m.a; m.a.insert(m.a.end(), t.begin(), t.end()); return true; }, [](R &r) { r.a->append_mlpp_vector(r.a); return ""; });
	add("append(null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->append_mlpp_vector(Ref<MLPPVector>()); return ""; });
	add("b=duplicate(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b = r.a->duplicate_fast(); return ""; });
	add("b.set_from(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b->set_from_mlpp_vector(r.a); return ""; });
	add("a.set_from(a)", [](M &, std::string &) { return true; }, [](R &r) { r.a->set_from_mlpp_vector(r.a); return ""; });
	add("a.set_from(null)", [](M &, std::string &) { return true; }, [](R &r) { r.a->set_from_mlpp_vector(Ref<MLPPVector>()); return ""; });
	add("b=copy-ctor(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b = Ref<MLPPVector>(memnew(MLPPVector(*r.a.ptr()))); return ""; });
	add("b.set_from_r(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b->set_from_mlpp_vectorr(*r.a.ptr()); return ""; });
	add("b.vector-roundtrip(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b->set_from_vector(r.a->to_vector()); return ""; });
	add("b.pool-roundtrip(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b->set_from_pool_vector(r.a->to_pool_vector()); return ""; });
	add("b.data-roundtrip(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b->set_data(r.a->get_data()); return ""; });
	add("b.std-roundtrip(a)", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b->set_from_std_vector(r.a->to_std_vector()); return ""; });
	add("b=ctor(vector(a))", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b = Ref<MLPPVector>(memnew(MLPPVector(r.a->to_vector()))); return ""; });
	add("b=ctor(pool(a))", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b = Ref<MLPPVector>(memnew(MLPPVector(r.a->to_pool_vector()))); return ""; });
	add("b=ctor(std(a))", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b = Ref<MLPPVector>(memnew(MLPPVector(r.a->to_std_vector()))); return ""; });
	add("b=ctor(ptr(a))", [](M &m, std::string &) { m.b = m.a; return true; }, [](R &r) { r.b = Ref<MLPPVector>(memnew(MLPPVector(r.a->ptr(), r.a->size()))); return ""; });
	add("bytes(a)", [](M &m, std::string &o) { o = ls(m.a); return true; }, [](R &r) { Vector<uint8_t> v = r.a->to_byte_array(); L l(v.size() / 4); if (v.size()) memcpy(&l[0], v.ptr(), l.size() * 4); return ls(l); });
	add("b.flatten{a,b0,a}", [=](M &m, std::string &) { FITS((int)m.a.size() + 1); L t = m.a; t.push_back(3); t.insert(t.end(), m.a.begin(), m.a.end()); m.b = t; return true; },
			[](R &r) { Ref<MLPPVector> x; x.instance(); x->push_back(3); Vector<Ref<MLPPVector>> v; v.push_back(r.a); v.push_back(x); v.push_back(r.a); r.b->flatten_vectors(v); return ""; });
	add("b=flattenn{b,a}", [=](M &m, std::string &) { FITS((int)m.b.size()); m.b.insert(m.b.end(), m.a.begin(), m.a.end()); return true; },
			[](R &r) { Vector<Ref<MLPPVector>> v; v.push_back(r.b); v.push_back(r.a); r.b = r.a->flatten_vectorsn(v); return ""; });
	add("equal(a,b)", [](M &m, std::string &o) { o = m.a == m.b ? "1" : "0"; return true; }, [](R &r) { return mc::fmt("%d%s", r.a->is_equal_approx(r.b), r.b->is_equal_approx(r.a) == r.a->is_equal_approx(r.b) ? "" : "asym"); });
	add("equal(a,null)", [](M &, std::string &o) { o = "0"; return true; }, [](R &r) { return mc::fmt("%d", r.a->is_equal_approx(Ref<MLPPVector>())); });
	add("max/min", [](M &m, std::string &o) {
			if (m.a.empty()) return false;
			int mx = 0, mn = 0; for (int i = 0; i < (int)m.a.size(); i++) { if (m.a[i] > m.a[mx]) mx = i; if (m.a[i] < m.a[mn]) mn = i; }
			o = mc::f2s(m.a[mx]) + " " + mc::f2s(m.a[mn]) + " ok"; return true; },
			[](R &r) { return mc::f2s(r.a->max_element()) + " " + mc::f2s(r.a->min_element()) + (r.a->element_get(r.a->max_element_index()) == r.a->max_element() && r.a->element_get(r.a->min_element_index()) == r.a->min_element() ? " ok" : " index"); });
	add("string(a)", [](M &m, std::string &o) { o = mc::fmt("%d", (int)m.a.size()); return true; }, [](R &r) { String s = r.a->to_string(); return mc::fmt("%d", s.size() > 0 ? r.a->size() : -1); });
}

void explore() {
	for (int big = 0; big < 2; big++) {
		mc::Explorer<M, R> e; e.held = Memory::get_mem_usage;
		e.label = big ? "long" : "vec";
		e.mdump = [](const M &m) { return ls(m.a) + ls(m.b); };
		e.rdump = [](R &r) { return ls(rl(r.a)) + ls(rl(r.b)); };
		if (!big) {
			build(e, { 1, 2, 5 }, 6);
			e.all_sequences(1);
			e.all_sequences(2);
			if (mc::thorough()) e.all_sequences(3);
			e.within = [](const M &m) { return m.a.size() <= 5 && m.b.size() <= 2; };
			e.bfs(mc::thorough() ? 9 : 6, mc::thorough() ? 60000 : 4000);
		} else {
			// longer vectors, two values only: reaches sizes at which sorting and removal change strategy
			build(e, { -1, 2, 3, 30 }, 40);
			e.within = [](const M &m) { return m.b.size() <= 40; };
			// start from vectors of 17..33 elements in adversarial orders
			for (int n : { 8, 17, 33 }) for (int pat = 0; pat < 5; pat++) {
				if (!mc::next(mc::fmt("long n=%d pattern=%d then every operation and sort", n, pat))) continue;
				for (size_t o = 0; o < e.ops.size(); o++) {
					M m; R r;
					for (int i = 0; i < n; i++) {
						float v = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i * 7) % 5 : pat == 3 ? (i & 1 ? -i : i) : (i * i) % 11;
						m.a.push_back(v); r.a->push_back(v);
					}
					if (!e.both(m, r, (int)o, mc::fmt("n=%d pattern=%d", n, pat))) continue;
					for (size_t k = 0; k < e.ops.size(); k++)
						if (e.ops[k].name == "sort" || e.ops[k].name == "invert" || e.ops[k].name == "max/min") e.both(m, r, (int)k, mc::fmt("n=%d pattern=%d %s", n, pat, e.ops[o].name.c_str()));
				}
			}
		}
	}
}
