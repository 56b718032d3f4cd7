// MC: variant=asan
// C50: arrays and dictionaries as shared, ordered containers: histories over two array handles and two dictionary handles which may share or nest in
// each other, against a model heap of lists; then formatting of arrays by every format against printf, and slices, searches and sorting of every small array.
#include "sfw.h"
#include "hist.h"
#include "txt.h"
static std::string utf(const String &s) { CharString c = s.utf8(); return c.get_data() ? std::string(c.get_data()) : std::string(); }
struct Val { int t; int n; Val(int tt = 0, int nn = 0) : t(tt), n(nn) {} bool operator==(const Val &o) const { return t == o.t && n == o.n; } }; // 0 nil, 1 int, 2 text, 3 array, 4 dictionary, 5 real, 6 bool
struct Obj { bool dict = false; std::vector<Val> a; std::vector<std::pair<Val, Val>> d; };
static const char *TX[] = { "", "x", "yy", "X" };
struct M { std::vector<Obj> h; int A, B, D, E; M() : h(4), A(0), B(1), D(2), E(3) { h[2].dict = h[3].dict = true; }
	int nw(bool d) { h.emplace_back(); h.back().dict = d; return (int)h.size() - 1; }
	bool deq(Val x, Val y) const { if (x.t != y.t) return false; if (x.t < 3 || x.t > 4) return x.n == y.n; if (x.n == y.n) return true; const Obj &p = h[x.n], &q = h[y.n]; if (p.a.size() != q.a.size() || p.d.size() != q.d.size()) return false; for (size_t i = 0; i < p.a.size(); i++) if (!deq(p.a[i], q.a[i])) return false; for (size_t i = 0; i < p.d.size(); i++) if (!deq(p.d[i].first, q.d[i].first) || !deq(p.d[i].second, q.d[i].second)) return false; return true; }
	bool eq(Val x, Val y) const { if (x.t != y.t) return false; if (x.t != 3) return x.n == y.n; const Obj &p = h[x.n], &q = h[y.n]; if (p.a.size() != q.a.size()) return false; for (size_t i = 0; i < p.a.size(); i++) if (!eq(p.a[i], q.a[i])) return false; return true; } // arrays by content, dictionaries by identity
	bool reaches(int from, int to) const { if (from == to) return true; for (auto &v : h[from].a) if (v.t == 3 || v.t == 4) if (reaches(v.n, to)) return true; for (auto &p : h[from].d) if (p.second.t == 3 || p.second.t == 4) if (reaches(p.second.n, to)) return true; return false; }
	bool fits(int into, Val v) const { return (v.t != 3 && v.t != 4) || !reaches(v.n, into); } // no cycles
	Val copy(Val v, bool deep) { if (v.t != 3 && v.t != 4) return v; int k = nw(v.t == 4); Obj o = h[v.n]; if (deep) { for (auto &x : o.a) x = copy(x, true); for (auto &p : o.d) p.second = copy(p.second, true); } h[k].a = o.a; h[k].d = o.d; return Val(v.t, k); }
	int depth(int o) const { int m = 0; for (auto &v : h[o].a) if (v.t == 3 || v.t == 4) m = std::max(m, depth(v.n)); for (auto &p : h[o].d) if (p.second.t == 3 || p.second.t == 4) m = std::max(m, depth(p.second.n)); return m + 1; }
};
struct R { Array A, B; Dictionary D, E; };
static std::string mv(const M &m, Val v, std::map<int, int> &id); static std::string mo(const M &m, int o, std::map<int, int> &id) { auto it = id.find(o); if (it != id.end()) return mc::fmt("#%d", it->second); int k = (int)id.size(); id[o] = k; std::string s = mc::fmt("#%d", k) + (m.h[o].dict ? "{" : "["); for (auto &v : m.h[o].a) s += mv(m, v, id) + ","; for (auto &p : m.h[o].d) s += mv(m, p.first, id) + ":" + mv(m, p.second, id) + ","; return s + (m.h[o].dict ? "}" : "]"); }
static std::string mv(const M &m, Val v, std::map<int, int> &id) { switch (v.t) { case 0: return "nil"; case 1: return mc::fmt("%d", v.n); case 2: return std::string("'") + TX[v.n] + "'"; case 5: return mc::fmt("%d.5", v.n); case 6: return v.n ? "true" : "false"; } return mo(m, v.n, id); }
static std::string rv(const Variant &v, std::map<const void *, int> &id); static std::string ra(const Array &a, std::map<const void *, int> &id) { auto it = id.find(a.id()); if (it != id.end()) return mc::fmt("#%d", it->second); int k = (int)id.size(); id[a.id()] = k; std::string s = mc::fmt("#%d[", k); for (int i = 0; i < a.size(); i++) s += rv(a[i], id) + ","; return s + "]"; }
static std::string rd(const Dictionary &d, std::map<const void *, int> &id) { auto it = id.find(d.id()); if (it != id.end()) return mc::fmt("#%d", it->second); int k = (int)id.size(); id[d.id()] = k; std::string s = mc::fmt("#%d{", k); const Variant *q = nullptr; int n = 0; while ((q = d.next(q))) { s += rv(*q, id) + ":" + rv(d[*q], id) + ","; if (++n > 50) return "endless"; } return s + "}"; }
static std::string rv(const Variant &v, std::map<const void *, int> &id) { switch (v.get_type()) { case Variant::NIL: return "nil"; case Variant::INT: return mc::fmt("%d", (int)v); case Variant::REAL: return mc::fmt("%g", (double)v); case Variant::BOOL: return (bool)v ? "true" : "false"; case Variant::STRING: return "'" + utf(String(v)) + "'"; case Variant::ARRAY: return ra(v, id); case Variant::DICTIONARY: return rd(v, id); default: return "?"; } }
static Variant lit(Val v) { switch (v.t) { case 1: return v.n; case 2: return String(TX[v.n]); case 5: return v.n + 0.5; case 6: return v.n != 0; default: return Variant(); } }
// the values the queries ask for
static const std::vector<Val> &probes() { static std::vector<Val> p = { { 0 }, { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 3 }, { 5, 1 } }; return p; }
static std::string mdump(const M &m) {
	std::map<int, int> id; std::string s = "A=" + mo(m, m.A, id) + " B=" + mo(m, m.B, id) + " D=" + mo(m, m.D, id) + " E=" + mo(m, m.E, id) + " |";
	for (int w = 0; w < 2; w++) { const std::vector<Val> &a = m.h[w ? m.B : m.A].a; int n = (int)a.size(); std::map<int, int> i2; s += mc::fmt(" n%d", n); if (n) s += " f" + mv(m, a[0], i2) + " b" + mv(m, a[n - 1], i2);
		for (auto &p : probes()) { int c = 0, f = -1, l = -1, f1 = -1, l1 = -1; for (int i = 0; i < n; i++) if (m.eq(a[i], p)) { c++; if (f < 0) f = i; if (i >= 1 && f1 < 0) f1 = i; l = i; if (i <= n - 2) l1 = i; } s += mc::fmt(" %d,%d,%d,%d,%d", c, f, l, f1, n == 1 ? l : l1); } s += ";"; }
	s += mc::fmt(" id%d eq%d deep%d deepD%d idD%d |", m.A == m.B, m.eq({ 3, m.A }, { 3, m.B }), m.deq({ 3, m.A }, { 3, m.B }), m.deq({ 4, m.D }, { 4, m.E }), m.D == m.E);
	for (int w = 0; w < 2; w++) { const auto &d = m.h[w ? m.E : m.D].d; std::map<int, int> i2; s += mc::fmt(" n%d", (int)d.size()); for (auto &p : probes()) { int f = -1, g = -1; for (int i = 0; i < (int)d.size(); i++) { if (d[i].first == p) f = i; if (g < 0 && m.eq(d[i].second, p)) g = i; } s += f < 0 ? " -" : " " + mv(m, d[f].second, i2); s += g < 0 ? "/-" : "/" + mv(m, d[g].first, i2); } }
	return s;
}
static std::string rdump(R &r) {
	std::map<const void *, int> id; std::string s = "A=" + ra(r.A, id) + " B=" + ra(r.B, id) + " D=" + rd(r.D, id) + " E=" + rd(r.E, id) + " |";
	for (int w = 0; w < 2; w++) { const Array &a = w ? r.B : r.A; int n = a.size(); std::map<const void *, int> i2; s += mc::fmt(" n%d", n); if (a.empty() != (n == 0)) s += " EMPTY"; if (n) { std::string f = rv(a.front(), i2); s += " f" + f + " b" + rv(a.back(), i2); }
		for (auto &p : probes()) { Variant v = lit(p); int l = a.find_last(v); if (l != a.rfind(v) || a.has(v) != (l >= 0)) s += " HAS"; s += mc::fmt(" %d,%d,%d,%d,%d", a.count(v), a.find(v), l, a.find(v, 1), a.rfind(v, -2)); } s += ";"; }
	bool e = Variant(r.A) == Variant(r.B), dp = r.A.deep_equal(r.B), dd = r.D.deep_equal(r.E); if (e == (Variant(r.A) != Variant(r.B))) s += " NE"; if (dp && (r.A.hash() != r.B.hash() || Variant(r.A).hash() != Variant(r.B).hash())) s += " HASH"; if (dd && r.D.hash() != r.E.hash()) s += " HASHD"; if ((r.A == r.B) != (r.A.id() == r.B.id())) s += " ID"; if ((r.D == r.E) == (r.D != r.E)) s += " NED";
	s += mc::fmt(" id%d eq%d deep%d deepD%d idD%d |", r.A == r.B, e, dp, dd, r.D == r.E);
	for (int w = 0; w < 2; w++) { const Dictionary &d = w ? r.E : r.D; Dictionary dn(d); std::map<const void *, int> i2; s += mc::fmt(" n%d", d.size()); if (d.empty() != (d.size() == 0)) s += " EMPTY"; Array ks = d.keys(), vs = d.values(); List<Variant> kl; d.get_key_list(&kl); if (ks.size() != d.size() || vs.size() != d.size() || kl.size() != d.size() || !d.has_all(ks)) s += " KEYS"; else { int i = 0; for (List<Variant>::Element *x = kl.front(); x; x = x->next(), i++) if (x->get() != ks[i] || d.get_key_at_index(i) != ks[i] || !(d.get_value_at_index(i) == vs[i]) || !(d[ks[i]] == vs[i])) s += " ORDER"; }
		for (auto &p : probes()) { Variant v = lit(p); bool h = d.has(v); const Variant *q = d.getptr(v); if (h != (q != nullptr) || dn.getptr(v) != q || d.get(v, "def") != (h ? *q : Variant("def")) || d.get_valid(v) != (h ? *q : Variant())) s += " GET"; s += h ? " " + rv(*q, i2) : " -"; bool in = false; for (int i = 0; i < vs.size(); i++) in = in || vs[i] == v; s += in ? "/" + rv(d.find_key(v), i2) : "/-"; if (!in && d.find_key(v).get_type() != Variant::NIL) s += " FK"; } }
	return s;
}
static std::string rs(const Variant &v) { std::map<const void *, int> id; if (v.get_type() == Variant::ARRAY || v.get_type() == Variant::DICTIONARY) return "obj"; return rv(v, id); }
static std::string ms(const M &m, Val v) { std::map<int, int> id; return v.t == 3 || v.t == 4 ? "obj" : mv(m, v, id); }
static void histories() {
	mc::Explorer<M, R> x; x.label = "containers"; x.held = Memory::get_mem_usage; x.mdump = mdump; x.rdump = rdump; int LIM = 4; x.within = [=](const M &m) { for (int o : { m.A, m.B, m.D, m.E }) if ((int)m.h[o].a.size() > LIM || m.depth(o) > 3) return false; return true; };
	auto add = [&](std::string n, std::function<bool(M &, std::string &)> m, std::function<std::string(R &)> r) { x.ops.push_back({ n, m, r }); };
	auto W = [](M &m, int w) -> std::vector<Val> & { return m.h[w ? m.B : m.A].a; }; auto RW = [](R &r, int w) -> Array & { return w ? r.B : r.A; };
	struct Src { const char *n; int t, v; }; static const Src src[] = { { "1", 1, 1 }, { "2", 1, 2 }, { "'x'", 2, 1 }, { "nil", 0, 0 }, { "B", 3, 1 }, { "D", 4, 0 }, { "A", 3, 0 } };
	auto msrc = [](M &m, const Src &s) { return s.t == 3 ? Val(3, s.v ? m.B : m.A) : s.t == 4 ? Val(4, m.D) : Val(s.t, s.v); }; auto rsrc = [](R &r, const Src &s) -> Variant { return s.t == 3 ? Variant(s.v ? r.B : r.A) : s.t == 4 ? Variant(r.D) : lit(Val(s.t, s.v)); };
	for (auto &s : src) { int w = s.t == 3 && s.v == 0 ? 1 : 0; std::string t = w ? "B" : "A"; // A goes into B
		add(t + ".push_back " + s.n, [=](M &m, std::string &) { Val v = msrc(m, s); if (!m.fits(w ? m.B : m.A, v)) return false; W(m, w).push_back(v); return true; }, [=](R &r) { Variant v = rsrc(r, s); if (s.v == 1) RW(r, w).append(v); else RW(r, w).push_back(v); return std::string(); });
		add(t + "[0]=" + s.n, [=](M &m, std::string &) { Val v = msrc(m, s); if (W(m, w).empty() || !m.fits(w ? m.B : m.A, v)) return false; W(m, w)[0] = v; return true; }, [=](R &r) { Variant v = rsrc(r, s); if (s.v == 1) RW(r, w).set(0, v); else RW(r, w)[0] = v; return std::string(); });
		add(t + ".push_front " + s.n, [=](M &m, std::string &) { Val v = msrc(m, s); if (!m.fits(w ? m.B : m.A, v)) return false; W(m, w).insert(W(m, w).begin(), v); return true; }, [=](R &r) { RW(r, w).push_front(rsrc(r, s)); return std::string(); });
		if (s.t == 1 || s.t == 4) add(t + ".erase " + s.n, [=](M &m, std::string &) { Val v = msrc(m, s); auto &a = W(m, w); for (size_t i = 0; i < a.size(); i++) if (m.eq(a[i], v)) { a.erase(a.begin() + i); break; } return true; }, [=](R &r) { RW(r, w).erase(rsrc(r, s)); return std::string(); });
		if (s.t == 2 || s.t == 4) add(t + ".fill " + s.n, [=](M &m, std::string &) { Val v = msrc(m, s); if (!m.fits(w ? m.B : m.A, v)) return false; for (auto &e : W(m, w)) e = v; return true; }, [=](R &r) { RW(r, w).fill(rsrc(r, s)); return std::string(); });
	}
	for (int p : { 1, 2, 5 }) { add(mc::fmt("A.insert %d", p), [=](M &m, std::string &) { auto &a = W(m, 0); if (p > (int)a.size()) return true; a.insert(a.begin() + p, Val(2, 2)); return true; }, [=](R &r) { r.A.insert(p, "yy"); return std::string(); }); }
	for (int p : { 0, 1, -1, 4 }) { add(mc::fmt("A.remove %d", p), [=](M &m, std::string &) { auto &a = W(m, 0); if (p < 0 || p >= (int)a.size()) return true; a.erase(a.begin() + p); return true; }, [=](R &r) { r.A.remove(p); return std::string(); });
		add(mc::fmt("A.pop_at %d", p), [=](M &m, std::string &o) { auto &a = W(m, 0); int q = p < 0 ? p + (int)a.size() : p; if (q < 0 || q >= (int)a.size()) { o = "nil"; return true; } o = ms(m, a[q]); a.erase(a.begin() + q); return true; }, [=](R &r) { return rs(r.A.pop_at(p)); }); }
	for (int n : { 0, 1, 3 }) add(mc::fmt("A.resize %d", n), [=](M &m, std::string &) { W(m, 0).resize(n); return true; }, [=](R &r) { r.A.resize(n); return std::string(); });
	add("A.clear", [=](M &m, std::string &) { W(m, 0).clear(); return true; }, [](R &r) { r.A.clear(); return std::string(); });
	add("A.invert", [=](M &m, std::string &) { std::reverse(W(m, 0).begin(), W(m, 0).end()); return true; }, [](R &r) { return std::string(r.A.invert().id() == r.A.id() ? "" : "other"); });
	add("A.sort", [=](M &m, std::string &) { auto &a = W(m, 0); for (auto &v : a) if (v.t != a[0].t || (v.t != 1 && v.t != 2)) return false; std::stable_sort(a.begin(), a.end(), [](Val p, Val q) { return p.t == 1 ? p.n < q.n : std::string(TX[p.n]) < TX[q.n]; }); return true; }, [](R &r) { return std::string(r.A.sort().id() == r.A.id() ? "" : "other"); });
	add("A.pop_back", [=](M &m, std::string &o) { auto &a = W(m, 0); if (a.empty()) { o = "nil"; return true; } o = ms(m, a.back()); a.pop_back(); return true; }, [](R &r) { return rs(r.A.pop_back()); });
	add("A.pop_front", [=](M &m, std::string &o) { auto &a = W(m, 0); if (a.empty()) { o = "nil"; return true; } o = ms(m, a[0]); a.erase(a.begin()); return true; }, [](R &r) { return rs(r.A.pop_front()); });
	add("A.append_array B", [=](M &m, std::string &) { auto b = W(m, 1); for (auto &v : b) if (!m.fits(m.A, v)) return false; auto &a = W(m, 0); a.insert(a.end(), b.begin(), b.end()); return true; }, [](R &r) { r.A.append_array(r.B); return std::string(); });
	add("A.append_array A", [=](M &m, std::string &) { auto b = W(m, 0); auto &a = W(m, 0); a.insert(a.end(), b.begin(), b.end()); return true; }, [](R &r) { r.A.append_array(r.A); return std::string(); });
	add("A=B", [](M &m, std::string &) { m.A = m.B; return true; }, [](R &r) { r.A = r.B; return std::string(); });
	add("B=A", [](M &m, std::string &) { m.B = m.A; return true; }, [](R &r) { Array t(r.A); r.B = t; return std::string(); });
	add("A=A", [](M &, std::string &) { return true; }, [](R &r) { Array &a = r.A; r.A = a; return std::string(); });
	add("A<->B", [](M &m, std::string &) { std::swap(m.A, m.B); return true; }, [](R &r) { Array t = r.A; r.A = r.B; r.B = t; return std::string(); });
	add("B=copy A", [](M &m, std::string &) { m.B = m.copy(Val(3, m.A), false).n; return true; }, [](R &r) { r.B = r.A.duplicate(); return std::string(); });
	add("B=deep A", [](M &m, std::string &) { m.B = m.copy(Val(3, m.A), true).n; return true; }, [](R &r) { r.B = r.A.duplicate(true); return std::string(); });
	add("B=deep variant A", [](M &m, std::string &) { m.B = m.copy(Val(3, m.A), true).n; return true; }, [](R &r) { r.B = Variant(r.A).duplicate(true); return std::string(); });
	add("B=slice A", [](M &m, std::string &) { int k = m.nw(false); auto a = m.h[m.A].a; for (size_t i = 0; i < a.size(); i += 2) m.h[k].a.push_back(a[i]); m.B = k; return true; }, [](R &r) { r.B = r.A.slice(0, 100, 2); return std::string(); });
	add("B=deep slice A", [](M &m, std::string &) { int k = m.nw(false); auto a = m.h[m.A].a; for (size_t i = 1; i < a.size(); i++) { Val v = m.copy(a[i], true); m.h[k].a.push_back(v); } m.B = k; return true; }, [](R &r) { r.B = r.A.size() > 1 ? r.A.slice(1, -1, 1, true) : Array(); return std::string(); });
	add("A=A[0]", [](M &m, std::string &) { auto &a = m.h[m.A].a; if (a.empty() || a[0].t != 3) return false; m.A = a[0].n; return true; }, [](R &r) { r.A = r.A[0]; return std::string(); });
	// dictionaries
	struct Kv { int kt, k; const char *n; Src s; }; static const Kv kvs[] = { { 1, 1, "D[1]=1", { "1", 1, 1 } }, { 2, 1, "D['x']=A", { "A", 3, 0 } }, { 2, 3, "D['X']=nil", { "nil", 0, 0 } }, { 5, 1, "D[1.5]='x'", { "x", 2, 1 } }, { 0, 0, "D[nil]=2", { "2", 1, 2 } }, { 1, 2, "D[2]=B", { "B", 3, 1 } } };
	for (auto &kv : kvs) { Val k(kv.kt, kv.k); Src s = kv.s; add(kv.n, [=](M &m, std::string &) { Val v = msrc(m, s); if (!m.fits(m.D, v)) return false; auto &d = m.h[m.D].d; for (auto &p : d) if (p.first == k) { p.second = v; return true; } d.push_back({ k, v }); return true; }, [=](R &r) { Variant v = rsrc(r, s); r.D[lit(k)] = v; return std::string(); });
		add(std::string("erase ") + kv.n, [=](M &m, std::string &o) { auto &d = m.h[m.D].d; o = "0"; for (size_t i = 0; i < d.size(); i++) if (d[i].first == k) { d.erase(d.begin() + i); o = "1"; break; } return true; }, [=](R &r) { return std::string(r.D.erase(lit(k)) ? "1" : "0"); }); }
	add("D.get_or_add 1", [](M &m, std::string &o) { auto &d = m.h[m.D].d; for (auto &p : d) if (p.first == Val(1, 1)) { o = ms(m, p.second); return true; } d.push_back({ Val(1, 1), Val(2, 2) }); o = "'yy'"; return true; }, [](R &r) { return rs(r.D.get_or_add(1, "yy")); });
	add("D.clear", [](M &m, std::string &) { m.h[m.D].d.clear(); return true; }, [](R &r) { r.D.clear(); return std::string(); });
	for (int ow = 0; ow < 2; ow++) add(mc::fmt("D.merge E %d", ow), [=](M &m, std::string &) { auto e = m.h[m.E].d; for (auto &p : e) if (!m.fits(m.D, p.second)) return false; auto &d = m.h[m.D].d; for (auto &p : e) { bool f = false; for (auto &q : d) if (q.first == p.first) { f = true; if (ow) q.second = p.second; } if (!f) d.push_back(p); } return true; }, [=](R &r) { r.D.merge(r.E, ow); return std::string(); });
	add("D<->E", [](M &m, std::string &) { std::swap(m.D, m.E); return true; }, [](R &r) { Dictionary t = r.D; r.D = r.E; r.E = t; return std::string(); });
	add("E=D", [](M &m, std::string &) { m.E = m.D; return true; }, [](R &r) { r.E = r.D; return std::string(); });
	add("D=D", [](M &, std::string &) { return true; }, [](R &r) { Dictionary &d = r.D; r.D = d; return std::string(); });
	add("E=copy D", [](M &m, std::string &) { m.E = m.copy(Val(4, m.D), false).n; return true; }, [](R &r) { r.E = r.D.duplicate(); return std::string(); });
	add("E=deep D", [](M &m, std::string &) { m.E = m.copy(Val(4, m.D), true).n; return true; }, [](R &r) { r.E = Variant(r.D.duplicate(true)); return std::string(); });
	add("A=D.keys", [](M &m, std::string &) { int k = m.nw(false); for (auto &p : std::vector<std::pair<Val, Val>>(m.h[m.D].d)) m.h[k].a.push_back(p.first); m.A = k; return true; }, [](R &r) { r.A = r.D.keys(); return std::string(); });
	add("A=D.values", [](M &m, std::string &) { int k = m.nw(false); for (auto &p : std::vector<std::pair<Val, Val>>(m.h[m.D].d)) m.h[k].a.push_back(p.second); m.A = k; return true; }, [](R &r) { r.A = r.D.values(); return std::string(); });
	x.all_sequences(mc::thorough() ? 3 : 2); x.bfs(mc::thorough() ? 6 : 5, mc::thorough() ? 12000 : 2500);
}
// ---- every small array of integers
static Array arr(const std::vector<int> &v) { Array a; for (int i : v) a.push_back(i); return a; }
static std::string lst(const std::vector<int> &v) { std::string s; for (int i : v) s += mc::fmt("%d ", i); return s; }
static std::vector<int> vec(const Array &a) { std::vector<int> v; for (int i = 0; i < a.size(); i++) v.push_back((int)a[i]); return v; }
static std::vector<std::vector<int>> lists(int n, int k) { std::vector<std::vector<int>> r; for (int l = 0; l <= n; l++) { long t = 1; for (int i = 0; i < l; i++) t *= k; for (long c = 0; c < t; c++) { std::vector<int> v; long x = c; for (int i = 0; i < l; i++, x /= k) v.push_back((int)(x % k)); r.push_back(v); } } return r; }
static void smallarrays() {
	int N = mc::thorough() ? 6 : 5; for (auto &v : lists(N, 3)) MC_CASE("array %s", lst(v).c_str()) {
		mc::state(lst(v)); int n = (int)v.size(); Array a = arr(v);
		for (int b = -n - 2; b <= n + 1; b++) for (int e = -n - 2; e <= n + 1; e++) for (int st : { 1, 2, 3, -1, -2, -5 }) { std::vector<int> w; if (n && !(st > 0 ? b >= n || e < -n : b < -n || e >= n)) { auto cl = [&](int i) { i = std::max(-n, std::min(n - 1, i)); return i < 0 ? i + n : i; }; for (int i = cl(b); st > 0 ? i <= cl(e) : i >= cl(e); i += st) w.push_back(v[i]); } mc::transition(); Array s = a.slice(b, e, st); mc::ok(vec(s) == w, "array:slice", "slice(%d, %d, %d) of %s gives %s, expected %s", b, e, st, lst(v).c_str(), lst(vec(s)).c_str(), lst(w).c_str());
			if (n <= 4) for (bool deep : { false, true }) { Array nest; std::vector<Array> in; for (int x : v) { Array y; y.push_back(x); in.push_back(y); nest.push_back(y); } Array t = nest.slice(b, e, st, deep); for (auto &y : in) y.set(0, (int)y[0] + 10); std::vector<int> g, u; for (int i = 0; i < t.size(); i++) g.push_back((int)((Array)t[i])[0]); for (int x : w) u.push_back(deep ? x : x + 10); mc::transition(); mc::ok(g == u, deep ? "array:slice:deep" : "array:slice:shallow", "slice(%d, %d, %d) of arrays holding %s, changed afterwards, holds %s", b, e, st, lst(v).c_str(), lst(g).c_str()); } }
		std::vector<int> s = v; std::sort(s.begin(), s.end()); Array q = a.duplicate(); q.sort(); mc::ok(vec(q) == s && vec(a) == v, "array:sort", "sort of %s gives %s", lst(v).c_str(), lst(vec(q)).c_str());
		for (int k = -1; k <= 3; k++) { int lo = (int)(std::lower_bound(s.begin(), s.end(), k) - s.begin()), hi = (int)(std::upper_bound(s.begin(), s.end(), k) - s.begin()); mc::ok(q.bsearch(k) == lo && q.bsearch(k, true) == lo && q.bsearch(k, false) == hi, "array:bsearch", "bsearch of %d in %s gives %d and %d", k, lst(s).c_str(), q.bsearch(k), q.bsearch(k, false));
			for (int f = -n - 1; f <= n + 1; f++) { int x = -1; int from = f < 0 ? f + n : f; if (from < 0 || from >= n) from = n - 1; for (int i = from; i >= 0 && x < 0; i--) if (v[i] == k) x = i; mc::ok(a.rfind(k, f) == x, "array:rfind", "rfind of %d from %d in %s gives %d", k, f, lst(v).c_str(), a.rfind(k, f)); if (f >= 0) { int y = -1; for (int i = f; i < n && y < 0; i++) if (v[i] == k) y = i; mc::ok(a.find(k, f) == y, "array:find", "find of %d from %d in %s gives %d", k, f, lst(v).c_str(), a.find(k, f)); } } }
		mc::ok(n ? (int)a.min() == s[0] && (int)a.max() == s[n - 1] : a.min().is_null() && a.max().is_null(), "array:minmax", "min and max of %s", lst(v).c_str());
		Math::seed(lst(v).size() * 31 + n); Array h = a.duplicate(); h.shuffle(); std::vector<int> hv = vec(h); std::sort(hv.begin(), hv.end()); mc::ok(hv == s, "array:shuffle", "shuffle of %s lost elements", lst(v).c_str());
		std::string t = "["; for (int i = 0; i < n; i++) t += (i ? ", " : "") + std::to_string(v[i]); t += "]"; mc::ok(utf(String(Variant(a))) == t, "array:text", "text of %s is %s", t.c_str(), utf(String(Variant(a))).c_str());
	}
	auto L = lists(mc::thorough() ? 4 : 3, 3); for (auto &v : L) MC_CASE("comparisons with %s", lst(v).c_str()) for (auto &w : L) { Array a = arr(v), b = arr(w); mc::transition(); bool lt = v < w, eq = v == w; mc::ok((a < b) == lt && (a <= b) == (lt || eq) && (a > b) == (w < v) && (a >= b) == !lt && a.deep_equal(b) == eq && (!eq || a.hash() == b.hash()) && (Variant(a) == Variant(b)) == eq, "array:compare", "comparing %s with %s", lst(v).c_str(), lst(w).c_str()); mc::ok((Variant(a) < Variant(b)) == lt, "array:variant_less", "Variant: %s < %s gives %d", lst(v).c_str(), lst(w).c_str(), Variant(a) < Variant(b));
		Variant r; bool ok; Variant::evaluate(Variant::OP_GREATER, a, b, r, ok); mc::ok(ok && (bool)r == (w < v), "array:variant_greater", "Variant: %s > %s gives %d", lst(v).c_str(), lst(w).c_str(), (bool)r); Variant::evaluate(Variant::OP_ADD, a, b, r, ok); std::vector<int> s = v; s.insert(s.end(), w.begin(), w.end()); mc::ok(ok && vec(r) == s && vec(a) == v && vec(b) == w, "array:add", "%s + %s gives %s", lst(v).c_str(), lst(w).c_str(), lst(vec(r)).c_str()); }
	// arrays of every depth as dictionary keys: found by content
	for (auto &v : L) MC_CASE("keys %s", lst(v).c_str()) { Dictionary d; int i = 0; for (auto &w : L) d[arr(w)] = i++; i = 0; bool good = d.size() == (int)L.size(); for (auto &w : L) { good = good && d.has(arr(w)) && (int)d[arr(w)] == i; i++; } good = good && d.erase(arr(v)) && !d.has(arr(v)) && d.size() == (int)L.size() - 1; mc::ok(good, "dictionary:arraykeys", "array keys are not found by content (%s)", lst(v).c_str()); }
	// cycles are survivable
	MC_CASE("cycles") { Array a; a.push_back(1); a.push_back(a); Dictionary d; d["self"] = d; mc::ok(utf(String(Variant(a))) == "[1, [...]]" && utf(String(Variant(d))) == "{self:{...}}", "cycle:text", "text of cyclic containers: %s %s", utf(String(Variant(a))).c_str(), utf(String(Variant(d))).c_str()); a.clear(); d.clear(); }
}
// ---- orders given by an object
struct Order : public Object { int kind = 0; long calls = 0; bool lt(const Variant &l, const Variant &r) override { calls++; int a = l, b = r; switch (kind) { case 0: return a > b; case 1: return (a + 1) % 3 < (b + 1) % 3; case 2: return false; case 3: return true; case 4: return a <= b; default: return calls * 7 % 5 < 2; } } };
static void orders() {
	static const char *names[] = { "descending", "rotated", "all equal", "always less", "not strict", "erratic" };
	std::vector<std::vector<int>> L = lists(mc::thorough() ? 6 : 5, 3); for (int n : { 15, 16, 17, 18, 33, 40, 100 }) for (int m : { 1, 2, 3 }) for (int pat = 0; pat < 6; pat++) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(pat == 0 ? i % m : pat == 1 ? i * m / n : pat == 2 ? (n - 1 - i) * m / n : pat == 3 ? (i * 7 + i * i) % m : pat == 4 ? (i < n / 2 ? 0 : m - 1) : (i & 1) * (m - 1)); L.push_back(v); }
	for (int k = 0; k < 6; k++) MC_CASE("order %s", names[k]) for (auto &v : L) {
		Order o; o.kind = k; Array a = arr(v); mc::transition(); Array &ret = a.sort_custom(&o); std::vector<int> g = vec(a), p = g, q = v; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
		mc::ok(p == q && ret.id() == a.id(), "sort_custom:permutation", "%s sorted by '%s' gives %s", lst(v).c_str(), names[k], lst(g).c_str());
		if (k > 2) continue; // not an order: only safety
		auto less = [&](int x, int y) { return k == 0 ? x > y : k == 1 ? (x + 1) % 3 < (y + 1) % 3 : false; }; bool in = true; for (size_t i = 1; i < g.size(); i++) in = in && !less(g[i], g[i - 1]);
		mc::ok(in, "sort_custom:order", "%s sorted by '%s' gives %s", lst(v).c_str(), names[k], lst(g).c_str());
		for (int x = 0; x < 3; x++) { int lo = (int)(std::lower_bound(g.begin(), g.end(), x, less) - g.begin()), hi = (int)(std::upper_bound(g.begin(), g.end(), x, less) - g.begin()); int b = a.bsearch_custom(x, &o, "lt", true), c = a.bsearch_custom(x, &o, "lt", false); mc::ok(b == lo && c == hi && vec(a) == g, "bsearch_custom", "%d in %s ordered by '%s' is found at %d and %d instead of %d and %d", x, lst(g).c_str(), names[k], b, c, lo, hi); }
	}
}
// ---- formatting
static void formats() {
	struct A1 { const char *n; Variant v; int k; double d; }; std::vector<A1> as; for (long i : { 0L, 1L, -1L, 7L, -42L, 255L, 123456L, -2147483648L, 9223372036854775807L, -9223372036854775807L - 1 }) as.push_back({ "int", (int64_t)i, 1, (double)i }); for (double f : { 0.0, 0.5, -0.25, 3.14159, -123.456, 1e6, 2.999, (double)INFINITY, -(double)INFINITY, (double)NAN }) as.push_back({ "real", f, 2, f }); as.push_back({ "text", String("hey"), 3, 0 }); as.push_back({ "text", String(""), 3, 0 }); as.push_back({ "char", String("q"), 4, 0 });
	std::vector<std::string> flags = { "", "0", "-", "+", "+0", "-+", "+-", "0-", "-0+", "++" }; std::vector<std::string> widths = { "", "1", "5", "12" }, precs = { "", ".0", ".1", ".3" };
	for (size_t x = 0; x < as.size(); x++) for (char c : { 'd', 'x', 'X', 'o', 'f', 's', 'c' }) MC_CASE("format %%%c of value %d", c, (int)x) for (auto &f : flags) for (auto &w : widths) for (auto &p : precs) { A1 &a = as[x];
		if ((a.k >= 3) != (c == 's' || (c == 'c' && a.k == 4))) continue; if (c == 'c' && a.k != 4) continue; if (!p.empty() && c != 'f') continue; bool num = c != 's' && c != 'c'; if (!num && (f.find('0') != std::string::npos || f.find('+') != std::string::npos)) continue; if (num && c != 'f' && !(fabs(a.d) < 1e15)) { if (a.k == 2) continue; } if (num && c != 'f' && a.k == 2 && a.d != (long)a.d && c != 'd') continue; if (num && c != 'd' && c != 'f' && a.d < 0) { }
		std::string exp; char b[400]; std::string spec = "%" + f + w + p; if (c == 's' || c == 'c') { std::string s = utf(String(a.v)); snprintf(b, sizeof b, ("%" + f + w + "s").c_str(), s.c_str()); exp = b; } else if (c == 'f') { if (fabs(a.d) > 1e15 && !std::isinf(a.d)) continue; snprintf(b, sizeof b, (spec + "f").c_str(), a.d); exp = b; double e = 0; std::string pr = p.empty() ? "6" : p.substr(1); (void)e; (void)pr; } else if (c == 'd') { snprintf(b, sizeof b, (spec + "ld").c_str(), (long)(int64_t)a.v); exp = b; } else { long v = (long)(int64_t)a.v; unsigned long m = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v; char n[80]; snprintf(n, sizeof n, c == 'x' ? "%lx" : c == 'X' ? "%lX" : "%lo", m); // as sign and magnitude
			bool neg = v < 0, plus = f.find('+') != std::string::npos, left = f.find('-') != std::string::npos, zero = f.find('0') != std::string::npos && !left; std::string sg = neg ? "-" : plus ? "+" : "", d = n; int wd = w.empty() ? 0 : atoi(w.c_str()); if (zero) while ((int)(d.size() + sg.size()) < wd) d = "0" + d; d = sg + d; while ((int)d.size() < wd) d = left ? d + " " : " " + d; exp = d; }
		mc::transition(); Array v; v.push_back(a.v); bool err = true; String s = v.sprintf(("<" + spec + c + ">").c_str(), &err); mc::outcome(exp); bool same = utf(s) == "<" + exp + ">";
		if (!same && c == 'f') { double q = strtod(utf(s).c_str() + 1, nullptr), unit = pow(10, -(p.empty() ? 6 : atoi(p.c_str() + 1))); same = utf(s).size() == exp.size() + 2 && fabs(q - a.d) <= unit * 1.001; } // last digit: rounding is not claimed
		mc::ok(same && !err, std::string("format:%") + c, "%s of %s gives '%s', expected '<%s>'", (spec + c).c_str(), utf(String(a.v)).c_str(), utf(s).c_str(), exp.c_str()); }
	struct F { const char *f; std::vector<Variant> v; const char *e; }; std::vector<F> fs = { { "%d-%s", { 1, "a" }, "1-a" }, { "%%", {}, "%" }, { "%d%%", { 5 }, "5%" }, { "%*d", { 4, 7 }, "   7" }, { "%-*d|", { 4, 7 }, "7   |" }, { "%.*f", { 2, 1.5 }, "1.50" }, { "%d", {}, nullptr }, { "%d", { 1, 2 }, nullptr }, { "%d", { "a" }, nullptr }, { "%q", { 1 }, nullptr }, { "%", {}, nullptr }, { "%1.1.1f", { 1.0 }, nullptr }, { "%c", { 65 }, "A" }, { "%c", { "ab" }, nullptr }, { "%c", { -1 }, nullptr }, { "%c", { 0x110000 }, nullptr }, { "%*d", { "a", 1 }, nullptr }, { "plain", {}, "plain" }, { "", {}, "" }, { "%s%s", { Variant(), true }, "NullTrue" } };
	for (size_t i = 0; i < fs.size(); i++) MC_CASE("format '%s'", fs[i].f) { Array v; for (auto &q : fs[i].v) v.push_back(q); bool err = !fs[i].e ? false : true; String s = v.sprintf(fs[i].f, &err); mc::transition(); mc::ok(fs[i].e ? !err && s == fs[i].e : err, std::string("format:whole ") + fs[i].f, "'%s' gives '%s' (error %d)", fs[i].f, utf(s).c_str(), err); }
}
void explore() { histories(); smallarrays(); orders(); formats(); }
