// MC: variant=asan o=0
// C38: copy-on-write and local sequences as independent values. Three handles; the reference keeps three plain lists. Which handles share storage
// is part of the explored state, so every edit is tried both on shared and on unshared storage.
#include "hist.h"
typedef std::vector<int> L;
struct Tok { // element with an owned resource: a missing or double destruction shows
	int *p; static long live; Tok(int v = 0) : p(new int(v)) { live++; } Tok(const Tok &o) : p(new int(*o.p)) { live++; } Tok &operator=(const Tok &o) { *p = *o.p; return *this; } ~Tok() { live--; delete p; p = nullptr; } bool operator==(const Tok &o) const { return *p == *o.p; } bool operator<(const Tok &o) const { return *p < *o.p; }
};
long Tok::live = 0;
static int num(int v) { return v; } static int num(const Tok &t) { return *t.p; } static int num(const String &s) { return s.empty() ? 0 : s[0] - 'a' + (s.length() - 1) * 100; }
template <class E> E mk(int v) { return E(v); } template <> String mk<String>(int v) { return v ? String::chr('a' + v) : String(); }
struct M { L h[3]; int tag[3] = { 0, 0, 0 }; int next = 1; void cut(int i) { tag[i] = next++; } };
static std::string ls(const L &l) { std::string s = "["; for (int f : l) s += mc::fmt("%d ", f); return s + "]"; }
static std::string mdump(const M &m) { return ls(m.h[0]) + ls(m.h[1]) + ls(m.h[2]); }
static std::string mkey(const M &m) { return mdump(m) + (m.tag[0] == m.tag[1] && m.h[0].size() ? "=" : "/") + (m.tag[0] == m.tag[2] && m.h[0].size() ? "=" : "/") + (m.tag[1] == m.tag[2] && m.h[1].size() ? "=" : "/"); }
static uint32_t base_allocs; static size_t base_mem;
template <class C> struct R { C h[3]; R() { mc::ok(Tok::live == 0, "elements:lifetime", "%ld elements alive after every container was destroyed", Tok::live); mc::ok(MemoryPool::allocs_used == base_allocs && MemoryPool::total_memory == base_mem, "pool:released", "%u pool allocations and %zu bytes in use after every array was destroyed", MemoryPool::allocs_used, MemoryPool::total_memory); } };
template <class E> L lst(const Vector<E> &v) { L l; for (int i = 0; i < v.size(); i++) { l.push_back(num(v[i])); if (!(v.get(i) == v.ptr()[i])) l.push_back(-999); } if (v.empty() != (v.size() == 0)) l.push_back(-998); return l; }
template <class E> L lst(const PoolVector<E> &v) { L l; typename PoolVector<E>::Read r = v.read(); for (int i = 0; i < v.size(); i++) { l.push_back(num(v.get(i))); if (!(v[i] == r[i]) || !(r.ptr()[i] == r[i]) || !v.is_locked()) l.push_back(-999); } r.release(); if (v.empty() != (v.size() == 0) || v.is_locked()) l.push_back(-998); return l; }
template <class C> L lstl(const C &v) { L l; for (uint32_t i = 0; i < v.size(); i++) { l.push_back(num(v[i])); if (!(v.ptr()[i] == v[i])) l.push_back(-999); } if (v.empty() != (v.size() == 0) || v.get_capacity() < v.size()) l.push_back(-998); return l; }
template <class E> L lst(const LocalVector<E> &v) { return lstl(v); }
template <class E> L lst(const TightLocalVector<E> &v) { return lstl(v); }
template <class C> std::string rdump(R<C> &r) { return ls(lst(r.h[0])) + ls(lst(r.h[1])) + ls(lst(r.h[2])); }
static int find(const L &l, int v, int from) { for (int i = from; i >= 0 && i < (int)l.size(); i++) if (l[i] == v) return i; return -1; }

template <class C, class E> struct B {
	typedef mc::Op<M, R<C>> O; mc::Explorer<M, R<C>> e; int maxlen; bool big;
	void add(const std::string &n, std::function<bool(M &, std::string &)> m, std::function<std::string(R<C> &)> r) { e.ops.push_back(O{ n, m, r }); }
	// an edit of handle i
	void edit(int i, const std::string &n, std::function<bool(L &)> m, std::function<void(C &)> r) { int ml = maxlen; add(mc::fmt("%c.%s", 'a' + i, n.c_str()), [=](M &s, std::string &) { L t = s.h[i]; if (!m(t) || (int)t.size() > ml) return false; s.h[i] = t; s.cut(i); return true; }, [=](R<C> &s) { r(s.h[i]); return ""; }); }
	void query(const std::string &n, std::function<std::string(const L &)> m, std::function<std::string(C &)> r) { add("a." + n, [=](M &s, std::string &o) { o = m(s.h[0]); return true; }, [=](R<C> &s) { return r(s.h[0]); }); }
	static void grow(C &c, int n, int v) { int o = c.size(); c.resize(n); for (int k = o; k < n; k++) put(c, k, mk<E>(v)); }
	static void put(Vector<E> &c, int k, const E &v) { c.write[k] = v; } static void put(PoolVector<E> &c, int k, const E &v) { c.set(k, v); } static void put(LocalVector<E> &c, int k, const E &v) { c[k] = v; } static void put(TightLocalVector<E> &c, int k, const E &v) { c[k] = v; }
	void common() {
		std::vector<int> pos = big ? std::vector<int>{ 0, 1, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33 } : std::vector<int>{ 0, 1, 2, 3 }, sizes = big ? std::vector<int>{ 1, 7, 8, 9, 16, 17, 32, 33 } : std::vector<int>{ 0, 1, 2, 3, 4, 5 };
		for (int i = 0; i < (big ? 2 : 2); i++) {
			for (int v : { 1, 2 }) { edit(i, mc::fmt("push_back(%d)", v), [=](L &l) { l.push_back(v); return true; }, [=](C &c) { c.push_back(mk<E>(v)); }); if (i && v == 2) continue;
				edit(i, mc::fmt("fill(%d)", v), [=](L &l) { for (int &x : l) x = v; return true; }, [=](C &c) { c.fill(mk<E>(v)); }); }
			for (int p : pos) { int v = p % 2 + 1; edit(i, mc::fmt("insert(%d,%d)", p, v), [=](L &l) { if (p > (int)l.size()) return false; l.insert(l.begin() + p, v); return true; }, [=](C &c) { c.insert(p, mk<E>(v)); });
				edit(i, mc::fmt("set(%d,3)", p), [=](L &l) { if (p >= (int)l.size()) return false; l[p] = 3; return true; }, [=](C &c) { put(c, p, mk<E>(3)); });
				edit(i, mc::fmt("remove(%d)", p), [=](L &l) { if (p >= (int)l.size()) return false; l.erase(l.begin() + p); return true; }, [=](C &c) { c.remove(p); }); }
			for (int n : sizes) edit(i, mc::fmt("resize(%d)+tail", n), [=](L &l) { l.resize(n, 2); return true; }, [=](C &c) { grow(c, n, 2); });
			edit(i, "clear", [](L &l) { l.clear(); return true; }, [](C &c) { c.clear(); });
			edit(i, "invert", [](L &l) { std::reverse(l.begin(), l.end()); return true; }, [](C &c) { c.invert(); });
		}
		if (big) for (int n : { 9, 17, 33 }) edit(0, mc::fmt("resize(%d)+pattern", n), [=](L &l) { int o = l.size(); l.resize(n); for (int k = o; k < n; k++) l[k] = (k * 7) % 5 + 1; return true; }, [=](C &c) { int o = c.size(); c.resize(n); for (int k = o; k < n; k++) put(c, k, mk<E>((k * 7) % 5 + 1)); });
		edit(0, "sort", [](L &l) { std::sort(l.begin(), l.end()); return true; }, [](C &c) { c.sort(); });
		for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { add(mc::fmt("%c=%c", 'a' + x, 'a' + y), [=](M &m, std::string &) { m.h[x] = m.h[y]; m.tag[x] = m.tag[y]; return true; }, [=](R<C> &r) { const C &f = r.h[y]; r.h[x] = f; return ""; }); }
		add("swap through a copy", [](M &m, std::string &) { std::swap(m.h[0], m.h[1]); std::swap(m.tag[0], m.tag[1]); return true; }, [](R<C> &r) { C t(r.h[0]); r.h[0] = r.h[1]; r.h[1] = t; return ""; });
		add("c=copy edited", [=](M &m, std::string &) { L t = m.h[0]; t.push_back(3); if ((int)t.size() > maxlen) return false; m.h[2] = t; m.cut(2); return true; }, [](R<C> &r) { C t(r.h[0]); t.push_back(mk<E>(3)); r.h[2] = t; return ""; });
		for (int v : { 1, 2, 3 }) for (int f : big ? std::vector<int>{ 0, 8, 31, 40 } : std::vector<int>{ 0, 1, 2, 9 }) query(mc::fmt("find(%d,%d)", v, f), [=](const L &l) { return mc::fmt("%d", find(l, v, f)); }, [=](C &c) { return mc::fmt("%d", (int)c.find(mk<E>(v), f)); });
		e.held = Memory::get_mem_usage; e.mdump = mdump; e.mkey = mkey; e.rdump = rdump<C>; int ml = maxlen; e.within = [ml](const M &m) { return (int)(m.h[0].size() + m.h[1].size() + m.h[2].size()) <= (ml > 10 ? 110 : 8); };
	}
	void erase_ops(bool pool = false) { for (int v : { 1, 2 }) { edit(0, mc::fmt("erase(%d)", v), [=](L &l) { int i = find(l, v, 0); if (i >= 0) l.erase(l.begin() + i); return true; }, [=](C &c) { c.erase(mk<E>(v)); }); edit(0, mc::fmt("ordered_insert(%d)", v), [=](L &l) { size_t i = 0; while (i < l.size() && !(v < l[i])) i++; l.insert(l.begin() + i, v); return true; }, [=](C &c) { c.ordered_insert(mk<E>(v)); }); } }
	void append_ops() { for (int x = 0; x < 2; x++) add(mc::fmt("a.append_array(%c)", 'a' + x), [=](M &m, std::string &) { if ((int)(m.h[0].size() + m.h[x].size()) > maxlen) return false; L t = m.h[x]; m.h[0].insert(m.h[0].end(), t.begin(), t.end()); m.cut(0); return true; }, [=](R<C> &r) { r.h[0].append_array(r.h[x]); return ""; }); }
	void own() { edit(0, "push_back(own first)", [](L &l) { if (l.empty()) return false; l.push_back(l[0]); return true; }, [](C &c) { c.push_back(c[0]); }); edit(0, "insert(0, own last)", [](L &l) { if (l.empty()) return false; int v = l.back(); l.insert(l.begin(), v); return true; }, [](C &c) { c.insert(0, c[c.size() - 1]); }); }
};
static L sl(const L &l, int b, int e) { L r; for (int i = b; i < e; i++) r.push_back(l[i]); return r; }
template <class E> void vec(const char *n, int depth, size_t cap, bool big) {
	B<Vector<E>, E> b; b.e.label = std::string("Vector<") + n + ">"; b.big = big; b.maxlen = big ? 40 : 5; b.common(); b.erase_ops(); b.append_ops(); b.own();
	for (int f : { -7, -3, -2, -1, 0, 1, 2, 4, 9 }) for (int t : { -9, -2, -1, 0, 1, 2, 3, 5, 99 }) b.query(mc::fmt("slice(%d,%d)", f, t), [=](const L &l) { int s = l.size(), x = std::max(-s, std::min(f, s)), y = std::max(-s, std::min(t, s)); if (x < 0) x += s; if (y < 0) y += s; return ls(x > y ? L() : sl(l, x, y)); }, [=](Vector<E> &c) { return ls(lst(c.slice(f, t))); });
	b.edit(0, "ptrw all", [](L &l) { for (size_t i = 0; i < l.size(); i++) l[i] = i % 3 + 1; return true; }, [](Vector<E> &c) { E *p = c.ptrw(); for (int i = 0; i < c.size(); i++) p[i] = mk<E>(i % 3 + 1); });
	b.edit(0, "refused edits", [](L &) { return true; }, [](Vector<E> &c) { c.remove(-1); c.remove(c.size()); c.insert(-1, mk<E>(1)); c.insert(c.size() + 1, mk<E>(1)); c.resize(-1); });
	b.e.bfs(depth, cap);
}
template <class E> void pool(const char *n, int depth, size_t cap, bool big) {
	typedef PoolVector<E> C; B<C, E> b; b.e.label = std::string("PoolVector<") + n + ">"; b.big = big; b.maxlen = big ? 40 : 5; b.common(); b.append_ops(); b.own();
	for (int f : { -3, -1, 0, 1, 2 }) for (int t : { -2, -1, 0, 1, 2, 4 }) b.query(mc::fmt("subarray(%d,%d)", f, t), [=](const L &l) { int s = l.size(), x = f < 0 ? f + s : f, y = t < 0 ? t + s : t; return ls(x < 0 || x >= s || y < 0 || y >= s || y < x ? L() : sl(l, x, y + 1)); }, [=](C &c) { return ls(lst(c.subarray(f, t))); });
	for (int v : { 1, 2, 3 }) { b.query(mc::fmt("count/has/contains(%d)", v), [=](const L &l) { int k = std::count(l.begin(), l.end(), v); return mc::fmt("%d %d %d", k, k > 0, k > 0); }, [=](C &c) { return mc::fmt("%d %d %d", c.count(mk<E>(v)), c.has(mk<E>(v)), c.contains(mk<E>(v))); });
		for (int f : { -4, -2, -1, 0, 1, 2, 50 }) b.query(mc::fmt("rfind(%d,%d)", v, f), [=](const L &l) { int s = l.size(), p = f < 0 ? f + s : f; if (p < 0 || p >= s) p = s - 1; for (; p >= 0; p--) if (l[p] == v) return mc::fmt("%d", p); return std::string("-1"); }, [=](C &c) { return mc::fmt("%d", c.rfind(mk<E>(v), f)); }); }
	b.edit(0, "write all", [](L &l) { for (size_t i = 0; i < l.size(); i++) l[i] = i % 3 + 1; return true; }, [](C &c) { typename C::Write w = c.write(); for (int i = 0; i < c.size(); i++) w[i] = mk<E>(i % 3 + 1); });
	b.edit(0, "set while read elsewhere", [](L &l) { if (l.empty()) return false; l[0] = 3; return true; }, [](C &c) { C d(c); L before = lst(d); typename C::Read r = d.read(), r2(r); typename C::Read r3; r3 = r2; r.release(); c.set(0, mk<E>(3)); L after; for (int i = 0; i < d.size(); i++) after.push_back(num(r3[i])); mc::ok(before == after, "PoolVector:read-of-copy", "a reader of the copy saw %s instead of %s", ls(after).c_str(), ls(before).c_str()); });
	b.edit(0, "resize while read (refused)", [](L &l) { return !l.empty(); }, [](C &c) { typename C::Read r = c.read(); Error x = c.resize(c.size() + 1), z = (c.push_back(c[0]), OK), y = c.resize(0); mc::ok(x != OK && y != OK, "PoolVector:locked-resize", "resizing an array being read was accepted"); });
	b.edit(0, "refused edits", [](L &) { return true; }, [](C &c) { c.remove(-1); c.remove(c.size()); c.insert(-1, mk<E>(1)); c.insert(c.size() + 1, mk<E>(1)); c.set(-1, mk<E>(1)); c.set(c.size(), mk<E>(1)); c.resize(-1); });
	b.e.bfs(depth, cap);
}
template <class C, class E> void local(const std::string &n, int depth, size_t cap, bool big) {
	B<C, E> b; b.e.label = n; b.big = big; b.maxlen = big ? 40 : 5; b.common(); b.erase_ops(); b.own();
	for (int p : big ? std::vector<int>{ 0, 8, 16, 31 } : std::vector<int>{ 0, 1, 2 }) b.edit(0, mc::fmt("remove_unordered(%d)", p), [=](L &l) { if (p >= (int)l.size()) return false; l[p] = l.back(); l.pop_back(); return true; }, [=](C &c) { c.remove_unordered(p); });
	for (int v : { 1, 2 }) b.add(mc::fmt("a.erase_multiple_unordered(%d)", v), [=](M &m, std::string &o) { int k = 0; size_t i = 0; L &l = m.h[0]; while (i < l.size()) if (l[i] == v) { l[i] = l.back(); l.pop_back(); k++; } else i++; o = mc::fmt("%d", k); return true; }, [=](R<C> &r) { return mc::fmt("%d", (int)r.h[0].erase_multiple_unordered(mk<E>(v))); });
	b.edit(0, "reset", [](L &l) { l.clear(); return true; }, [](C &c) { c.reset(); }); for (int k : { 1, 3, 6, 20 }) b.edit(0, mc::fmt("reserve(%d)", k), [](L &) { return true; }, [=](C &c) { c.reserve(k); mc::ok(c.get_capacity() >= (uint32_t)k, "reserve:capacity", "capacity %d after reserving %d", (int)c.get_capacity(), k); });
	b.add("b=from Vector", [](M &m, std::string &) { m.h[1] = m.h[0]; return true; }, [](R<C> &r) { Vector<E> v; for (uint32_t i = 0; i < r.h[0].size(); i++) v.push_back(r.h[0][i]); r.h[1] = v; C d(v); if (lst(d) != lst(r.h[1])) r.h[1].clear(); return ""; });
	b.add("b=from PoolVector", [](M &m, std::string &) { m.h[1] = m.h[0]; return true; }, [](R<C> &r) { PoolVector<E> v; for (uint32_t i = 0; i < r.h[0].size(); i++) v.push_back(r.h[0][i]); r.h[1] = v; C d(v); if (lst(d) != lst(r.h[1])) r.h[1].clear(); return ""; });
	b.e.bfs(depth, cap);
}
template <class C> void localint(const std::string &n) { // conversions of plain elements
	MC_CASE("%s conversions", n.c_str()) for (int k = 0; k < 40; k++) { C c; L e; for (int i = 0; i < k; i++) { c.push_back(i * 3 + 1); e.push_back(i * 3 + 1); } Vector<int> v = c; PoolVector<int> p = c; Vector<uint8_t> b = c.to_byte_array(), vb = v.to_byte_array(); L f(b.size() / 4), g(vb.size() / 4); if (k) { memcpy(&f[0], b.ptr(), b.size()); memcpy(&g[0], vb.ptr(), vb.size()); } mc::transition(4); mc::state(n + ls(e)); mc::ok(lst(v) == e && lst(p) == e && f == e && g == e, n + ":conversion", "%d elements converted to %s %s %s %s", k, ls(lst(v)).c_str(), ls(lst(p)).c_str(), ls(f).c_str(), ls(g).c_str()); }
}
void explore() {
	base_allocs = MemoryPool::allocs_used; base_mem = MemoryPool::total_memory; bool t = mc::thorough(); int d = t ? 6 : 5; size_t cap = t ? 6000 : 600, bc = t ? 800 : 80;
	vec<int>("int", d, cap, false); vec<Tok>("Tok", d, cap, false); vec<String>("String", d, cap / 2, false); vec<Tok>("big Tok", 3, bc, true); vec<uint8_t>("big byte", 3, bc, true);
	pool<int>("int", d, cap, false); pool<Tok>("Tok", d, cap, false); pool<String>("String", d, cap / 2, false); pool<Tok>("big Tok", 3, bc, true);
	local<LocalVector<int>, int>("LocalVector<int>", d, cap, false); local<LocalVector<Tok>, Tok>("LocalVector<Tok>", d, cap, false); local<LocalVector<Tok>, Tok>("LocalVector<big Tok>", 3, bc, true);
	local<TightLocalVector<int>, int>("TightLocalVector<int>", d, cap, false); local<TightLocalVector<Tok>, Tok>("TightLocalVector<Tok>", d, cap, false); local<TightLocalVector<Tok>, Tok>("TightLocalVector<big Tok>", 3, bc, true);
	localint<LocalVector<int>>("LocalVector"); localint<TightLocalVector<int>>("TightLocalVector");
}
