// MC: variant=asan o=0
// C39: maps and sets against an insertion-ordered list of entries: every operation sequence on two containers, without merging (the internal layout of
// trees and hash tables depends on the whole history), for several hash functions (identity, colliding, constant), then long structured histories with growth.
#include <algorithm>
#include "mc.h"
struct Tok { int *p; static long live; Tok(int v = 0) : p(new int(v)) { live++; } Tok(const Tok &o) : p(new int(*o.p)) { live++; } Tok &operator=(const Tok &o) { *p = *o.p; return *this; } ~Tok() { live--; delete p; p = nullptr; } bool operator==(const Tok &o) const { return *p == *o.p; } bool operator<(const Tok &o) const { return *p < *o.p; } int n() const { return *p; } };
long Tok::live = 0;
typedef std::vector<std::pair<int, int>> L; // entries in insertion order
struct HId { static uint32_t hash(const Tok &t) { return t.n(); } }; struct H3 { static uint32_t hash(const Tok &t) { return t.n() % 3; } }; struct HC { static uint32_t hash(const Tok &) { return 7; } }; struct H5 { static uint32_t hash(const Tok &t) { return t.n() * 5 + 4; } }; struct HM { static uint32_t hash(const Tok &t) { return hash_murmur3_one_32(t.n()); } };
static std::string ls(const L &l) { std::string s = "{"; for (auto &p : l) s += mc::fmt("%d:%d ", p.first, p.second); return s + "}"; }
static L bykey(L l) { std::sort(l.begin(), l.end()); return l; }
static const L BAD(const char *why) { mc::count(why); return L{ { -9999, 0 } }; }
#define T(x) Tok(x)
// each adaptor: ins, def (operator[] on a possibly absent key), del, look (-1 when absent), list (through every way of iterating), order of iteration
template <class H, int CAP> struct AHash { struct C : HashMap<Tok, Tok, H> { typedef HashMap<Tok, Tok, H> B; C() : B() {} C(int n) : B((uint32_t)n) {} C(const C &o) : B(o) {} C &operator=(const C &o) { B::operator=(o); return *this; } }; static C *mk() { return CAP ? new C(CAP) : new C(); } enum { MAP = 1, SORT = 0, FRONT = 1 };
	static void ins(C &c, int k, int v) { c.insert(T(k), T(v)); } static void front(C &c, int k, int v) { c.insert(T(k), T(v), true); } static int &def(C &c, int k) { return *c[T(k)].p; } static bool del(C &c, int k) { return c.erase(T(k)); } static void clear(C &c) { c.clear(); } static void reserve(C &c, int n) { c.reserve(n); }
	static int look(C &c, int k) { const C &d = c; const Tok *a = d.getptr(T(k)); Tok *b = c.getptr(T(k)); bool h = c.has(T(k)); auto *e = c.find(T(k)); const Tok *cu = d.custom_getptr(T(k), H::hash(T(k)) ? H::hash(T(k)) : 1); if (!a != !h || a != b || (e ? &e->value() : nullptr) != a || cu != a) return -77; if (!a) return -1; return d.get(T(k)) == *a && d[T(k)] == *a && e->key().n() == k ? a->n() : -78; }
	static L list(C &c) { L r, q, n; for (auto *e = c.front(); e; e = e->next) r.push_back({ e->key().n(), e->value().n() }); for (auto *e = c.back(); e; e = e->prev) q.push_back({ e->key().n(), e->value().n() }); std::reverse(q.begin(), q.end()); if (q != r) return BAD("backward"); List<Tok> kl; c.get_key_list(&kl); const Tok *k = nullptr; size_t i = 0; auto *le = kl.front(); while ((k = c.next(k))) { if (i >= r.size() || k->n() != r[i].first || !le || !(le->get() == *k)) return BAD("next"); i++; le = le->next(); } if (i != r.size() || le || c.size() != r.size() || c.empty() != r.empty()) return BAD("size"); return r; } };
template <class H, int CAP> struct AOg { typedef OGHashMap<Tok, Tok, H, HashMapComparatorDefault<Tok>, CAP, CAP == 3 ? 8 : 1> C; static C *mk() { return new C(); } enum { MAP = 1, SORT = 1, FRONT = 0 };
	static void ins(C &c, int k, int v) { c.set(T(k), T(v)); } static void front(C &, int, int) {} static int &def(C &c, int k) { return *c[T(k)].p; } static bool del(C &c, int k) { return c.erase(T(k)); } static void clear(C &c) { c.clear(); } static void reserve(C &, int) {}
	static int look(C &c, int k) { const C &d = c; const Tok *a = d.getptr(T(k)); auto *e = c.find(T(k)); const Tok *cu = d.custom_getptr(T(k), H::hash(T(k))); if (!a == c.has(T(k)) || (e ? &e->value() : nullptr) != a || cu != a || c.getptr(T(k)) != a) return -77; return !a ? -1 : d.get(T(k)) == *a && d[T(k)] == *a && e->key().n() == k ? a->n() : -78; }
	static L list(C &c) { L r, q; const Tok *k = nullptr; while ((k = c.next(k))) { r.push_back({ k->n(), c.get(*k).n() }); if (r.size() > 500) return BAD("endless"); } std::vector<const typename C::Pair *> ps(c.size() + 1); c.get_key_value_ptr_array(&ps[0]); for (unsigned i = 0; i < c.size(); i++) q.push_back({ ps[i]->key.n(), ps[i]->data.n() }); if (q != r) return BAD("pairs"); List<Tok> kl; c.get_key_list(&kl); if ((unsigned)kl.size() != r.size()) return BAD("keys"); if (c.size() != r.size() || c.empty() != r.empty()) return BAD("size"); return bykey(r); } };
template <class H> struct AOrd { typedef OrderedHashMap<Tok, Tok, H> C; static C *mk() { return new C(); } enum { MAP = 1, SORT = 0, FRONT = 0 };
	static void ins(C &c, int k, int v) { auto e = c.insert(T(k), T(v)); if (e.key().n() != k || e.value().n() != v) mc::fail("OrderedHashMap:insert:element", "insert(%d) returned another entry", k); } static void front(C &, int, int) {} static int &def(C &c, int k) { return *c[T(k)].p; } static bool del(C &c, int k) { if (k % 2) return c.erase(T(k)); auto e = c.find(T(k)); if (!e) return false; c.erase(e); return true; } static void clear(C &c) { c.clear(); } static void reserve(C &, int) {}
	static int look(C &c, int k) { const C &d = c; auto a = d.find(T(k)); auto b = c.find(T(k)); bool h = c.has(T(k)); if ((bool)a != h || (bool)b != h) return -77; return !h ? -1 : a.value() == b.value() && d[T(k)] == a.value() && a.key().n() == k ? a.value().n() : -78; }
	static L list(C &c) { L r, q, s; for (auto e = c.front(); e; e = e.next()) r.push_back({ e.key().n(), e.value().n() }); for (auto e = c.back(); e; e = e.prev()) q.push_back({ e.key().n(), e.value().n() }); const C &d = c; for (auto e = d.front(); e; e = e.next()) s.push_back({ e.key().n(), e.get().n() }); std::reverse(q.begin(), q.end()); if (q != r || s != r) return BAD("backward"); if (c.size() != (int)r.size() || c.empty() != r.empty()) return BAD("size"); return r; } };
template <class H, int CAP> struct AHSet { typedef HashSet<Tok, H> C; static C *mk() { return CAP ? new C((uint32_t)CAP) : new C(); } enum { MAP = 0, SORT = 1, FRONT = 0 };
	static void ins(C &c, int k, int) { auto i = c.insert(T(k)); if (!i.valid() || (*i).n() != k) mc::fail("HashSet:insert:iterator", "insert(%d) returned another key", k); } static void front(C &, int, int) {} static int &def(C &c, int k) { static int x; c.insert(T(k)); return x; } static bool del(C &c, int k) { if (k % 2) return c.erase(T(k)); bool h = c.has(T(k)); c.remove(c.find(T(k))); return h; } static void clear(C &c) { c.clear(); } static void reserve(C &c, int n) { c.reserve(n); }
	static int look(C &c, int k) { auto i = c.find(T(k)); bool h = c.has(T(k)); if (i.valid() != h || (h && i.key().n() != k)) return -77; return h ? 0 : -1; }
	static L list(C &c) { L r, q; for (auto i = c.begin(); i != c.end(); ++i) r.push_back({ (*i).n(), 0 }); for (auto i = c.last(); i.valid(); --i) q.push_back({ i->n(), 0 }); std::reverse(q.begin(), q.end()); if (q != r || c.size() != r.size() || c.is_empty() != r.empty()) return BAD("size"); return bykey(r); } };
struct ARBMap { typedef RBMap<Tok, Tok> C; static C *mk() { return new C(); } enum { MAP = 1, SORT = 1, FRONT = 0 };
	static void ins(C &c, int k, int v) { auto *e = c.insert(T(k), T(v)); if (e->key().n() != k || e->get().n() != v) mc::fail("RBMap:insert:element", "insert(%d) returned another entry", k); } static void front(C &, int, int) {} static int &def(C &c, int k) { return *c[T(k)].p; } static bool del(C &c, int k) { if (k % 2) return c.erase(T(k)); auto *e = c.find(T(k)); c.erase(e); return e; } static void clear(C &c) { c.clear(); } static void reserve(C &, int) {}
	static int look(C &c, int k) { const C &d = c; auto *a = d.find(T(k)); if (c.has(T(k)) == !a || c.find(T(k)) != a) return -77; auto *n = c.find_closest(T(k)); int best = -1; for (auto *e = c.front(); e; e = e->next()) if (e->key().n() <= k) best = e->key().n(); if ((n ? n->key().n() : -1) != best || d.find_closest(T(k)) != n) return -79; return !a ? -1 : d[T(k)] == a->value() ? a->value().n() : -78; }
	static L list(C &c) { L r, q; for (auto *e = c.front(); e; e = e->next()) r.push_back({ e->key().n(), e->value().n() }); for (auto *e = c.back(); e; e = e->prev()) q.push_back({ e->key().n(), e->value().n() }); std::reverse(q.begin(), q.end()); if (q != r) return BAD("backward"); if (c.size() != (int)r.size() || c.empty() != r.empty()) return BAD("size"); double lim = 2 * std::log2(r.size() + 1.0) + 1e-9; if (c.calculate_depth() > lim) return BAD("depth"); return r; } };
struct ARBSet { typedef RBSet<Tok> C; static C *mk() { return new C(); } enum { MAP = 0, SORT = 1, FRONT = 0 };
	static void ins(C &c, int k, int) { auto *e = c.insert(T(k)); if (e->get().n() != k) mc::fail("RBSet:insert:element", "insert(%d) returned another entry", k); } static void front(C &, int, int) {} static int &def(C &c, int k) { static int x; c.insert(T(k)); return x; } static bool del(C &c, int k) { if (k % 2) return c.erase(T(k)); auto *e = c.find(T(k)); c.erase(e); return e; } static void clear(C &c) { c.clear(); } static void reserve(C &, int) {}
	static int look(C &c, int k) { const C &d = c; auto *a = d.find(T(k)); if (c.has(T(k)) == !a || c.find(T(k)) != a) return -77; auto *n = c.lower_bound(T(k)); int best = -1; for (auto *e = c.back(); e; e = e->prev()) if (e->get().n() >= k) best = e->get().n(); if ((n ? n->get().n() : -1) != best) return -79; return a ? 0 : -1; }
	static L list(C &c) { L r, q; for (auto *e = c.front(); e; e = e->next()) r.push_back({ e->get().n(), 0 }); for (auto *e = c.back(); e; e = e->prev()) q.push_back({ e->get().n(), 0 }); std::reverse(q.begin(), q.end()); if (q != r) return BAD("backward"); if (c.size() != (int)r.size() || c.empty() != r.empty()) return BAD("size"); double lim = 2 * std::log2(r.size() + 1.0) + 1e-9; if (c.calculate_depth() > lim) return BAD("depth"); return r; } };
struct AVMap { typedef VMap<Tok, Tok> C; static C *mk() { return new C(); } enum { MAP = 1, SORT = 1, FRONT = 0 };
	static void ins(C &c, int k, int v) { int p = c.insert(T(k), T(v)); if (c.getk(p).n() != k || c.getv(p).n() != v) mc::fail("VMap:insert:index", "insert(%d) returned %d", k, p); } static void front(C &, int, int) {} static int &def(C &c, int k) { return *c[T(k)].p; } static bool del(C &c, int k) { bool h = c.has(T(k)); c.erase(T(k)); return h; } static void clear(C &c) { c = C(); } static void reserve(C &, int) {}
	static int look(C &c, int k) { const C &d = c; int p = c.find(T(k)); if (c.has(T(k)) != (p >= 0)) return -77; int n = 0; for (int i = 0; i < c.size(); i++) n += d.getk(i).n() < k; if (c.find_nearest(T(k)) != (c.empty() ? -1 : n)) return -79; return p < 0 ? -1 : d[T(k)] == d.getv(p) && d.getk(p).n() == k && d.get_array()[p].key.n() == k ? d.getv(p).n() : -78; }
	static L list(C &c) { const C &d = c; L r; for (int i = 0; i < c.size(); i++) r.push_back({ d.getk(i).n(), d.getv(i).n() }); if (c.empty() != r.empty()) return BAD("size"); return r; } };
struct AVSet { typedef VSet<Tok> C; static C *mk() { return new C(); } enum { MAP = 0, SORT = 1, FRONT = 0 };
	static void ins(C &c, int k, int) { c.insert(T(k)); } static void front(C &, int, int) {} static int &def(C &c, int k) { static int x; c.insert(T(k)); return x; } static bool del(C &c, int k) { bool h = c.has(T(k)); c.erase(T(k)); return h; } static void clear(C &c) { c = C(); } static void reserve(C &, int) {}
	static int look(C &c, int k) { int p = c.find(T(k)); const C &d = c; if (c.has(T(k)) != (p >= 0) || (p >= 0 && d[p].n() != k)) return -77; return p < 0 ? -1 : 0; }
	static L list(C &c) { const C &d = c; L r; for (int i = 0; i < c.size(); i++) r.push_back({ d[i].n(), 0 }); if (c.empty() != r.empty()) return BAD("size"); return r; } };

enum Kind { INS, FRONT, DEF, DEL, CLEAR, COPY_B, COPY_A, SELF, CTOR, RESERVE };
struct O { Kind k; int key; };
static std::string on(const O &o) { static const char *n[] = { "insert", "insert_front", "[]", "erase", "clear", "b=a", "a=b", "a=a", "b=C(a)", "reserve" }; return o.k <= DEL || o.k == RESERVE ? mc::fmt("%s(%d)", n[o.k], o.key) : n[o.k]; }
template <class A> struct Sys {
	typedef typename A::C C; const char *name; C *a, *b; L ma, mb; int step = 0; std::string hist; bool ok = true;
	Sys(const char *n) : name(n), a(A::mk()), b(A::mk()) {} ~Sys() { delete a; delete b; mc::ok(Tok::live == 0, std::string(name) + ":lifetime", "%s: %ld keys and values alive after destruction [%s]", name, Tok::live, hist.c_str()); }
	static L::iterator at(L &l, int k) { return std::find_if(l.begin(), l.end(), [=](const std::pair<int, int> &p) { return p.first == k; }); }
	void check(const char *which, C &c, const L &m, const O &o, int K) { L e = A::SORT ? bykey(m) : m, g = A::list(c); mc::state(std::string(name) + ls(m)); bool good = e == g; int bad = -1, got = 0; for (int k = -1; k <= K && bad < 0; k++) { L t = m; auto i = at(t, k); int want = i == t.end() ? -1 : i->second; got = A::look(c, k); if (got != want) { good = false; bad = k; } }
		if (!good) ok = false; mc::ok(good, std::string(name) + ":" + on(O{ o.k, 0 }), "%s after [%s]: %s should be %s, iterates as %s, lookup of %d gives %d", name, hist.c_str(), which, ls(e).c_str(), ls(g).c_str(), bad, got); }
	void run(const O &o, int K, bool look) {
		hist += on(o) + " "; int k = o.key, v = A::MAP ? ++step * 10 + 1 : 0; auto i = at(ma, k); bool r = true, e = true; mc::transition();
		switch (o.k) {
			case INS: A::ins(*a, k, v); if (i == ma.end()) ma.push_back({ k, v }); else i->second = v; break;
			case FRONT: A::front(*a, k, v); if (i == ma.end()) ma.insert(ma.begin(), { k, v }); else i->second = v; break;
			case DEF: { int &x = A::def(*a, k); if (A::MAP) { e = x == (i == ma.end() ? 0 : i->second); r = true; if (!e) { r = false; e = true; } x += 1; } if (i == ma.end()) ma.push_back({ k, A::MAP ? 1 : 0 }); else if (A::MAP) i->second += 1; break; }
			case DEL: r = A::del(*a, k); e = i != ma.end(); if (e) ma.erase(i); break;
			case CLEAR: A::clear(*a); ma.clear(); break; case COPY_B: { const C &f = *a; *b = f; mb = ma; break; } case COPY_A: { const C &f = *b; *a = f; ma = mb; break; } case SELF: { const C &f = *a; *a = f; break; }
			case CTOR: { const C &f = *a; C *n = new C(f); delete b; b = n; mb = ma; break; } case RESERVE: A::reserve(*a, k); break;
		}
		if (!mc::ok(r == e, std::string(name) + ":" + on(O{ o.k, 0 }) + ":result", "%s after [%s]: returned %d", name, hist.c_str(), (int)r)) ok = false; if (look && ok) { check("a", *a, ma, o, K); check("b", *b, mb, o, K); mc::outcome(ls(ma)); }
	}
};
template <class A> void all(const char *name, int K, int depth, bool copies) {
	std::vector<O> ops; for (int k = 0; k < K; k++) { ops.push_back({ INS, k }); ops.push_back({ DEL, k }); } if (copies) { for (Kind k : { CLEAR, COPY_B, COPY_A, SELF, CTOR }) ops.push_back({ k, 0 }); ops.push_back({ DEF, 1 }); if (A::FRONT) ops.push_back({ FRONT, 2 }); }
	std::function<void(std::vector<O> &, int)> rec = [&](std::vector<O> &h, int left) { if (!left) { Sys<A> s(name); for (size_t i = 0; i < h.size() && s.ok; i++) s.run(h[i], K, i + 1 == h.size()); return; } for (auto &o : ops) { if (o.k == DEL && !copies) { int n = 0; for (auto &x : h) if (x.key == o.key) n = x.k == INS; if (!n) continue; } if (o.k == INS && !copies) { int n = 0; for (auto &x : h) if (x.key == o.key) n = x.k == INS; if (n) continue; } h.push_back(o); rec(h, left - 1); h.pop_back(); } };
	for (int d = 1; d <= depth; d++) for (auto &x : ops) for (auto &y : ops) { if (d == 1 && &y != &ops[0]) continue; if (!copies && (x.k == DEL || (d > 1 && x.key == y.key && y.k == INS) || (d > 1 && x.key != y.key && y.k == DEL))) continue; MC_CASE("%s, %d operations starting %s %s", name, d, on(x).c_str(), d > 1 ? on(y).c_str() : "") { std::vector<O> h = { x }; if (d > 1) h.push_back(y); rec(h, d - (int)h.size()); } }
}
template <class A> void longer(const char *name) { // growth, shrinking and rebalancing: structured histories of up to N keys
	int N = mc::thorough() ? 200 : 60; for (int n = 5; n <= N; n += n < 20 ? 1 : 13) for (int s = 0; s < (mc::thorough() ? 8 : 4); s++) MC_CASE("%s, %d keys, pattern %d", name, n, s) {
		static const int strides[] = { 1, 7, 11, 13, 17, 19, 23, 29 }; Sys<A> S(name); if (s == 3) S.run({ RESERVE, n }, n, true); auto ord = [&](int i, int st) { while (n % st == 0 && st > 1) st += 2; int g = st, h = n; while (h) { int t = g % h; g = h; h = t; } if (g != 1) st = 1; return (int)((long)i * st % n); };
		for (int i = 0; i < n && S.ok; i++) { int k = s & 1 ? n - 1 - ord(i, strides[s]) : ord(i, strides[s]); S.run({ INS, k }, n, true); if (i == n / 2) { S.run({ COPY_B, 0 }, n, true); S.run({ DEL, k }, n, true); S.run({ DEF, k }, n, true); } if (i % 5 == 4) { S.run({ DEL, ord(i / 2, strides[(s + 1) % 8]) }, n, true); } }
		S.run({ CTOR, 0 }, n, true); for (int i = 0; i < n && S.ok; i++) S.run({ DEL, ord(i, strides[(s + 3) % 8]) }, n, true); S.run({ COPY_A, 0 }, n, true); S.run({ CLEAR, 0 }, n, true); for (int i = 0; i < 6; i++) S.run({ INS, i }, n, true); }
}
template <class A> void kind(const char *name, int da, int db, int kb) { all<A>(name, 3, da, true); all<A>(name, kb, db, false); longer<A>(name); }
void explore() {
	int t = mc::thorough();
	kind<AHash<HId, 1>>("HashMap(1) identity", 3 + 2 * t, 5 + 2 * t, 6); kind<AHash<H5, 1>>("HashMap(1) same slot", 3 + 2 * t, 5 + 2 * t, 5); kind<AHash<H3, 0>>("HashMap mod 3", 3 + t, 5 + t, 5); kind<AHash<HM, 0>>("HashMap murmur", 3 + t, 4 + t, 5); kind<AHash<HC, 1>>("HashMap(1) constant", 3 + t, 5 + 2 * t, 5);
	kind<AHSet<HId, 1>>("HashSet(1) identity", 3 + 2 * t, 5 + 2 * t, 6); kind<AHSet<H5, 1>>("HashSet(1) same slot", 3 + 2 * t, 5 + 2 * t, 5); kind<AHSet<H3, 0>>("HashSet mod 3", 3 + t, 5 + t, 5); kind<AHSet<HC, 1>>("HashSet(1) constant", 3 + t, 5 + 2 * t, 5);
	kind<AOg<HId, 1>>("OGHashMap tiny identity", 3 + 2 * t, 5 + 2 * t, 6); kind<AOg<H3, 3>>("OGHashMap mod 3", 3 + 2 * t, 5 + t, 5); kind<AOg<HC, 3>>("OGHashMap constant", 3 + t, 5 + t, 5); kind<AOrd<H3>>("OrderedHashMap mod 3", 3 + 2 * t, 5 + t, 5); kind<AOrd<HM>>("OrderedHashMap murmur", 3 + t, 4 + t, 5);
	kind<ARBMap>("RBMap", 3 + 2 * t, 6 + 2 * t, 7); kind<ARBSet>("RBSet", 3 + 2 * t, 6 + 2 * t, 7); kind<AVMap>("VMap", 3 + 2 * t, 5 + t, 5); kind<AVSet>("VSet", 3 + t, 5 + t, 5);
}
