// MC: variant=asan
// C40: linked list, ring buffer and sorting. Lists: from every list of up to 4 elements every sequence of operations against a plain vector of
// (element, value); ring buffers: every history against a queue; sorting: every array up to the bound and adversarial longer ones.
#include <algorithm>
#include "hist.h"
struct Tok { int *p; static long live; Tok(int v = 0) : p(new int(v)) { live++; } Tok(const Tok &o) : p(new int(*o.p)) { live++; } Tok &operator=(const Tok &o) { *p = *o.p; return *this; } ~Tok() { live--; delete p; } bool operator==(const Tok &o) const { return *p == *o.p; } bool operator<(const Tok &o) const { return *p < *o.p; } };
long Tok::live = 0;
typedef List<Tok> Ls; typedef Ls::Element E;
typedef std::vector<std::pair<E *, int>> V;
enum LK { PB, PF, OB, OF, IA, IB, ER, EV, EE, SW, MB, MF, MV, INV, SRT, SRI, CLR, CPB, CPA, SELF, CT, SET, FOREIGN };
struct LO { LK k; int i, j; };
static std::string on(const LO &o) { static const char *n[] = { "push_back", "push_front", "pop_back", "pop_front", "insert_after", "insert_before", "erase", "erase value", "Element::erase", "swap", "move_to_back", "move_to_front", "move_before", "invert", "sort", "sort_custom_inplace", "clear", "b=a", "a=b", "a=a", "b=List(a)", "set", "erase foreign" }; return mc::fmt("%s(%d,%d)", n[o.k], o.i, o.j); }
struct LSys {
	Ls *a = new Ls(), *b = new Ls(); V ma, mb; std::string hist; bool good = true;
	~LSys() { delete a; delete b; mc::ok(Tok::live == 0, "List:lifetime", "%ld values alive after destruction [%s]", Tok::live, hist.c_str()); }
	static V take(Ls &l) { V v; for (E *e = l.front(); e; e = e->next()) v.push_back({ e, *e->get().p }); return v; }
	static std::string s(const V &v) { std::string r = "["; for (auto &p : v) r += mc::fmt("%d ", p.second); return r + "]"; }
	void check(const char *w, Ls &l, const V &m, bool ids) {
		const Ls &c = l; V f, r; int n = 0; for (E *e = l.front(); e && n < 60; e = e->next(), n++) f.push_back({ e, *e->get().p }); n = 0; for (E *e = l.back(); e && n < 60; e = e->prev(), n++) r.push_back(std::make_pair(e, *(**e).p)); std::reverse(r.begin(), r.end());
		bool ok = f == r && (int)f.size() == l.size() && l.empty() == f.empty(); V x = m; if (!ids) for (size_t i = 0; i < x.size() && i < f.size(); i++) x[i].first = f[i].first; ok = ok && f == x;
		if (ok) for (size_t i = 0; i < f.size(); i++) ok = ok && *c[(int)i].p == m[i].second && *l[(int)i].p == m[i].second; if (ok) for (int v = 0; v < 4; v++) { E *e = l.find(Tok(v)), *w2 = nullptr; for (auto &p : f) if (p.second == v) { w2 = p.first; break; } ok = ok && e == w2; }
		if (ok) { const E *e = c.front(); for (auto &p : f) { ok = ok && e == p.first && *e->get().p == p.second && (*e)->p == e->get().p; e = e->next(); } ok = ok && !e; }
		if (!ok) good = false; mc::ok(ok, std::string("List:") + lastname, "List after [%s]: %s should be %s, is %s forward, %s backward, size %d", hist.c_str(), w, s(m).c_str(), s(f).c_str(), s(r).c_str(), l.size()); }
	std::string lastname;
	bool run(const LO &o, bool look) { // false when outside the alphabet here
		int n = (int)ma.size(); if ((o.k == IA || o.k == IB || o.k == ER || o.k == EE || o.k == MB || o.k == MF || o.k == SET) && o.i >= n) return true; if ((o.k == SW) && (o.i >= n || o.j >= n)) return true; if (o.k == MV && (o.i >= n || o.j >= n || o.i == o.j)) return true; if (o.k == FOREIGN && mb.empty()) return true;
		hist += on(o) + " "; lastname = on(LO{ o.k, 0, 0 }); mc::transition(); bool ids = true, r = true; E *e = nullptr, *f = nullptr; auto mvl = [&](int i, int j) { auto x = ma[i]; E *w = j < 0 ? nullptr : ma[j].first; ma.erase(ma.begin() + i); auto at = std::find_if(ma.begin(), ma.end(), [&](const std::pair<E *, int> &p) { return p.first == w; }); ma.insert(at, x); };
		switch (o.k) {
			case PB: e = a->push_back(Tok(o.i)); ma.push_back({ e, o.i }); break; case PF: e = a->push_front(Tok(o.i)); ma.insert(ma.begin(), { e, o.i }); break;
			case OB: a->pop_back(); if (n) ma.pop_back(); break; case OF: a->pop_front(); if (n) ma.erase(ma.begin()); break;
			case IA: e = a->insert_after(o.i < 0 ? nullptr : ma[o.i].first, Tok(o.j)); ma.insert(o.i < 0 ? ma.end() : ma.begin() + o.i + 1, { e, o.j }); break;
			case IB: e = a->insert_before(o.i < 0 ? nullptr : ma[o.i].first, Tok(o.j)); ma.insert(o.i < 0 ? ma.end() : ma.begin() + o.i, { e, o.j }); break;
			case ER: r = a->erase(ma[o.i].first); ma.erase(ma.begin() + o.i); break; case EE: ma[o.i].first->erase(); ma.erase(ma.begin() + o.i); break;
			case EV: { auto i = std::find_if(ma.begin(), ma.end(), [&](const std::pair<E *, int> &p) { return p.second == o.i; }); r = a->erase(Tok(o.i)) == (i != ma.end()); if (i != ma.end()) ma.erase(i); break; }
			case SW: a->swap(ma[o.i].first, ma[o.j].first); std::swap(ma[o.i], ma[o.j]); break;
			case MB: a->move_to_back(ma[o.i].first); mvl(o.i, -1); break; case MF: a->move_to_front(ma[o.i].first); if (o.i) mvl(o.i, 0); break; case MV: f = o.j < 0 ? nullptr : ma[o.j].first; a->move_before(ma[o.i].first, f); mvl(o.i, o.j); break;
			case INV: a->invert(); for (int i = 0; i < n / 2; i++) std::swap(ma[i].second, ma[n - 1 - i].second); break;
			case SRT: a->sort(); ids = false; break; case SRI: a->sort_custom_inplace<Comparator<Tok>>(); ids = false; break; case CLR: a->clear(); ma.clear(); break;
			case CPB: { const Ls &x = *a; *b = x; mb = ma; ids = false; break; } case CPA: { const Ls &x = *b; *a = x; ma = mb; ids = false; break; } case SELF: { const Ls &x = *a; *a = x; ids = false; break; } case CT: { const Ls &x = *a; Ls *nb = new Ls(x); delete b; b = nb; mb = ma; ids = false; break; }
			case SET: ma[o.i].first->set(Tok(o.j)); ma[o.i].second = o.j; break; case FOREIGN: r = !a->erase(mb[0].first); break;
		}
		if (o.k == SRT || o.k == SRI) std::stable_sort(ma.begin(), ma.end(), [](const std::pair<E *, int> &x, const std::pair<E *, int> &y) { return x.second < y.second; });
		if (!mc::ok(r, "List:" + lastname + ":result", "List after [%s]: wrong result", hist.c_str())) good = false;
		check("a", *a, ma, ids); if (look || !ids) check("b", *b, mb, ids); if (!good) return false; if (!ids) { ma = take(*a); mb = take(*b); } if (look) { mc::state("L" + s(ma) + s(mb)); mc::outcome(s(ma)); } return true;
	}
};
static void lists() {
	std::vector<LO> ops; for (LK k : { OB, OF, INV, SRT, SRI, CLR, CPB, CPA, SELF, CT, FOREIGN }) ops.push_back({ k, 0, 0 }); for (LK k : { PB, PF, EV }) for (int v = 0; v < 2; v++) ops.push_back({ k, v, 0 }); for (LK k : { ER, EE, MB, MF }) for (int i = 0; i < 4; i++) ops.push_back({ k, i, 0 });
	for (LK k : { IA, IB, SET }) for (int i = k == SET ? 0 : -1; i < 4; i++) ops.push_back({ k, i, i & 1 }); for (LK k : { SW, MV }) for (int i = 0; i < 4; i++) for (int j = k == SW ? 0 : -1; j < 4; j++) ops.push_back({ k, i, j });
	int D = mc::thorough() ? 3 : 2, B = mc::thorough() ? 3 : 2;
	for (int n = 0; n <= 4; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= B; for (int c = 0; c < tot; c++) for (auto &first : ops) { if (mc::thorough() && n == 4 && c % 4) continue; MC_CASE("list of %d elements, values #%d, then %s", n, c, on(first).c_str()) {
		std::vector<LO> h = { first }; std::function<void(int)> rec = [&](int left) { bool g = true; { LSys s; int x = c; for (int i = 0; i < n && g; i++, x /= B) g = s.run({ PB, x % B, 0 }, false); if (g && (c & 1)) g = s.run({ CPB, 0, 0 }, false); for (size_t i = 0; i < h.size() && g; i++) g = s.run(h[i], i + 1 == h.size()); } if (!g || !left) return; for (auto &o : ops) { h.push_back(o); rec(left - 1); h.pop_back(); } }; rec(D - 1); } } }
	for (int n = 5; n <= 40; n += 5) for (int p = 0; p < 4; p++) MC_CASE("longer list of %d, pattern %d", n, p) { LSys s; bool g = true; for (int i = 0; i < n && g; i++) g = s.run({ p & 1 ? PF : PB, (i * 7 + p) % (p > 1 ? 3 : n), 0 }, true); for (int i = 0; i < n && g; i++) { g = s.run({ MV, i, (i * 5 + p) % (n + 1) - 1 }, true) && s.run({ SW, i, (i * 3 + 1) % n }, true) && s.run({ MF, (i * 11) % n, 0 }, true) && s.run({ MB, (i * 13) % n, 0 }, true); } if (g) s.run({ p < 2 ? SRT : SRI, 0, 0 }, true) && s.run({ CPB, 0, 0 }, true) && s.run({ INV, 0, 0 }, true) && s.run({ SRI, 0, 0 }, true); for (int i = 0; i < n && g; i++) g = s.run({ ER, (n - i) / 2 < n - i ? (n - i) / 2 : 0, 0 }, true); }
}
// ---- ring buffer
struct RM { int size = 1, r = 0; std::deque<int> q; int next = 1; };
struct RR { RingBuffer<int> *b; RR() : b(new RingBuffer<int>(0)) {} ~RR() { delete b; } RR(const RR &) = delete; int next = 1; };
static std::string ints(const int *p, int n) { std::string s; for (int i = 0; i < n; i++) s += mc::fmt("%d,", p[i]); return s; }
static void rings() {
	mc::Explorer<RM, RR> x; x.held = Memory::get_mem_usage; x.label = "RingBuffer";
	x.mdump = [](const RM &m) { std::string s = mc::fmt("size %d left %d data %d:", m.size, m.size - 1 - (int)m.q.size(), (int)m.q.size()); for (int v : m.q) s += mc::fmt("%d,", v); return s; };
	x.mkey = [&x](const RM &m) { std::string s = mc::fmt("%d/%d/%d", m.size, m.r, (int)m.q.size()); return s; };
	x.rdump = [](RR &r) { int buf[64]; int n = r.b->read(buf, 64, false); return mc::fmt("size %d left %d data %d:", r.b->size(), r.b->space_left(), r.b->data_left()) + ints(buf, n); };
	auto add = [&](std::string n, std::function<bool(RM &, std::string &)> m, std::function<std::string(RR &)> r) { x.ops.push_back({ n, m, r }); };
	add("write", [](RM &m, std::string &o) { if ((int)m.q.size() < m.size - 1) { m.q.push_back(m.next++); o = "0"; } else { m.next++; o = "1"; } return true; }, [](RR &r) { return mc::fmt("%d", (int)(r.b->write(r.next++) != OK)); });
	for (int n : { 0, 2, 3, 7 }) add(mc::fmt("write %d", n), [n](RM &m, std::string &o) { int c = std::min(n, m.size - 1 - (int)m.q.size()); for (int i = 0; i < n; i++, m.next++) if (i < c) m.q.push_back(m.next); o = mc::fmt("%d", c); return true; }, [n](RR &r) { int b[8]; for (int i = 0; i < n; i++) b[i] = r.next++; return mc::fmt("%d", r.b->write(b, n)); });
	add("read", [](RM &m, std::string &o) { int v = 0; if (m.q.size()) { v = m.q.front(); m.q.pop_front(); m.r = (m.r + 1) % m.size; } o = mc::fmt("%d", v); return true; }, [](RR &r) { return mc::fmt("%d", r.b->read()); });
	for (int n : { 1, 2, 5 }) for (int adv = 0; adv < 2; adv++) add(mc::fmt("read %d advance=%d", n, adv), [n, adv](RM &m, std::string &o) { int c = std::min(n, (int)m.q.size()); for (int i = 0; i < c; i++) o += mc::fmt("%d,", m.q[i]); if (adv) { m.q.erase(m.q.begin(), m.q.begin() + c); m.r = (m.r + c) % m.size; } return true; }, [n, adv](RR &r) { int b[8]; int c = r.b->read(b, n, adv); return ints(b, c); });
	for (int off = 0; off < 4; off++) for (int n : { 0, 1, 2, 4 }) add(mc::fmt("copy from %d, %d", off, n), [=](RM &m, std::string &o) { for (int i = off; i < off + n && i < (int)m.q.size(); i++) o += mc::fmt("%d,", m.q[i]); return true; }, [=](RR &r) { int b[8]; int c = r.b->copy(b, off, n); return ints(b, c); });
	for (int off = 0; off < 3; off++) for (int n : { 1, 2, 4 }) for (int w = 0; w < 3; w++) add(mc::fmt("find item %d from %d in %d", w, off, n), [=](RM &m, std::string &o) { if (w >= (int)m.q.size()) o = "-1"; else { bool in = w >= off && w < off + n; o = in ? mc::fmt("%d", w - off) : "-1"; } return true; }, [=](RR &r) { int b[64]; int c = r.b->read(b, 64, false); int v = w < c ? b[w] : -5; return mc::fmt("%d", r.b->find(v, off, n)); });
	for (int n : { 1, 3 }) { add(mc::fmt("advance_read %d", n), [n](RM &m, std::string &o) { int c = std::min(n, (int)m.q.size()); m.q.erase(m.q.begin(), m.q.begin() + c); m.r = (m.r + c) % m.size; o = mc::fmt("%d", c); return true; }, [n](RR &r) { return mc::fmt("%d", r.b->advance_read(n)); }); add(mc::fmt("decrease_write %d", n), [n](RM &m, std::string &o) { int c = std::min(n, (int)m.q.size()); m.q.erase(m.q.end() - c, m.q.end()); o = mc::fmt("%d", c); return true; }, [n](RR &r) { return mc::fmt("%d", r.b->decrease_write(n)); }); }
	add("clear", [](RM &m, std::string &) { m.q.clear(); m.r = 0; return true; }, [](RR &r) { r.b->clear(); return std::string(); });
	for (int p = 0; p <= 4; p++) add(mc::fmt("resize %d", p), [p](RM &m, std::string &) { if ((1 << p) < m.size && m.q.size()) return false; m.size = 1 << p; m.r %= m.size; return true; }, [p](RR &r) { r.b->resize(p); return std::string(); });
	x.all_sequences(mc::thorough() ? 4 : 3); x.bfs(mc::thorough() ? 16 : 9, mc::thorough() ? 4000 : 900);
}
// ---- sorting
struct It { int k, id; };
struct Less { bool operator()(const It &a, const It &b) const { return a.k < b.k; } };
static std::string ks(const std::vector<It> &v) { std::string s; for (auto &i : v) s += mc::fmt("%d ", i.k); return s; }
static bool perm(const std::vector<It> &v, const std::vector<It> &o) { std::vector<char> seen(o.size()); for (auto &i : v) { if (i.id < 0 || i.id >= (int)o.size() || seen[i.id] || o[i.id].k != i.k) return false; seen[i.id] = 1; } return true; }
static void one(const std::vector<It> &o, bool sel, const char *what) {
	int n = (int)o.size(); std::vector<It> v = o, s = o; std::stable_sort(s.begin(), s.end(), Less()); SortArray<It, Less> A; mc::transition(); mc::state(ks(o)); A.sort(v.data(), n); bool g = perm(v, o); for (int i = 0; i < n; i++) g = g && v[i].k == s[i].k; mc::ok(g, std::string("sort:") + what, "sorting %s gives %s", ks(o).c_str(), ks(v).c_str());
	v = o; A.insertion_sort(0, n, v.data()); g = perm(v, o); for (int i = 0; i < n; i++) g = g && v[i].k == s[i].k && (i == 0 || s[i].id == v[i].id); mc::ok(g || n == 0, std::string("insertion_sort:") + what, "insertion sort of %s gives %s", ks(o).c_str(), ks(v).c_str());
	if (n) { v = o; A.make_heap(0, n, v.data()); g = perm(v, o); for (int i = 1; i < n; i++) g = g && v[(i - 1) / 2].k >= v[i].k; mc::ok(g, std::string("make_heap:") + what, "make_heap of %s gives %s", ks(o).c_str(), ks(v).c_str()); A.sort_heap(0, n, v.data()); g = perm(v, o); for (int i = 0; i < n; i++) g = g && v[i].k == s[i].k; mc::ok(g, std::string("sort_heap:") + what, "heap sort of %s gives %s", ks(o).c_str(), ks(v).c_str()); }
	if (sel) { for (int k = 0; k <= n; k++) { mc::transition(); v = o; A.nth_element(0, n, k, v.data()); g = perm(v, o); if (k < n) { g = g && v[k].k == s[k].k; for (int i = 0; i < n; i++) g = g && (i < k ? v[i].k <= v[k].k : v[i].k >= v[k].k); } mc::ok(g, std::string("nth_element:") + what, "nth_element %d of %s gives %s", k, ks(o).c_str(), ks(v).c_str());
		if (k) { v = o; A.partial_sort(0, n, k, v.data()); g = perm(v, o); for (int i = 0; i < k; i++) g = g && v[i].k == s[i].k; mc::ok(g, std::string("partial_sort:") + what, "partial_sort %d of %s gives %s", k, ks(o).c_str(), ks(v).c_str()); }
		for (int f = 0; f < k; f++) { v = o; A.sort_range(f, k, v.data()); g = perm(v, o); for (int i = 0; i < n; i++) g = g && (i < f || i >= k ? v[i].id == i : i == f || v[i - 1].k <= v[i].k); mc::ok(g, std::string("sort_range:") + what, "sort_range %d..%d of %s gives %s", f, k, ks(o).c_str(), ks(v).c_str()); } } }
}
// McIlroy's adversary: answers comparisons so that quicksort degenerates, and yields the array for which it does
struct Adv { static std::vector<int> val; static int gas, solid, cand; bool operator()(const It &a, const It &b) const { if (val[a.id] == gas && val[b.id] == gas) { if (a.id == cand) val[a.id] = solid++; else val[b.id] = solid++; } if (val[a.id] == gas) cand = a.id; else if (val[b.id] == gas) cand = b.id; return val[a.id] < val[b.id]; } };
std::vector<int> Adv::val; int Adv::gas, Adv::solid, Adv::cand;
static std::vector<It> killer(int n, int nth) { Adv::val.assign(n, n); Adv::gas = n; Adv::solid = 0; Adv::cand = 0; std::vector<It> v; for (int i = 0; i < n; i++) v.push_back({ 0, i }); SortArray<It, Adv, false> A; if (nth < 0) A.sort(v.data(), n); else A.nth_element(0, n, nth, v.data()); std::vector<It> r; for (int i = 0; i < n; i++) r.push_back({ Adv::val[i], i }); return r; }
static void sorts() {
	for (int n = 0; n <= (mc::thorough() ? 8 : 7); n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 4; for (long b = 0; b < tot; b += 512) MC_CASE("every array of %d over 4 values from #%ld", n, b) { for (long c = b; c < std::min(tot, b + 512); c++) { std::vector<It> v; long x = c; for (int i = 0; i < n; i++, x /= 4) v.push_back({ (int)(x % 4), i }); one(v, true, "small"); } } }
	int L = mc::thorough() ? 19 : 17; for (int n = 17; n <= L; n++) for (long b = 0; b < (1L << n); b += 4096) MC_CASE("every 0/1 array of %d from %ld", n, b) { for (long c = b; c < b + 4096; c++) { std::vector<It> v; for (int i = 0; i < n; i++) v.push_back({ (int)(c >> i & 1), i }); one(v, false, "binary"); } }
	for (int n = 8; n <= (mc::thorough() ? 400 : 120); n += n < 40 ? 1 : 8) for (int p = 0; p < 12; p++) MC_CASE("array of %d, pattern %d", n, p) { std::vector<It> v; int q = (n + 1) / 2; for (int i = 0; i < n; i++) { static const int m[] = { 7, 11, 13, 3 }; int k = p == 0 ? i : p == 1 ? n - i : p == 2 ? std::min(i, n - i) : p == 3 ? std::max(i, n - i) : p == 4 ? i % 2 : p == 5 ? 1 : p == 6 ? i / q + i % q * 2 : p == 7 ? (i * i) % n : (i * m[p - 8] + 5) % (p & 1 ? 5 : 1000003 % (n + 3) + 2); v.push_back({ k, i }); } one(v, n <= 40, "patterned"); if (p < 2) { one(killer(n, p == 0 ? -1 : n / 2), n <= 40 || p, "adversarial"); } }
}
void explore() { lists(); rings(); sorts(); }
