// MC: variant=asan
// C57: allocators. Every history of allocating, resizing, locking and freeing on small pools, breadth-first over the real layout of the
// pool; every history on small paged allocators; every history of allocate/reallocate/free of plain memory; arrays of objects.
#include "mc.h"
#include <deque>
#include <functional>
#include <algorithm>
using mc::fmt; using mc::ok; using mc::fail;
#define CK(c, ...) do { mc::transition(0); ok(c, __VA_ARGS__); } while (0)

// ---- the pool
struct Pool : PoolAllocator {
	mutable int held = 0, worst = 0;
	void mt_lock() const override { held++; if (held > 1) worst = held; }
	void mt_unlock() const override { held--; if (held < 0) worst = -1; }
	Pool(int size, bool locking, int max) : PoolAllocator(size, locking, max) {}
	Pool(void *m, int size, int align, bool locking, int max) : PoolAllocator(m, size, align, locking, max) {}
	Pool(int align, int size, bool locking, int max) : PoolAllocator(align, size, locking, max) {}
};
struct Conf { int kind, align, size, skew, max; bool locking; };
struct Blk { int id = -1, len = 0, lock = 0, pos = -1; uint8_t tag = 0; };
struct World {
	Conf c; std::vector<uint8_t> buf; uint8_t *base = nullptr; int room = 0; std::unique_ptr<Pool> p; std::vector<Blk> b; std::vector<int> dead; int peak; uint8_t tag = 0; std::string err;
	static const int PAD = 64;
	World(const Conf &cc) : c(cc) {
		b.resize(c.max);
		if (c.kind == 0) p.reset(new Pool(c.size, c.locking, c.max));
		else if (c.kind == 1) p.reset(new Pool(c.align, c.size, c.locking, c.max));
		else { buf.assign(c.size + 2 * PAD + 64, 0xee); uint8_t *s = buf.data() + PAD; s += (c.align - (uintptr_t)s % c.align) % c.align + c.skew; base = s; p.reset(new Pool(s, c.size, c.align, c.locking, c.max)); }
		room = p->get_free_mem(); peak = room;
	}
	int al(int n) const { return (n + c.align - 1) / c.align * c.align; }
	int used(int except = -1) const { int u = 0; for (int i = 0; i < (int)b.size(); i++) if (b[i].id >= 0 && i != except) u += al(b[i].len); return u; }
	int count() const { int n = 0; for (auto &x : b) n += x.id >= 0; return n; }
	bool anylock() const { for (auto &x : b) if (x.id >= 0 && x.lock) return true; return false; }
	int top() const { return room / c.align * c.align; }
	uint8_t *at(const Blk &x) { if (!c.locking) return (uint8_t *)p->get(x.id); if (x.lock) return (uint8_t *)p->get(x.id); p->lock(x.id); uint8_t *q = (uint8_t *)p->get(x.id); p->unlock(x.id); return q; }
	void fill(Blk &x, int from) { uint8_t *q = at(x); if (!q) return; for (int i = from; i < x.len; i++) q[i] = x.tag + i * 7; }
	uint8_t *lo() { if (base) { uint8_t *s = base; while ((uintptr_t)s % c.align) s++; return s; } uint8_t *m = nullptr; for (auto &x : b) if (x.id >= 0) { uint8_t *q = at(x); if (!m || q < m) m = q; } return m; }
	// where the blocks lie: what decides the future of the pool
	std::string key() { std::string k; uint8_t *l = lo(); for (auto &x : b) k += x.id < 0 ? "-," : fmt("%d:%d@%d/%d#%d,", x.len, x.lock, c.kind == 2 ? (int)(at(x) - l) : (int)(at(x) - l), x.lock, x.id >> 8); return k + (dead.empty() ? "" : "d"); }
	// holes the block i (or a new one) could take without moving anything
	bool fits(int need, int i) { // need: aligned size; i: block to grow in place, or -1 for a new block
		std::vector<std::pair<int, int>> v; uint8_t *l = c.kind == 2 ? lo() : nullptr; if (!l) return false;
		for (int k = 0; k < (int)b.size(); k++) if (b[k].id >= 0) v.push_back({ (int)(at(b[k]) - l), al(b[k].len) });
		std::sort(v.begin(), v.end());
		if (i >= 0) { int me = at(b[i]) - l, nx = top(); for (auto &q : v) if (q.first > me) { nx = q.first; break; } return nx - me >= need; }
		int e = 0; for (auto &q : v) { if (q.first - e >= need) return true; e = q.first + q.second; } return top() - e >= need;
	}
};
#define PK(cond, what, ...) do { if (!(cond)) { w.err = fmt(__VA_ARGS__); ok(false, std::string("pool:") + what, "%s: %s", hist.c_str(), w.err.c_str()); return false; } ok(true, "", ""); } while (0)
struct POp { std::string n; std::function<bool(World &)> can; std::function<bool(World &, const std::string &)> run; };
static bool intact(World &w, const std::string &hist) {
	PK(w.p->held == 0 && w.p->worst == 0, "mutex", "the pool's own lock is taken twice or not given back (%d, %d)", w.p->held, w.p->worst);
	std::vector<std::pair<uint8_t *, int>> v;
	for (auto &x : w.b) if (x.id >= 0) {
		PK(w.p->get_size(x.id) == x.len, "size", "a block of %d bytes has size %d", x.len, w.p->get_size(x.id));
		PK(w.p->is_locked(x.id) == (w.c.locking && x.lock > 0), "locked", "block locked %d times is reported %s", x.lock, w.p->is_locked(x.id) ? "locked" : "free");
		if (w.c.locking && !x.lock) PK(w.p->get(x.id) == nullptr && const_cast<const Pool *>(w.p.get())->get(x.id) == nullptr, "get", "an unlocked block can be read");
		uint8_t *q = w.at(x); PK(q != nullptr, "get", "a live block has no memory");
		PK((uintptr_t)q % w.c.align == 0, "align", "block at %p is not aligned to %d", (void *)q, w.c.align);
		if (w.base) PK(q >= w.base && q + x.len <= w.base + w.c.size, "inside", "block at offset %d of length %d leaves the pool of %d", (int)(q - w.base), x.len, w.c.size);
		v.push_back({ q, x.len });
		for (int i = 0; i < x.len; i++) PK(q[i] == (uint8_t)(x.tag + i * 7), "contents", "byte %d of a block of %d is lost", i, x.len);
	}
	std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); i++) PK(v[i - 1].first + v[i - 1].second <= v[i].first, "disjoint", "two blocks overlap");
	PK(w.p->get_free_mem() == w.room - w.used(), "free_mem", "%d bytes are said to be free, expected %d", w.p->get_free_mem(), w.room - w.used()); PK(w.p->get_used_mem() == w.used(), "used_mem", "%d bytes are said to be used, expected %d", w.p->get_used_mem(), w.used());
	w.peak = std::min(w.peak, w.room - w.used()); PK(w.p->get_free_peak() == w.peak, "peak", "least free memory is %d, expected %d", w.p->get_free_peak(), w.peak);
	if (w.base) for (int i = 0; i < (int)w.buf.size(); i++) { uint8_t *q = &w.buf[i]; if ((q < w.base || q >= w.base + w.c.size) && *q != 0xee) PK(false, "outside", "a byte outside the pool was written"); }
	for (int d : w.dead) { bool again = false; for (auto &x : w.b) again |= x.id == d; if (again) continue; PK(w.p->get(d) == nullptr && w.p->get_size(d) == 0 && !w.p->is_locked(d), "dead", "a freed block still answers"); PK(w.p->resize(d, 1) != OK, "dead", "a freed block was resized"); if (w.c.locking) PK(w.p->lock(d) != OK, "dead", "a freed block was locked"); w.p->unlock(d); w.p->free(d); }
	return true;
}
static std::vector<POp> pool_ops(const Conf &c) {
	std::vector<POp> o; std::vector<int> sizes = { 1, 2, 3, c.align, c.size / 3, c.size / 2, c.size - 1, c.size, c.size + 1 }; std::sort(sizes.begin(), sizes.end()); sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
	std::vector<int> all = sizes; all.push_back(0); all.push_back(-1);
	for (int n : all) o.push_back({ fmt("alloc %d", n), [](World &) { return true; }, [n](World &w, const std::string &hist) {
		int s = -1; for (int i = 0; i < (int)w.b.size() && s < 0; i++) if (w.b[i].id < 0) s = i;
		bool full = s < 0, possible = n >= 1 && !full && w.used() + w.al(n) <= w.top(), sure = possible && (!w.anylock() || w.fits(w.al(n), -1));
		int id = w.p->alloc(n);
		PK(id >= 0 ? possible : !sure, "alloc", "allocating %d of %d bytes (%d in use, %d blocks) %s", n, w.top(), w.used(), w.count(), id >= 0 ? "succeeds" : "fails");
		if (id < 0) { PK(id == POOL_ALLOCATOR_INVALID_ID, "alloc", "failure answers %d", id); return true; }
		for (auto &x : w.b) PK(x.id != id, "alloc", "a live block's name is given out again");
		Blk &x = w.b[s]; x = Blk(); x.id = id; x.len = n; x.tag = w.tag += 37; w.fill(x, 0); return true; } });
	for (int i = 0; i < c.max; i++) {
		auto live = [i](World &w) { return w.b[i].id >= 0; };
		o.push_back({ fmt("free %d", i), live, [i](World &w, const std::string &) { Blk &x = w.b[i]; w.p->free(x.id); if (w.c.locking && x.lock) return true; w.dead.push_back(x.id); x = Blk(); return true; } });
		for (int n : all) o.push_back({ fmt("resize %d to %d", i, n), live, [i, n](World &w, const std::string &hist) {
			Blk &x = w.b[i]; bool locked = w.c.locking && x.lock; bool possible = n >= 1 && !locked && w.used(i) + w.al(n) <= w.top(), sure = possible && (n <= x.len || !w.anylock() || w.fits(w.al(n), i));
			Error e = w.p->resize(x.id, n);
			PK(e == OK ? possible : !sure, "resize", "resizing %d to %d bytes in a pool of %d (%d in use by others) answers %d", x.len, n, w.top(), w.used(i), (int)e);
			if (e == OK) { int was = x.len; x.len = n; if (n > was) w.fill(x, was); } return true; } });
		if (c.locking) {
			o.push_back({ fmt("lock %d", i), [i](World &w) { return w.b[i].id >= 0 && w.b[i].lock < 2; }, [i](World &w, const std::string &hist) { PK(w.p->lock(w.b[i].id) == OK, "lock", "locking fails"); w.b[i].lock++; return true; } });
			o.push_back({ fmt("unlock %d", i), live, [i](World &w, const std::string &) { w.p->unlock(w.b[i].id); if (w.b[i].lock) w.b[i].lock--; return true; } });
		}
	}
	return o;
}
static bool step(World &w, POp &o, const std::string &hist) {
	std::vector<std::pair<int, uint8_t *>> fixed; if (w.c.locking) for (auto &x : w.b) if (x.id >= 0 && x.lock) fixed.push_back({ x.id, (uint8_t *)w.p->get(x.id) });
	if (!o.run(w, hist)) return false;
	for (auto &f : fixed) for (auto &x : w.b) if (x.id == f.first && x.lock) PK(w.p->get(x.id) == f.second, "moved", "a locked block was moved");
	mc::transition(); return intact(w, hist);
}
static void pool(const Conf &c, int depth, size_t cap) {
	std::vector<POp> ops = pool_ops(c); std::string lab = fmt("pool kind %d size %d align %d skew %d blocks %d%s", c.kind, c.size, c.align, c.skew, c.max, c.locking ? " locking" : "");
	std::deque<std::vector<int>> q; std::set<std::string> seen; q.push_back({}); size_t n = 0; bool capped = false;
	while (!q.empty()) {
		std::vector<int> h = q.front(); q.pop_front(); if (n >= cap) { capped = true; break; } n++;
		std::string hn = lab + ":"; for (int i : h) hn += " " + ops[i].n + ";"; bool mine = mc::next(hn);
		auto there = [&](World &w, bool check) { for (int i : h) if (check ? !step(w, ops[i], hn) : !ops[i].run(w, hn)) return false; return true; };
		if (!mine && (int)h.size() >= depth) continue;
		for (int o = 0; o < (int)ops.size(); o++) {
			World w(c); if (!there(w, mine)) break; if (!ops[o].can(w)) continue;
			std::string hh = hn + " " + ops[o].n; bool good = mine ? step(w, ops[o], hh) : (ops[o].run(w, hh), w.err.empty());
			if (!good) continue;
			std::string k = w.key(); if (mine) mc::state(lab + k);
			if ((int)h.size() < depth && seen.insert(k).second) { auto x = h; x.push_back(o); q.push_back(x); }
		}
	}
	mc::count(lab + (capped ? ".capped_states" : ".complete_states"), mc::S().shard == 0 ? n : 0);
}
// ---- paged allocator
static long born = 0, gone = 0;
struct Obj { int v = 5; int *own; Obj() : own(new int(9)) { born++; } ~Obj() { gone++; delete own; } };
template <class T, bool safe> static void paged(const char *tn, int depth) {
	for (uint32_t page : { 1u, 2u, 3u, 4u }) {
		std::vector<int> h; std::function<void(int)> rec = [&](int d) {
			if (d == depth) {
				std::string hn = fmt("paged %s page %u:", tn, page); for (int i : h) hn += i == 0 ? " alloc" : i < 8 ? fmt(" free %d", i - 1) : " reset";
				MC_CASE("%s", hn.c_str()) {
					uint64_t m0 = Memory::get_mem_usage(); long b0 = born, g0 = gone;
					{ PagedAllocator<T, safe> p(page); std::vector<T *> live; int stamp = 1; long al = 0, fr = 0;
					for (int o : h) {
						mc::transition();
						if (o == 0) { T *x = p.alloc(); al++; for (T *y : live) CK(std::abs((char *)x - (char *)y) >= (long)sizeof(T), "paged:disjoint", "%s: two live objects share memory", hn.c_str()); CK((uintptr_t)x % alignof(T) == 0, "paged:align", "%s: object not aligned", hn.c_str()); CK(x->v == 5, "paged:fresh", "%s: an object is not constructed afresh", hn.c_str()); x->v = stamp++ + 100; live.push_back(x); }
						else if (o < 8) { int i = o - 1; p.free(live[i]); fr++; live.erase(live.begin() + i); }
						else { p.reset(); if (live.empty()) CK(Memory::get_mem_usage() == m0, "paged:reset", "%s: reset keeps %lld bytes", hn.c_str(), (long long)(Memory::get_mem_usage() - m0)); }
						for (size_t i = 1; i < live.size(); i++) CK(live[i]->v > live[i - 1]->v, "paged:contents", "%s: a live object changed", hn.c_str());
						if (sizeof(T) > 1) CK(born - b0 == al && gone - g0 == fr, "paged:lifetimes", "%s: %ld constructed, %ld destroyed, expected %ld, %ld", hn.c_str(), born - b0, gone - g0, al, fr); mc::state(fmt("%s%u:%zu:%ld", tn, page, live.size(), al));
					}
					while (!live.empty()) { p.free(live.back()); live.pop_back(); } }
					CK(Memory::get_mem_usage() == m0 && born - b0 == gone - g0, "paged:leak", "%s: memory or objects left behind", hn.c_str());
				}
				return;
			}
			int n = 0; for (int i : h) n += i == 0 ? 1 : i < 8 ? -1 : 0;
			h.push_back(0); rec(d + 1); h.pop_back(); for (int i = 0; i < n && i < 7; i++) { h.push_back(i + 1); rec(d + 1); h.pop_back(); } h.push_back(8); rec(d + 1); h.pop_back();
		}; rec(0);
	}
}
// ---- plain memory
static void memory(int depth) {
	static const size_t sz[] = { 1, 7, 16, 33 }; struct M { uint8_t *p; size_t n; bool pad; uint8_t t; };
	std::vector<int> h; std::function<void(int)> rec = [&](int d) {
		if (d == depth) MC_CASE("memory history") {
			std::vector<M> v; uint64_t u0 = Memory::get_mem_usage(), sum = 0, top = Memory::get_mem_max_usage(); uint8_t t = 0; std::string hn = "memory:";
			for (int o : h) {
				mc::transition(); hn += fmt(" %d", o);
				if (o < 8) { M m = { nullptr, sz[o % 4], o >= 4, t += 51 }; m.p = (uint8_t *)Memory::alloc_static(m.n, m.pad); CK(m.p && (uintptr_t)m.p % 8 == 0, "memory:alloc", "%s: no memory or not aligned", hn.c_str()); memset(m.p, m.t, m.n); sum += m.n; v.push_back(m); }
				else if (v.empty()) continue;
				else if (o == 8) { M m = v.back(); v.pop_back(); Memory::free_static(m.p, m.pad); sum -= m.n; }
				else { M &m = o < 12 ? v.back() : v.front(); size_t n = o % 3 == 0 ? 5 : o % 3 == 1 ? 64 : 0; uint8_t *q = (uint8_t *)Memory::realloc_static(m.p, n, m.pad); sum += n; sum -= m.n; if (!n) { CK(q == nullptr, "memory:realloc", "%s: resizing to nothing gives memory", hn.c_str()); v.erase(o < 12 ? v.end() - 1 : v.begin()); } else { bool same = true; for (size_t i = 0; i < std::min(n, m.n); i++) same &= q[i] == m.t; CK(same, "memory:realloc", "%s: contents lost by resizing", hn.c_str()); memset(q, m.t, n); m.p = q; m.n = n; } }
				for (auto &m : v) { bool same = true; for (size_t i = 0; i < m.n; i++) same &= m.p[i] == m.t; CK(same, "memory:contents", "%s: a block changed", hn.c_str()); }
				CK(Memory::get_mem_usage() - u0 == sum, "memory:usage", "%s: usage grew by %lld, expected %lld", hn.c_str(), (long long)(Memory::get_mem_usage() - u0), (long long)sum); top = std::max(top, u0 + sum); CK(Memory::get_mem_max_usage() == top, "memory:max", "%s: most memory used is %llu, expected %llu", hn.c_str(), (unsigned long long)Memory::get_mem_max_usage(), (unsigned long long)top); mc::state(fmt("memory %zu %llu", v.size(), (unsigned long long)sum));
			}
			for (auto &m : v) Memory::free_static(m.p, m.pad);
		}
		else for (int o = 0; o < 15; o++) { h.push_back(o); rec(d + 1); h.pop_back(); }
	}; rec(0);
	MC_CASE("arrays of objects") for (size_t n = 0; n < 20; n++) {
		long b0 = born, g0 = gone; uint64_t u0 = Memory::get_mem_usage(); Obj *a = memnew_arr(Obj, n); CK((a == nullptr) == (n == 0), "array:new", "array of %zu", n); if (!n) continue;
		CK(born - b0 == (long)n && memarr_len(a) == n, "array:new", "array of %zu objects has %ld constructed, length %zu", n, born - b0, memarr_len(a)); for (size_t i = 0; i < n; i++) CK(a[i].v == 5 && *a[i].own == 9, "array:new", "element %zu of %zu not constructed", i, n); CK(Memory::get_mem_usage() - u0 == n * sizeof(Obj), "array:usage", "usage of an array of %zu", n);
		memdelete_arr(a); CK(gone - g0 == (long)n && Memory::get_mem_usage() == u0, "array:delete", "deleting an array of %zu destroys %ld", n, gone - g0); int *ia = memnew_arr(int, n); CK(memarr_len(ia) == n, "array:new", "plain array of %zu", n); memset(ia, 1, n * sizeof(int)); memdelete_arr(ia);
		b0 = born; g0 = gone; Obj *o = memnew(Obj); CK(born - b0 == 1 && o->v == 5, "array:single", "single object"); memdelete(o); CK(gone - g0 == 1 && Memory::get_mem_usage() == u0, "array:single", "single object deleted");
		b0 = born; g0 = gone; Obj *al = memnew_allocator(Obj, DefaultAllocator); CK(born - b0 == 1, "array:single", "object from an allocator"); memdelete_allocator<Obj, DefaultAllocator>(al); CK(gone - g0 == 1 && Memory::get_mem_usage() == u0, "array:single", "object from an allocator deleted");
	}
}
struct Small { char v = 5; };
void explore() {
	SFWCore::setup(); bool th = mc::thorough(); int d = th ? 8 : 6; size_t cap = th ? 12000 : 900;
	for (bool lk : { false, true }) for (Conf c : { Conf{ 2, 1, 6, 0, 3, lk }, Conf{ 2, 4, 24, 0, 3, lk }, Conf{ 2, 4, 22, 0, 3, lk }, Conf{ 2, 4, 24, 1, 2, lk }, Conf{ 2, 1, 9, 0, 4, lk }, Conf{ 0, 1, 6, 0, 3, lk }, Conf{ 1, 8, 32, 0, 3, lk }, Conf{ 1, 3, 10, 0, 3, lk } }) pool(c, d, c.kind == 2 ? cap : cap / 3);
	paged<Obj, false>("object", th ? 9 : 7); paged<Obj, true>("object, locked", th ? 8 : 6); paged<Small, false>("byte", th ? 8 : 6); memory(th ? 5 : 4);
}
