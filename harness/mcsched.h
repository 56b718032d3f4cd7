// A controlled scheduler and memory monitor for the real code. The library and the harness are compiled with -fsanitize=thread but not linked with its
// runtime: the hooks the compiler inserts (every memory access, every atomic operation) come here instead, together with pthread locks and malloc/free.
// Threads are coroutines that yield at every atomic and lock operation; run() explores every interleaving of those (sleep sets prune only those that
// differ in the order of independent operations). On every schedule: plain accesses are checked for data races (vector clocks, honouring the memory
// orders the code asks for) and for use of freed memory, frees for doubles, the end of the schedule for leaks and deadlocks.
#ifndef MC_SCHED_H
#define MC_SCHED_H
#include <ucontext.h>
#include <unordered_map>
#include <set>
#include <string.h>
#include <pthread.h>
#include "mc.h"
#define NT __attribute__((no_sanitize_thread))
#define NTI __attribute__((no_sanitize_thread, noinline))
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_calloc(size_t, size_t);
namespace sch {
enum { MAXT = 4, ARENA = 1 << 21 };
struct VC { uint32_t c[MAXT]; };
struct Sh { uint32_t w, wt; uint32_t r[MAXT]; }; // last write clock and thread, last read clock per thread
enum K { START, LOAD, STORE, RMW, LOCK, UNLOCK, RLOCK, RUNLOCK, TRY, CREATE, JOIN };
struct Op { K k; uintptr_t a; bool spin; };
struct Blk { uint32_t off, size; bool live; };
struct Obj { uintptr_t a; VC vc; uint32_t ver; int owner, depth, readers; bool plain; };
struct Th { ucontext_t ctx; char *stack; Op next; bool done, blocked; uint32_t spinver; uintptr_t spina, la; int lrep; uint32_t lver; bool lblk; VC vc; std::function<void()> *fn; std::function<void()> own; char *tls; };
struct St {
	bool active = false, usr = false; int cur = -1, n = 0; Th t[MAXT]; ucontext_t main; char *arena = nullptr; uint32_t top = 0; Sh *sh = nullptr; uint32_t *bid = nullptr; // block id + 1 per 16 bytes
	std::vector<Blk> blks; std::vector<Obj> objs; std::unordered_map<uintptr_t, Sh> *glob = nullptr; uintptr_t skipg[3][2]; std::string err, errkey; long accesses = 0, ops = 0; std::vector<int> trace; std::vector<uintptr_t> quiet; char *tls = nullptr, *tlsimg = nullptr, *tlsmain = nullptr; size_t tlsn = 0; uintptr_t mainid = 0;
};
inline St &s() { static St *p = new St(); return *p; }
static St *g = nullptr;
struct Off { bool o; NT Off() { o = g->active; g->active = false; } NT ~Off() { g->active = o; } };
NTI static void bad(const char *key, const std::string &m) { if (g->err.empty()) { g->err = m; g->errkey = key; } }
NTI static Obj &obj(uintptr_t a) { for (auto &o : g->objs) if (o.a == a) return o; Obj o; memset(&o, 0, sizeof o); o.a = a; o.owner = -1; g->objs.push_back(o); return g->objs.back(); }
NT static inline bool inarena(uintptr_t a) { return a - (uintptr_t)g->arena < ARENA; }
NTI static void race1(Sh &h, bool w, uintptr_t a, int sz) {
	int c = g->cur; VC &v = g->t[c].vc; bool r = h.w && (int)h.wt != c && h.w > v.c[h.wt]; if (w) for (int i = 0; i < MAXT; i++) if (i != c && h.r[i] > v.c[i]) r = true;
	if (r) { bad("race", mc::fmt("data race on %d bytes at %s: %s by thread %d is not ordered with an access by another thread", sz, inarena(a) ? mc::fmt("heap+%lu", (unsigned long)(a - (uintptr_t)g->arena)).c_str() : "a global", w ? "write" : "read", c)); }
	if (w) { h.w = v.c[c]; h.wt = c; } else h.r[c] = v.c[c];
}
NTI static void access_(uintptr_t a, size_t n, bool w, bool atomic) {
	Off o; g->accesses++;
	if (inarena(a)) { uint32_t off = a - (uintptr_t)g->arena; uint32_t b = g->bid[off >> 4]; if (!b || !g->blks[b - 1].live || off + n > g->blks[b - 1].off + g->blks[b - 1].size) { bad("use-after-free", mc::fmt("%s of %zu bytes at heap+%u, which is %s", w ? "write" : "read", n, off, !b ? "not allocated" : !g->blks[b - 1].live ? "already freed" : "past the end of a block")); return; } if (!atomic) for (size_t i = 0; i < n; i++) race1(g->sh[off + i], w, a, n); return; }
	if (atomic) return; for (int i = 0; i < g->n; i++) if (a - (uintptr_t)g->t[i].stack < (256 << 10)) return;
	for (auto &k : g->skipg) if (a >= k[0] && a < k[1]) return;
	for (size_t i = 0; i < n; i++) { auto it = g->glob->find(a + i); if (it == g->glob->end()) { Sh z; memset(&z, 0, sizeof z); it = g->glob->emplace(a + i, z).first; } race1(it->second, w, a, n); }
}
NTI static void point(K k, uintptr_t a) { Off o; Th &t = g->t[g->cur]; t.next.k = k; t.next.a = a; g->ops++; swapcontext(&t.ctx, &g->main); }
NT static inline bool on() { return g && g->active && g->cur >= 0; }
NTI static void acq(Obj &o) { VC &v = g->t[g->cur].vc; for (int i = 0; i < MAXT; i++) v.c[i] = std::max(v.c[i], o.vc.c[i]); }
NTI static void rel(Obj &o, bool join) { VC &v = g->t[g->cur].vc; for (int i = 0; i < MAXT; i++) o.vc.c[i] = join ? std::max(v.c[i], o.vc.c[i]) : v.c[i]; v.c[g->cur]++; }
NT static inline bool isacq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
NT static inline bool isrel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
NTI static bool hush(uintptr_t a) { for (uintptr_t q : g->quiet) if (q == a) return true; return false; }
NTI static void aload(uintptr_t a, size_t n, int mo) { if (!on() || hush(a)) return; point(LOAD, a); { Th &t = g->t[g->cur]; Off x; uint32_t v = obj(a).ver; if (t.la == a && t.lver == v) t.lrep++; else t.lrep = 0; t.la = a; t.lver = v; } access_(a, n, false, true); Off x; if (isacq(mo)) acq(obj(a)); }
NTI static void astore(uintptr_t a, size_t n, int mo) { if (!on() || hush(a)) return; g->t[g->cur].la = 0; point(STORE, a); access_(a, n, true, true); Off x; Obj &o = obj(a); o.ver++; if (isrel(mo)) rel(o, false); else memset(&o.vc, 0, sizeof o.vc); }
NTI static void armw(uintptr_t a, size_t n) { if (!on() || hush(a)) return; g->t[g->cur].la = 0; point(RMW, a); access_(a, n, true, true); }
NTI static void armwd(uintptr_t a, int mo, bool changed) { if (!on() || hush(a)) return; Off x; Obj &o = obj(a); if (isacq(mo)) acq(o); if (isrel(mo)) rel(o, true); Th &t = g->t[g->cur]; if (changed) o.ver++; else { t.blocked = true; t.spinver = o.ver; t.spina = a; } }
// ---- locks
NTI static void lock(uintptr_t a, bool plain = false) { if (!on()) return; { Off x; obj(a).plain = plain; } point(LOCK, a); Off x; Obj &o = obj(a); if (o.owner == g->cur) { o.depth++; return; } o.owner = g->cur; o.depth = 1; acq(o); }
NTI static void unlock(uintptr_t a) { if (!on()) return; point(UNLOCK, a); Off x; Obj &o = obj(a); if (o.owner == g->cur) { if (--o.depth == 0) o.owner = -1; } else if (o.readers > 0) o.readers--; else bad("unlock", "a lock that is not held is released"); rel(o, true); }
NTI static void rdlock(uintptr_t a) { if (!on()) return; point(RLOCK, a); Off x; Obj &o = obj(a); o.readers++; acq(o); }
NTI static bool trylock(uintptr_t a, bool rd, bool plain = false) { if (!on()) return true; point(TRY, a); Off x; Obj &o = obj(a); if (rd ? o.owner >= 0 : ((o.owner >= 0 && (plain || o.owner != g->cur)) || o.readers)) return false; if (rd) o.readers++; else { o.owner = g->cur; o.depth++; } acq(o); return true; }
// ---- threads: a thread made by the program under test becomes another coroutine, with thread-local storage of its own
static void tramp(int);
NTI static void ready(int i) { Th &t = g->t[i]; t.done = t.blocked = false; t.la = 0; t.lrep = 0; t.next.k = START; t.next.a = 0; getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = 256 << 10; t.ctx.uc_link = nullptr; makecontext(&t.ctx, (void (*)())&tramp, 1, i); if (g->tlsn) __builtin_memcpy(t.tls, g->tlsimg, g->tlsn); }
NTI static bool create(uintptr_t *id, void *(*f)(void *), void *a) { point(CREATE, (uintptr_t)id); Off x; if (g->n >= MAXT) { bad("threads", "more threads than explored"); return false; } int i = g->n++; Th &t = g->t[i]; Th &p = g->t[g->cur]; t.own = [f, a]() { f(a); }; t.fn = &t.own; t.vc = p.vc; t.vc.c[i] = 1; p.vc.c[g->cur]++; ready(i); *id = 0x100000 + i * 0x1000; return true; }
NTI static void join(uintptr_t id) { int i = (id - 0x100000) / 0x1000; if (i < 1 || i >= g->n) { bad("join", "a thread that does not exist is joined"); return; } point(JOIN, i + 1); Off x; VC &v = g->t[g->cur].vc; for (int k = 0; k < MAXT; k++) v.c[k] = std::max(v.c[k], g->t[i].vc.c[k]); }
// ---- memory
NT static inline bool tr() { return g && (g->cur < 0 ? g->usr : g->active); }
NTI static void *amalloc(size_t n) { Off o; uint32_t sz = (n + 31) & ~15u; if (g->top + sz + 16 > ARENA) { fprintf(stderr, "arena exhausted\n"); abort(); } uint32_t off = g->top; g->top += sz + 16; g->blks.push_back(Blk{ off, (uint32_t)n, true }); for (uint32_t i = off >> 4; i < (off + sz) >> 4; i++) g->bid[i] = g->blks.size(); return g->arena + off; }
NTI static void afree(void *p) { if (!p) return; bool tr = g->active && g->cur >= 0; Off o; uint32_t off = (char *)p - g->arena; uint32_t b = g->bid[off >> 4]; if (!b || g->blks[b - 1].off != off || !g->blks[b - 1].live) { bad("double-free", mc::fmt("block at heap+%u is freed twice", off)); return; } if (tr) for (uint32_t i = 0; i < g->blks[b - 1].size; i++) race1(g->sh[off + i], true, (uintptr_t)p, g->blks[b - 1].size); g->blks[b - 1].live = false; }
NTI static void begin() { memset(g->sh, 0, sizeof(Sh) * (g->top + 64)); memset(g->bid, 0, 4 * ((g->top >> 4) + 4)); g->top = 0; g->blks.clear(); g->objs.clear(); g->glob->clear(); g->err.clear(); g->errkey.clear(); g->trace.clear(); }
NTI static bool enabled(int i) { Th &t = g->t[i]; if (t.done) return false; if (t.blocked && t.next.k == RMW && t.next.a == t.spina && obj(t.spina).ver == t.spinver) return false; if (t.next.k == LOAD && t.la == t.next.a && t.lrep >= 6 && obj(t.la).ver == t.lver) return false; if (t.next.k == LOCK) { Obj &o = obj(t.next.a); return (o.owner < 0 || (o.owner == i && !o.plain)) && !o.readers; } if (t.next.k == JOIN) return g->t[t.next.a - 1].done; if (t.next.k == RLOCK) { Obj &o = obj(t.next.a); return o.owner < 0; } return true; }
NTI static bool indep(const Op &a, const Op &b) { return a.a != b.a || (a.k == LOAD && b.k == LOAD) || (a.k == RLOCK && b.k == RLOCK); }
NTI static void tramp(int i) { g->cur = i; g->active = true; (*g->t[i].fn)(); g->active = false; g->t[i].done = true; swapcontext(&g->t[i].ctx, &g->main); }
NTI static void step(int i) { Th &t = g->t[i]; g->cur = i; g->active = false; t.blocked = false; if (g->tlsn) { __builtin_memcpy(g->tlsmain, g->tls, g->tlsn); __builtin_memcpy(g->tls, t.tls, g->tlsn); } swapcontext(&g->main, &t.ctx); g->active = false; if (g->tlsn) { __builtin_memcpy(t.tls, g->tls, g->tlsn); __builtin_memcpy(g->tls, g->tlsmain, g->tlsn); } g->cur = -1; }
NTI static void init() { if (g) return; g = &s(); g->arena = (char *)__libc_malloc(ARENA + 64); g->arena += 16 - ((uintptr_t)g->arena & 15); g->sh = (Sh *)__libc_calloc(ARENA + 64, sizeof(Sh)); g->bid = (uint32_t *)__libc_calloc((ARENA >> 4) + 64, 4); g->glob = new std::unordered_map<uintptr_t, Sh>(); for (auto &t : g->t) t.stack = (char *)__libc_malloc(256 << 10); memset(g->skipg, 0, sizeof g->skipg); g->blks.reserve(4096); g->objs.reserve(256); }
struct Node { int chosen; unsigned sleep, enabled; };
struct Result { long schedules = 0, steps = 0, races = 0; bool capped = false; std::string err, key; std::vector<int> at; };
// setup builds the shared state, prog[i] runs as thread i, teardown ends; called once per schedule; check (uninstrumented result) returns "" or an error
inline Result run(std::function<void()> setup, std::vector<std::function<void()>> prog, std::function<std::string()> finish, long cap, int preempt = 99) {
	init(); Result R; std::vector<Node> path; int n = (int)prog.size();
	for (;;) {
		begin(); g->n = n; g->usr = true; setup(); g->usr = false;
		// everything set up happens before the threads
		for (int i = 0; i < n; i++) { Th &t = g->t[i]; memset(&t.vc, 0, sizeof t.vc); t.vc.c[i] = 1; t.fn = &prog[i]; ready(i); }
		memset(g->sh, 0, sizeof(Sh) * (g->top + 64));
		for (int i = 0; i < n; i++) step(i); // up to the first atomic or lock operation
		size_t d = 0; int last = -1, pre = 0; bool dead = false, prunedpath = false; unsigned sleep = 0;
		for (;;) {
			unsigned en = 0; bool all = true; for (int i = 0; i < g->n; i++) { if (enabled(i)) en |= 1u << i; if (!g->t[i].done) all = false; }
			if (all || !g->err.empty()) break; if (!en) { dead = true; break; }
			int c = -1;
			if (prunedpath) { for (int i = 0; i < g->n; i++) if (en >> i & 1) { c = i; break; } }
			else if (d < path.size()) { c = path[d].chosen; sleep = path[d].sleep; }
			else { unsigned opt = en & ~sleep; if (last >= 0 && pre >= preempt && (en >> last & 1)) opt &= 1u << last; if (!opt) { prunedpath = true; continue; } if (last >= 0 && (opt >> last & 1)) c = last; else for (int i = 0; i < g->n; i++) if (opt >> i & 1) { c = i; break; } path.push_back(Node{ c, sleep, en }); }
			if (last >= 0 && c != last && (en >> last & 1)) pre++;
			if (!prunedpath) { unsigned ns = 0; if (preempt >= 99) for (int u = 0; u < g->n; u++) if ((sleep >> u & 1) && u != c && indep(g->t[u].next, g->t[c].next)) ns |= 1u << u; sleep = ns; d++; }
			g->trace.push_back(c); last = c; R.steps++; step(c);
		}
		R.schedules++; if (dead && g->err.empty()) bad("deadlock", "no thread can go on");
		if (g->err.empty()) { g->usr = true; std::string e = finish(); g->usr = false; if (!e.empty()) bad("result", e); if (g->err.empty()) for (auto &b : g->blks) if (b.live) { bad("leak", mc::fmt("block %d of %u bytes at heap+%u is never freed", (int)(&b - &g->blks[0]), b.size, b.off)); break; } }
		if (!g->err.empty()) { R.err = g->err; R.key = g->errkey; R.at = g->trace; return R; }
		// backtrack: put the chosen thread to sleep at the deepest node that has another option
		while (!path.empty()) {
			Node &nd = path.back(); nd.sleep |= 1u << nd.chosen; unsigned opt = nd.enabled & ~nd.sleep; int c = -1;
			if (preempt < 99 && opt) { int l = path.size() > 1 ? path[path.size() - 2].chosen : -1, pc = 0; for (size_t i = 1; i + 1 < path.size(); i++) if (path[i].chosen != path[i - 1].chosen && (path[i].enabled >> path[i - 1].chosen & 1)) pc++; if (l >= 0 && (nd.enabled >> l & 1) && pc >= preempt) opt &= 1u << l; }
			for (int i = 0; i < MAXT; i++) if (opt >> i & 1) { c = i; break; } if (c >= 0) { nd.chosen = c; break; } path.pop_back();
		}
		if (path.empty()) return R; if (R.schedules >= cap) { R.capped = true; return R; }
	}
}
#ifdef MC_THREADS
} // namespace sch
#include <link.h>
namespace sch {
// the thread-local variables of this program live in one block: every coroutine gets its own contents of it
static void threads() {
	dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { g->tlsn = i->dlpi_phdr[k].p_memsz; g->tls = (char *)i->dlpi_tls_data; g->tlsimg = (char *)__libc_calloc(1, g->tlsn); memcpy(g->tlsimg, (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz); } return 1; }, nullptr);
	g->tlsmain = (char *)__libc_calloc(1, g->tlsn + 1); for (auto &t : g->t) t.tls = (char *)__libc_calloc(1, g->tlsn + 1); g->skipg[0][0] = (uintptr_t)g->tls; g->skipg[0][1] = (uintptr_t)g->tls + g->tlsn;
}
#endif
} // namespace sch
// ---- the hooks
extern "C" {
NT void __tsan_init() {} NT void __tsan_func_entry(void *) {} NT void __tsan_func_exit(void *) {}
#define ACC(n) NT void __tsan_read##n(void *p) { if (sch::on()) sch::access_((uintptr_t)p, n, false, false); } NT void __tsan_write##n(void *p) { if (sch::on()) sch::access_((uintptr_t)p, n, true, false); } NT void __tsan_unaligned_read##n(void *p) { if (sch::on()) sch::access_((uintptr_t)p, n, false, false); } NT void __tsan_unaligned_write##n(void *p) { if (sch::on()) sch::access_((uintptr_t)p, n, true, false); } NT void __tsan_volatile_read##n(void *p) { __tsan_read##n(p); } NT void __tsan_volatile_write##n(void *p) { __tsan_write##n(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NT void __tsan_read_range(void *p, long n) { if (sch::on() && n) sch::access_((uintptr_t)p, n, false, false); } NT void __tsan_write_range(void *p, long n) { if (sch::on() && n) sch::access_((uintptr_t)p, n, true, false); }
NT void __tsan_vptr_update(void *p, void *) { if (sch::on()) sch::access_((uintptr_t)p, 8, true, true); } NT void __tsan_vptr_read(void *p) { if (sch::on()) sch::access_((uintptr_t)p, 8, false, true); }
#define AT(N, T) \
	NT T __tsan_atomic##N##_load(const volatile void *av, int mo) { const volatile T *a = (const volatile T *)av; sch::aload((uintptr_t)a, sizeof(T), mo); return *a; } \
	NT void __tsan_atomic##N##_store(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::astore((uintptr_t)a, sizeof(T), mo); *a = v; } \
	NT T __tsan_atomic##N##_exchange(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; *a = v; sch::armwd((uintptr_t)a, mo, o != v); return o; } \
	NT T __tsan_atomic##N##_fetch_add(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; *a = o + v; sch::armwd((uintptr_t)a, mo, true); return o; } \
	NT T __tsan_atomic##N##_fetch_sub(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; *a = o - v; sch::armwd((uintptr_t)a, mo, true); return o; } \
	NT T __tsan_atomic##N##_fetch_and(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; *a = o & v; sch::armwd((uintptr_t)a, mo, true); return o; } \
	NT T __tsan_atomic##N##_fetch_or(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; *a = o | v; sch::armwd((uintptr_t)a, mo, true); return o; } \
	NT T __tsan_atomic##N##_fetch_xor(volatile void *av, T v, int mo) { volatile T *a = (volatile T *)av; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; *a = o ^ v; sch::armwd((uintptr_t)a, mo, true); return o; } \
	NT bool __tsan_atomic##N##_compare_exchange_strong(volatile void *av, void *cv, T v, int mo, int fm) { volatile T *a = (volatile T *)av; T *c = (T *)cv; sch::armw((uintptr_t)a, sizeof(T)); T o = *a; bool h = o == *c; if (h) *a = v; else *c = o; sch::armwd((uintptr_t)a, h ? mo : fm, true); return h; } \
	NT bool __tsan_atomic##N##_compare_exchange_weak(volatile void *a, void *c, T v, int mo, int fm) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fm); } \
	NT T __tsan_atomic##N##_compare_exchange_val(volatile void *a, T c, T v, int mo, int fm) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fm); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, unsigned long)
NT void __tsan_atomic_thread_fence(int) {} NT void __tsan_atomic_signal_fence(int) {}
NT void *malloc(size_t n) { return sch::tr() ? sch::amalloc(n) : __libc_malloc(n); }
NT void *calloc(size_t a, size_t b) { if (!(sch::tr())) return __libc_calloc(a, b); void *p = sch::amalloc(a * b); memset(p, 0, a * b); return p; }
NT void free(void *p) { if (sch::g && sch::inarena((uintptr_t)p)) { sch::afree(p); } else __libc_free(p); }
NT void *realloc(void *p, size_t n) { if (!p) return malloc(n); if (!(sch::g && sch::inarena((uintptr_t)p))) return __libc_realloc(p, n); if (!n) { free(p); return nullptr; } void *q = sch::amalloc(n); uint32_t b = sch::g->bid[((char *)p - sch::g->arena) >> 4]; size_t o = b ? sch::g->blks[b - 1].size : 0; memcpy(q, p, o < n ? o : n); sch::afree(p); return q; }
int pthread_mutex_lock(pthread_mutex_t *m) { sch::lock((uintptr_t)m, (m->__data.__kind & 3) != 1); return 0; } int pthread_mutex_unlock(pthread_mutex_t *m) { sch::unlock((uintptr_t)m); return 0; } int pthread_mutex_trylock(pthread_mutex_t *m) { return sch::trylock((uintptr_t)m, false, (m->__data.__kind & 3) != 1) ? 0 : 16; }
#ifdef MC_THREADS
int pthread_create(pthread_t *id, const pthread_attr_t *, void *(*f)(void *), void *a) { if (!sch::on()) abort(); return sch::create((uintptr_t *)id, f, a) ? 0 : 11; }
int pthread_join(pthread_t id, void **) { if (!sch::on()) abort(); sch::join((uintptr_t)id); return 0; }
int pthread_detach(pthread_t) { return 0; }
NT pthread_t pthread_self(void) { return sch::g && sch::g->cur > 0 ? (pthread_t)(0x100000 + sch::g->cur * 0x1000) : (pthread_t)0x77777000; }
#endif
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { sch::lock((uintptr_t)m, true); return 0; } int pthread_rwlock_rdlock(pthread_rwlock_t *m) { sch::rdlock((uintptr_t)m); return 0; } int pthread_rwlock_unlock(pthread_rwlock_t *m) { sch::unlock((uintptr_t)m); return 0; } int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return sch::trylock((uintptr_t)m, false, true) ? 0 : 16; } int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return sch::trylock((uintptr_t)m, true) ? 0 : 16; }
NT void *memcpy(void *d, const void *p, size_t n) { if (n && sch::on()) { sch::access_((uintptr_t)p, n, false, false); sch::access_((uintptr_t)d, n, true, false); } void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(p), "+c"(n) : : "memory"); return r; }
NT void *memset(void *d, int c, size_t n) { if (n && sch::on()) sch::access_((uintptr_t)d, n, true, false); void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
}
#endif
