// MC: variant=sched
// C41: counted references, copy-on-write buffers, interned names, pool and page allocators and the object table. Every interleaving of every pair of
// short programs over handles that share an object, on the real code under a controlled scheduler (mcsched.h); and every sequential history of reference
// assignments over a graph of objects that hold references themselves.
#include "mcsched.h"
#include <dlfcn.h>
#define CHK(c) do { if (!(c)) wrong = #c; } while (0)
static const char *wrong; static int made, gone; // gone is written by whoever destroys: a plain variable, ordered by the counting itself
static int mark[64];
class Node : public Reference { SFW_OBJECT(Node, Reference); public: int id; int v; Ref<Node> next; Node() { id = 0; v = 42; } ~Node() { v = -1; mark[id]++; } };
struct Tok { int *p; Tok(int v = 0) : p((int *)malloc(4)) { *p = v; } Tok(const Tok &o) : p((int *)malloc(4)) { *p = *o.p; } Tok &operator=(const Tok &o) { *p = *o.p; return *this; } ~Tok() { *p = -1; free(p); } };
static int nth; // threads in the program
static Node *mk(int id) { Node *n = memnew(Node); n->id = id; return n; }

struct FRef { // references to one shared object and to private ones
	static const char *name() { return "Ref"; } enum { N = 8 }; static const char *op(int o) { static const char *n[] = { "b=a", "a=null", "b=null", "a=b", "read", "b=Ref(raw)", "b=Variant(a)", "a=new", "b=RefPtr(a)" }; return n[o]; }
	struct S { Ref<Node> a, b; int ma, mb, nid; }; static S *t[3];
	static void setup() { memset(mark, 0, sizeof mark); Ref<Node> x(mk(0)); for (int i = 0; i < nth; i++) { t[i] = new S(); t[i]->a = x; t[i]->ma = 0; t[i]->mb = -1; t[i]->nid = 1 + i * 10; } }
	static void run(int i, int o) { S &s = *t[i]; switch (o) { case 0: s.b = s.a; s.mb = s.ma; break; case 1: s.a = Ref<Node>(); s.ma = -1; break; case 2: s.b.unref(); s.mb = -1; break; case 3: s.a = s.b; s.ma = s.mb; break; case 4: break; case 5: if (s.ma >= 0) { s.b = Ref<Node>(s.a.ptr()); s.mb = s.ma; } break; case 6: { Variant v = s.a; Variant w = v; v = Variant(); s.b = w; s.mb = s.ma; break; } case 7: s.a = Ref<Node>(mk(s.nid)); s.ma = s.nid++; break; case 8: { RefPtr p = s.a.get_ref_ptr(); RefPtr q = p; s.b = q; s.mb = s.ma; break; } }
		CHK(s.a.is_valid() == (s.ma >= 0)); CHK(s.b.is_valid() == (s.mb >= 0)); if (s.a.is_valid()) CHK(s.a->id == s.ma && s.a->v == 42); if (s.b.is_valid()) CHK(s.b->id == s.mb && s.b->v == 42); }
	static void end(int i) { S &s = *t[i]; s.a.unref(); s.b.unref(); }
	static std::string finish() { for (int i = 0; i < nth; i++) { int n = t[i]->nid; for (int k = 1 + i * 10; k < n; k++) if (mark[k] != 1) return "a private object was destroyed other than once"; delete t[i]; } return mark[0] == 1 ? "" : "the shared object was destroyed other than once"; }
};
FRef::S *FRef::t[3];
template <class V, class Ad> struct FCow { // copy-on-write sequences
	static const char *name() { return Ad::name(); } enum { N = 8 }; static const char *op(int o) { static const char *n[] = { "b=a", "a=empty", "write a", "append a", "a=b", "write b", "resize a", "c(b) read" }; return n[o]; }
	struct S { V a, b; int ma[12], na, mb[12], nb, u; }; static S *t[3];
	static void setup() { V x; for (int k = 0; k < 2; k++) Ad::add(x, 10 + k); for (int i = 0; i < nth; i++) { S *s = t[i] = new S(); s->a = x; s->na = 2; s->ma[0] = 10; s->ma[1] = 11; s->nb = 0; s->u = 20 + 10 * i; } }
	static bool same(const V &v, const int *m, int n) { if (Ad::size(v) != n) return false; for (int k = 0; k < n; k++) if (Ad::at(v, k) != m[k]) return false; return true; }
	static void run(int i, int o) { S &s = *t[i]; switch (o) { case 0: s.b = s.a; s.nb = s.na; memcpy(s.mb, s.ma, sizeof s.ma); break; case 1: s.a = V(); s.na = 0; break; case 2: if (s.na) { Ad::put(s.a, 0, s.u); s.ma[0] = s.u++; } break; case 3: if (Ad::add(s.a, s.u)) s.ma[s.na++] = s.u; s.u++; break; case 4: s.a = s.b; s.na = s.nb; memcpy(s.ma, s.mb, sizeof s.ma); break; case 5: if (s.nb) { Ad::put(s.b, s.nb - 1, s.u); s.mb[s.nb - 1] = s.u++; } break; case 6: if (s.na > 1 && Ad::resize(s.a, 1)) s.na = 1; break; case 7: { V c(s.b); CHK(same(c, s.mb, s.nb)); break; } }
		CHK(same(s.a, s.ma, s.na)); CHK(same(s.b, s.mb, s.nb)); }
	static void end(int i) { S &s = *t[i]; s.a = V(); s.b = V(); }
	static std::string finish() { for (int i = 0; i < nth; i++) delete t[i]; return ""; }
};
template <class V, class Ad> typename FCow<V, Ad>::S *FCow<V, Ad>::t[3];
struct AdVec { typedef Vector<Tok> V; static const char *name() { return "Vector"; } static bool add(V &v, int x) { v.push_back(Tok(x)); return true; } static int size(const V &v) { return v.size(); } static int at(const V &v, int k) { return *v[k].p; } static void put(V &v, int k, int x) { v.write[k] = Tok(x); } static bool resize(V &v, int n) { v.resize(n); return true; } };
struct AdVar { typedef Vector<Variant> V; static const char *name() { return "Vector<Variant>"; } static bool add(V &v, int x) { v.push_back(Variant(x)); return true; } static int size(const V &v) { return v.size(); } static int at(const V &v, int k) { return (int)v[k]; } static void put(V &v, int k, int x) { v.set(k, Variant(x)); } static bool resize(V &v, int n) { v.resize(n); return true; } };
struct AdStr { typedef String V; static const char *name() { return "String"; } static bool add(V &v, int x) { v += (CharType)(x + 60); return true; } static int size(const V &v) { return v.length(); } static int at(const V &v, int k) { return v[k] - 60; } static void put(V &v, int k, int x) { v[k] = x + 60; } static bool resize(V &v, int n) { v = v.substr(0, n); return true; } };
struct AdPool { typedef PoolVector<int> V; static const char *name() { return "PoolVector"; } static bool add(V &v, int x) { int n = v.size(); v.push_back(x); if (v.size() == n && nth > 1) return false; /* refused: another thread is reading the shared buffer */ return true; } static int size(const V &v) { return v.size(); } static int at(const V &v, int k) { return v.read()[k]; } static void put(V &v, int k, int x) { v.write()[k] = x; } static bool resize(V &v, int n) { return v.resize(n) == OK || nth < 2; } };
struct FName { // interned names: same text, same identity while alive
	static const char *name() { return "StringName"; } enum { N = 7 }; static const char *op(int o) { static const char *n[] = { "a=name(qx)", "a=name(qy)", "b=a", "a=none", "b=search(qx)", "a=b", "a=name(String qx)" }; return n[o]; }
	struct S { StringName a, b; int ma, mb; }; static S *t[3];
	static const char *txt(int m) { return m == 1 ? "qx" : "qy"; } static void setup() { StringName x("qx"); for (int i = 0; i < nth; i++) { t[i] = new S(); t[i]->ma = t[i]->mb = 0; if (i == 0) { t[i]->a = x; t[i]->ma = 1; } } }
	static void run(int i, int o) { S &s = *t[i]; switch (o) { case 0: s.a = StringName("qx"); s.ma = 1; break; case 1: s.a = StringName("qy"); s.ma = 2; break; case 2: s.b = s.a; s.mb = s.ma; break; case 3: s.a = StringName(); s.ma = 0; break; case 4: s.b = StringName::search("qx"); if (s.ma == 1 || s.mb == 1) CHK(s.b); s.mb = s.b ? 1 : 0; break; case 5: s.a = s.b; s.ma = s.mb; break; case 6: s.a = StringName(String("qx")); s.ma = 1; break; }
		CHK((bool)s.a == (s.ma > 0) && (bool)s.b == (s.mb > 0)); if (s.ma) CHK(s.a == txt(s.ma)); if (s.mb) CHK(s.b == txt(s.mb)); if (s.ma && s.mb) CHK((s.a == s.b) == (s.ma == s.mb)); }
	static void end(int i) { if (i != 1) return; t[i]->a = StringName(); t[i]->b = StringName(); t[i]->ma = t[i]->mb = 0; }
	static std::string finish() { const char *e = ""; for (int i = 0; i < nth; i++) for (int j = 0; j < nth; j++) if (t[i]->ma && t[j]->mb && (t[i]->a == t[j]->b) != (t[i]->ma == t[j]->mb)) e = "two live names with the same text differ"; for (int i = 0; i < nth; i++) delete t[i]; if (StringName::search("qx") || StringName::search("qy")) e = "a name outlives its last user"; return e; }
};
FName::S *FName::t[3];
struct FPage { // page allocator shared by threads
	static const char *name() { return "PagedAllocator"; } enum { N = 4 }; static const char *op(int o) { static const char *n[] = { "alloc a", "free a", "alloc b", "free b" }; return n[o]; }
	typedef PagedAllocator<Tok, true> P; static P *p; struct S { Tok *x[2]; int u; }; static S t[3];
	static void setup() { p = new P(2); for (auto &s : t) { s.x[0] = s.x[1] = nullptr; s.u = 1; } t[0].x[0] = p->alloc(); *t[0].x[0]->p = 77; }
	static void run(int i, int o) { S &s = t[i]; Tok *&x = s.x[o / 2]; if (o % 2 == 0 && !x) { x = p->alloc(); *x->p = 100 * (i + 1) + o; CHK(*x->p == 100 * (i + 1) + o); } else if (o % 2 && x) { p->free(x); x = nullptr; } for (int k = 0; k < 2; k++) if (s.x[k]) CHK(*s.x[k]->p == 77 || *s.x[k]->p == 100 * (i + 1) + 2 * k); }
	static void end(int i) {} static std::string finish() { const char *e = ""; for (auto &s : t) for (auto &r : t) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) if (s.x[k] && s.x[k] == r.x[l] && (&s != &r || k != l)) e = "one slot was handed out twice"; if (!*e) for (auto &s : t) for (auto &x : s.x) if (x) p->free(x); delete p; return e; }
};
FPage::P *FPage::p; FPage::S FPage::t[3];
class Thing : public Object { SFW_OBJECT(Thing, Object); public: int v = 42; ~Thing() { v = -1; } };
struct FObj { // the table of objects, and Variants naming an object they do not own
	static const char *name() { return "ObjectDB"; } enum { N = 8 }; static const char *op(int o) { static const char *n[] = { "create", "delete", "look up own", "look up shared", "v=Variant(shared)", "w=v", "v=null", "look up another thread's" }; return n[o]; }
	struct S { Thing *o; ObjectID id; Variant *v, *w; bool mv, mw; }; static S t[3]; static Thing *x, *first[3]; static ObjectID fid[3]; static ObjectID xid; static int base;
	static void setup() { base = ObjectDB::get_object_count(); x = memnew(Thing); xid = x->get_instance_id(); for (int i = 0; i < 3; i++) { S &s = t[i]; first[i] = s.o = i < nth ? memnew(Thing) : nullptr; fid[i] = s.id = s.o ? s.o->get_instance_id() : 0; s.v = new Variant(); s.w = new Variant(); s.mv = s.mw = false; } }
	static void run(int i, int o) { S &s = t[i]; switch (o) { case 0: if (!s.o) { s.o = memnew(Thing); s.id = s.o->get_instance_id(); } break; case 1: if (s.o) { memdelete(s.o); s.o = nullptr; CHK(!ObjectDB::get_instance(s.id)); s.id = 0; } break; case 2: if (s.o) { CHK(ObjectDB::get_instance(s.id) == s.o && ObjectDB::instance_validate(s.o)); } break; case 3: CHK(ObjectDB::get_instance(xid) == x); break; case 4: *s.v = Variant((Object *)x); s.mv = true; break; case 5: *s.w = *s.v; s.mw = s.mv; break; case 6: *s.v = Variant(); s.mv = false; break; case 7: { int j = (i + 1) % nth; Object *f = ObjectDB::get_instance(fid[j]); CHK(!f || f == first[j]); break; } } CHK(!s.o || s.o->v == 42); CHK((Object *)*s.v == (s.mv ? x : nullptr)); CHK((Object *)*s.w == (s.mw ? x : nullptr)); }
	static void end(int) {} static std::string finish() { int n = 1; for (auto &s : t) n += s.o != nullptr; const char *e = ObjectDB::get_object_count() == base + n ? "" : "the table lost or kept an object"; for (auto &s : t) for (auto &r : t) if (&s != &r && s.id && s.id == r.id) e = "two objects share an id"; for (auto &s : t) if (s.o) memdelete(s.o); memdelete(x); if (ObjectDB::get_instance(xid)) e = "a destroyed object is still found"; for (auto &s : t) { if ((Object *)*s.v || (Object *)*s.w) e = "a Variant still points to a destroyed object"; delete s.v; delete s.w; } return e; }
};
FObj::S FObj::t[3]; Thing *FObj::x, *FObj::first[3]; ObjectID FObj::fid[3]; ObjectID FObj::xid; int FObj::base;
struct FNum { // counters, flags and locks
	static const char *name() { return "SafeNumeric"; } enum { N = 9 }; static const char *op(int o) { static const char *n[] = { "increment", "decrement", "add 5", "sub 3", "exchange_if_greater", "ref", "unref", "locked increment", "write-locked increment" }; return n[o]; }
	static SafeNumeric<int> *n; static SafeNumeric<int> *mx; static SafeRefCount *rc; static int total[3], top[3], refs[3], zero[3]; static Mutex *m; static RWLock *rw; static int plain, plain2, inc[3], inc2[3];
	static void setup() { n = new SafeNumeric<int>(7); mx = new SafeNumeric<int>(1); rc = new SafeRefCount(); rc->init(nth); m = new Mutex(); rw = new RWLock(); plain = plain2 = 0; for (int i = 0; i < 3; i++) total[i] = top[i] = zero[i] = inc[i] = inc2[i] = 0, refs[i] = 1; }
	static void run(int i, int o) { switch (o) { case 0: n->increment(); total[i]++; break; case 1: n->postdecrement(); total[i]--; break; case 2: n->add(5); total[i] += 5; break; case 3: n->sub(3); total[i] -= 3; break; case 4: { int v = 3 + i * 2 + top[i]; int r = mx->exchange_if_greater(v); CHK(r >= v); if (v > top[i]) top[i] = v; break; } case 5: { bool h = rc->ref(); CHK(h || !refs[i]); refs[i] += h; break; } case 6: if (refs[i]) { zero[i] += rc->unref(); refs[i]--; } break; case 7: { MutexLock l(*m); { MutexLock l2(*m); plain++; } inc[i]++; break; } case 8: { { RWLockWrite l(*rw); plain2++; } inc2[i]++; RWLockRead l(*rw); CHK(plain2 >= inc2[i]); break; } } }
	static void end(int i) { while (refs[i]) { zero[i] += rc->unref(); refs[i]--; } } static std::string finish() { int s = 7, t = 1, z = 0, a = 0, b = 0; for (int i = 0; i < nth; i++) { s += total[i]; t = std::max(t, top[i]); z += zero[i]; a += inc[i]; b += inc2[i]; } const char *e = n->get() != s ? "lost update" : mx->get() != t ? "lost maximum" : z != 1 ? "the last reference was not reported once" : a != plain || b != plain2 ? "lost locked update" : ""; delete n; delete mx; delete rc; delete m; delete rw; return e; }
};
SafeNumeric<int> *FNum::n, *FNum::mx; SafeRefCount *FNum::rc; Mutex *FNum::m; RWLock *FNum::rw; int FNum::total[3], FNum::top[3], FNum::refs[3], FNum::zero[3], FNum::plain, FNum::plain2, FNum::inc[3], FNum::inc2[3];

static bool poisoned; // a broken schedule leaves the library's tables as it was abandoned: later cases of this process are skipped
template <class F> bool one(const std::vector<std::vector<int>> &ps, long cap) {
	nth = (int)ps.size(); std::vector<std::function<void()>> fs; std::string nm; for (int i = 0; i < nth; i++) { const std::vector<int> *v = &ps[i]; fs.push_back([v, i]() { for (size_t k = 0; k < v->size(); k++) F::run(i, (*v)[k]); F::end(i); }); nm += "{"; for (int o : *v) nm += std::string(F::op(o)) + "; "; nm += "} "; }
	wrong = nullptr; auto fin = []() -> std::string { std::string e = F::finish(); if (wrong) return wrong; return e; }; sch::Result r = sch::run(F::setup, fs, fin, cap);
	for (int b = 1; r.capped && r.err.empty() && b <= (mc::thorough() ? 3 : 1); b++) { mc::count(mc::fmt("bounded to %d preemptions.%s", b, F::name())); long n = r.schedules, st = r.steps; r = sch::run(F::setup, fs, fin, mc::thorough() ? 200000 : 600, b); r.schedules += n; r.steps += st; if (!r.capped && b == 1) r.capped = true; else if (r.capped) mc::count(mc::fmt("bounded search cut off.%s", F::name())); }
	mc::S().transitions += r.steps; mc::count(std::string("schedules.") + F::name(), r.schedules); if (r.capped) mc::count(std::string("capped.") + F::name()); std::string at; for (int c : r.at) at += (char)('0' + c); mc::state(std::string(F::name()) + nm); mc::outcome(mc::fmt("%s%ld", F::name(), r.schedules));
	mc::ok(r.err.empty(), std::string(F::name()) + ":" + r.key, "%s threads %s, schedule %s: %s", F::name(), nm.c_str(), at.c_str(), r.err.c_str());
	if (!r.err.empty()) poisoned = true; return r.err.empty();
}
template <class F> void warm() { static bool done; if (done) return; done = true; nth = 3; for (int k = 0; k < 2; k++) { F::setup(); for (int i = 0; i < 3; i++) { for (int o = 0; o < F::N; o++) F::run(i, o); F::end(i); } F::finish(); } }
template <class F> void family(int len2, int len3, long cap) {
	std::vector<std::vector<int>> seq, s3; std::function<void(std::vector<int> &, int, std::vector<std::vector<int>> &)> rec = [&](std::vector<int> &h, int left, std::vector<std::vector<int>> &out) { if (!h.empty()) out.push_back(h); if (!left) return; for (int o = 0; o < F::N; o++) { h.push_back(o); rec(h, left - 1, out); h.pop_back(); } }; std::vector<int> h; rec(h, len2, seq); rec(h, len3, s3);
	for (size_t i = 0; i < seq.size(); i++) for (size_t b = i; b < seq.size(); b += 40) MC_CASE("%s: program #%zu against programs from #%zu", F::name(), i, b) { if (poisoned) continue; warm<F>(); for (size_t j = b; j < seq.size() && j < b + 40; j++) if (!one<F>({ seq[i], seq[j] }, cap)) break; }
	for (size_t i = 0; i < s3.size(); i++) for (size_t j = i; j < s3.size(); j++) MC_CASE("%s: three threads #%zu #%zu", F::name(), i, j) { if (poisoned) continue; warm<F>(); for (size_t k = j; k < s3.size(); k++) if (!one<F>({ s3[i], s3[j], s3[k] }, cap)) break; }
}

// ---- sequential histories over a graph of references
struct G { int h[3] = { -1, -1, -1 }; std::vector<int> next; int live(int id) const { std::vector<int> st; std::vector<char> seen(next.size()); for (int x : h) if (x >= 0) st.push_back(x); while (!st.empty()) { int x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = 1; if (next[x] >= 0) st.push_back(next[x]); } return seen[id]; }
	int count(int id) const { int c = 0; for (int x : h) c += x == id; for (size_t i = 0; i < next.size(); i++) c += next[i] == id && live(i); return c; } bool reaches(int f, int t) const { while (f >= 0 && f != t) f = next[f]; return f == t; }
	std::string key() const { std::map<int, int> m; std::string s; for (int x : h) { s += '|'; while (x >= 0) { if (m.count(x)) { s += mc::fmt("%d.", m[x]); break; } int k = m.size(); m[x] = k; s += mc::fmt("%d>", k); x = next[x]; } } return s; } };
enum { GN = 3 + 3 + 9 + 9 + 9 + 3 + 3 + 3 };
static std::string gname(int o) { const char *v = "abc"; if (o < 3) return mc::fmt("%c=new", v[o]); o -= 3; if (o < 3) return mc::fmt("%c=null", v[o]); o -= 3; if (o < 9) return mc::fmt("%c=%c", v[o / 3], v[o % 3]); o -= 9; if (o < 9) return mc::fmt("%c.next=%c", v[o / 3], v[o % 3]); o -= 9; if (o < 9) return mc::fmt("%c=%c.next", v[o / 3], v[o % 3]); o -= 9; if (o < 3) return mc::fmt("%c=Variant(%c.next)", v[o], v[o]); o -= 3; if (o < 3) return mc::fmt("%c=RefPtr(%c.next)", v[o], v[o]); o -= 3; return mc::fmt("%c.next=%c.next.next", v[o], v[o]); }
static bool gmodel(G &g, int o) { if (o < 3) { if (g.next.size() >= 10) return false; g.h[o] = g.next.size(); g.next.push_back(-1); return true; } o -= 3; if (o < 3) { g.h[o] = -1; return true; } o -= 3; int x = o / 3, y = o % 3; if (o < 9) { g.h[x] = g.h[y]; return true; } o -= 9; x = o / 3, y = o % 3; if (o < 9) { if (g.h[x] < 0 || (g.h[y] >= 0 && g.reaches(g.h[y], g.h[x]))) return false; g.next[g.h[x]] = g.h[y]; return true; } o -= 9; x = o / 3, y = o % 3; if (o < 9) { if (g.h[y] < 0) return false; g.h[x] = g.next[g.h[y]]; return true; } o -= 9; if (o < 6) { o %= 3; if (g.h[o] < 0) return false; g.h[o] = g.next[g.h[o]]; return true; } o -= 6; if (g.h[o] < 0 || g.next[g.h[o]] < 0) return false; int n = g.next[g.h[o]]; g.next[g.h[o]] = g.next[n]; return true; }
struct GR { Ref<Node> h[3]; int made = 0; };
static void greal(GR &r, int o) { if (o < 3) { r.h[o] = Ref<Node>(mk(r.made++)); return; } o -= 3; if (o < 3) { if (o == 1) r.h[o].unref(); else r.h[o] = Ref<Node>(); return; } o -= 3; if (o < 9) { r.h[o / 3] = r.h[o % 3]; return; } o -= 9; if (o < 9) { r.h[o / 3]->next = r.h[o % 3]; return; } o -= 9; if (o < 9) { r.h[o / 3] = r.h[o % 3]->next; return; } o -= 9; if (o < 3) { Variant v = r.h[o]->next; r.h[o] = v; return; } o -= 3; if (o < 3) { RefPtr p = r.h[o]->next.get_ref_ptr(); r.h[o] = p; return; } o -= 3; r.h[o]->next = r.h[o]->next->next; }
static bool gwalk(const std::vector<int> &h) {
	static GR *r; static G m; static std::string why; why.clear(); nth = 1; auto hist = [&]() { std::string s; for (int o : h) s += gname(o) + "; "; return s; };
	sch::Result R = sch::run([]() { memset(mark, 0, sizeof mark); r = new GR(); m = G(); }, { [&]() { for (int o : h) { { sch::Off x; gmodel(m, o); } greal(*r, o); } { sch::Off x; for (int i = 0; i < 3; i++) if (r->h[i].is_valid() != (m.h[i] >= 0)) why = "a handle is set or empty against the model"; else if (m.h[i] >= 0 && (r->h[i]->id != m.h[i] || r->h[i]->v != 42)) why = "a handle names another object"; for (int i = 0; i < (int)m.next.size() && why.empty(); i++) { bool l = m.live(i); if (mark[i] != !l) why = mc::fmt("object %d %s", i, l ? "was destroyed while referenced" : mark[i] ? "was destroyed twice" : "outlives its last reference"); } for (int i = 0; i < 3; i++) if (why.empty() && m.h[i] >= 0 && r->h[i]->reference_get_count() != m.count(m.h[i])) why = mc::fmt("object %d reports %d references instead of %d", m.h[i], r->h[i]->reference_get_count(), m.count(m.h[i])); } } }, []() -> std::string { if (!why.empty()) return why; int n = m.next.size(); delete r; for (int i = 0; i < n; i++) if (mark[i] != 1) return "an object was not destroyed exactly once"; return ""; }, 4);
	mc::transition(); mc::state(m.key()); if (!R.err.empty()) poisoned = true; return mc::ok(R.err.empty(), "history:" + R.key + ":" + gname(h.back()), "history [%s]: %s", hist().c_str(), R.err.c_str());
}
static void graphs() {
	int depth = mc::thorough() ? 7 : 5; size_t cap = mc::thorough() ? 6000 : 700; struct Nd { G g; std::vector<int> h; }; std::vector<Nd> q = { Nd() }; std::set<std::string> seen = { G().key() };
	for (size_t i = 0; i < q.size() && i < cap; i++) { Nd n = q[i]; if ((int)n.h.size() < depth) for (int o = 0; o < GN; o++) { Nd x = n; if (!gmodel(x.g, o)) continue; x.h.push_back(o); if (seen.insert(x.g.key()).second) q.push_back(x); }
		MC_CASE("graph of references %s", n.g.key().c_str()) { if (poisoned) continue; warm<FRef>(); for (int o = 0; o < GN; o++) { G g = n.g; if (!gmodel(g, o)) continue; std::vector<int> h = n.h; h.push_back(o); if (!gwalk(h)) break; for (int p = 0; p < GN; p++) { G k = g; if (!gmodel(k, p)) continue; h.push_back(p); bool okk = gwalk(h); h.pop_back(); if (!okk) break; } if (poisoned) break; } } }
}
void explore() {
	static bool once; if (!once) { once = true; SFWCore::setup(); static char ob[4096], eb[4096]; setvbuf(stdout, ob, _IOLBF, sizeof ob); setvbuf(stderr, eb, _IOLBF, sizeof eb); ERR_PRINT("first message"); sch::init(); for (const char *n : { "_ZN6Memory11alloc_countE", "_ZN6Memory9mem_usageE", "_ZN6Memory9max_usageE" }) if (void *p = dlsym(nullptr, n)) sch::g->quiet.push_back((uintptr_t)p); mc::count("quiet_counters", sch::g->quiet.size()); }
	int t = mc::thorough(); long cap = t ? 50000 : 60;
	graphs();
	family<FRef>(2, 1, cap); family<FName>(2, 1, cap); family<FPage>(3, t ? 2 : 1, cap); family<FObj>(2 + t, 1, cap); family<FNum>(2, 1, cap);
	family<FCow<Vector<Tok>, AdVec>>(2, 1, cap); family<FCow<String, AdStr>>(2, 1, cap); family<FCow<PoolVector<int>, AdPool>>(2, 1, cap); family<FCow<Vector<Variant>, AdVar>>(1 + t, 1, cap);
}
