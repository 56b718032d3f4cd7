// MC: variant=asan
// Objects, references, identifiers, metadata and signals: every history of a small object graph against a reference-counting model.
#include "platform/sfw.h"
#include "hist.h"
#include <map>
#include <set>
typedef Variant V;
static std::string utf(const String &s) { CharString c = s.utf8(); return std::string(c.get_data() ? c.get_data() : ""); }
static std::string num(int i) { return std::to_string(i); }
// ---- a class hierarchy that logs what happens to it
static std::string nlog;
struct Node;
static std::map<int, Node *> alive;
struct Node : public Reference {
	SFW_OBJECT(Node, Reference);
public:
	Ref<Node> child; int id; int prop = 0;
	Node() { id = 0; while (alive.count(id)) id++; alive[id] = this; }
	~Node() { alive.erase(id); }
	void _notification(int n) { nlog += "N" + num(n); }
	bool _get(const StringName &n, V &r) const { nlog += "gN"; if (n == StringName("prop") || n == StringName("both")) { r = prop; return true; } return false; }
	bool _set(const StringName &n, const V &v) { nlog += "sN"; if (n == StringName("prop") || n == StringName("both")) { prop = v; return true; } return false; }
};
struct Leaf : public Node {
	SFW_OBJECT(Leaf, Node);
public:
	int own = 0;
	void _notification(int n) { nlog += "L" + num(n); }
	bool _get(const StringName &n, V &r) const { nlog += "gL"; if (n == StringName("own") || n == StringName("both")) { r = own; return true; } return false; }
	bool _set(const StringName &n, const V &v) { nlog += "sL"; if (n == StringName("own") || n == StringName("both")) { own = v; return true; } return false; }
};
struct Twig : public Leaf { SFW_OBJECT(Twig, Leaf); };
struct Thing : public Object {
	SFW_OBJECT(Thing, Object);
public:
	bool refuse = false; int id = 0;
	void _notification(int n) { nlog += "T" + num(n); if (n == NOTIFICATION_PREDELETE && refuse) cancel_free(); }
};
// ---- reference graph
struct GM { struct N { bool leaf; int child; }; std::map<int, N> n; int s[6] = { -1, -1, -1, -1, -1, -1 }; // slots: a b (Node) r (Reference) l (Leaf) v (Variant) p (RefPtr)
	int count(int i) const { int c = 0; for (int k : s) c += k == i; for (auto &q : n) c += q.second.child == i; return c; }
	void sweep() { for (bool more = true; more;) { more = false; for (auto &q : n) if (!count(q.first)) { n.erase(q.first); more = true; break; } } }
	int make(bool leaf) { int i = 0; while (n.count(i)) i++; n[i] = { leaf, -1 }; return i; } };
struct GR { Ref<Node> a, b; REF r; Ref<Leaf> l; V v; RefPtr p; int base; std::map<int, ObjectID> dead; GR() { base = ObjectDB::get_object_count() - (int)alive.size(); }
	~GR() { a.unref(); b.unref(); r.unref(); l.unref(); v = V(); p.unref(); while (!alive.empty()) { std::vector<Ref<Node>> hold; for (auto &q : alive) hold.push_back(Ref<Node>(q.second)); for (auto &h : hold) h->child.unref(); } } };
static std::string gdump(const GM &m) { std::string d; for (int k : m.s) d += num(k) + " "; for (auto &q : m.n) d += "| " + num(q.first) + (q.second.leaf ? "L" : "N") + num(q.second.child) + "x" + num(m.count(q.first)); return d; }
static int idof(Reference *r) { Node *n = Object::cast_to<Node>(r); return n ? n->id : -1; }
static std::string grdump(GR &r) { std::string d; Reference *rv = Object::cast_to<Reference>((Object *)r.v), *rp = Ref<Reference>(r.p).ptr(); int ids[6] = { idof(r.a.ptr()), idof(r.b.ptr()), idof(r.r.ptr()), idof(r.l.ptr()), idof(rv), idof(rp) }; for (int k : ids) d += num(k) + " "; for (auto &q : alive) { Node *n = q.second; d += "| " + num(q.first) + (n->get_class() == "Leaf" ? "L" : n->get_class() == "Node" ? "N" : "?") + num(idof(n->child.ptr())) + "x" + num(n->reference_get_count()); if (ObjectDB::get_instance(n->get_instance_id()) != n || !ObjectDB::instance_validate(n)) d += "(not registered)"; }
	if (ObjectDB::get_object_count() != r.base + (int)alive.size()) d += "| " + num(ObjectDB::get_object_count() - r.base) + " objects registered"; if (r.p.is_null() != (ids[5] < 0) || r.a.is_valid() != (ids[0] >= 0) || r.a.is_null() == r.a.is_valid() || (r.a == r.b) != (ids[0] == ids[1])) d += "| validity"; if ((ids[4] >= 0) != r.v.is_ref() && r.v.get_type() == V::OBJECT) d += "| not a reference"; return d; }
static void graph() {
	mc::Explorer<GM, GR> e; e.label = "graph"; e.held = Memory::get_mem_usage; e.mdump = gdump; e.rdump = grdump; e.within = [](const GM &m) { return m.n.size() <= 4; };
	auto add = [&](const char *n, std::function<void(GM &)> m, std::function<void(GR &)> r) { e.ops.push_back({ n, [=](GM &x, std::string &) { m(x); x.sweep(); return true; }, [=](GR &x) { r(x); return std::string(); } }); };
	auto cond = [&](const char *n, std::function<bool(GM &)> c, std::function<void(GM &)> m, std::function<void(GR &)> r) { e.ops.push_back({ n, [=](GM &x, std::string &) { if (!c(x)) return false; m(x); x.sweep(); return true; }, [=](GR &x) { r(x); return std::string(); } }); };
	enum { A, B, R, L, VV, P };
	add("a.instance", [](GM &m) { m.s[A] = m.make(false); }, [](GR &r) { r.a.instance(); });
	add("l.instance", [](GM &m) { m.s[L] = m.make(true); }, [](GR &r) { r.l.instance(); });
	add("b=new Leaf", [](GM &m) { m.s[B] = m.make(true); }, [](GR &r) { r.b = Ref<Node>(memnew(Leaf)); });
	auto leaf = [](GM &m, int i) { return i >= 0 && m.n[i].leaf ? i : -1; };
	add("a=b", [](GM &m) { m.s[A] = m.s[B]; }, [](GR &r) { r.a = r.b; }); add("b=a", [](GM &m) { m.s[B] = m.s[A]; }, [](GR &r) { r.b = r.a; }); add("a=a", [](GM &) {}, [](GR &r) { r.a = *&r.a; });
	add("a=l", [](GM &m) { m.s[A] = m.s[L]; }, [](GR &r) { r.a = r.l; }); add("l=a", [=](GM &m) { m.s[L] = leaf(m, m.s[A]); }, [](GR &r) { r.l = r.a; }); add("l=Leaf(b)", [=](GM &m) { m.s[L] = leaf(m, m.s[B]); }, [](GR &r) { r.l = Ref<Leaf>(r.b); });
	add("r=a", [](GM &m) { m.s[R] = m.s[A]; }, [](GR &r) { r.r = r.a; }); add("b=r", [](GM &m) { m.s[B] = m.s[R]; }, [](GR &r) { r.b = r.r; }); add("l=r", [=](GM &m) { m.s[L] = leaf(m, m.s[R]); }, [](GR &r) { r.l = r.r; });
	add("v=a", [](GM &m) { m.s[VV] = m.s[A]; }, [](GR &r) { r.v = r.a; }); add("v=l.ptr", [](GM &m) { m.s[VV] = m.s[L]; }, [](GR &r) { r.v = V((Object *)r.l.ptr()); }); add("b=v", [](GM &m) { m.s[B] = m.s[VV]; }, [](GR &r) { r.b = r.v; }); add("l=v", [=](GM &m) { m.s[L] = leaf(m, m.s[VV]); }, [](GR &r) { r.l = Ref<Leaf>(r.v); }); add("v=copy", [](GM &) {}, [](GR &r) { V c(r.v), d; d = c; r.v = V(); r.v = d; }); add("v=7", [](GM &m) { m.s[VV] = -1; }, [](GR &r) { r.v = 7; }); add("v in array", [](GM &) {}, [](GR &r) { Array x; x.push_back(r.v); Dictionary d; d[r.v] = r.v; Array y = x.duplicate(true); x[0] = 1; r.v = y[0]; });
	add("p=a", [](GM &m) { m.s[P] = m.s[A]; }, [](GR &r) { r.p = r.a.get_ref_ptr(); }); add("a=p", [](GM &m) { m.s[A] = m.s[P]; }, [](GR &r) { r.a = r.p; }); add("l=Leaf(p)", [=](GM &m) { m.s[L] = leaf(m, m.s[P]); }, [](GR &r) { r.l = Ref<Leaf>(r.p); }); add("p=RefPtr(v)", [](GM &m) { m.s[P] = m.s[VV]; }, [](GR &r) { RefPtr q = r.v; RefPtr w(q); r.p = w; }); add("v=p", [](GM &m) { m.s[VV] = m.s[P]; }, [](GR &r) { r.v = V(r.p); });
	add("a.unref", [](GM &m) { m.s[A] = -1; }, [](GR &r) { r.a.unref(); }); add("b.unref", [](GM &m) { m.s[B] = -1; }, [](GR &r) { r.b = Ref<Node>(); }); add("r.unref", [](GM &m) { m.s[R] = -1; }, [](GR &r) { r.r.unref(); }); add("p.unref", [](GM &m) { m.s[P] = -1; }, [](GR &r) { r.p.unref(); });
	auto hasa = [](GM &m) { return m.s[A] >= 0; }; auto hasb = [](GM &m) { return m.s[B] >= 0; };
	cond("a.child=b", hasa, [](GM &m) { m.n[m.s[A]].child = m.s[B]; }, [](GR &r) { r.a->child = r.b; }); cond("b.child=a", hasb, [](GM &m) { m.n[m.s[B]].child = m.s[A]; }, [](GR &r) { r.b->child = r.a; }); cond("a.child=l", hasa, [](GM &m) { m.n[m.s[A]].child = m.s[L]; }, [](GR &r) { r.a->child = r.l; });
	cond("a=a.child", hasa, [](GM &m) { m.s[A] = m.n[m.s[A]].child; }, [](GR &r) { r.a = r.a->child; }); cond("b=a.child", hasa, [](GM &m) { m.s[B] = m.n[m.s[A]].child; }, [](GR &r) { r.b = r.a->child; }); cond("l=a.child", hasa, [=](GM &m) { m.s[L] = leaf(m, m.n[m.s[A]].child); }, [](GR &r) { r.l = r.a->child; }); cond("a.child=a.child.child", [](GM &m) { return m.s[A] >= 0 && m.n[m.s[A]].child >= 0; }, [](GM &m) { int c = m.n[m.s[A]].child; m.n[m.s[A]].child = m.n[c].child; }, [](GR &r) { r.a->child = r.a->child->child; }); cond("a.child.unref", hasa, [](GM &m) { m.n[m.s[A]].child = -1; }, [](GR &r) { r.a->child.unref(); });
	cond("a.reference_ptr(child)", hasa, [](GM &m) { m.s[A] = m.n[m.s[A]].child; }, [](GR &r) { r.a.reference_ptr(r.a->child.ptr()); }); add("l.reference_ptr(b)", [=](GM &m) { m.s[L] = leaf(m, m.s[B]); }, [](GR &r) { r.l.reference_ptr(r.b.ptr()); }); add("b=Ref(a.ptr)", [](GM &m) { m.s[B] = m.s[A]; }, [](GR &r) { Ref<Node> t(r.a.ptr()); r.b = t; }); add("swap", [](GM &m) { std::swap(m.s[A], m.s[B]); }, [](GR &r) { SWAP(r.a, r.b); });
	add("v=a in vector", [](GM &m) { m.s[VV] = m.s[A]; }, [](GR &r) { Vector<Ref<Node>> x; for (int i = 0; i < 5; i++) x.push_back(r.a); Vector<Ref<Node>> y = x; x.remove(1); x.clear(); r.v = y[4]; });
	e.all_sequences(2); e.bfs(mc::thorough() ? 7 : 6, mc::thorough() ? 12000 : 2200);
}
// ---- plain objects, dynamic values that point to them, identifiers
struct PM { struct O { bool live, refuse; }; std::vector<O> o; int s[2] = { -1, -1 }, v[3] = { -1, -1, -1 }; };
struct PR { std::vector<Thing *> o; std::vector<ObjectID> ids; Thing *s[2] = { nullptr, nullptr }; V v[3]; ~PR() { for (Thing *t : o) if (t) { t->refuse = false; memdelete(t); } } };
static int whose(PR &r, const V &v) { if (v.get_type() != V::OBJECT) return -1; ObjectID id = v.get_object_instance_id(); for (size_t i = 0; i < r.ids.size(); i++) if (r.ids[i] == id) return (int)i; return -2; }
static void plain() {
	mc::Explorer<PM, PR> e; e.label = "objects"; e.held = Memory::get_mem_usage; e.within = [](const PM &m) { return m.o.size() <= 3; };
	e.mdump = [](const PM &m) { std::string d; for (auto &o : m.o) d += o.live ? o.refuse ? "R" : "o" : "x"; for (int k : m.s) d += " " + num(k); for (int k : m.v) d += k < 0 ? " nil" : m.o[k].live ? " ->" + num(k) : " dangling" + num(k); return d; };
	e.rdump = [](PR &r) { std::string d; for (size_t i = 0; i < r.o.size(); i++) { Object *q = ObjectDB::get_instance(r.ids[i]); if (q && q != r.o[i]) d += "?"; d += q ? ((Thing *)q)->refuse ? "R" : "o" : "x"; if (r.o[i] && !ObjectDB::instance_validate(r.o[i])) d += "?"; } for (Thing *t : r.s) d += " " + num(t ? t->id : -1);
		for (V &v : r.v) { if (v.get_type() == V::NIL) { d += " nil"; continue; } int i = whose(r, v); Object *p = v; d += p ? " ->" + num(((Thing *)p)->id) : " dangling" + num(i); if (p && ((Thing *)p)->id != i) d += "?id"; if (v.is_invalid_object() != (p == nullptr)) d += "?invalid"; if (p && !v.booleanize()) d += "?truth"; if (v.is_ref()) d += "?ref"; for (V &w : r.v) if (w.get_type() == V::OBJECT && p && (w == v) != ((Object *)w == p)) d += "?equal"; } return d; };
	auto op = [&](std::string n, std::function<bool(PM &, std::string &)> m, std::function<std::string(PR &)> r) { e.ops.push_back({ n, m, r }); };
	for (int i = 0; i < 2; i++) {
		op("new" + num(i), [=](PM &m, std::string &o) { if (m.s[i] >= 0) return false; o = "T0"; m.s[i] = (int)m.o.size(); m.o.push_back({ true, false }); return true; }, [=](PR &r) { nlog.clear(); Thing *t = memnew(Thing); t->id = (int)r.o.size(); r.s[i] = t; r.o.push_back(t); bool fresh = true; for (ObjectID q : r.ids) if (q >= t->get_instance_id()) fresh = false; r.ids.push_back(t->get_instance_id()); return nlog + (fresh ? "" : "id reused"); });
		op("delete" + num(i), [=](PM &m, std::string &o) { int k = m.s[i]; if (k < 0) return false; o = "T1"; if (m.o[k].refuse) return true; m.o[k].live = false; m.o[k].refuse = false; for (int &q : m.s) if (q == k) q = -1; return true; }, [=](PR &r) { nlog.clear(); Thing *t = r.s[i]; bool keep = t->refuse; int id = t->id; memdelete(t); if (!keep) { r.o[id] = nullptr; for (Thing *&q : r.s) if (q == t) q = nullptr; } return nlog; });
		op("refuse" + num(i), [=](PM &m, std::string &) { int k = m.s[i]; if (k < 0) return false; m.o[k].refuse = !m.o[k].refuse; return true; }, [=](PR &r) { r.s[i]->refuse = !r.s[i]->refuse; return std::string(); });
		for (int j = 0; j < 2; j++) op("v" + num(j) + "=" + num(i), [=](PM &m, std::string &) { if (m.s[i] < 0) return false; m.v[j] = m.s[i]; return true; }, [=](PR &r) { r.v[j] = V((Object *)r.s[i]); return std::string(); });
	}
	for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) if (j != k) op("v" + num(j) + "=v" + num(k), [=](PM &m, std::string &) { m.v[j] = m.v[k]; return true; }, [=](PR &r) { r.v[j] = r.v[k]; return std::string(); });
	for (int j = 0; j < 3; j++) { op("v" + num(j) + "=nil", [=](PM &m, std::string &) { m.v[j] = -1; return true; }, [=](PR &r) { r.v[j] = V(); return std::string(); }); op("0=v" + num(j), [=](PM &m, std::string &) { int k = m.v[j]; if (k < 0) return false; m.s[0] = m.o[k].live ? k : -1; return true; }, [=](PR &r) { r.s[0] = (Thing *)(Object *)r.v[j]; return std::string(); }); }
	op("v2 through an array", [](PM &m, std::string &) { m.v[2] = m.v[0]; return true; }, [](PR &r) { Array a; a.push_back(r.v[0]); a.push_back(r.v[1]); Array b = a.duplicate(); a.clear(); r.v[2] = b[0]; return std::string(); });
	e.mkey = [](const PM &m) { std::string d; for (auto &o : m.o) d += o.live ? o.refuse ? "R" : "o" : "x"; for (int k : m.s) d += " " + num(k); for (int k : m.v) d += " " + num(k); return d; };
	e.all_sequences(3); e.bfs(mc::thorough() ? 8 : 7, mc::thorough() ? 9000 : 2500);
}
// ---- metadata
typedef std::vector<std::pair<std::string, int>> MD; struct MR { Thing *t; MR() { t = memnew(Thing); } ~MR() { memdelete(t); } };
static void metadata() {
	mc::Explorer<MD, MR> e; e.label = "metadata"; e.held = Memory::get_mem_usage; auto find = [](MD &m, const std::string &k) { for (size_t i = 0; i < m.size(); i++) if (m[i].first == k) return (int)i; return -1; };
	e.mdump = [](const MD &m) { std::string d; for (auto &q : m) d += q.first + "=" + num(q.second) + " "; return d; };
	e.rdump = [](MR &r) -> std::string { std::string d; bool ok = false; V g = r.t->get(StringName("__meta__"), &ok); if (!ok || g.get_type() != V::DICTIONARY) return "?all"; Array l = Dictionary(g).keys(); for (int i = 0; i < l.size(); i++) { d += utf(l[i]) + "=" + utf(String(r.t->get_meta(l[i]))) + " "; if (!r.t->has_meta(l[i])) d += "?"; } return d; };
	for (const char *k : { "a", "b", "" }) { std::string s = k; for (int v : { 1, 2 }) e.ops.push_back({ "set " + s + num(v), [=](MD &m, std::string &) { int i = find(m, s); if (i < 0) m.push_back({ s, v }); else m[i].second = v; return true; }, [=](MR &r) { r.t->set_meta(s.c_str(), v); return std::string(); } });
		e.ops.push_back({ "remove " + s, [=](MD &m, std::string &) { int i = find(m, s); if (i >= 0) m.erase(m.begin() + i); return true; }, [=](MR &r) { r.t->remove_meta(s.c_str()); return std::string(); } }); e.ops.push_back({ "set nil " + s, [=](MD &m, std::string &) { int i = find(m, s); if (i >= 0) m.erase(m.begin() + i); return true; }, [=](MR &r) { r.t->set_meta(s.c_str(), V()); return std::string(); } });
		e.ops.push_back({ "get " + s, [=](MD &m, std::string &o) { int i = find(m, s); o = i < 0 ? "no 9 Null" : "yes " + num(m[i].second) + " " + num(m[i].second); return true; }, [=](MR &r) { return std::string(r.t->has_meta(s.c_str()) ? "yes " : "no ") + utf(String(r.t->get_meta(s.c_str(), 9))) + " " + utf(String(r.t->get_meta(s.c_str()))); } }); }
	e.ops.push_back({ "replace all", [](MD &m, std::string &) { m = { { "c", 3 }, { "a", 4 } }; return true; }, [](MR &r) { Dictionary d; d["c"] = 3; d["a"] = 4; bool ok = false; r.t->set(StringName("__meta__"), d, &ok); d["z"] = 5; return std::string(ok ? "" : "refused"); } });
	e.all_sequences(2); e.bfs(5, 3000);
}
// ---- classes, notifications and properties along a hierarchy
template <class T> static bool casts(Object *o) { return Object::cast_to<T>(o) == o && Object::cast_to<T>((const Object *)o) == o; }
static void classes() {
	struct C { const char *name; std::function<Object *()> make; std::vector<std::string> line; }; std::vector<C> cs = { { "Object", [] { return memnew(Object); }, { "Object" } }, { "Thing", [] { return (Object *)memnew(Thing); }, { "Object", "Thing" } }, { "Reference", [] { return (Object *)memnew(Reference); }, { "Object", "Reference" } }, { "Resource", [] { return (Object *)memnew(Resource); }, { "Object", "Reference", "Resource" } }, { "Node", [] { return (Object *)memnew(Node); }, { "Object", "Reference", "Node" } }, { "Leaf", [] { return (Object *)memnew(Leaf); }, { "Object", "Reference", "Node", "Leaf" } }, { "Twig", [] { return (Object *)memnew(Twig); }, { "Object", "Reference", "Node", "Leaf", "Twig" } } };
	for (auto &c : cs) MC_CASE("class %s", c.name) { nlog.clear(); Object *o = c.make(); std::string born = nlog; std::set<std::string> is(c.line.begin(), c.line.end()); mc::state(c.name);
		mc::ok(utf(o->get_class()) == c.name && utf(String(o->get_class_name())) == c.name, "class:name", "%s calls itself %s / %s", c.name, utf(o->get_class()).c_str(), utf(String(o->get_class_name())).c_str());
		for (auto &d : cs) { mc::transition(); mc::ok(o->is_class(d.name) == (bool)is.count(d.name), "class:is", "%s is a %s: %d", c.name, d.name, o->is_class(d.name)); } mc::ok(!o->is_class("") && !o->is_class("node"), "class:is-nothing", "%s is an unknown class", c.name);
		mc::ok(casts<Object>(o) && casts<Reference>(o) == is.count("Reference") && casts<Resource>(o) == is.count("Resource") && casts<Node>(o) == is.count("Node") && casts<Leaf>(o) == is.count("Leaf") && casts<Twig>(o) == is.count("Twig") && casts<Thing>(o) == is.count("Thing"), "class:cast", "casts of %s disagree with its ancestors", c.name);
		std::string leafy = std::string(c.name) == "Twig" || std::string(c.name) == "Leaf" ? "NL" : std::string(c.name) == "Node" ? "N" : std::string(c.name) == "Thing" ? "T" : ""; auto seq = [&](int n, bool rev) { std::string s; for (size_t i = 0; i < leafy.size(); i++) s += std::string(1, leafy[rev ? leafy.size() - 1 - i : i]) + num(n); return s; };
		mc::ok(born == seq(0, false), "notify:born", "%s was born with %s", c.name, born.c_str()); for (bool rev : { false, true }) { nlog.clear(); o->notification(7, rev); mc::ok(nlog == seq(7, rev), "notify:order", "%s: notification %s: %s", c.name, rev ? "reversed" : "in order", nlog.c_str()); }
		Vector<String> inh; std::string want, got; for (auto &s : c.line) want += s + " "; if (leafy == "NL" && std::string(c.name) == "Leaf") Leaf::get_inheritance_list_static(&inh); else if (std::string(c.name) == "Twig") Twig::get_inheritance_list_static(&inh); else if (std::string(c.name) == "Node") Node::get_inheritance_list_static(&inh); else want = ""; for (int i = 0; i < inh.size(); i++) got += utf(inh[i]) + " "; mc::ok(want == got, "class:line", "%s descends from %s", c.name, got.c_str());
		mc::ok(utf(o->to_string()) == "[" + std::string(c.name) + ":" + std::to_string((uint64_t)o->get_instance_id()) + "]", "class:text", "%s prints as %s", c.name, utf(o->to_string()).c_str());
		for (const char *p : { "prop", "own", "both", "missing", "" }) { bool n = is.count("Node"), l = is.count("Leaf"); std::string ps = p; bool inN = n && (ps == "prop" || ps == "both"), inL = l && (ps == "own" || ps == "both"); for (int how = 0; how < 2; how++) { bool so = true, go = true; V vo; if (how && !o->is_class("Reference")) vo = V(o); if (!how) o->set(p, 41, &so); else { if (o->is_class("Reference")) continue; vo.set(p, 41, &so); } mc::transition(); mc::ok(so == (inN || inL), "property:set", "%s.%s settable: %d", c.name, p, so); V g = how ? vo.get(p, &go) : o->get(p, &go); mc::ok(go == (inN || inL), "property:get", "%s.%s readable: %d", c.name, p, go); if (inN != inL) mc::ok(go && g == V(41), "property:value", "%s.%s is %s", c.name, p, utf(String(g)).c_str()); } if (ps == "both" && l) { Leaf *q = (Leaf *)o; q->prop = 1; q->own = 2; bool ok; mc::ok(o->get(p, &ok) == V(2), "property:most-derived", "%s.both is read from an ancestor", c.name); o->set(p, 9, &ok); mc::ok(q->prop == 9 && q->own == 2, "property:ancestor-first", "%s.both was set to %d / %d", c.name, q->prop, q->own); } }
		nlog.clear(); if (Reference *r = Object::cast_to<Reference>(o)) { if (std::string(c.name) != "Twig") { Ref<Reference> a(r), b(a); a.unref(); mc::ok(nlog.empty() && b->reference_get_count() == 1, "notify:early", "%s died with an owner left", c.name); b.unref(); } else memdelete(o); } else memdelete(o); mc::ok(nlog == seq(1, true), "notify:death", "%s died with %s", c.name, nlog.c_str()); }
	MC_CASE("equality of references and identifiers") { Ref<Node> a, b; a.instance(); b.instance(); mc::ok(a->get_instance_id() != b->get_instance_id() && a != b && !(a == b) && a == a.ptr() && (a < b) != (b < a) && !(a < a), "ref:compare", "references compare wrongly"); ObjectID i = a->get_instance_id(); a.unref(); mc::ok(!ObjectDB::get_instance(i) && ObjectDB::get_instance(b->get_instance_id()) == b.ptr() && !ObjectDB::get_instance(0) && !ObjectDB::get_instance(i + 1000000), "db:lookup", "identifier lookup"); static std::set<ObjectID> seen; seen.clear(); ObjectDB::debug_objects([](Object *o) { seen.insert(o->get_instance_id()); }); mc::ok((int)seen.size() == ObjectDB::get_object_count() && seen.count(b->get_instance_id()) && !seen.count(i), "db:list", "%zu of %d objects listed", seen.size(), ObjectDB::get_object_count()); mc::transition(); }
	for (int n : { 1, 10, 100, 1000 }) MC_CASE("%d objects at once", n) { int base = ObjectDB::get_object_count(); std::vector<Thing *> t; std::set<ObjectID> ids; for (int i = 0; i < n; i++) { t.push_back(memnew(Thing)); ids.insert(t.back()->get_instance_id()); } mc::ok((int)ids.size() == n && ObjectDB::get_object_count() == base + n, "db:count", "%d identifiers for %d objects", (int)ids.size(), n); bool all = true; std::vector<ObjectID> id; for (Thing *q : t) { all = all && ObjectDB::get_instance(q->get_instance_id()) == q; id.push_back(q->get_instance_id()); } for (int i = 0; i < n; i += 2) memdelete(t[i]); for (int i = 0; i < n; i++) all = all && ObjectDB::get_instance(id[i]) == (i % 2 ? t[i] : nullptr); for (int i = 1; i < n; i += 2) memdelete(t[i]); mc::ok(all && ObjectDB::get_object_count() == base, "db:many", "lookup among %d objects", n); mc::transition(); mc::state(num(n)); }
}
// ---- signals
struct SR; static SR *cur = nullptr; struct Tgt { int id; };
struct SR { Signal sig; Tgt t[2] = { { 0 }, { 1 } }; Thing *from[2]; std::string log; int depth = 0; bool s1_before = false; SR() { cur = this; from[0] = memnew(Thing); from[0]->id = 0; from[1] = memnew(Thing); from[1]->id = 1; } ~SR() { memdelete(from[0]); memdelete(from[1]); } };
static std::string called(const std::string &who, Signal *s) { std::string d = who + "(" + (s->emitter ? num(((Thing *)s->emitter)->id) : "-"); for (int i = 0; i < s->params.size(); i++) d += "," + utf(String(s->params[i])); return d + ") "; }
static void s0(Signal *s) { cur->log += called("s0", s); } static void s1(Signal *s) { if (cur->s1_before) cur->log += called("s1", s); } /* a handler connected during an emission may or may not be called by it */ static void once(Signal *s) { cur->log += called("once", s); s->disconnect_static(once); } static void more(Signal *s) { cur->log += called("more", s); if (!s->is_connected_static(s1)) s->connect_static(s1); } static void drop(Signal *s) { cur->log += called("drop", s); s->disconnect_static(s0); }
static void again(Signal *s) { cur->log += called("again", s); if (cur->depth < 1) { cur->depth++; s->emit(cur->from[1], 77); cur->depth--; cur->log += called("after", s); } }
static void f(Tgt *t, Signal *s) { cur->log += called("f" + num(t->id), s); } static void g(Tgt *t, Signal *s) { cur->log += called("g" + num(t->id), s); }
struct SM { std::vector<std::pair<std::string, int>> e; int next = 0; bool has(const std::string &n) const { for (auto &q : e) if (q.first == n) return true; return false; } void add(const std::string &n) { e.push_back({ n, next++ }); } void drop(const std::string &n) { for (size_t i = 0; i < e.size(); i++) if (e[i].first == n) { e.erase(e.begin() + i); return; } } };
static void model_emit(SM &m, const std::string &args, std::string &o, int depth) { // every handler connected throughout is called once, in order of connection, with the emission's own arguments
	auto now = m.e; for (auto &q : now) { if (std::find(m.e.begin(), m.e.end(), q) == m.e.end()) continue; const std::string &n = q.first; o += n + "(" + args + ") "; if (n == "once") m.drop("once"); if (n == "drop") m.drop("s0"); if (n == "more" && !m.has("s1")) m.add("s1"); if (n == "again" && !depth) { model_emit(m, "1,77", o, 1); o += "after(" + args + ") "; } }
}
static void signals() {
	mc::Explorer<SM, SR> e; e.label = "signal"; e.held = Memory::get_mem_usage; e.within = [](const SM &m) { return m.e.size() <= 4; }; e.mdump = [](const SM &m) { std::string d; for (const char *n : { "s0", "s1", "once", "more", "drop", "again", "f0", "g0", "f1" }) d += m.has(n) ? "1" : "0"; return d; }; e.mkey = [](const SM &m) { std::string d; for (auto &n : m.e) d += n.first + " "; return d; };
	e.rdump = [](SR &r) { std::string d; for (auto h : { s0, s1, once, more, drop, again }) d += r.sig.is_connected_static(h) ? "1" : "0"; d += r.sig.is_connected(&r.t[0], f) ? "1" : "0"; d += r.sig.is_connected(&r.t[0], g) ? "1" : "0"; d += r.sig.is_connected(&r.t[1], f) ? "1" : "0"; if (r.sig.is_connected(&r.t[1], g)) d += "?"; if (r.sig.params.size()) d += "params left"; return d; };
	struct H { const char *n; std::function<void(SR &, bool)> f; }; std::vector<H> hs; auto st = [&](const char *n, void (*h)(Signal *)) { hs.push_back({ n, [=](SR &r, bool c) { if (c) r.sig.connect_static(h); else r.sig.disconnect_static(h); } }); }; st("s0", s0); st("s1", s1); st("once", once); st("more", more); st("drop", drop); st("again", again); auto cl = [&](const char *n, int i, void (*h)(Tgt *, Signal *)) { hs.push_back({ n, [=](SR &r, bool c) { if (c) r.sig.connect(&r.t[i], h); else r.sig.disconnect(&r.t[i], h); } }); }; cl("f0", 0, f); cl("g0", 0, g); cl("f1", 1, f);
	for (auto &h : hs) { std::string n = h.n; e.ops.push_back({ "connect " + n, [=](SM &m, std::string &) { if (n != "s0" && n != "f0" && m.has(n)) return false; if ((n == "again" && m.has("more")) || (n == "more" && m.has("again"))) return false; m.add(n); return true; }, [=](SR &r) { h.f(r, true); return std::string(); } }); e.ops.push_back({ "disconnect " + n, [=](SM &m, std::string &) { m.drop(n); return true; }, [=](SR &r) { h.f(r, false); return std::string(); } }); }
	for (int n = 0; n <= 5; n++) e.ops.push_back({ "emit " + num(n), [=](SM &m, std::string &o) { std::string a = "0"; for (int i = 0; i < n; i++) a += "," + num(10 + i); model_emit(m, a, o, 0); return true; }, [=](SR &r) { r.log.clear(); cur = &r; r.s1_before = r.sig.is_connected_static(s1); V p[5] = { 10, 11, 12, 13, 14 }; Object *o = r.from[0]; switch (n) { case 0: r.sig.emit(o); break; case 1: r.sig.emit(o, p[0]); break; case 2: r.sig.emit(o, p[0], p[1]); break; case 3: r.sig.emit(o, p[0], p[1], p[2]); break; case 4: r.sig.emit(o, p[0], p[1], p[2], p[3]); break; default: r.sig.emit(o, p[0], p[1], p[2], p[3], p[4]); } return r.log; } });
	e.all_sequences(3); e.bfs(5, mc::thorough() ? 8000 : 2000);
	MC_CASE("resources announce changes") { static int n; n = 0; static Object *who; Ref<Resource> r; r.instance(); r->changed.connect_static([](Signal *s) { n++; who = s->emitter; }); r->emit_changed(); r->emit_changed(); mc::ok(n == 2 && who == r.ptr(), "signal:resource", "%d announcements", n); mc::transition(); }
}
void explore() { SFWCore::setup(); graph(); plain(); metadata(); classes(); signals(); }
