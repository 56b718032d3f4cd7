// MC: variant=asan
// C48: paths. Every text over letters, dots, separators and colons up to a length, alone and in pairs, against component-wise readings of a path.
#include "txt.h"
using mc::fmt;
static bool sep(char32_t c) { return c == '/' || c == '\\'; }
static bool starts(const U &t, const U &p) { return t.compare(0, p.size(), p) == 0; }
static size_t lastsep(const U &t) { size_t i = t.find_last_of(U"/\\"); return i == U::npos ? 0 : i + 1; } // index after the last separator
static VU comps(const U &t) { VU r; U c; for (char32_t x : t) if (sep(x)) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; if (!c.empty()) r.push_back(c); return r; }
static U join(const VU &v) { U r; for (size_t i = 0; i < v.size(); i++) r += (i ? U"/" : U"") + v[i]; return r; }
static U simple(const U &drive, const U &rest) { VU st; for (auto &c : comps(rest)) { if (c == U".") continue; if (c == U"..") { if (!st.empty() && st.back() != U"..") st.pop_back(); else if (drive.empty()) st.push_back(c); } else st.push_back(c); } return drive + join(st); }
static bool dots(const U &t) { for (auto &c : comps(t)) if (c == U"." || c == U"..") return true; return false; }
static const VU DR = { U"", U"/", U"res://", U"user://", U"c:/" };
// one path: a prefix naming a root and a body which names what is below it
static void one(const U &drive, const U &body) {
	U t = drive + body; String s = S(t); string a = sh(t); mc::state(a);
	size_t ls = lastsep(t); U file = t.substr(ls); size_t dot = file.rfind('.');
	is("get_file", s.get_file(), file, a); is("get_extension", s.get_extension(), dot == U::npos ? U() : file.substr(dot + 1), a); is("get_basename", s.get_basename(), dot == U::npos ? t : t.substr(0, ls + dot), a);
	bool abs = !t.empty() && (sep(t[0]) || t.find(U":/") != U::npos || t.find(U":\\") != U::npos); is("is_abs_path", s.is_abs_path(), abs, a); is("is_rel_path", s.is_rel_path(), !abs, a);
	bool net = starts(t, U"//") || starts(t, U"\\\\"); is("is_network_share_path", s.is_network_share_path(), net, a); is("is_resource_file", s.is_resource_file(), starts(t, U"res://") && t.find(U"::") == U::npos, a);
	{ U e = t; while (e.size() > 1 && sep(e.back())) e.pop_back(); is("path_clean_end_slash", s.path_clean_end_slash(), e, a); }
	is("path_ensure_end_slash", s.path_ensure_end_slash(), t.empty() || sep(t.back()) ? t : t + U"/", a);
	{ U e = t; while (!e.empty() && sep(e.back())) e.pop_back(); while (!e.empty() && !sep(e.back())) e.pop_back(); while (!e.empty() && sep(e.back())) e.pop_back(); U g = un(s.path_get_prev_dir()); while (!g.empty() && sep(g.back())) g.pop_back(); mc::transition(); mc::ok(g == e, "path_get_prev_dir", "path_get_prev_dir(%s) = %s, expected %s", a.c_str(), sh(g).c_str(), sh(e).c_str()); mc::ok(s.path_get_prev_dir().length() > 0, "path_get_prev_dir:empty", "%s", a.c_str()); }
	is("original", s, t, "after reading its parts");
	bool colon = body.find(':') != U::npos, rooted = !body.empty() && sep(body[0]);
	if (colon) return;
	// directory part: everything below the root up to the last separator
	if (!rooted) { size_t bs = lastsep(body); U want = drive + (bs ? body.substr(0, bs - 1) : U()); is("get_base_dir", s.get_base_dir(), want, a);
		if (bs != 1) { U j = un(s.get_base_dir().plus_file(s.get_file())); mc::ok(simple(U(), j) == simple(U(), t), "split and join", "%s is split into %s and %s", a.c_str(), sh(s.get_base_dir()).c_str(), sh(s.get_file()).c_str()); } }
	// simplification: no ".", no empty component, ".." only where nothing is left to go up from
	U d2 = drive, rest = body;
	if (drive.empty() && net) { d2 = t.substr(0, 2); rest = t.substr(2); } else if (drive.empty() && rooted) { d2 = body.substr(0, 1); rest = body.substr(1); } else if (drive == U"/" && rooted) { if (body[0] == '/') { d2 = U"//"; rest = body.substr(1); } }
	U want = simple(d2, rest); is("simplify_path", s.simplify_path(), want, a); 
	if (!(d2.size() == 1 && want.size() > 1 && sep(want[1]))) is("simplify_path twice", s.simplify_path().simplify_path(), want, a);
}
static void pair(const U &x, const U &y) {
	String a = S(x), b = S(y); string g = sh(x) + ", " + sh(y); mc::state(g);
	U pf = x.empty() ? y : x.back() == '/' || (!y.empty() && y[0] == '/') ? x + y : x + U"/" + y; is("plus_file", a.plus_file(b), pf, g);
	size_t k = 0; while (k < y.size() && sep(y[k])) k++;
	U ap = x.empty() ? y : y.empty() || k == y.size() ? x : sep(x.back()) ? x + y.substr(k) : k ? x + y.substr(k - 1) : x + U"/" + y;
	is("append_path", a.append_path(b), ap, g); bool small = true; for (char32_t c : y) small = small && c < 256; if (small) is("append_path chars", a.append_path(n8(y).c_str()), ap, g);
	is("left", a, x, "after joining"); is("right", b, y, "after joining");
}
// relative path from one directory to another: following it leads there
static void rel(const U &drive, const U &x, const U &y) {
	U from = drive + x, to = drive + y; String a = S(from), b = S(to); string g = sh(from) + ", " + sh(to); mc::state(g);
	if (drive.empty() && (x.empty() || y.empty() || comps(x)[0] != comps(y)[0])) { // no way to express it: the target itself
		if (!x.empty() && !y.empty()) is("path_to unrelated", a.path_to(b), to, g); return; }
	U r = un(a.path_to(b)); bool isrel = !r.empty() && !sep(r[0]) && r.back() == '/' && r.find(':') == U::npos; mc::transition();
	mc::ok(isrel && simple(drive, x + U"/" + r) == simple(drive, y), "path_to", "path_to(%s) = %s", g.c_str(), sh(r).c_str());
	if (isrel) { VU c = comps(r); size_t up = 0; while (up < c.size() && c[up] == U"..") up++; VU cx = comps(x), cy = comps(y); size_t com = 0; while (com < cx.size() && com < cy.size() && cx[com] == cy[com]) com++; mc::ok(up == cx.size() - com, "path_to:shortest", "path_to(%s) = %s goes up %zu times", g.c_str(), sh(r).c_str(), up); }
	String f = b.plus_file("f.x"); if (drive.empty() && y.empty()) return; U q = un(a.path_to_file(f)); mc::transition();
	mc::ok(q.find(':') == U::npos && !q.empty() && !sep(q[0]) && simple(drive, x + U"/" + q) == simple(drive, y + U"/f.x"), "path_to_file", "path_to_file(%s) = %s", g.c_str(), sh(q).c_str());
	{ String wa = a.replace("/", "\\"); if (!starts(un(wa), U"\\") && drive.empty()) is("path_to backslashes", wa.path_to(b), r, g); }
	is("left", a, from, "after path_to"); is("right", b, to, "after path_to");
}
template <class F> static void sharded(const char *name, const U &al, int n, F f) { MC_CASE("%s short", name) texts(al, 1, f); for (char32_t c : al) for (char32_t d : al) MC_CASE("%s %x %x", name, (unsigned)c, (unsigned)d) texts(al, n - 2, [&](const U &t) { U u; u += c; u += d; f(u + t); }); }
void explore() {
	int x = mc::S().thorough ? 2 : 0;
	const U al = U"ab./\\:";
	for (auto &d : DR) sharded(("one " + n8(d)).c_str(), al, (d.empty() ? 6 : 5) + x, [&](const U &t) { one(d, t); });
	sharded("one wide", U"\xe9\x1f600\x12f./", 5, [&](const U &t) { one(U"", t); one(U"res://", t); });
	sharded("deep", U"a./", 9 + x, [&](const U &t) { one(U"", t); if (t.size() < 8) one(U"/", t); });
	VU small; texts(U"a./\\", 4 + x / 2, [&](const U &t) { small.push_back(t); });
	for (auto &a : small) MC_CASE("pairs %s", sh(a).c_str()) for (auto &b : small) pair(a, b);
	MC_CASE("pairs wide") { VU v; texts(U"a/\x12f\x15c", 3, [&](const U &t) { v.push_back(t); }); for (auto &a : v) for (auto &b : v) pair(a, b); }
	VU dirs = { U"" }; for (int d = 0, at = 0; d < 3 + x / 2; d++) { int end = dirs.size(); for (; at < end; at++) for (auto c : { U"a", U"b", U"ab" }) dirs.push_back(dirs[at].empty() ? U(c) : dirs[at] + U"/" + c); }
	for (auto &d : DR) for (auto &a : dirs) MC_CASE("relative %s %s", sh(d).c_str(), sh(a).c_str()) for (auto &b : dirs) rel(d, a, b);
	MC_CASE("mixed roots") for (auto &d : DR) for (auto &e : DR) if (d != e && !d.empty() && !e.empty()) for (U a : { U"a", U"b/a" }) for (U b : { U"a", U"a/b" }) is("path_to other root", S(d + a).path_to(S(e + b)), e + b, sh(d + a) + ", " + sh(e + b));
}
