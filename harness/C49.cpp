// MC: variant=asan
// C49: directories. Every sequence of directory operations up to a depth on small trees of directories, files and links, against the same steps made with plain system calls on a twin tree; every failing system call of the recursive operations; every amount of disk space for copies.
#include "mc.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <dirent.h>
#include <dlfcn.h>
#include <limits.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <algorithm>
using mc::fmt; using std::string; typedef std::vector<string> VS; typedef std::map<string, string> Snap;
static string g_base, g_a, g_b; // scratch directory; the tree worked on by the library and its twin (each with root, out and cwd)
// ---- the system calls which change something: none may leave the scratch directory, and the k-th can be made to fail
static bool g_guard = false; static int g_count = 0, g_fail = -1; static string g_failed;
static bool gate(const char *what, const char *path, int &r) {
	r = -1; if (!g_guard) return true; g_guard = false; string p = path, dir = p.find('/') == string::npos ? "." : p.substr(0, p.rfind('/') + 1), name = p.substr(p.rfind('/') + 1); char buf[PATH_MAX]; bool in = realpath(dir.c_str(), buf) && (string(buf) + "/").compare(0, g_base.size() + 1, g_base + "/") == 0 && name != ".."; if (!in && errno == ENOENT) in = p.compare(0, g_base.size() + 1, g_base + "/") == 0; if (!in && (errno == ENOTDIR || errno == ELOOP)) in = true; g_guard = true;
	if (!in && strcmp(what, "mkdir") == 0 && access(path, F_OK) == 0) in = true; // exists: nothing happens
	if (!in) { g_guard = false; mc::fail("escape", "%s(%s) leaves the tree", what, path); g_guard = true; errno = EPERM; return false; }
	if (g_count++ == g_fail) { g_failed = fmt("%s(%s)", what, path); errno = EACCES; return false; }
	return true;
}
extern "C" int mkdir(const char *p, mode_t m) noexcept { int r; return gate("mkdir", p, r) ? syscall(SYS_mkdirat, AT_FDCWD, p, m) : r; }
extern "C" int rmdir(const char *p) noexcept { int r; return gate("rmdir", p, r) ? syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : r; }
extern "C" int unlink(const char *p) noexcept { int r; return gate("unlink", p, r) ? syscall(SYS_unlinkat, AT_FDCWD, p, 0) : r; }
extern "C" int symlink(const char *t, const char *p) noexcept { int r; return gate("symlink", p, r) ? syscall(SYS_symlinkat, t, AT_FDCWD, p) : r; }
extern "C" int rename(const char *a, const char *b) noexcept { int r; if (!gate("rename", b, r)) return r; g_count--; return gate("rename", a, r) ? syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b) : r; }
extern "C" FILE *fopen(const char *p, const char *m) { static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); int r; if (!g_guard || (strpbrk(m, "wa+") ? gate("fopen", p, r) : g_count++ != g_fail || (g_failed = fmt("fopen(%s)", p), errno = EACCES, false))) return real(p, m); return nullptr; }
extern "C" DIR *opendir(const char *p) { static DIR *(*real)(const char *) = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir"); if (g_guard && g_count++ == g_fail) { g_failed = fmt("opendir(%s)", p); errno = EACCES; return nullptr; } return real(p); }
struct Guard { Guard(int f = -1) { g_count = 0; g_fail = f; g_failed.clear(); g_guard = true; } ~Guard() { g_guard = false; } };
// ---- plain readings
static string slurp(const string &p) { string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f))) r.append(b, n); fclose(f); return r; }
static bool spew(const string &p, const string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; fwrite(d.data(), 1, d.size(), f); fclose(f); return true; }
static VS names(const string &d, bool *ok = nullptr) { VS r; DIR *x = opendir(d.c_str()); if (ok) *ok = x; if (!x) return r; while (dirent *e = readdir(x)) { string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(x); std::sort(r.begin(), r.end()); return r; }
static int kind(const string &p, bool follow) { struct stat s; if ((follow ? stat : lstat)(p.c_str(), &s) != 0) return 0; return S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : 'f'; }
static string target(const string &p) { char b[PATH_MAX]; ssize_t n = readlink(p.c_str(), b, sizeof b); return n < 0 ? string() : string(b, n); }
static string real(const string &p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? string(b) : string(); }
static void walk(const string &top, const string &rel, Snap &s) { for (auto &n : names(top + rel)) { string p = rel + "/" + n; int k = kind(top + p, false); if (k == 'd') { s[p] = "directory"; walk(top, p, s); } else if (k == 'l') { string t = target(top + p); for (auto &x : { g_a, g_b }) if (t.compare(0, x.size(), x) == 0) t = "@" + t.substr(x.size()); s[p] = "link to " + t; } else { struct stat st; lstat((top + p).c_str(), &st); s[p] = fmt("file %o ", st.st_mode & 0777) + slurp(top + p); } } }
static Snap snap(const string &top) { Snap s; walk(top, "", s); return s; }
static string diff(const Snap &got, const Snap &want) { string r; for (auto &x : want) { auto i = got.find(x.first); if (i == got.end()) r += " " + x.first + " is missing;"; else if (i->second != x.second) r += " " + x.first + " is " + i->second.substr(0, 60) + ", expected " + x.second.substr(0, 60) + ";"; } for (auto &x : got) if (!want.count(x.first)) r += " " + x.first + " (" + x.second.substr(0, 60) + ") should not be there;"; return r; }
static bool wipe(const string &d) { bool ok; for (auto &n : names(d, &ok)) { string p = d + "/" + n; if (kind(p, false) == 'd') { if (!wipe(p) || rmdir(p.c_str()) != 0) ok = false; } else if (unlink(p.c_str()) != 0) ok = false; } return ok; }
// lexical: "." and empty parts vanish, ".." takes back the part before it
static string lexical(const string &p) { VS st; string c; for (size_t i = 0; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { if (c == "..") { if (!st.empty()) st.pop_back(); } else if (!c.empty() && c != ".") st.push_back(c); c.clear(); } else c += p[i]; string r; for (auto &x : st) r += "/" + x; return r.empty() ? "/" : r; }
// ---- the twin: the same steps with plain system calls
enum R { GOOD, EXISTS, BAD, SKIP };
struct Op { char op; string x, y; int flag; };
static string say(const Op &o) { switch (o.op) { case 'm': return "make_dir(" + o.x + ")"; case 'M': return "make_dir_recursive(" + o.x + ")"; case 'c': return "change_dir(" + o.x + ")"; case 'r': return "remove(" + o.x + ")"; case 'n': return "rename(" + o.x + ", " + o.y + ")"; case 'l': return "create_link(" + o.x + ", " + o.y + ")"; case 'k': return "copy(" + o.x + ", " + o.y + (o.flag != -1 ? fmt(", %o", o.flag) : "") + ")"; case 'K': return "copy_dir(" + o.x + ", " + o.y + (o.flag & 1 ? ", links)" : ")"); default: return "erase_contents_recursive()"; } }
static string at(const string &p, const string &P, const string &cur) { return p[0] == '@' ? P + p.substr(1) : cur + "/" + p; } // @ stands for the tree
static R cpfile(const string &f, const string &t, int mode) { if (kind(f, true) != 'f') return BAD; int k = kind(t, true); if (k == 'd') return BAD; string d = slurp(f); if (!spew(t, d)) return BAD; if (mode != -1 && chmod(t.c_str(), mode) != 0) return BAD; return GOOD; }
static R cptree(const string &f, const string &t, bool links) {
	bool ok; R r = GOOD; for (auto &n : names(f, &ok)) { string p = f + "/" + n, q = t + "/" + n; R e = GOOD; if (links && kind(p, false) == 'l') { if (symlink(target(p).c_str(), q.c_str()) != 0) e = BAD; } else if (kind(p, true) == 'd') { if (kind(q, true) != 'd' && mkdir(q.c_str(), 0775) != 0) e = BAD; else e = cptree(p, q, links); } else e = cpfile(p, q, -1); if (e != GOOD) r = e; }
	return ok ? r : BAD;
}
static bool loops(const string &f, bool links, VS &stack, const string &to, const string &t, int depth = 0) { // a copy which would read what it writes
	string me = real(f); if (me.empty() || depth > 12) return true; if ((to + "/").compare(0, me.size() + 1, me + "/") == 0) return true; for (auto &s : stack) if (s == me) return true; stack.push_back(me); bool r = false;
	for (auto &n : names(f)) { string p = f + "/" + n; if (links && kind(p, false) == 'l') continue; if (kind(p, true) == 'd') r = r || loops(p, links, stack, to, t + "/" + n, depth + 1); else { string x = real(p); if (!x.empty() && ((x + "/").compare(0, to.size() + 1, to + "/") == 0 || x == real(t + "/" + n))) r = true; } }
	stack.pop_back(); return r;
}
static string existing(string p) { string t; p = lexical(p); while (real(p).empty() && p.size() > 1) { t = p.substr(p.rfind('/')) + t; p = p.substr(0, p.rfind('/')); } return real(p) + t; }
static R twin(const Op &o, string &cur) {
	string x = at(o.x, g_b, cur), y = at(o.y, g_b, cur);
	switch (o.op) {
		case 'm': return mkdir(x.c_str(), 0775) == 0 ? GOOD : errno == EEXIST ? EXISTS : BAD;
		case 'M': { string p, l = lexical(x); for (size_t i = 1; i <= l.size(); i++) if (i == l.size() || l[i] == '/') { p = l.substr(0, i); if (mkdir(p.c_str(), 0775) != 0 && kind(p, true) != 'd') return BAD; } return GOOD; }
		case 'c': { string n = o.x[0] == '@' ? x : lexical(x); if ((lexical(n) + "/").compare(0, g_b.size() + 1, g_b + "/") != 0) return SKIP; if (kind(n, true) != 'd') return BAD; cur = n; return GOOD; }
		case 'r': { int k = kind(x, false); return k == 0 ? BAD : (k == 'd' ? rmdir(x.c_str()) : unlink(x.c_str())) == 0 ? GOOD : BAD; }
		case 'n': return renameat(AT_FDCWD, x.c_str(), AT_FDCWD, y.c_str()) == 0 ? GOOD : BAD;
		case 'l': { string t = o.x[0] == '@' ? g_b + o.x.substr(1) : o.x; return symlink(t.c_str(), y.c_str()) == 0 ? GOOD : BAD; }
		case 'k': { if (kind(x, true) == 'd') return SKIP; string a = real(x), b = existing(y); if (!a.empty() && a == b) return SKIP; return cpfile(x, y, o.flag); }
		case 'K': { if (kind(x, true) != 'd') return BAD; VS st; string to = existing(y); if (loops(x, o.flag & 1, st, to, y)) return SKIP; if (kind(y, true) != 'd') { Op m{ 'M', o.y, "", 0 }; if (twin(m, cur) != GOOD) return BAD; } return cptree(x, y, o.flag & 1); }
		default: { string rc = real(cur); if (!rc.empty() && (g_b + "/cwd/").compare(0, rc.size() + 1, rc + "/") == 0) return SKIP; return wipe(cur) ? GOOD : BAD; }
	}
}
static Error perform(DirAccess *d, const Op &o) {
	auto T = [&](const string &p) { return String::utf8((p[0] == '@' ? g_a + p.substr(1) : p).c_str()); }; Error e;
	switch (o.op) { case 'm': e = d->make_dir(T(o.x)); break; case 'M': e = d->make_dir_recursive(T(o.x)); break; case 'c': e = d->change_dir(T(o.x)); break; case 'r': e = d->remove(T(o.x)); break; case 'n': e = d->rename(T(o.x), T(o.y)); break; case 'l': e = d->create_link(T(o.x), T(o.y)); break; case 'k': e = d->copy(T(o.x), T(o.y), o.flag); break; case 'K': e = d->copy_dir(T(o.x), T(o.y), -1, o.flag & 1); break; default: e = d->erase_contents_recursive(); }
	return e;
}
// ---- starting trees
static const int TREES = 4;
static void grow(const string &P, int tree) {
	g_guard = false; mkdir(P.c_str(), 0755); wipe(P); for (auto n : { "/root", "/out", "/cwd", "/out/deep", "/cwd/a" }) mkdir((P + n).c_str(), 0755); spew(P + "/out/precious", "keep"); spew(P + "/out/deep/gem", "keep too"); spew(P + "/cwd/f", "not this one"); if (P == g_a && chdir((P + "/cwd").c_str()) != 0) abort(); string r = P + "/root";
	if (tree >= 1) { mkdir((r + "/a").c_str(), 0755); mkdir((r + "/a/b").c_str(), 0755); spew(r + "/a/f", "in a"); spew(r + "/a/b/g", ""); spew(r + "/f", "at the top"); spew(r + "/.h", "hidden"); }
	if (tree == 2) { symlink("a", (r + "/l").c_str()); symlink("../out", (r + "/o").c_str()); symlink("nothing", (r + "/z").c_str()); symlink("f", (r + "/k").c_str()); symlink((P + "/out/precious").c_str(), (r + "/a/p").c_str()); }
	if (tree == 3) { mkdir((r + "/\xc3\xa9").c_str(), 0755); spew(r + "/\xc3\xa9/\xe2\x82\xac", string(70000, 'x') + "end"); mkdir((r + "/a/.d").c_str(), 0755); symlink("../../out", (r + "/a/o").c_str()); mkdir((r + "/b").c_str(), 0755); spew(r + "/b/f", "in b"); mkdir((r + "/b/b").c_str(), 0755); symlink("..", (r + "/b/up").c_str()); }
}
static string strip(const string &p, const string &P) { return p.compare(0, P.size(), P) == 0 ? "@" + p.substr(P.size()) : p; }
static string s8(const String &s) { CharString c = s.utf8(); return string(c.get_data() ? c.get_data() : "", c.length()); }
// what the directory says about names, and its listing
static void queries(DirAccess *d, const string &cur, const string &in) {
	string rc = strip(cur, g_b), ca = rc[0] == '@' ? g_a + rc.substr(1) : rc; mc::ok(s8(d->get_current_dir()) == ca, "current", "%s: current directory %s, expected %s", in.c_str(), s8(d->get_current_dir()).c_str(), ca.c_str()); mc::ok(d->get_current_dir_without_drive() == d->get_current_dir(), "current:drive", "%s", in.c_str());
	for (auto n : { "a", "f", "l", "o", "z", "k", ".h", "a/f", "a/p", "a/b/", "nothing", ".", "..", "f/x", "@/root/a", "@/out/precious", "@/nowhere", "\xc3\xa9", "l/b" }) { string p = n, q = at(p, g_b, cur); String t = String::utf8((p[0] == '@' ? g_a + p.substr(1) : p).c_str()); int k = kind(q, true); mc::transition(); const char *c = in.c_str();
		mc::ok(d->file_exists(t) == (k == 'f'), "file_exists", "%s: %s", c, n); mc::ok(d->dir_exists(t) == (k == 'd'), "dir_exists", "%s: %s", c, n); mc::ok(d->is_link(t) == (kind(q, false) == 'l'), "is_link", "%s: %s", c, n);
		string tg = target(q); mc::ok(s8(d->read_link(t)) == (tg.compare(0, g_b.size(), g_b) == 0 ? g_a + tg.substr(g_b.size()) : tg), "read_link", "%s: %s is a link to %s, expected %s", c, n, s8(d->read_link(t)).c_str(), tg.c_str());
		if (k) { struct timespec ts[2] = { { 1000, 0 }, { (time_t)(1000000 + strlen(n)), 0 } }; string w = at(p, g_a, ca); utimensat(AT_FDCWD, w.c_str(), ts, 0); mc::ok(d->get_modified_time(t) == (uint64_t)ts[1].tv_sec, "get_modified_time", "%s: %s", c, n); }
		// static: from the directory of the process
		string cq = p[0] == '@' ? q : g_b + "/cwd/" + p; mc::ok(DirAccess::exists(t) == (kind(cq, true) == 'd'), "exists", "%s: %s", c, n); if (kind(cq, true) == 'd') { string fp = p[0] == '@' ? g_a + p.substr(1) : lexical(g_a + "/cwd/" + p); mc::ok(s8(DirAccess::get_full_path(t)) == fp && s8(DirAccess::get_filesystem_abspath_for(t)) == fp, "get_full_path", "%s: %s is %s, expected %s", c, n, s8(DirAccess::get_full_path(t)).c_str(), fp.c_str()); DirAccess *o = DirAccess::create_for_path(t); mc::ok(s8(o->get_current_dir()) == fp, "create_for_path", "%s: %s", c, n); memdelete(o); } }
	for (int skip = 0; skip < 2; skip++) { bool ok; VS want = names(cur, &ok), got; Error e = d->list_dir_begin(skip); mc::ok((e == OK) == ok, "list_dir_begin", "%s: error %d", in.c_str(), e); if (skip == 1 && ok) { d->get_next(); d->list_dir_begin(true); } int special = 0;
		for (;;) { string n = s8(d->get_next()); if (n.empty()) break; bool sp = n == "." || n == ".."; mc::ok(d->current_is_special_dir() == sp && d->current_is_dir() == (kind(cur + "/" + n, true) == 'd') && d->current_is_file() == !d->current_is_dir() && d->current_is_hidden() == (n[0] == '.' && !sp), "entry", "%s: %s listed as directory %d, hidden %d, special %d", in.c_str(), n.c_str(), d->current_is_dir(), d->current_is_hidden(), d->current_is_special_dir()); if (sp) special++; else got.push_back(n); if (got.size() > 100) break; }
		std::sort(got.begin(), got.end()); string gs; for (auto &n : got) gs += " " + n; mc::ok(got == want && special == (ok && !skip ? 2 : 0), "listing", "%s: lists%s and %d special entries", in.c_str(), gs.c_str(), special); mc::ok(d->get_next() == String(), "listing:end", "%s", in.c_str()); d->list_dir_end(); }
	char b[PATH_MAX]; mc::ok(getcwd(b, sizeof b) && g_a + "/cwd" == b, "process directory", "%s: %s", in.c_str(), b);
}
static const char *R3[] = { "success", "already there", "failure" };
struct Walk {
	int tree; std::vector<Op> ops; std::set<string> seen; int maxdepth; size_t limit;
	// replays h from the start; returns false if the last step is not claimed or history ended with a failed recursive operation
	bool play(const std::vector<int> &h, int fault, bool look, string *state, bool *hit) {
		grow(g_a, tree); grow(g_b, tree); DirAccess *d = DirAccess::create(); string cur = g_b + "/root"; d->change_dir((g_a + "/root").c_str()); string in = fmt("tree %d:", tree); bool open = true, fine = true; mc::transition();
		for (size_t i = 0; i < h.size() && fine; i++) { const Op &o = ops[h[i]]; in += " " + say(o) + ";"; bool last = i + 1 == h.size(); string before = cur; Snap s0; if (last && fault >= 0) s0 = snap(g_a); R w = twin(o, cur); if (w == SKIP) { memdelete(d); return false; }
			Error e; { Guard g(last ? fault : -1); e = perform(d, o); } string name = say(o).substr(0, say(o).find('('));
			if (last && fault >= 0) { *hit = !g_failed.empty(); if (*hit) { mc::transition(); mc::state(in + g_failed); string f = in + " with " + g_failed + " failing"; bool excused = o.op == 'M' && g_failed.compare(0, 5, "mkdir") == 0 && kind(g_failed.substr(6, g_failed.size() - 7), true) == 'd'; // a directory which exists all the same
				mc::ok(e != OK || excused, name + ":fault", "%s: reported success", f.c_str()); mc::ok(s8(d->get_current_dir()) == (strip(before, g_b)[0] == '@' ? g_a + strip(before, g_b).substr(1) : before), name + ":fault:current", "%s: current directory %s", f.c_str(), s8(d->get_current_dir()).c_str());
				Snap s1 = snap(g_a), s2 = snap(g_b); string odd; for (auto &x : s0) { auto n1 = s1.find(x.first); auto n2 = s2.find(x.first); bool gone = n1 == s1.end(); if (gone ? n2 != s2.end() : n1->second != x.second && (n2 == s2.end() || n2->second == x.second)) odd += " " + x.first + (gone ? " is lost;" : " is now " + n1->second.substr(0, 40) + ";"); } for (auto &x : s1) if (!s0.count(x.first) && !s2.count(x.first)) odd += " " + x.first + " appeared;"; mc::ok(odd.empty(), name + ":fault:tree", "%s:%s", f.c_str(), odd.c_str()); }
				memdelete(d); return *hit; }
			R g = e == OK ? GOOD : e == ERR_ALREADY_EXISTS ? EXISTS : BAD; if (o.op != 'm' && g == EXISTS) g = BAD; fine = mc::ok(g == w, name + ":result", "%s: %s (error %d), expected %s", in.c_str(), R3[g], e, R3[w]);
			if (last || !fine) { Snap a = snap(g_a), b = snap(g_b); if (w == BAD && (o.op == 'K' || o.op == 'e')) { open = false; string odd; for (auto &x : a) if (x.first.compare(0, 5, "/out/") == 0 && o.x[0] != '@' && o.y[0] != '@' && b.count(x.first) && b[x.first] != x.second) odd += " " + x.first; mc::ok(odd.empty(), name + ":tree", "%s:%s changed", in.c_str(), odd.c_str()); } else fine = mc::ok(a == b, name + ":tree", "%s:%s", in.c_str(), diff(a, b).c_str()) && fine;
				string ca = strip(cur, g_b); ca = ca[0] == '@' ? g_a + ca.substr(1) : ca; fine = mc::ok(s8(d->get_current_dir()) == ca, name + ":current", "%s: current directory %s, expected %s", in.c_str(), s8(d->get_current_dir()).c_str(), ca.c_str()) && fine;
				if (state) { string s = strip(cur, g_b); for (auto &x : b) s += "\n" + x.first + "=" + x.second; *state = s; } } }
		if (fine && look) queries(d, cur, in);
		memdelete(d); return open && fine;
	}
	void go(const std::vector<int> &h0) { // breadth first over states
		std::vector<std::vector<int>> layer = { h0 };
		for (int depth = h0.size(); !layer.empty(); depth++) { std::vector<std::vector<int>> next;
			for (auto &h : layer) { string st; if (!play(h, -1, false, &st, nullptr)) continue; bool fresh = seen.insert(st).second; char o = h.empty() ? 0 : ops[h.back()].op; if (fresh) { mc::state(fmt("%d ", tree) + st); play(h, -1, true, nullptr, nullptr); }
				if (o == 'K' || o == 'e' || o == 'M' || o == 'k' || o == 'n' || o == 'l' || o == 'm' || o == 'r') { if (fresh || depth <= 1) for (int k = 0; k < 60; k++) { bool hit = false; play(h, k, false, nullptr, &hit); if (!hit) break; } }
				if (fresh && depth < maxdepth && seen.size() < limit) for (int i = 0; i < (int)ops.size(); i++) { auto n = h; n.push_back(i); next.push_back(n); } }
			layer.swap(next); }
	}
};
// a copy with room for only so many bytes: success means a complete copy
static void room(size_t size, const char *what) {
	grow(g_a, 1); spew(g_a + "/root/a/f", string(size, 'q')); std::set<size_t> rooms = { 0, 1, 4096, 65536, 65537 }; for (size_t k = 0; k < 3; k++) { rooms.insert(size + k); if (size >= k) rooms.insert(size - k); }
	for (size_t r : rooms) { if (r > size + 2) continue; unlink((g_a + "/root/t").c_str()); wipe(g_a + "/root/d"); rmdir((g_a + "/root/d").c_str()); fflush(nullptr); mc::transition(); mc::state(fmt("%zu %zu %s", size, r, what)); pid_t p = fork();
		if (p == 0) { signal(SIGPROF, SIG_DFL); signal(SIGXFSZ, SIG_IGN); struct rlimit rl = { r, r }; setrlimit(RLIMIT_FSIZE, &rl); DirAccess *d = DirAccess::create_for_path((g_a + "/root").c_str()); Error e = *what == 'f' ? d->copy("a/f", "t") : d->copy_dir("a", "d"); _exit(e == OK ? 1 : 2); }
		int st = 0; waitpid(p, &st, 0); bool lost = r < size; string got = slurp(g_a + (*what == 'f' ? "/root/t" : "/root/d/f")); mc::ok(WIFEXITED(st) && WEXITSTATUS(st) == (lost ? 2 : 1), "full:error", "copying a %s of %zu bytes with room for %zu: status %d", what, size, r, st); if (!lost) mc::ok(got == string(size, 'q'), "full:contents", "copy of %zu bytes with room for %zu has %zu bytes", size, r, got.size()); mc::ok(slurp(g_a + "/root/a/f").size() == size, "full:source", "%zu", size); }
}
static void longnames() {
	for (size_t n : { 1, 100, 254, 255, 256, 257, 300, 1000, 2000, 4000 }) { grow(g_a, 0); string t; while (t.size() < n) t += t.size() % 50 == 49 ? '/' : 'x'; DirAccess *d = DirAccess::create_for_path((g_a + "/root").c_str()); mc::transition(); mc::ok(d->create_link(t.c_str(), "l") == OK && s8(d->read_link("l")) == t && target(g_a + "/root/l") == t, "read_link:long", "a link to a name of %zu characters reads as %d characters", n, d->read_link("l").length()); DirAccess *e = DirAccess::create_for_path((g_a + "/root").c_str()); mc::ok(e->make_dir("s") == OK && e->rename("l", "s/l") == OK && e->copy_dir("s", "t", -1, true) == OK && target(g_a + "/root/t/l") == t, "copy_dir:long", "a link to a name of %zu characters is copied as one to %zu", n, target(g_a + "/root/t/l").size()); memdelete(d); memdelete(e); }
}
void explore() {
	bool th = mc::thorough(); char tmp[] = "/dev/shm/mcdirXXXXXX"; if (!mkdtemp(tmp)) abort(); g_base = tmp; umask(0); for (auto n : { "/A", "/B", "/A/p", "/B/p", "/A/p/q", "/B/p/q" }) mkdir((g_base + n).c_str(), 0755); g_a = g_base + "/A/p/q"; g_b = g_base + "/B/p/q"; grow(g_a, 0); if (chdir((g_a + "/cwd").c_str()) != 0) abort(); umask(022);
	std::vector<Op> all;
	for (auto n : { "a", "b", "a/b/c", "@/root/b", "", "." }) all.push_back({ 'm', n, "", -1 });
	for (auto n : { "b/c/d", "a/b", "f/x", "f", "./b/../a/x", "@/root/b/e", "l/n", "../out/n" }) all.push_back({ 'M', n, "", -1 });
	for (auto n : { "a", "b", "..", ".", "a/b", "@/root", "l", "o", "f", "a/../b", "../out", "z", "" }) all.push_back({ 'c', n, "", -1 });
	for (auto n : { "a", "b", "f", "l", "o", "z", "k", "a/b", "a/f", "@/root/a/b/g", "nothing", ".h" }) all.push_back({ 'r', n, "", -1 });
	for (auto p : { VS{ "a", "b" }, { "f", "a/f" }, { "b", "a" }, { "a/b", "." }, { "@/root/f", "g" }, { "l", "m" }, { "a", "a/b/c" }, { "nothing", "f" }, { "a/f", "@/root/f" } }) all.push_back({ 'n', p[0], p[1], -1 });
	for (auto p : { VS{ "a", "l" }, { "../out", "o" }, { "nothing", "z" }, { "f", "a" }, { "../f", "a/k" }, { "@/out", "b" } }) all.push_back({ 'l', p[0], p[1], -1 });
	for (auto p : { VS{ "f", "g" }, { "f", "a/f" }, { "a/f", "@/root/f" }, { "f", "a" }, { "k", "b" }, { "@/out/precious", "p" }, { "z", "b" }, { "f", "b/c" }, { "nothing", "f" }, { "f", "k" } }) all.push_back({ 'k', p[0], p[1], -1 });
	all.push_back({ 'k', "f", "b", 0600 }); all.push_back({ 'k', "f", "g", 0755 });
	for (auto p : { VS{ "a", "b" }, { "a", "c/d/" }, { "a", "@/out/n" }, { "o", "b" }, { ".", "@/out/n" }, { "b", "a" }, { "f", "b" }, { "a", "f" }, { "@/root/a", "../out" }, { "a", "../n" } }) for (int l = 0; l < 2; l++) all.push_back({ 'K', p[0], p[1], l });
	all.push_back({ 'e', "", "", -1 });
	for (int t = 0; t < TREES; t++) for (int i = 0; i < (int)all.size(); i++) MC_CASE("tree %d: %s; ...", t, say(all[i]).c_str()) { Walk w; w.tree = t; w.ops = all; w.maxdepth = th ? 3 : t % 2 ? 1 : 2; w.limit = th ? 300 : 400; w.go({ i }); if (i == 0) { std::vector<int> none; w.play(none, -1, true, nullptr, nullptr); } }
	for (size_t s : { 0, 1, 5, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 150000 }) MC_CASE("disk full, %zu bytes", s) { room(s, "file"); room(s, "directory"); }
	for (int t = 0; t < TREES; t++) for (int i = 0; i < (int)all.size(); i++) MC_CASE("tree %d: %s leaves nothing behind", t, say(all[i]).c_str()) { size_t bytes[3]; int fds[3]; string cur; // the second and third time nothing is set up for the first time
		for (int k = 0; k < 3; k++) { grow(g_b, t); cur = g_b + "/root"; Op o = all[i]; if (twin(o, cur) == SKIP) { k = 3; break; } grow(g_a, t); { DirAccess *d = DirAccess::create_for_path((g_a + "/root").c_str()); { Guard g(-1); perform(d, o); } d->list_dir_begin(); d->get_next(); d->get_next(); memdelete(d); } bytes[k] = __sanitizer_get_current_allocated_bytes(); fds[k] = dup(0); close(fds[k]); mc::transition();
			if (k == 2) { mc::ok(fds[1] == fds[2], "left:descriptor", "tree %d: %s keeps a file open", t, say(o).c_str()); mc::ok(bytes[1] == bytes[2], "left:memory", "tree %d: %s leaves %zd bytes allocated", t, say(o).c_str(), bytes[2] - bytes[1]); } } }
	MC_CASE("long link targets") longnames();
	if (chdir("/") != 0) abort(); g_guard = false; wipe(g_base); rmdir(g_base.c_str());
}
