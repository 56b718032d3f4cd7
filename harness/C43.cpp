// MC: variant=asan
// C43: text operations of the bundled string. Every text up to a length over small alphabets, with every pattern, position and count in range and just outside it, against a straightforward reading of the text.
#include <algorithm>
#include "mc.h"
typedef std::u32string U; typedef std::vector<U> VU; typedef std::vector<int> I;
static bool g_rep = false; // how the empty text is represented: no storage, or storage with only the terminator
static String S(const U &u) { if (u.empty()) { String s; if (g_rep) s.set_length(0); return s; } return String(u.c_str()); }
static U un(const String &s) { return U(s.get_data(), s.length()); }
static std::string sh(const U &u) { std::string r = "\""; for (char32_t c : u) r += c >= 32 && c < 127 ? std::string(1, (char)c) : mc::fmt("\\x%x", (unsigned)c); return r + "\""; }
static std::string sh(const VU &v) { std::string r = "["; for (auto &u : v) r += sh(u) + " "; return r + "]"; }
static std::string a8(const U &u) { return std::string(u.begin(), u.end()); }
static bool ascii(const U &u) { for (char32_t c : u) if (c > 127) return false; return true; }
static VU uv(const Vector<String> &v) { VU r; for (int i = 0; i < v.size(); i++) r.push_back(un(v[i])); return r; }
static const U *g_t = nullptr; // text under test
static bool good(const String &s) { return s.size() == 0 || (s.get_data()[s.length()] == 0 && s.size() == s.length() + 1); }
static void is(const char *op, const String &got, const U &want, const std::string &args) { mc::transition(); bool ok = un(got) == want && good(got); if (!ok) mc::fail(op, "%s %s(%s) = %s, expected %s", sh(*g_t).c_str(), op, args.c_str(), sh(un(got)).c_str(), sh(want).c_str()); mc::S().checks++; }
static void is(const char *op, long got, long want, const std::string &args) { mc::transition(); if (got != want) mc::fail(op, "%s %s(%s) = %ld, expected %ld", sh(*g_t).c_str(), op, args.c_str(), got, want); mc::S().checks++; }
static void is(const char *op, const Vector<String> &got, const VU &want, const std::string &args) { mc::transition(); VU g = uv(got); bool fine = g == want; for (int i = 0; i < got.size(); i++) fine = fine && good(got[i]); if (!fine) mc::fail(op, "%s %s(%s) = %s, expected %s", sh(*g_t).c_str(), op, args.c_str(), sh(g).c_str(), sh(want).c_str()); mc::S().checks++; }
static char32_t lo(char32_t c) { return (c >= 'A' && c <= 'Z') || c == 0xc9 ? c + 32 : c; }
static char32_t up(char32_t c) { return (c >= 'a' && c <= 'z') || c == 0xe9 ? c - 32 : c; }
static U low(U u) { for (auto &c : u) c = lo(c); return u; }
static U upp(U u) { for (auto &c : u) c = up(c); return u; }
static int sgn(long v) { return v < 0 ? -1 : v > 0; }
static int cmp(const U &a, const U &b) { return a < b ? -1 : a > b; }
static U mid(const U &t, long from, long n) { if (from < 0 || from >= (long)t.size() || n <= 0) return U(); return t.substr(from, n); }
static int fnd(const U &t, const U &p, int from) { if (from < 0 || p.empty() || t.empty()) return -1; size_t r = t.find(p, from); return r == U::npos ? -1 : r; }
static int rfnd(const U &t, const U &p, int from) { if (p.empty() || t.empty()) return -1; size_t r = t.rfind(p, from < 0 ? U::npos : from); return r == U::npos ? -1 : r; }
static U rep(const U &t, const U &k, const U &w, bool nocase = false) { if (k.empty()) return t; U h = nocase ? low(t) : t, n = nocase ? low(k) : k, r; size_t p = 0; for (;;) { size_t q = h.find(n, p); if (q == U::npos) return r + t.substr(p); r += t.substr(p, q - p) + w; p = q + k.size(); } }
static bool wild(const U &p, const U &t, size_t i, size_t j) { if (i == p.size()) return j == t.size(); if (p[i] == '*') { for (size_t q = j; q <= t.size(); q++) if (wild(p, t, i + 1, q)) return true; return false; } return j < t.size() && (p[i] == '?' ? t[j] != '.' : p[i] == t[j]) && wild(p, t, i + 1, j + 1); }
static VU pieces(const U &t, const U &d) { VU r; size_t p = 0; for (;;) { size_t q = d.empty() ? U::npos : t.find(d, p); if (q == U::npos) { r.push_back(t.substr(p)); return r; } r.push_back(t.substr(p, q - p)); p = q + d.size(); } }
static U strip(const U &t, bool l, bool r, std::function<bool(char32_t)> f) { size_t b = 0, e = t.size(); if (l) while (b < e && f(t[b])) b++; if (r) while (e > b && f(t[e - 1])) e--; return t.substr(b, e - b); }
static VU texts(const U &al, int n) { VU r{ U() }; for (size_t i = 0; i < r.size(); i++) if ((int)r[i].size() < n) for (char32_t c : al) r.push_back(r[i] + c); return r; }
static int natural(const U &a, const U &b); // order claimed below
// ---- operations on one text alone
static void alone(const U &t) {
	g_t = &t; mc::state(sh(t)); String s = S(t), keep = s; int n = t.size();
	is("length", s.length(), n, ""); is("empty", s.empty(), n == 0, ""); for (int i = 0; i < n; i++) { is("[]", s[i], t[i], mc::fmt("%d", i)); is("ord_at", s.ord_at(i), t[i], mc::fmt("%d", i)); is("unicode_at", s.unicode_at(i), t[i], mc::fmt("%d", i)); } is("ord_at", s.ord_at(n), 0, "length"); is("ord_at", s.ord_at(-1), 0, "-1");
	for (int f = -2; f <= n + 2; f++) { for (int c = -1; c <= n + 2; c++) { if (c == -1 && f < 0) continue; is("substr", s.substr(f, c), mid(t, f, c == -1 ? n : c), mc::fmt("%d, %d", f, c)); is("substr_index", s.substr_index(f, c), f < 0 || c < f ? U() : mid(t, f, c - f), mc::fmt("%d, %d", f, c)); if (f >= 0 && f <= n && c >= 0) { String e = s; e.erase(f, c); U w = t; w.erase(f, c); is("erase", e, w, mc::fmt("%d, %d", f, c)); } }
		is("left", s.left(f), f <= 0 ? U() : t.substr(0, f), mc::fmt("%d", f)); is("right", s.right(f), f >= n ? U() : t.substr(std::max(f, 0)), mc::fmt("%d", f)); }
	for (int f = 0; f < n; f++) { String e = s; e.remove(f); U w = t; w.erase(f, 1); is("remove", e, w, mc::fmt("%d", f)); e = s; e.set(f, 'Q'); w = t; w[f] = 'Q'; is("set", e, w, mc::fmt("%d", f)); e = s; e[f] = 'Q'; is("[]=", e, w, mc::fmt("%d", f)); }
	for (int c = 0; c <= 9; c++) { U w; for (int i = 0; i < c; i++) w += t; is("repeat", s.repeat(c), w, mc::fmt("%d", c)); } for (int c = 0; c <= n; c++) { String e = s; e.set_length(c); is("set_length", e, t.substr(0, c), mc::fmt("%d", c)); is("String(text, n)", String(t.c_str(), c), t.substr(0, c), mc::fmt("%d", c)); }
	if (ascii(t)) { std::string a = a8(t); std::wstring w(t.begin(), t.end()); is("String(char*)", String(a.c_str()), t, ""); is("String(wchar_t*)", String(w.c_str()), t, ""); for (int c = 0; c <= n + 1; c++) { is("String(char*, n)", String(a.c_str(), c), t.substr(0, c), mc::fmt("%d", c)); is("String(wchar_t*, n)", String(w.c_str(), c), t.substr(0, c), mc::fmt("%d", c)); } String e = "xyz"; e = a.c_str(); is("=char*", e, t, ""); e = "xyz"; e = w.c_str(); is("=wchar_t*", e, t, ""); is("hash(char*)", s.hash(), String::hash(a.c_str()), ""); is("hash(char*, n)", s.hash(), String::hash(a.c_str(), n), ""); }
	{ String e = "xyz"; e = t.c_str(); is("=text*", e, t, ""); is("StrRange", String(StrRange(t.c_str(), n)), t, ""); is("==StrRange", s == StrRange(t.c_str(), n), 1, ""); is("hash(text*)", s.hash(), String::hash(t.c_str()), ""); is("hash(text*, n)", s.hash(), String::hash(t.c_str(), n), ""); e = s; e += e; is("+= itself", e, t + t, ""); e = s; e += e.get_data(); is("+= own data", e, t + t, ""); is("+ itself", s + s, t + t, ""); e = s; e.clear(); is("clear", e, U(), ""); }
	is("to_upper", s.to_upper(), upp(t), ""); is("to_lower", s.to_lower(), low(t), ""); for (int l = 0; l < 2; l++) for (int r = 0; r < 2; r++) is("strip_edges", s.strip_edges(l, r), strip(t, l, r, [](char32_t c) { return c <= 32; }), mc::fmt("%d, %d", l, r));
	{ U w; for (char32_t c : t) if (c >= 32) w += c; is("strip_escapes", s.strip_escapes(), w, ""); is("newline_to_br", s.newline_to_br(), rep(rep(t, U"\r\n", U"<br>"), U"\n", U"<br>"), ""); }
	{ VU b; for (int i = 0; i + 1 < n; i++) b.push_back(t.substr(i, 2)); is("bigrams", s.bigrams(), b, ""); } { VU w; U c; for (char32_t q : t + U" ") if (q > 32) c += q; else { if (c.size()) w.push_back(c); c.clear(); } is("split_spaces", s.split_spaces(), w, ""); }
	is("quote", s.quote(), U"\"" + t + U"\"", ""); is("quote", s.quote("ab"), U"ab" + t + U"ab", "ab"); { bool q = n && ((t[0] == '"' && t[n - 1] == '"') || (t[0] == '\'' && t[n - 1] == '\'')); is("is_quoted", s.is_quoted(), q, ""); is("unquote", s.unquote(), q ? mid(t, 1, n - 2) : t, ""); is("unquote", s.quote().unquote(), t, "quoted"); }
	for (int w = -1; w <= n + 3; w++) { U l = t, r = t; while ((int)l.size() < w) l = U"*" + l, r += U"*"; is("lpad", s.lpad(w, "*"), l, mc::fmt("%d", w)); is("rpad", s.rpad(w, "*"), r, mc::fmt("%d", w)); }
	{ U w; size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); U line = q == U::npos ? t.substr(p) : t.substr(p, q - p + 1); if (line != U"\n") w += U"> "; w += line; p += line.size(); } is("indent", s.indent("> "), w, "> "); bool flat = true; for (auto &l : pieces(t, U"\n")) if (l.size() && l[0] <= 32) flat = false; if (flat) is("dedent", s.indent("\t").dedent(), t, "indented"); }
	{ bool dup = false; for (char32_t c : { ',', ' ', 'a', '\n' }) { U d(1, c); VU p = pieces(t, d); is("get_slice_count", s.get_slice_count(S(d)), n ? p.size() : 0, sh(d)); for (int i = -1; i <= (int)p.size(); i++) { U w = i >= 0 && i < (int)p.size() ? p[i] : U(); is("get_slicec", s.get_slicec(c, i), w, sh(d) + mc::fmt(", %d", i)); if (p.size() > 1 || i == 0) is("get_slice", s.get_slice(S(d), i), w, sh(d) + mc::fmt(", %d", i)); } } (void)dup; }
	is("copy", keep, t, "operations above"); is("source", s, t, "operations above"); is("count of empty", s.count(""), 0, ""); is("find empty", s.find(String()), -1, "");
	is("replace", s.replace("", "x"), t, "\"\", x"); is("replace", s.replace(String(), String("x")), t, "\"\", x"); is("replacen", s.replacen(String(), String("x")), t, "\"\", x");
}
// ---- a text and a pattern
static void pattern(const U &t, const U &p) {
	g_t = &t; String s = S(t), k = S(p); int n = t.size(), m = p.size(); std::string A = sh(p), pa = a8(p); bool as = ascii(p); mc::state(sh(t) + A);
	for (int f = -1; f <= n + 1; f++) { std::string a = A + mc::fmt(", %d", f); is("find", s.find(k, f), fnd(t, p, f), a); if (as && m) is("find(char*)", s.find(pa.c_str(), f), fnd(t, p, f), a); is("findn", s.findn(k, f), fnd(low(t), low(p), f), a); is("rfind", s.rfind(k, f), rfnd(t, p, f), a); is("rfindn", s.rfindn(k, f), rfnd(low(t), low(p), f), a); if (m == 1 && f >= 0) is("find_char", s.find_char(p[0], f), fnd(t, p, f), a);
		if (f >= 0 && f < n) { bool at = t.compare(f, m, p) == 0 && f + m <= n; is("is_word_at", s.is_word_at(f, k), at, a); if (as) is("is_word_at(char*)", s.is_word_at(f, pa.c_str()), at, a); }
		{ U w = f < 0 ? t : U(t).insert(std::min(f, n), p); is("insert", s.insert(f, k), w, a); } }
	is("find_last", s.find_last(k), rfnd(t, p, -1), A); { int d = 0; while (d < n && d < m && t[d] == p[d]) d++; is("find_first_difference_index", s.find_first_difference_index(k), d, A); }
	bool b = n >= m && t.compare(0, m, p) == 0, e = n >= m && t.compare(n - m, m, p) == 0; is("begins_with", s.begins_with(k), b, A); if (as) is("begins_with(char*)", s.begins_with(pa.c_str()), b, A); is("ends_with", s.ends_with(k), e, A); is("is_enclosed_in", s.is_enclosed_in(k), b && e, A); is("trim_prefix", s.trim_prefix(k), b ? t.substr(m) : t, A); is("trim_suffix", s.trim_suffix(k), e ? t.substr(0, n - m) : t, A);
	if (m) { is("contains", s.contains(k), fnd(t, p, 0) >= 0, A); if (as) is("contains(char*)", s.contains(pa.c_str()), fnd(t, p, 0) >= 0, A); }
	{ auto sub = [](const U &a, const U &b) { size_t i = 0; for (char32_t c : b) if (i < a.size() && a[i] == c) i++; return i == a.size(); }; is("is_subsequence_of", k.is_subsequence_of(s), sub(p, t), A); is("is_subsequence_ofi", k.is_subsequence_ofi(s), sub(low(p), low(t)), A); is("is_subsequence_of", s.is_subsequence_of(k), sub(t, p), A); is("is_subsequence_ofi", s.is_subsequence_ofi(k), sub(low(t), low(p)), A); }
	// comparison, equality, hash
	int c = cmp(t, p), cn = cmp(upp(t), upp(p)); is("casecmp_to", sgn(s.casecmp_to(k)), c, A); is("nocasecmp_to", sgn(s.nocasecmp_to(k)), cn, A); is("<", s < k, c < 0, A); is("<=", s <= k, c <= 0, A); is(">", s > k, c > 0, A); is(">=", s >= k, c >= 0, A); is("==", s == k, c == 0, A); is("!=", s != k, c != 0, A); is("==text*", s == p.c_str(), c == 0, A); is("!=text*", s != p.c_str(), c != 0, A); is("<text*", s < p.c_str(), c < 0, A); is("==StrRange", s == StrRange(p.c_str(), m), c == 0, A); is("hash", s.hash() == k.hash(), c == 0, A); is("hash64", s.hash64() == k.hash64(), c == 0, A);
	if (as) { std::wstring w(p.begin(), p.end()); is("==char*", s == pa.c_str(), c == 0, A); is("!=char*", s != pa.c_str(), c != 0, A); is("<char*", s < pa.c_str(), c < 0, A); is("==wchar_t*", s == w.c_str(), c == 0, A); is("!=wchar_t*", s != w.c_str(), c != 0, A); is("<wchar_t*", s < w.c_str(), c < 0, A); is("char*==", pa.c_str() == s, c == 0, A); is("char*!=", pa.c_str() != s, c != 0, A); is("wchar_t*==", w.c_str() == s, c == 0, A); String q = s; q += pa.c_str(); is("+=char*", q, t + p, A); q = s; q += w.c_str(); is("+=wchar_t*", q, t + p, A); is("char*+", pa.c_str() + s, p + t, A); is("wchar_t*+", w.c_str() + s, p + t, A); }
	{ String q = s; q += k; is("+=", q, t + p, A); is("+", s + k, t + p, A); q = s; q += p.c_str(); is("+=text*", q, t + p, A); if (m == 1) { q = s; q += p[0]; is("+=character", q, t + p, A); is("character+", p[0] + s, p + t, A); } is("source", s, t, "appending to a copy"); }
	{ double sim; if (t == p) sim = 1; else if (n < 2 || m < 2) sim = 0; else { std::map<U, int> x; int in = 0; for (int i = 0; i + 1 < m; i++) x[p.substr(i, 2)]++; for (int i = 0; i + 1 < n; i++) if (x[t.substr(i, 2)]-- > 0) in++; sim = 2.0 * in / (n + m - 2); } float g = s.similarity(k); mc::ok(mc::close(sim, g, 1e-5, 1e-6), "similarity", "%s similarity to %s is %g, expected %g", sh(t).c_str(), A.c_str(), g, sim); }
	is("lstrip", s.lstrip(k), strip(t, true, false, [&](char32_t q) { return p.find(q) != U::npos; }), A); is("rstrip", s.rstrip(k), strip(t, false, true, [&](char32_t q) { return p.find(q) != U::npos; }), A);
	if (!m) return;
	for (const U &w : VU{ U(), U"x", U"yz,", p, p + p }) { std::string a = A + ", " + sh(w); is("replace", s.replace(k, S(w)), rep(t, p, w), a); if (as && ascii(w)) is("replace(char*)", s.replace(pa.c_str(), a8(w).c_str()), rep(t, p, w), a); is("replacen", s.replacen(k, S(w)), rep(t, p, w, true), a); int f = fnd(t, p, 0); is("replace_first", s.replace_first(k, S(w)), f < 0 ? t : U(t).replace(f, m, w), a); }
	for (int f = 0; f <= n + 1; f++) for (int to = 0; to <= n + 1; to++) { int hi = to ? std::min(to, n) : n; long w = 0, wn = 0; if (f < hi) { U r = t.substr(f, hi - f); w = pieces(r, p).size() - 1; wn = pieces(low(r), low(p)).size() - 1; } std::string a = A + mc::fmt(", %d, %d", f, to); is("count", s.count(k, f, to), w, a); is("countn", s.countn(k, f, to), wn, a); }
	// splitting
	VU all = pieces(t, p); is("get_slice_count", s.get_slice_count(k), n ? all.size() : 0, A); if (n && all.size() > 1) for (int i = -1; i <= (int)all.size(); i++) is("get_slice", s.get_slice(k, i), i >= 0 && i < (int)all.size() ? all[i] : U(), A + mc::fmt(", %d", i));
	{ Vector<String> v; for (auto &q : all) v.push_back(S(q)); is("join", k.join(v), t, A); }
	for (int em = 0; em < 2; em++) for (int mx = 0; mx <= 3; mx++) { std::string a = A + mc::fmt(", %d, %d", em, mx);
		VU w; size_t from = 0; for (;;) { size_t q = t.find(p, from), end = q == U::npos ? n : q; if (em || end > from) { if (mx && (int)w.size() == mx) { w.push_back(t.substr(from)); break; } w.push_back(t.substr(from, end - from)); } if (q == U::npos) break; from = q + m; } is("split", s.split(k, em, mx), w, a);
		VU r; int rest = n; for (;;) { if (mx && (int)r.size() == mx) { if (em || rest) r.push_back(t.substr(0, rest)); break; } size_t q = rest < m ? U::npos : t.rfind(p, rest - m); if (q == U::npos) { if (em || rest) r.push_back(t.substr(0, rest)); break; } if (em || (int)q + m < rest) r.push_back(t.substr(q + m, rest - q - m)); rest = q; } std::reverse(r.begin(), r.end()); is("rsplit", s.rsplit(k, em, mx), r, a); }
	is("source", s, t, "operations above");
}
static void keys(const U &t, const VU &ks) { g_t = &t; Vector<String> v; for (auto &k : ks) v.push_back(S(k)); String s = S(t); for (int f = -1; f <= (int)t.size(); f++) { int best = -1, key = -1; for (int i = std::max(f, 0); f >= 0 && best < 0 && i < (int)t.size(); i++) for (size_t q = 0; q < ks.size() && best < 0; q++) if (t.compare(i, ks[q].size(), ks[q]) == 0) best = i, key = q; int got = -7, r = s.findmk(v, f, &got); is("findmk", r, best, sh(ks) + mc::fmt(", %d", f)); if (best >= 0) is("findmk key", got, key, sh(ks) + mc::fmt(", %d", f)); is("findmk no key", s.findmk(v, f), best, sh(ks) + mc::fmt(", %d", f)); } }
// numbers in lists
static void numbers(const I &v, const VU &seps, const I &which) {
	U t; for (size_t i = 0; i < v.size(); i++) { if (i) t += seps[which[i - 1] % seps.size()]; std::string q = std::to_string(v[i]); t += U(q.begin(), q.end()); } g_t = &t; mc::state(sh(t)); String s = S(t); Vector<String> sp; for (auto &q : seps) sp.push_back(S(q));
	auto same = [&](const char *op, const std::vector<double> &g, bool half) { bool ok = g.size() == v.size(); for (size_t i = 0; ok && i < v.size(); i++) ok = g[i] == v[i]; mc::transition(); mc::ok(ok, op, "%s %s: %zu numbers, expected %zu", sh(t).c_str(), op, g.size(), v.size()); };
	auto fl = [](const Vector<float> &x) { std::vector<double> r; for (int i = 0; i < x.size(); i++) r.push_back(x[i]); return r; }; auto in = [](const Vector<int> &x) { std::vector<double> r; for (int i = 0; i < x.size(); i++) r.push_back(x[i]); return r; };
	for (int em = 0; em < 2; em++) { same("split_floats_mk", fl(s.split_floats_mk(sp, em)), 0); same("split_ints_mk", in(s.split_ints_mk(sp, em)), 0); if (seps.size() == 1) { same("split_floats", fl(s.split_floats(sp[0], em)), 0); same("split_ints", in(s.split_ints(sp[0], em)), 0); } } is("source", s, t, "splitting numbers");
}
void explore() {
	bool T = mc::thorough(); const U al1 = U"ab,", al2 = U"aA\xe9\xc9 ", al3 = U"a \n\"", al4 = U"\t\r\na'"; int N = T ? 6 : 5;
	for (const U &al : { al1, al2, al3, al4 }) { VU ts = texts(al, al.size() > 4 && !T ? 4 : N), ps = texts(al, T ? 3 : 2); size_t chunk = 24; for (size_t b = 0; b < ts.size(); b += chunk) MC_CASE("alphabet %s, texts %zu and following", sh(al).c_str(), b) for (size_t i = b; i < std::min(b + chunk, ts.size()); i++) for (int rp = 0; rp < (ts[i].empty() ? 2 : 1); rp++) { g_rep = rp; alone(ts[i]); for (auto &p : ps) pattern(ts[i], p); g_rep = false; if (ts[i].empty()) { g_rep = true; for (auto &p : ps) pattern(ts[i], p); g_rep = false; } pattern(ts[i], ts[i]); pattern(ts[i], ts[i] + U"a"); if (ts[i].size() > 2) pattern(ts[i], ts[i].substr(1)), pattern(ts[i], ts[i].substr(0, ts[i].size() - 1)); } }
	// empty text in its other representation on the pattern side
	MC_CASE("patterns represented by a lone terminator") for (auto &t : texts(al1, 3)) { String e; e.set_length(0); String s = S(t); g_t = &t; is("begins_with", s.begins_with(e), 1, "empty"); is("ends_with", s.ends_with(e), 1, "empty"); is("==", s == e, t.empty(), "empty"); is("==", e == s, t.empty(), "empty"); is("<", e < s, !t.empty(), "empty"); is("<", s < e, 0, "empty"); is("casecmp_to", sgn(s.casecmp_to(e)), !t.empty(), "empty"); is("+", s + e, t, "empty"); is("+", e + s, t, "empty"); String q = e; q += s; is("+=", q, t, "empty"); is("find", s.find(e), -1, "empty"); is("replace", s.replace(e, String("x")), t, "empty"); is("hash", e.hash() == String().hash(), 1, "empty"); is("insert", s.insert(0, e), t, "empty"); is("==char*", e == "", 1, ""); is("trim_prefix", s.trim_prefix(e), t, "empty"); }
	// long patterns in long texts: overlapping occurrences
	for (int n = 6; n <= (T ? 14 : 11); n++) for (int part = 0; part < (n > 8 ? 8 : 1); part++) MC_CASE("texts of %d characters over two letters, part %d", n, part) for (int w = part; w < 1 << n; w += n > 8 ? 8 : 1) { U t; for (int i = 0; i < n; i++) t += w >> i & 1 ? 'b' : 'a'; for (const U &p : { U(U"aa"), U(U"aba"), U(U"abab"), U(U"aab"), U(U"bbb"), t.substr(n / 2), t.substr(1), t }) { g_t = &t; String s = S(t), k = S(p); std::string A = sh(p); mc::state(sh(t) + A); is("find", s.find(k), fnd(t, p, 0), A); is("rfind", s.rfind(k), rfnd(t, p, -1), A); is("findn", s.findn(k, 1), fnd(t, p, 1), A); is("count", s.count(k), pieces(t, p).size() - 1, A); is("replace", s.replace(k, "-"), rep(t, p, U"-"), A); is("split", s.split(k), pieces(t, p), A); is("ends_with", s.ends_with(k), n >= (int)p.size() && t.substr(n - p.size()) == p, A); } }
	// wild cards
	{ VU ts = texts(U"aB.", 4), ps = texts(U"ab*?", T ? 5 : 4); for (size_t b = 0; b < ps.size(); b += 16) MC_CASE("wild cards, patterns %zu and following", b) for (size_t i = b; i < std::min(b + 16, ps.size()); i++) for (auto &t : ts) { g_t = &t; is("match", S(t).match(S(ps[i])), t.size() && ps[i].size() && wild(ps[i], t, 0, 0), sh(ps[i])); is("matchn", S(t).matchn(S(ps[i])), t.size() && ps[i].size() && wild(low(ps[i]), low(t), 0, 0), sh(ps[i])); is("match", S(t).match(S(ps[i] + U"B")), t.size() && wild(ps[i] + U"B", t, 0, 0), sh(ps[i] + U"B")); } }
	// several keys
	{ VU ts = texts(U"ab,", T ? 6 : 5), ks = texts(U"ab,", 2); ks.erase(ks.begin()); for (size_t a = 0; a < ks.size(); a++) MC_CASE("several keys: %s", sh(ks[a]).c_str()) for (auto &t : ts) { keys(t, { ks[a] }); for (auto &k : ks) { keys(t, { ks[a], k }); if (T || t.size() < 5) keys(t, { ks[a], U"ba", k }); } } }
	// number lists
	{ I vals = { 0, 7, -3, 120, -4096 }; for (int n = 1; n <= (T ? 5 : 4); n++) MC_CASE("lists of %d numbers", n) { long tot = 1; for (int i = 0; i < n; i++) tot *= vals.size(); for (long c = 0; c < tot; c++) { I v, w; long q = c; for (int i = 0; i < n; i++) v.push_back(vals[q % vals.size()]), w.push_back(q / 3), q /= vals.size(); for (const VU &sp : { VU{ U"," }, VU{ U"; " }, VU{ U",", U" | " }, VU{ U"<->", U"x", U":" } }) numbers(v, sp, w); } } }
	// natural order: a total preorder that ignores case, compares digit runs by value and refines nothing else
	{ VU ts = texts(U"aB1023.", T ? 4 : 3); for (auto &u : { U"a2", U"a10", U"a02", U"a10b", U"a9b", U"A11c", U"file9", U"file10", U"file100", U"12345678901234567890", U"12345678901234567891", U"a1b2", U"a1b10", U"a01b2" }) ts.push_back(u); for (size_t b = 0; b < ts.size(); b += 8) MC_CASE("natural order, texts %zu and following", b) for (size_t i = b; i < std::min(b + 8, ts.size()); i++) for (size_t j = 0; j < ts.size(); j++) { g_t = &ts[i]; int x = sgn(S(ts[i]).naturalnocasecmp_to(S(ts[j]))), y = sgn(S(ts[j]).naturalnocasecmp_to(S(ts[i]))); is("naturalnocasecmp_to antisymmetry", x, -y, sh(ts[j])); if (i == j || low(ts[i]) == low(ts[j])) is("naturalnocasecmp_to equal", x, 0, sh(ts[j]));
		bool plain = ts[i].size() && ts[j].size(), digits = false; for (auto *u : { &ts[i], &ts[j] }) for (char32_t c : *u) { if (c == '.') plain = false; if (c >= '0' && c <= '9') digits = true; } if (plain && !digits) is("naturalnocasecmp_to letters", x, cmp(upp(ts[i]), upp(ts[j])), sh(ts[j]));
		if (plain && digits) is("naturalnocasecmp_to", x, natural(ts[i], ts[j]), sh(ts[j])); } }
	for (int em = 0; em < 2; em++) for (int k = 0; k < 4; k++) MC_CASE("numbers in the empty text, empty entries %d, operation %d", em, k) { String e; Vector<String> sp; sp.push_back(","); U none; g_t = &none; long w = em, g = k == 0 ? e.split_floats(",", em).size() : k == 1 ? e.split_ints(",", em).size() : k == 2 ? e.split_floats_mk(sp, em).size() : e.split_ints_mk(sp, em).size(); is("numbers in the empty text", g, w, ""); }
	// the orders used for sorting names, and that natural order is an order: over every three of these texts
	{ VU ts = texts(U"aB10.", 2); for (auto &u : { U"a2", U"a10", U"a02", U"A11c", U"..", U".a", U"a.1", U"a.10", U"a.2", U"file9", U"file10" }) ts.push_back(u); size_t n = ts.size(); std::vector<signed char> m(n * n);
		MC_CASE("orders by name") { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { g_t = &ts[i]; String a = S(ts[i]), b = S(ts[j]); m[i * n + j] = sgn(a.naturalnocasecmp_to(b)); is("NaturalNoCaseComparator", NaturalNoCaseComparator()(a, b), m[i * n + j] < 0, sh(ts[j])); is("NoCaseComparator", NoCaseComparator()(a, b), cmp(upp(ts[i]), upp(ts[j])) < 0, sh(ts[j])); }
			for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) { g_t = &ts[i]; if (m[i * n + j] <= 0 && m[j * n + k] <= 0) is("naturalnocasecmp_to transitivity", (int)m[i * n + k], m[i * n + j] && m[j * n + k] ? -1 : std::min((int)m[i * n + j], (int)m[j * n + k]), sh(ts[j]) + " " + sh(ts[k])); } } }
	MC_CASE("classes of characters") { U none; g_t = &none; auto in = [](char32_t c, const U &l) { return c && l.find(c) != U::npos; };
		for (char32_t c = 0; c <= 0x110000; c++) { bool a = c < 128; std::string w = mc::fmt("U+%04x", (unsigned)c); bool up = a && isupper(c), lo = a && islower(c), dg = a && isdigit(c), al = up || lo;
			bool lb = (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029, ws = lb || c == 9 || in(c, U"\u0020\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u202f\u205f\u3000"), sy = a && (ispunct(c) || c == ' ' || c == '\t') && c != '_';
			is("is_ascii_upper_case", is_ascii_upper_case(c), up, w); is("is_ascii_lower_case", is_ascii_lower_case(c), lo, w); is("is_digit", is_digit(c), dg, w); is("is_hex_digit", is_hex_digit(c), a && isxdigit(c), w); is("is_binary_digit", is_binary_digit(c), c == '0' || c == '1', w);
			is("is_ascii_char", is_ascii_char(c), al, w); is("is_ascii_alphanumeric_char", is_ascii_alphanumeric_char(c), al || dg, w); is("is_ascii_identifier_char", is_ascii_identifier_char(c), al || dg || c == '_', w); is("is_underscore", is_underscore(c), c == '_', w); is("is_symbol", is_symbol(c), sy, w);
			is("is_control", is_control(c), c < 32 || (c >= 127 && c < 160), w); is("is_whitespace", is_whitespace(c), ws, w); is("is_linebreak", is_linebreak(c), lb, w); if (a) is("is_punct", is_punct(c), (ispunct(c) && c != '_') || c == ' ', w);
			bool st = is_unicode_identifier_start(c), co = is_unicode_identifier_continue(c); if (a) { is("is_unicode_identifier_start", st, al || (st && c == '_'), w); is("is_unicode_identifier_continue", co, al || dg || c == '_', w); } if (st) is("is_unicode_identifier_continue", co, true, w); if (ws || (c >= 0xd800 && c < 0xf900) || c > 0xe01ef) is("is_unicode_identifier_continue", co, false, w); }
		for (char32_t c : { 0xe9, 0xdf, 0x130, 0x3b1, 0x434, 0x5d0, 0x639, 0x915, 0xe01, 0x10d0, 0x1100, 0x3042, 0x4e2d, 0x9fff, 0xac00, 0xd7a3, 0x10400, 0x1d400, 0x20000, 0x2a6df, 0x3134a }) is("is_unicode_identifier_start", is_unicode_identifier_start(c), true, mc::fmt("U+%04x", (unsigned)c)); }
	MC_CASE("digests as text") for (int i = 0; i < 256; i++) { U none; g_t = &none; uint8_t d[16]; std::string e; for (int k = 0; k < 16; k++) { d[k] = (uint8_t)(i + 37 * k); e += mc::fmt("%02x", d[k]); } is("md5", String::md5(d), U(e.begin(), e.end()), mc::fmt("%d", i)); }
	// words
	MC_CASE("words") { VU w = { U"alpha", U"bee", U"cat", U"delta" }; for (int n = 1; n <= 3; n++) for (int c = 0; c < (n == 1 ? 4 : n == 2 ? 16 : 64); c++) { U under, camel, title; for (int i = 0, q = c; i < n; i++, q /= 4) { U x = w[q % 4], y = x; y[0] = up(y[0]); under += (i ? U"_" : U"") + x; camel += y; title += (i ? U" " : U"") + y; } g_t = &under; is("capitalize", S(under).capitalize(), title, ""); is("camelcase_to_underscore", S(camel).camelcase_to_underscore(), under, sh(camel)); is("capitalize", S(camel).capitalize(), title, sh(camel)); U k; for (size_t i = 0; i < under.size(); i++) k += i == 0 || under[i - 1] == '_' ? up(under[i]) : under[i]; is("camelcase_to_underscore", S(camel).camelcase_to_underscore(false), k, sh(camel) + ", keep case"); } }
	// decimal padding
	MC_CASE("padding of numbers") for (const char *sg : { "", "-" }) for (const char *ip : { "0", "7", "42", "1234" }) for (const char *fp : { "", ".5", ".25", ".1234", "." }) for (int d = 0; d <= 6; d++) { std::string x = std::string(sg) + ip + fp; U t(x.begin(), x.end()); g_t = &t; std::string z(std::max(0, d - (int)strlen(ip)), '0'), w = std::string(sg) + z + ip + fp; is("pad_zeros", S(t).pad_zeros(d), U(w.begin(), w.end()), mc::fmt("%d", d)); std::string f = fp[0] ? fp + 1 : ""; f.resize(d, '0'); w = std::string(sg) + ip + (d ? "." + f : ""); is("pad_decimals", S(t).pad_decimals(d), U(w.begin(), w.end()), mc::fmt("%d", d)); }
}
static int natural(const U &a, const U &b) { size_t i = 0, j = 0; auto dg = [](char32_t c) { return c >= '0' && c <= '9'; };
	while (i < a.size()) { if (j == b.size()) return 1; if (dg(a[i]) != dg(b[j])) return dg(a[i]) ? -1 : 1; if (dg(a[i])) { U x, y; while (i < a.size() && dg(a[i])) x += a[i++]; while (j < b.size() && dg(b[j])) y += b[j++]; while (x.size() && x[0] == '0') x.erase(0, 1); while (y.size() && y[0] == '0') y.erase(0, 1); if (x.size() != y.size()) return x.size() < y.size() ? -1 : 1; if (x != y) return x < y ? -1 : 1; } else { if (up(a[i]) != up(b[j])) return up(a[i]) < up(b[j]) ? -1 : 1; i++; j++; } } return j < b.size() ? -1 : 0; }
