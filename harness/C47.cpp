// MC: variant=asan
// C47: encodings, escapes and numbers as text. Every text, byte sequence or numeral up to a length over alphabets of the characters which matter, against the published definition of each encoding.
#include "txt.h"
#include <cmath>
#include <cfloat>
#include <cinttypes>
using mc::fmt;
typedef std::u16string U16;
static string b(const CharString &c) { return string(c.get_data(), c.length()); }
static string vb(const Vector<uint8_t> &v) { return string((const char *)v.ptr(), v.size()); }
static bool hexd(char32_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool dig(char32_t c) { return c >= '0' && c <= '9'; }
static int hv(char32_t c) { return dig(c) ? c - '0' : (c | 32) - 'a' + 10; }
// ---- encodings
static U16 enc16(const U &u) { U16 r; for (uint32_t c : u) if (c < 0x10000) r += (char16_t)c; else { r += (char16_t)(0xd800 + ((c - 0x10000) >> 10)); r += (char16_t)(0xdc00 + (c & 0x3ff)); } return r; }
static void encodings(const U &t) {
	String s = S(t); string a = sh(t); string e = enc8(t); U16 e16 = enc16(t); mc::state(a);
	mc::ok(b(s.utf8()) == e, "utf8", "%s as UTF-8 is %s", a.c_str(), hx(b(s.utf8())).c_str()); is("utf8_byte_length", s.utf8_byte_length(), e.size(), a); mc::ok(vb(s.to_utf8_buffer()) == e, "to_utf8_buffer", "%s", a.c_str());
	is("String::utf8", String::utf8(e.c_str()), t, hx(e)); is("String::utf8", String::utf8((e + "zz").c_str(), e.size()), t, hx(e) + ", length"); is("parse_utf8 marked", String::utf8(("\xef\xbb\xbf" + e).c_str()), t, hx(e)); is("parse_utf8 marked", String::utf8(("\xef\xbb\xbf" + e + "q").c_str(), e.size() + 3), t, hx(e) + ", length");
	{ String p = "old"; Error r = p.parse_utf8(e.c_str()); mc::ok(r == OK && un(p) == t, "parse_utf8", "%s read as %s, error %d", hx(e).c_str(), sh(p).c_str(), r); U nc = t; nc.erase(std::remove(nc.begin(), nc.end(), U'\r'), nc.end()); r = p.parse_utf8(e.c_str(), -1, true); mc::ok(r == OK && un(p) == nc && good(p), "parse_utf8:cr", "%s without carriage returns read as %s, error %d", hx(e).c_str(), sh(p).c_str(), r); }
	Char16String c16 = s.utf16(); U16 g16(c16.get_data(), c16.length()); mc::ok(g16 == e16, "utf16", "%s as UTF-16: %zu units", a.c_str(), g16.size()); is("utf16_byte_length", s.utf16_byte_length(), e16.size() , a);
	is("String::utf16", String::utf16(e16.c_str()), t, a); { U16 x = e16 + u"zz"; is("String::utf16", String::utf16(x.c_str(), e16.size()), t, a + ", length"); x = u"\xfeff" + e16; is("utf16 marked", String::utf16(x.c_str()), t, a); for (auto &c : x) c = (char16_t)(c << 8 | c >> 8); is("utf16 swapped", String::utf16(x.c_str()), t, a); is("String(Char16String)", String(s.utf16()), t, a); }
	mc::ok(vb(s.to_utf16_buffer()) == string((const char *)e16.data(), e16.size() * 2), "to_utf16_buffer", "%s", a.c_str()); mc::ok(vb(s.to_utf32_buffer()) == string((const char *)t.data(), t.size() * 4), "to_utf32_buffer", "%s", a.c_str());
	string as, ax; for (uint32_t c : t) { as += c < 128 ? (char)c : ' '; ax += c < 256 ? (char)c : ' '; } mc::ok(b(s.ascii()) == as && vb(s.to_ascii_buffer()) == as, "ascii", "%s as ascii is %s", a.c_str(), b(s.ascii()).c_str()); mc::ok(b(s.ascii(true)) == ax, "ascii:extended", "%s", a.c_str());
	bool valid = true; for (uint32_t c : t) valid = valid && (c < 0xd800 || c > 0xdfff) && c <= 0x10ffff; is("is_valid_string", s.is_valid_string(), valid, a); is("original", s, t, "after encoding");
}
static void byteseq(const string &e) {
	U want; bool ok = dec8(e, want); String p = "old"; Error r = p.parse_utf8(e.c_str(), e.size()); mc::transition(); mc::state(hx(e));
	if (e.size() >= 3 && e.substr(0, 3) == "\xef\xbb\xbf") ok = dec8(e.substr(3), want);
	mc::ok((r == OK) == ok && (!ok || un(p) == want), "parse_utf8:bytes", "bytes %s: error %d, text %s, %s", hx(e).c_str(), r, sh(p).c_str(), ok ? ("expected " + sh(want)).c_str() : "not UTF-8");
	U g = un(p); mc::ok(good(p) && g.find(U'\0') == U::npos && g.size() <= e.size(), "parse_utf8:damaged", "bytes %s: text %s", hx(e).c_str(), sh(p).c_str());
	String q = String::utf8(e.c_str()); mc::ok(un(q) == g, "parse_utf8:length", "bytes %s read with and without a length differ: %s", hx(e).c_str(), sh(q).c_str());
	U clean; if (!ok) { bool pre = true; for (size_t i = 0; i < e.size() && pre; i++) { pre = (unsigned char)e[i] < 128; if (pre) clean += (char32_t)e[i]; } mc::ok(g.compare(0, clean.size(), clean) == 0, "parse_utf8:prefix", "bytes %s: text %s lost the good part", hx(e).c_str(), sh(p).c_str()); }
}
static void unitseq(const U16 &e) {
	U want; bool ok = true, sw = false; size_t i0 = 0; if (!e.empty() && (e[0] == 0xfeff || e[0] == 0xfffe)) { i0 = 1; sw = e[0] == 0xfffe; }
	auto at = [&](size_t i) { uint32_t c = e[i]; return sw ? (c << 8 | c >> 8) & 0xffff : c; };
	for (size_t i = i0; i < e.size(); i++) { uint32_t c = at(i); if (c >= 0xd800 && c < 0xdc00 && i + 1 < e.size() && at(i + 1) >= 0xdc00 && at(i + 1) < 0xe000) { want += (char32_t)(0x10000 + ((c - 0xd800) << 10) + (at(i + 1) - 0xdc00)); i++; } else { if (c >= 0xd800 && c < 0xe000) ok = false; want += (char32_t)c; } }
	string a; for (auto c : e) a += fmt("%04x ", c); String p = "old"; Error r = p.parse_utf16(e.c_str(), e.size()); mc::transition(); mc::state(a);
	mc::ok((r == OK) == ok && un(p) == want && good(p), "parse_utf16", "units %s: error %d, text %s, expected %s", a.c_str(), r, sh(p).c_str(), sh(want).c_str()); mc::ok(un(String::utf16(e.c_str())) == want, "parse_utf16:length", "units %s without length", a.c_str());
}
// ---- escapes
static const std::vector<std::pair<char32_t, U>> CE = { { '\\', U"\\\\" }, { '\a', U"\\a" }, { '\b', U"\\b" }, { '\f', U"\\f" }, { '\n', U"\\n" }, { '\r', U"\\r" }, { '\t', U"\\t" }, { '\v', U"\\v" }, { '\'', U"\\'" }, { '?', U"\\?" }, { '"', U"\\\"" } };
static U esc(const U &t, const char *which) { U r; for (char32_t c : t) { bool d = false; if (c < 128) for (auto &p : CE) if (p.first == c && strchr(which, (int)c) && c) { r += p.second; d = true; } if (!d) r += c; } return r; }
static void cescapes(const U &t) {
	String s = S(t); string a = sh(t); mc::state(a); U e = esc(t, "\\\a\b\f\n\r\t\v'?\"");
	is("c_escape", s.c_escape(), e, a); is("c_unescape", S(e).c_unescape(), t, sh(e)); is("c_escape_multiline", s.c_escape_multiline(), esc(t, "\\\""), a); is("json_escape", s.json_escape(), esc(t, "\\\b\f\n\r\t\v\""), a); is("c_unescape:any", un(S(e).c_unescape()) == t && s.c_escape().c_unescape() == s, true, a);
	U r; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '\\' && i + 1 < t.size()) { bool d = false; for (auto &p : CE) if (p.second[1] == t[i + 1]) { r += p.first; d = true; } if (d) { i++; continue; } } r += t[i]; }
	is("c_unescape", s.c_unescape(), r, a); is("original", s, t, "after escaping");
	bool plain = true; for (char32_t c : t) if (c == '=' || c == '"' || c == ';' || c == '[' || c == ']' || c < 33 || c > 126) plain = false;
	is("property_name_encode", s.property_name_encode(), plain ? t : U"\"" + esc(t, "\\\"") + U"\"", a);
}
static U xml(const U &t, bool q) { U r; for (char32_t c : t) switch (c) { case '&': r += U"&amp;"; break; case '<': r += U"&lt;"; break; case '>': r += U"&gt;"; break; case '\'': r += q ? U"&apos;" : U"'"; break; case '"': r += q ? U"&quot;" : U"\""; break; default: r += c; } return r; }
static U unxml(const U &t) {
	static const std::vector<std::pair<U, char32_t>> E = { { U"&gt;", '>' }, { U"&lt;", '<' }, { U"&amp;", '&' }, { U"&quot;", '"' }, { U"&apos;", '\'' } }; U r;
	for (size_t i = 0; i < t.size();) { bool d = false;
		if (t[i] == '&') { for (auto &e : E) if (t.compare(i, e.first.size(), e.first) == 0) { r += e.second; i += e.first.size(); d = true; break; }
			if (!d && i + 1 < t.size() && t[i + 1] == '#') { bool x = i + 2 < t.size() && t[i + 2] == 'x'; size_t j = i + (x ? 3 : 2), k = j; uint64_t v = 0; while (k < t.size() && (x ? hexd(t[k]) : dig(t[k]))) { v = std::min<uint64_t>(v * (x ? 16 : 10) + hv(t[k]), 1ull << 40); k++; } if (k > j && k < t.size() && t[k] == ';' && v > 0 && v <= 0x7fffffff) { r += (char32_t)v; i = k + 1; d = true; } } }
		if (!d) r += t[i++]; }
	return r;
}
static void xmls(const U &t) { String s = S(t); string a = sh(t); mc::state(a); for (int q = 0; q < 2; q++) { is("xml_escape", s.xml_escape(q), xml(t, q), a); is("xml_unescape", S(xml(t, q)).xml_unescape(), t, sh(xml(t, q))); } is("xml_unescape", s.xml_unescape(), unxml(t), a); }
static string pct(const string &e, const char *H) { string r; for (unsigned char c : e) if (isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') r += (char)c; else { r += '%'; r += H[c >> 4]; r += H[c & 15]; } return r; }
static string unpct(const string &e, bool plus) { string r; for (size_t i = 0; i < e.size(); i++) if (e[i] == '%' && i + 2 < e.size() && hexd((unsigned char)e[i + 1]) && hexd((unsigned char)e[i + 2])) { r += (char)(hv(e[i + 1]) * 16 + hv(e[i + 2])); i += 2; } else r += plus && e[i] == '+' ? ' ' : e[i]; return r; }
static void uris(const U &t) {
	String s = S(t); string a = sh(t), e = enc8(t); mc::state(a); string hi = pct(e, "0123456789ABCDEF"), lo = pct(e, "0123456789abcdef");
	is("http_escape", s.http_escape(), w(hi), a); is("uri_encode", s.uri_encode(), w(hi), a); is("percent_encode", s.percent_encode(), w(lo), a);
	for (auto &x : { hi, lo }) { String y(x.c_str()); is("http_unescape", y.http_unescape(), t, x); is("uri_decode", y.uri_decode(), t, x); is("percent_decode", y.percent_decode(), t, x); }
	for (int plus = 0; plus < 2; plus++) { string d = unpct(e, plus); U u; if (d.find('\0') != string::npos || !dec8(d, u)) continue; if (plus) is("uri_decode", s.uri_decode(), u, a); else { is("http_unescape", s.http_unescape(), u, a); is("percent_decode", s.percent_decode(), u, a); } }
}
// ---- validators
static void validators(const U &t) {
	String s = S(t); string a = sh(t); mc::state(a); size_t n = t.size(); auto all = [&](size_t from, std::function<bool(char32_t)> f) { for (size_t i = from; i < n; i++) if (!f(t[i])) return false; return true; };
	auto idc = [](char32_t c) { return dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
	is("is_valid_identifier", s.is_valid_identifier(), n && !dig(t[0]) && all(0, idc), a);
	bool sg = n && (t[0] == '+' || t[0] == '-'); is("is_valid_integer", s.is_valid_integer(), n > sg && all(sg, dig), a); bool pl = n && t[0] == '+'; is("is_valid_unsigned_integer", s.is_valid_unsigned_integer(), n > pl && all(pl, dig), a);
	is("is_valid_hex_number", s.is_valid_hex_number(false), n > sg && all(sg, hexd), a); if (!(n == 2u + sg && t.substr(sg) == U"0x")) is("is_valid_hex_number:prefix", s.is_valid_hex_number(true), n > 2u + sg && t[sg] == '0' && t[sg + 1] == 'x' && all(sg + 2, hexd), a);
	{ size_t i = sg, d = 0; bool dot = false, bad = false; while (i < n && (dig(t[i]) || (t[i] == '.' && !dot))) { if (t[i] == '.') dot = true; else d++; i++; } bool ok = d > 0; if (i < n && t[i] == 'e' && ok) { i++; if (i < n && (t[i] == '+' || t[i] == '-')) i++; size_t x = i; while (i < n && dig(t[i])) i++; if (i == x) bad = true; } if (!bad) is("is_valid_float", s.is_valid_float(), ok && i == n, a); }
	{ bool m = n && t[0] == '-'; size_t d = 0, p = 0; bool o = true; for (size_t i = m; i < n; i++) if (dig(t[i])) d++; else if (t[i] == '.') p++; else o = false; if (d) { is("is_numeric", s.is_numeric(), o && p <= 1, a); bool z = o && p <= 1; for (size_t i = m; i < n; i++) if (t[i] != '0' && t[i] != '.') z = false; is("is_zero", s.is_zero(), z, a); } }
	{ U l; for (char32_t c : t) l += c >= 'A' && c <= 'Z' ? c + 32 : c; is("is_valid_bool", s.is_valid_bool(), l == U"0" || l == U"1" || l == U"true" || l == U"false", a); }
	bool hash = n && t[0] == '#'; is("is_valid_html_color", s.is_valid_html_color(), (n - hash == 3 || n - hash == 4 || n - hash == 6 || n - hash == 8) && all(hash, hexd), a);
	{ bool f = n && t[0] > 32 && t[n - 1] > 32; for (char32_t c : U":/\\?*\"|%<>") if (t.find(c) != U::npos) f = false; is("is_valid_filename", s.is_valid_filename(), f, a); }
	{ U v = n ? t : U"_"; for (size_t i = 0; i < v.size(); i++) if (!idc(v[i]) || (i == 0 && dig(v[i]))) v[i] = '_'; is("validate_identifier", s.validate_identifier(), v, a); is("validate_identifier:valid", s.validate_identifier().is_valid_identifier(), true, a); }
	{ U v = t; for (auto &c : v) if (U(U".:@/\"%").find(c) != U::npos) c = '_'; is("validate_node_name", s.validate_node_name(), v, a); }
	is("original", s, t, "after validation");
}
static void addresses(const U &t) { // dotted decimal
	std::vector<U> p(1); for (char32_t c : t) if (c == '.') p.push_back(U()); else p.back() += c; if (t.find(U':') != U::npos) return; bool ok = p.size() == 4; for (auto &x : p) { if (x.empty()) ok = false; if (x.size() > 3 && x[0] == '0') return; if (x.size() > 3) { ok = false; continue; } int v = 0; for (char32_t c : x) { if (!dig(c)) ok = false; v = v * 10 + (c - '0'); } if (v > 255) ok = false; } mc::state(sh(t)); is("is_valid_ip_address", S(t).is_valid_ip_address(), ok, sh(t));
}
static void colours(const U &t) { validators(t); }
// ---- numbers
static string ref_int(unsigned __int128 v, bool neg, int base, bool cap) { string r; do { int d = (int)(v % base); r = string(1, d < 10 ? '0' + d : (cap ? 'A' : 'a') + d - 10) + r; v /= base; } while (v); return (neg ? "-" : "") + r; }
static void integers() {
	std::vector<int64_t> V; for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { int64_t v = (int64_t)((1ull << k) + d); V.push_back(v); V.push_back((int64_t)(0 - (uint64_t)v)); } int64_t p = 1; for (int k = 0; k < 19; k++, p = k < 19 ? p * 10 : p) for (int d = -1; d <= 1; d++) { V.push_back(p + d); V.push_back(-p - d); } for (int v = -300; v <= 300; v++) V.push_back(v);
	for (int64_t v : V) for (int base = 2; base <= 36; base++) for (int cap = 0; cap < 2; cap++) {
		string a = fmt("%" PRId64 ", %d", v, base); unsigned __int128 m = v < 0 ? (unsigned __int128)(-(__int128)v) : (unsigned __int128)v; string e = ref_int(m, v < 0, base, cap), u = ref_int((uint64_t)v, false, base, cap); String s = String::num_int64(v, base, cap); mc::state(a);
		is("num_int64", s, w(e), a); is("num_uint64", String::num_uint64((uint64_t)v, base, cap), w(u), a);
		if (base == 16) { is("hex_to_int64", s.hex_to_int64(false), v, e); String q((string(v < 0 ? "-" : "") + (cap ? "0X" : "0x") + (v < 0 ? e.substr(1) : e)).c_str()); is("hex_to_int64", q.hex_to_int64(), v, sh(q)); if (v >= INT32_MIN && v <= INT32_MAX) { is("hex_to_int", s.hex_to_int(false), v, e); is("hex_to_int", q.hex_to_int(), v, sh(q)); } else is("hex_to_int:range", s.hex_to_int(false), v < 0 ? INT32_MIN : INT32_MAX, e); if (v < 0) is("hex_to_int64:range", String(u.c_str()).hex_to_int64(false), INT64_MAX, u); }
		if (base == 2) { is("bin_to_int64", s.bin_to_int64(false), v, e); String q((string(v < 0 ? "-" : "") + "0b" + (v < 0 ? e.substr(1) : e)).c_str()); is("bin_to_int64", q.bin_to_int64(), v, sh(q)); }
		if (base == 10) { is("to_int64", s.to_int64(), v, e); is("itos", itos(v), w(e), a); is("uitos", uitos((uint64_t)v), w(u), a); is("String::to_int", String::to_int(e.c_str()), v, e); U ue = w(e); is("String::to_int", String::to_int(ue.c_str()), v, e); std::wstring we(e.begin(), e.end()); is("String::to_int", String::to_int(we.c_str()), v, e); is("String::to_int:length", String::to_int((ue + U"12").c_str(), e.size()), v, e + " of a longer text"); is("String::to_int:length", String::to_int((e + "12").c_str(), e.size()), v, e + " of a longer text"); is("String::to_int:end", String::to_int((ue + U" 5").c_str()), v, e + " then a blank");
			if (v >= 0) is("String::to_int", String::to_int((U"+" + ue).c_str()), v, "+" + e);
			is("to_int", s.to_int(), std::min<int64_t>(std::max<int64_t>(v, INT32_MIN), INT32_MAX), e); is("to_int", String((e + ".75").c_str()).to_int(), std::min<int64_t>(std::max<int64_t>(v, INT32_MIN), INT32_MAX), e + ".75"); is("to_int64", String((e + ".75").c_str()).to_int64(), v, e + ".75"); is("num_characters", String::num_characters(v), e.size(), a);
			if (v < 0) { is("to_int64:range", String(u.c_str()).to_int64(), INT64_MAX, u); is("String::to_int:range", String::to_int(w(u).c_str(), -1, true), INT64_MAX, u); is("String::to_int:range", String::to_int(w("-" + u).c_str(), -1, true), (uint64_t)v == 1ull << 63 ? v : INT64_MIN, "-" + u); is("String::to_int:range", String::to_int((e.substr(1) + "0").c_str()) >= 0, true, e.substr(1) + "0"); }
			if (v >= 0 && v <= UINT32_MAX) is("to_uint", s.to_uint(), (uint32_t)v, e);
			if (v >= INT32_MIN && v <= INT32_MAX) is("to_bool", s.to_bool(), v != 0, e); }
	}
	for (auto &x : std::vector<std::pair<string, int>>{ { "true", 1 }, { "True", 1 }, { "TRUE", 1 }, { "false", 0 }, { "", 0 }, { "yes", 0 }, { "tru", 0 }, { "truee", 0 }, { "0", 0 }, { "0.0", 0 }, { "-3", 1 } }) is("to_bool", String(x.first.c_str()).to_bool(), x.second, x.first);
	is("bool_num", String::bool_num(true), U"1", "true"); is("bool_num", String::bool_num(false), U"0", "false"); is("bool_str", String::bool_str(true), U"true", "true"); is("bool_str", String::bool_str(false), U"false", "false");
}
static string trim(string s) { if (s.find('.') == string::npos) return s; while (s.size() > 1 && s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s; }
static void reals() {
	std::vector<double> V = { 0., -0., 1., .1, .5, 1. / 3, 2. / 3, 99.995, 0.999999, 9.9999999, 123456.789, 1e-5, 5e-7, 1e-9, 4.9e-324, 1e10, 1e15, 123456789012345678., 2147483647., 2147483648., 4294967296.5, 1e22, 1e100, DBL_MAX, DBL_MIN, M_PI, 1 / 1024., 255.5, 1000000.25 }; for (int k = -30; k <= 30; k++) { V.push_back(std::ldexp(1., k)); V.push_back(std::ldexp(3., k) + 1); } size_t n = V.size(); for (size_t i = 0; i < n; i++) V.push_back(-V[i]);
	for (double v : V) { string a = fmt("%.17g", v); mc::state(a); char buf[512];
		for (int d = 0; d <= 16; d++) { snprintf(buf, sizeof buf, "%.*f", d, v); if (strlen(buf) > 250) continue; is("num", String::num(v, d), w(trim(buf)), a + fmt(", %d", d)); }
		snprintf(buf, sizeof buf, "%f", v); if (strlen(buf) < 250) { is("num", String::num(v), w(trim(buf)), a); is("rtos", rtos(v), w(trim(buf)), a); double x = String::num(v).to_double(); mc::ok(std::fabs(x - v) <= 5.1e-7 + std::fabs(v) * 4e-16, "num:value", "%s written as %s reads %.17g", a.c_str(), trim(buf).c_str(), x); }
		snprintf(buf, sizeof buf, "%g", v); is("num_scientific", String::num_scientific(v), w(buf), a); is("rtoss", rtoss(v), w(buf), a); double x = String::num_scientific(v).to_double(); mc::ok(mc::close(x, v, 1e-5, 0) || std::fabs(v) < 1e-300, "num_scientific:value", "%s written as %s reads %.17g", a.c_str(), buf, x);
		String r = String::num_real(v); if (std::fabs(v) < 1e15) { mc::ok(un(r).find(U'.') != U::npos && std::fabs(r.to_double() - v) <= 2e-6 + std::fabs(v) * 1e-9, "num_real", "%s written as %s", a.c_str(), sh(r).c_str()); }
	}
	is("num", String::num(NAN), U"nan", "nan"); is("num", String::num(INFINITY), U"inf", "inf"); is("num", String::num(-INFINITY), U"-inf", "-inf"); is("num_real", String::num_real(-INFINITY), U"-inf", "-inf"); is("num_scientific", String::num_scientific(INFINITY), U"inf", "inf");
}
static void numeral(const string &t, const string &tail) { // text of a number: the value strtod reads, and the end it stops at
	string x = t + tail; char *e; double want = strtod(x.c_str(), &e); if (x.find_first_of("xX") != string::npos) return; string num = x.substr(0, e - x.c_str()); size_t used = num.size();
	U u = w(x); const CharType *ue = nullptr; double g = String::to_double(u.c_str(), &ue), g2 = String::to_double(x.c_str()), g3 = String(x.c_str()).to_double(); float f = String(x.c_str()).to_float(); mc::transition(); mc::state(x);
	bool big = std::isinf(want) || std::fabs(want) < 1e-300; auto near = [&](double a) { return big ? std::isinf(want) ? std::isinf(a) && (a > 0) == (want > 0) : std::fabs(a) <= 1e-300 : mc::close(a, want, 1e-14, 0); };
	mc::ok(near(g) && near(g2) && near(g3), "to_double", "\"%s\" reads %.17g, %.17g, %.17g instead of %.17g", x.c_str(), g, g2, g3, want);
	mc::ok(ue && (size_t)(ue - u.c_str()) == used, "to_double:end", "\"%s\" reading stops at %d instead of %zu", x.c_str(), ue ? (int)(ue - u.c_str()) : -1, used);
	mc::ok(big || std::fabs(want) > 3e38 || std::fabs(want) < 1e-37 || mc::close(f, want, 2e-7, 0), "to_float", "\"%s\" reads %.9g instead of %.9g", x.c_str(), (double)f, want);
}
static void numerals(bool th) {
	std::vector<string> sg = { "", "-", "+" }, ip = { "", "0", "7", "42", "007", "123456789", "1234567890", "123456789012345678", "1234567890123456789", "99999999999999999999999", "000000000000000000000001" }, fp = { "", ".", ".0", ".5", ".25", ".000001", ".123456789012345678", ".1234567890123456789012345", ".00000000000000000000000001" }, ex = { "", "e0", "e1", "E5", "e+3", "e-3", "e22", "e-22", "e100", "e-100", "e308", "e-320", "e400", "e-400", "e99999999999", "e-99999999999", "e", "e+", "e-" }, tl = { "", "x", " 1", ".", "e", "-", "..", ".5" };
	for (auto &a : sg) for (auto &b : ip) for (auto &c : fp) for (auto &d : ex) for (auto &e : tl) { if (b.empty() && (c.empty() || c == ".")) continue; string s = a + b + c + d; numeral(s, e); if (th) numeral(" \t\n" + s, e); }
	numeral("", ""); numeral("  12", "");
}
// ---- sizes, hashes, addresses of resources, wrapping
static void sizes() {
	static const char *P[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
	for (int k = 0; k < 64; k++) for (uint64_t m : std::vector<uint64_t>{ 1ull, 3ull, 5ull, 100ull, 1000ull, 1023ull }) for (int d = -1; d <= 1; d++) { uint64_t v = (m << k) + d; if (v >> 63 && k) continue; if (m << k >> k != m) continue; string g = n8(un(String::humanize_size(v))); mc::transition(); size_t sp = g.find(' '); int unit = -1; if (sp != string::npos) for (int i = 0; i < 7; i++) if (g.substr(sp + 1) == P[i]) unit = i; double q = unit < 0 ? 0 : strtod(g.c_str(), nullptr) * std::ldexp(1., 10 * unit);
		mc::ok(unit >= 0 && std::fabs(q - v) <= (unit ? 0.011 * std::ldexp(1., 10 * unit) + 0.001 * v : 0) && (v >> (10 * unit)) <= 1024 && (unit == 0 || v >= (1ull << (10 * unit))), "humanize_size", "%llu bytes are \"%s\"", (unsigned long long)v, g.c_str()); }
}
static void hashes(const string &t) { // one text, one hash, whatever it is written in
	String s(t.c_str()); U u = un(s); std::wstring ws(u.begin(), u.end()); uint32_t h = 5381; uint64_t h64 = 5381; for (uint32_t c : u) { h = h * 33 + c; h64 = h64 * 33 + c; } mc::state(hx(t)); string a = hx(t);
	is("hash", s.hash(), h, a); is("hash64", (int64_t)s.hash64(), (int64_t)h64, a); is("hash(chars)", String::hash(t.c_str()), h, a); is("hash(chars, length)", String::hash((t + "q").c_str(), t.size()), h, a); is("hash(wide)", String::hash(ws.c_str()), h, a); is("hash(wide, length)", String::hash((ws + L"q").c_str(), t.size()), h, a); is("hash(text)", String::hash(u.c_str()), h, a); is("hash(text, length)", String::hash((u + U"q").c_str(), t.size()), h, a);
	StringName n1(t.c_str()), n2(s); mc::ok(n1 == n2 && n1 == s && n2 == t.c_str() && un(String(n1)) == u && (t.empty() || (n1.hash() == h && n2.hash() == h)), "interned", "the interned names of the characters and of the text %s differ", a.c_str());
	string hexs; for (unsigned char c : t) hexs += fmt("%02x", c); is("hex_encode_buffer", String::hex_encode_buffer((const uint8_t *)t.data(), t.size()), w(hexs), a);
}
static void urls() {
	for (string sc : { "", "http://", "HTTPS://", "ftp://" }) for (string cr : { "", "u@", "u:p@" }) for (string ho : { "h", "Ex-Ample.COM", "1.2.3.4", "[::1]", "[fe80::A]", "" }) for (string po : { "", ":1", ":80", ":65535", ":0", ":65536", ":x", ":", ":80x", ":99999999999" }) for (string pa : { "", "/", "/a/B", "/a@b", "/a:9?x=1", "/http://y" }) {
		string t = sc + cr + ho + po + pa; String g[3]; int port = -5; if (ho[0] == '[' && sc.empty() && 0) continue; Error r = String(t.c_str()).parse_url(g[0], g[1], port, g[2]); mc::transition(); mc::state(t);
		string lh = ho, ls = sc; for (auto *x : { &lh, &ls }) for (auto &c : *x) c = tolower(c); if (lh[0] == '[') lh = lh.substr(1, lh.size() - 2); int wp = po.empty() ? 0 : po == ":1" ? 1 : po == ":80" ? 80 : po == ":65535" ? 65535 : -1; bool ok = !ho.empty() && wp >= 0; if (ho.empty() && !po.empty()) ok = false;
		if (sc.empty() && pa == "/http://y") continue; // the scheme would be the path's
		mc::ok((r == OK) == ok && (!ok || (n8(un(g[0])) == ls && n8(un(g[1])) == lh && port == wp && n8(un(g[2])) == pa)), "parse_url", "\"%s\": error %d, scheme \"%s\", host \"%s\", port %d, path \"%s\"", t.c_str(), r, n8(un(g[0])).c_str(), n8(un(g[1])).c_str(), port, n8(un(g[2])).c_str()); }
}
static void wraps(const U &t) {
	for (int n = 1; n <= 5; n++) { string r = n8(un(S(t).word_wrap(n))), s = n8(t), a = sh(t) + fmt(", %d", n); mc::transition(); mc::state(a);
		auto bare = [](const string &x) { string o; for (char c : x) if (c != ' ' && c != '\n') o += c; return o; }; mc::ok(bare(r) == bare(s), "word_wrap:text", "%s became \"%s\"", a.c_str(), r.c_str());
		size_t p = 0; bool fits = true; for (;;) { size_t q = r.find('\n', p); string l = r.substr(p, q == string::npos ? q : q - p); while (!l.empty() && l.back() == ' ') l.pop_back(); if ((int)l.size() > n) fits = false; if (q == string::npos) break; p = q + 1; } mc::ok(fits, "word_wrap:width", "%s became \"%s\"", a.c_str(), r.c_str());
		auto words = [](const string &x) { std::vector<string> o(1); for (char c : x) if (c == ' ' || c == '\n') o.push_back(""); else o.back() += c; std::vector<string> k; for (auto &y : o) if (!y.empty()) k.push_back(y); return k; }; bool shortw = true; for (auto &x : words(s)) shortw = shortw && (int)x.size() <= n; if (shortw) mc::ok(words(r) == words(s), "word_wrap:words", "%s became \"%s\"", a.c_str(), r.c_str()); }
}
template <class T, class F> static void sharded(const char *name, const T &al, int n, F f) { // one case per first two characters
	typedef T St; { MC_CASE("%s: shortest", name) { f(St()); for (auto c : al) f(St(1, c)); } } for (auto c : al) for (auto d : al) MC_CASE("%s starting with %x %x", name, (unsigned)c & 0xffffff, (unsigned)d & 0xffffff) { St t; t += c; t += d; std::function<void(int)> go = [&](int k) { f((const St &)t); if (!k) return; for (auto x : al) { t += x; go(k - 1); t.pop_back(); } }; go(n - 2); }
}
static void latin(const string &t) { // characters of C strings above 127 are the characters of that number
	String a(t.c_str()); is("String(chars)", a, w(t), hx(t)); is("String(chars, length)", String((t + "q").c_str(), t.size()), w(t), hx(t)); { String e("x"); e += t.c_str(); is("+=", e, U"x" + w(t), hx(t)); e = t.c_str(); is("=", e, w(t), hx(t)); is("+", t.c_str() + String("x"), w(t) + U"x", hx(t)); }
	bytes("a\x7f\x80\xe9\xff", 2, [&](const string &k) { String b(k.c_str()); const char *c = k.c_str(); string m = hx(t) + ", " + hx(k); mc::state(m);
		is("== chars", a == c, a == b, m); is("chars ==", c == a, a == b, m); is("!= chars", a != c, a != b, m); is("< chars", a < c, a < b, m); is("begins_with chars", a.begins_with(c), a.begins_with(b), m); is("find chars", a.find(c), a.find(b), m); is("contains chars", a.contains(c), a.contains(b), m); is("replace chars", a.replace(c, "z"), un(a.replace(b, String("z"))), m); is("append_path chars", a.append_path(c), un(a.append_path(b)), m);
		for (int i = 0; i < (int)t.size(); i++) { is("find chars from", a.find(c, i), a.find(b, i), m); if (!k.empty()) is("is_word_at chars", a.is_word_at(i, c), a.is_word_at(i, b), m); }
		if (a == b) is("equal hash", a.hash(), String::hash(c), m); });
}
void explore() {
	SFWCore::setup(); bool th = mc::thorough(); int x = th;
	sharded("encoded texts", U(U"A\r\x7f\x80\xe9\x7ff\x800\x20ac\xd7ff\xe000\xfffd\xffff\x10000\x1f600\x10ffff"), 3 + x, encodings);
	sharded("byte sequences", string("A\r\x7f\x80\xbf\xc0\xc3\xe0\xa0\xed\xef\xbb\xf0\x90\xf4\xff", 16), 4 + x, byteseq);
	sharded("byte sequences of long forms", string("A\xc1\xe2\xf1\xf8\xfc\xfe\x80\x8f\xbf", 10), 5 + x, byteseq);
	sharded("16-bit units", U16(u"A\x20ac\xd83d\xde00\xd800\xdfff\xfeff\xfffe\xe000"), 4 + x, unitseq);
	sharded("escaped texts", U(U"\\na\n\t\r\"'?bv\v\a\b\f="), 3 + x, cescapes);
	sharded("markup", U(U"&<>'\"a;"), 4 + x, xmls); sharded("markup entities", U(U"&#x1a;ltgq"), 5 + x, xmls);
	for (U pre : { U"&#", U"&#x", U"&am", U"&quo", U"&apo" }) sharded((string("markup after ") + n8(pre)).c_str(), U(U"09afFg;ps&"), 3 + x, [pre](const U &t) { xmls(pre + t); xmls(U"z" + pre + t + U"&lt;"); });
	MC_CASE("markup limits") for (const char *e : { "&#2147483647;", "&#2147483648;", "&#x7fffffff;", "&#x80000000;", "&#xffffffffff;", "&#99999999999999999999999;", "&#9223372036854775807;", "&#x0000000041;", "&#65;", "&#x41", "&#65", "&#", "&#;", "&#x;", "&#xg;", "&#6a;", "&", "&l", "&lt" }) { xmls(w(e)); xmls(w(e) + U"z"); }
	sharded("percent texts", U(U"a%41cC3A9g+ ~\xe9"), 4 + x, uris); sharded("addresses of resources", U(U"Z/.-_:?&=\x20ac\x1f600%2"), 3 + x, uris);
	sharded("validated texts", U(U"09ax_-+.eE#f T/:\xe9"), 4 + x, validators);
	sharded("truth values", U(U"tTrRuUeE"), 4, validators); for (U f : { U"fals", U"FAL", U"tru", U"fa" }) sharded(("truth values " + n8(f)).c_str(), U(U"eEsSlL01"), 2, [f](const U &t) { validators(f + t); });
	for (U f : { U"#12345", U"12345", U"#1234567", U"1234567", U"-1234", U"+0x1", U"0X1" }) sharded(("longer validated " + n8(f)).c_str(), U(U"09afAFgG#x"), 3, [f](const U &t) { validators(f + t); });
	sharded("network addresses", U(U"025.9"), 7 + x, [](const U &t) { addresses(t); addresses(U"1.2." + t); addresses(U"255.2" + t); }); sharded("odd network addresses", U(U"1.-+ a"), 4, [](const U &t) { addresses(U"1.2." + t); });
	sharded("latin texts", string("a \x7f\x80\xe9\xff"), 3 + x, latin);
	MC_CASE("integers") integers(); MC_CASE("reals") reals(); MC_CASE("numerals") numerals(th); MC_CASE("sizes") sizes(); MC_CASE("urls") urls();
	sharded("hashed texts", string("aZ0\x7f\x80\xe9\xff"), 4 + x, hashes); sharded("wrapped texts", U(U"ab \n"), 7 + x, wraps);
}
