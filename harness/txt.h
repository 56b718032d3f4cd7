// Plain readings of texts: helpers shared by the text harnesses.
#ifndef TXT_H
#define TXT_H
#include "mc.h"
#include <algorithm>
#include <functional>
#include <string>
#include <vector>
typedef std::u32string U; typedef std::vector<U> VU; using std::string;
static String S(const U &u) { return u.empty() ? String() : String(u.c_str()); }
static U un(const String &s) { return U(s.get_data(), s.length()); }
static U w(const char *c) { U u; for (; *c; c++) u += (char32_t)(unsigned char)*c; return u; }
static U w(const string &s) { U u; for (char c : s) u += (char32_t)(unsigned char)c; return u; }
static string sh(const U &u) { string r = "\""; for (char32_t c : u) r += c >= 32 && c < 127 ? string(1, (char)c) : mc::fmt("\\x%x", (unsigned)c); return r + "\""; }
static string sh(const String &s) { return sh(un(s)); }
static string hx(const string &s) { string r; for (unsigned char c : s) r += mc::fmt("%02x", c); return r; }
static string n8(const U &u) { string r; for (char32_t c : u) r += (char)c; return r; }
static bool good(const String &s) { return s.size() == 0 || (s.get_data()[s.length()] == 0 && s.size() == s.length() + 1); }
template <class F> static void texts(const U &al, int n, F f) { U t; std::function<void(int)> go = [&](int k) { f((const U &)t); if (!k) return; for (char32_t c : al) { t += c; go(k - 1); t.pop_back(); } }; go(n); }
template <class F> static void bytes(const string &al, int n, F f) { string t; std::function<void(int)> go = [&](int k) { f((const string &)t); if (!k) return; for (char c : al) { t += c; go(k - 1); t.pop_back(); } }; go(n); }
static void is(const char *op, const String &got, const U &want, const string &args) { mc::transition(); mc::S().checks++; if (un(got) != want || !good(got)) mc::fail(op, "%s(%s) = %s, expected %s", op, args.c_str(), sh(got).c_str(), sh(want).c_str()); }
static void is(const char *op, int64_t got, int64_t want, const string &args) { mc::transition(); mc::S().checks++; if (got != want) mc::fail(op, "%s(%s) = %lld, expected %lld", op, args.c_str(), (long long)got, (long long)want); }
// UTF-8 as the standard defines it
static string enc8(const U &u) { string r; for (uint32_t c : u) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } } return r; }
static bool dec8(const string &s, U &out) { out.clear(); size_t i = 0; while (i < s.size()) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1; if (n < 0 || i + n >= s.size()) return false; uint32_t v = n == 0 ? c : c & (0x3f >> n); for (int k = 1; k <= n; k++) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); } if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false; out += (char32_t)v; i += n + 1; } return true; }
#endif
