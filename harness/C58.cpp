// MC: variant=asan
// C58: texts put together piece by piece. Every sequence of appending, reserving and reading on string buffers of several in-place sizes and
// on string builders, against plain concatenation; every log call with every text: one line with its level, place and text.
#include "mc.h"
#include "hist.h"
#include "txt.h"
using mc::fmt; using mc::ok;
#define CK(c, ...) ok(c, __VA_ARGS__)
static std::string out(const String &s) { std::string r; for (int i = 0; i < s.length(); i++) { CharType c = s[i]; if (c > 32 && c < 127) r += (char)c; else r += fmt("<%x>", (unsigned)c); } return r; }
static std::string out(const std::u32string &s) { std::string r; for (char32_t c : s) { if (c > 32 && c < 127) r += (char)c; else r += fmt("<%x>", (unsigned)c); } return r; }
static String mk(const std::u32string &s) { String r; for (char32_t c : s) r += String::chr(c); return r; }
struct BM { std::u32string s; int how = 0; }; // how: 1 once space was reserved, 2 once read, 4 once both in this order
template <int N> struct BR { StringBuffer<N> b; String kept; std::u32string kept_is; };
template <int N> static void buffers(int depth, int bdepth) {
	typedef BR<N> R; mc::Explorer<BM, R> e; e.label = fmt("StringBuffer<%d>", N); e.held = Memory::get_mem_usage; e.within = [](const BM &m) { return m.s.size() < 300; };
	e.mdump = [](const BM &m) { return fmt("%zu", m.s.size()) + ":" + out(m.s); };
	// reading the text may shrink the buffer, so the state is read from a copy; the length from the buffer itself
	e.rdump = [](R &r) { StringBuffer<N> c = r.b; String t = c.as_string(); return fmt("%d", r.b.length()) + ":" + out(t); };
	e.mkey = [](const BM &m) { return fmt("%zu %d %zu", m.s.size(), m.how, m.s.empty() ? 0 : (size_t)m.s[0]); }; auto add = [&](const std::string &n, std::u32string t, std::function<void(R &)> f) { e.ops.push_back({ n, [t](BM &m, std::string &) { m.s += t; return true; }, [f](R &r) { f(r); return std::string(); } }); };
	auto rep = [](int n, char32_t c) { std::u32string s; for (int i = 0; i < n; i++) s += (char32_t)(c + i % 5); return s; };
	add("char", U"1", [](R &r) { r.b += (CharType)'1'; }); add("wide char", U"\u4e2d", [](R &r) { r.b.append((CharType)0x4e2d); });
	for (int n : { 0, 1, N - 1, N, 2 * N + 1 }) { if (n < 0) continue; auto t = rep(n, U'0'); add(fmt("String of %d", n), t, [t](R &r) { r.b += mk(t); }); }
	for (int n : { 0, 2, N - 2 }) { if (n < 0) continue; std::string a(n, '7'); add(fmt("C text of %d", n), std::u32string(n, U'7'), [a](R &r) { r.b += a.c_str(); }); }
	for (int n : { 0, 1, 3, 9 }) for (int clip : { -1, 0, 1, 3, 20 }) { if ((n == 9) != (clip == 20) && clip >= 0 && n != 3) continue; auto t = rep(n, U'5'); auto u = clip < 0 ? t : t.substr(0, clip); add(fmt("text of %d clipped to %d", n, clip), u, [t, clip](R &r) { String s = mk(t); r.b.append(s.get_data(), clip); }); }
	for (int n : { 0, N, 3 * N + 1 }) e.ops.push_back({ fmt("reserve %d", n), [n](BM &m, std::string &) { if (n >= N) m.how |= 1; return true; }, [n](R &r) { r.b.reserve(n); return std::string(); } });
	e.ops.push_back({ "read", [](BM &m, std::string &o) { m.how |= m.how & 1 ? 6 : 2; o = out(m.s); return true; }, [](R &r) { if (r.kept_is.size()) ok(out(r.kept) == out(r.kept_is), "StringBuffer:kept", "a text read earlier changed to %s from %s", out(r.kept).c_str(), out(r.kept_is).c_str()); r.kept = r.b.as_string(); std::u32string k; for (int i = 0; i < r.kept.length(); i++) k += r.kept[i]; r.kept_is = k; return out(r.kept); } });
	e.ops.push_back({ "read as String", [](BM &m, std::string &o) { o = out(m.s); return true; }, [](R &r) { String s = r.b; return out(s); } });
	auto digits = [](const std::u32string &s) { if (s.empty() || s.size() > 15) return false; for (char32_t c : s) if (c < '0' || c > '9') return false; return true; };
	auto val = [](const std::u32string &s) { double v = 0; for (char32_t c : s) v = v * 10 + (c - '0'); return v; };
	e.ops.push_back({ "as number", [=](BM &m, std::string &o) { if (!digits(m.s)) return false; o = fmt("%.0f %.0f", val(m.s), val(m.s)); return true; }, [](R &r) { return fmt("%.0f %lld", r.b.as_double(), (long long)r.b.as_int()); } });
	e.all_sequences(depth); e.bfs(bdepth, mc::thorough() ? 8000 : 900);
}
struct SBM { std::u32string s; int n = 0; };
struct SBR { StringBuilder b; };
static void builders() {
	static const char *cs[] = { "", "a", "bc", "0123456789" }; static String ss[] = { String(), String("X"), mk(U"\u00e9\u4e2d"), String("yy yy yy yy yy") }; static std::u32string su[] = { U"", U"X", U"\u00e9\u4e2d", U"yy yy yy yy yy" };
	mc::Explorer<SBM, SBR> e; e.label = "StringBuilder"; e.held = Memory::get_mem_usage; e.within = [](const SBM &m) { return m.s.size() < 200; };
	e.mdump = [](const SBM &m) { return fmt("%zu/%d:", m.s.size(), m.n) + out(m.s); }; e.rdump = [](SBR &r) { CK(r.b.length() == r.b.get_string_length(), "StringBuilder:length", "two lengths"); return fmt("%u/%d:", r.b.length(), r.b.num_strings_appended()) + out(r.b.as_string()); };
	for (int i = 0; i < 4; i++) { std::u32string w; for (const char *p = cs[i]; *p; p++) w += *p;
		e.ops.push_back({ fmt("C text %d", i), [w](SBM &m, std::string &) { m.s += w; m.n++; return true; }, [i](SBR &r) { r.b.append(cs[i]); return std::string(); } });
		e.ops.push_back({ fmt("String %d", i), [i](SBM &m, std::string &) { m.s += su[i]; m.n += i > 0; return true; }, [i](SBR &r) { String t = ss[i]; r.b.append(t); if (i) t += "changed later"; return std::string(); } }); }
	e.ops.push_back({ "+ and +=", [](SBM &m, std::string &) { m.s += U"Xbc"; m.s += U"aX"; m.n += 4; return true; }, [](SBR &r) { r.b + ss[1] + cs[2]; r.b += cs[1]; r.b += ss[1]; return std::string(); } });
	e.ops.push_back({ "clear", [](SBM &m, std::string &) { m = SBM(); return true; }, [](SBR &r) { r.b.clear(); return std::string(); } });
	e.ops.push_back({ "copy", [](SBM &m, std::string &o) { o = out(m.s); return true; }, [](SBR &r) { StringBuilder c = r.b; c.append("more"); StringBuilder d; d = r.b; r.b = d; return out((String)r.b); } });
	e.all_sequences(mc::thorough() ? 5 : 4); e.bfs(mc::thorough() ? 9 : 7, mc::thorough() ? 6000 : 800);
}
// ---- log lines
static std::string grab(const std::function<void()> &f) { fflush(stdout); int fd = memfd_create("log", 0), keep = dup(1); dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep); std::string r; r.resize(lseek(fd, 0, SEEK_END)); if (r.size()) { ssize_t n = pread(fd, &r[0], r.size(), 0); (void)n; } close(fd); return r; }
static void line(const std::string &what, char level, const std::string &text, const std::function<void()> &f, std::vector<std::string> parts = {}) {
	mc::transition(); std::string g = grab(f); parts.push_back(text); mc::state(g);
	bool good = g.size() > 1 && g[0] == level && g[1] == ' ' && g.back() == '\n' && std::count(g.begin(), g.end(), '\n') == 1; for (auto &p : parts) good &= g.find(p) != std::string::npos;
	CK(good, "RLogger:" + what, "%s of \"%s\" writes \"%s\"", what.c_str(), text.substr(0, 60).c_str(), g.substr(0, 200).c_str());
}
static void logs() {
	std::vector<std::string> texts = { "", "x", "100%", "%s%n%d", "two words", "\xc3\xa9\xe4\xb8\xad", std::string(5000, 'q'), "\\n \" '" }; const char *fn = "some_function", *fl = "dir/file.cpp";
	for (auto &t : texts) for (int ln : { 0, 7, 123456 }) MC_CASE("log lines of a text of %zu at line %d", t.size(), ln) {
		String s = String::utf8(t.c_str()); const char *c = t.c_str(); std::string l = fmt("%d", ln); std::vector<std::string> at = { fn, fl, l };
#define LV(name, L) line("print_" #name, L, t, [&] { RLogger::print_##name(s); }); line("print_" #name, L, t, [&] { RLogger::print_##name(c); }); line("print_" #name " at", L, t, [&] { RLogger::print_##name(fn, fl, ln, s); }, at); line("print_" #name " at", L, t, [&] { RLogger::print_##name(fn, fl, ln, c); }, at); \
	line("log_" #name, L, t, [&] { RLogger::log_##name(s); }); line("log_" #name, L, t, [&] { RLogger::log_##name(c); }); line("log_" #name " at", L, t, [&] { RLogger::log_##name(fn, fl, ln, s); }, at); line("log_" #name " at", L, t, [&] { RLogger::log_##name(fn, fl, ln, c); }, at); \
	{ uint64_t u = Memory::get_mem_usage(); line("get_" #name "_string_ptr", L, t, [&] { String *p = RLogger::get_##name##_string_ptr(); *p += s; RLogger::log_ptr(p); RLogger::return_string_ptr(p); }); line("get_" #name "_string_ptr at", L, t, [&] { String *p = RLogger::get_##name##_string_ptr(fn, fl, ln); *p += s; RLogger::log_ret_ptr(p); }, at); CK(Memory::get_mem_usage() == u, "RLogger:leak", "log text kept"); }
		LV(trace, 'T') LV(message, 'M') LV(warning, 'W') LV(error, 'E')
		line("log_msg_error", 'E', t, [&] { RLogger::log_msg_error(fn, fl, ln, c, "what"); }, { fn, fl, l, "what" }); line("print_msg_error", 'E', t, [&] { RLogger::print_msg_error(fn, fl, ln, c, "what"); }, { fn, fl, l, "what" });
		line("log_index_error", 'E', t, [&] { RLogger::log_index_error(fn, fl, ln, -3, 77, c); }, { fn, fl, l, "-3/77" }); line("log_index_error", 'E', t, [&] { RLogger::log_index_error(fn, fl, ln, 5, 2, s); }, { fn, fl, l, "5/2" }); line("print_index_error", 'E', t, [&] { RLogger::print_index_error(fn, fl, ln, 5, 2, c); }, { fn, fl, l, "5/2" });
		line("LOG_MSG", 'M', t, [&] { LOG_MSG(s); }, { "C58.cpp" }); line("LOG_MSG of two", 'M', t, [&] { LOG_MSG(s, "42"); }, { "42", "C58.cpp" }); line("LOG_TRACE of two", 'T', t, [&] { LOG_TRACE(s, "42"); }, { "42" }); line("LOG_WARN of two", 'W', t, [&] { LOG_WARN(s, "42"); }, { "42" }); line("LOG_ERR of two", 'E', t, [&] { LOG_ERR(s, "42"); }, { "42" }); line("ERR_PRINT", 'E', t, [&] { ERR_PRINT(s); }, { "C58.cpp" });
	}
}
void explore() { SFWCore::setup(); bool th = mc::thorough(); buffers<3>(th ? 4 : 3, th ? 7 : 5); buffers<8>(th ? 4 : 3, th ? 7 : 5); buffers<64>(th ? 4 : 3, th ? 7 : 5); builders(); logs(); }
