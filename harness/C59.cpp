// MC: variant=asan
// C59: child processes, network addresses and sockets. Every argument of a grid through every way of starting a child; every kind of output,
// exit and way of reading it; every history of starting, stopping and asking about children (no signal may ever go to a process that is not a
// live child); failing calls of the system; every address of a grid; every history of sending, reading and shutting down on a loopback pair.
#include "mc.h"
#include <algorithm>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
using mc::fmt; using mc::ok;
#define CK(c, ...) ok(c, __VA_ARGS__)
static std::string g_dir; static int g_fork_fails = 0, g_popen_fails = 0, g_eintr = 0, g_wrong_kill = 0, g_kills = 0; static bool g_on = false;
static bool live_child(pid_t p) { siginfo_t i; memset(&i, 0, sizeof(i)); return p > 0 && waitid(P_PID, p, &i, WEXITED | WNOHANG | WNOWAIT) == 0; } // ours and not yet reaped
extern "C" pid_t fork() noexcept { static pid_t (*real)() = (pid_t (*)())dlsym(RTLD_NEXT, "fork"); if (g_on && g_fork_fails) { g_fork_fails--; errno = EAGAIN; return -1; } return real(); }
extern "C" FILE *popen(const char *c, const char *m) { static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "popen"); if (g_on && g_popen_fails) { g_popen_fails--; errno = EMFILE; return nullptr; } return real(c, m); }
extern "C" pid_t waitpid(pid_t p, int *s, int o) { if (g_on && g_eintr && !(o & WNOHANG)) { g_eintr--; errno = EINTR; return -1; } return syscall(SYS_wait4, p, s, o, nullptr); }
extern "C" int kill(pid_t p, int s) noexcept { if (g_on) { g_kills++; if (!live_child(p)) { g_wrong_kill++; errno = ESRCH; return -1; } } return syscall(SYS_kill, p, s); }
static bool no_children() { siginfo_t i; return waitid(P_ALL, 0, &i, WEXITED | WNOHANG | WNOWAIT) != 0; }
static std::string raw(const String &s) { CharString c = s.utf8(); return std::string(c.get_data() ? c.get_data() : "", c.length()); }
static String S8(const std::string &s) { return String::utf8(s.c_str()); }
static std::string vis(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 80)) r += c >= 32 && c < 127 ? std::string(1, c) : fmt("\\x%02x", c); return r + (s.size() > 80 ? fmt("... (%zu)", s.size()) : ""); }
static void put(const std::string &f, const std::string &t) { FILE *h = fopen(f.c_str(), "wb"); fwrite(t.data(), 1, t.size(), h); fclose(h); }
static std::string get(const std::string &f) { std::string r; FILE *h = fopen(f.c_str(), "rb"); if (!h) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), h))) r.append(b, n); fclose(h); return r; }
enum Way { READ_BLOCK, READ_POLL, PLAIN_BLOCK, PLAIN_FREE };
static const char *wn[] = { "blocking and read", "polled", "blocking", "left running" };
struct Res { int err, code; std::string data; bool running, ended; std::string why; };
static Res go(SubProcess *p, Way w, const std::string &exe, const std::vector<std::string> &args, bool err, int via) {
	Res r; Vector<String> a; for (auto &x : args) a.push_back(S8(x)); bool out = w == READ_BLOCK || w == READ_POLL, block = w == READ_BLOCK || w == PLAIN_BLOCK; mc::transition();
	if (via < 2) r.err = p->run(S8(exe), a, out, block, err, via == 1, false); else { p->set_executable_path(S8(exe)); p->set_arguments(a); p->set_read_output(out); p->set_blocking(block); p->set_read_std_err(err); p->set_use_pipe_mutex(false); r.err = p->start(); }
	r.ended = true; if (r.err != OK) { r.running = p->is_process_running(); r.code = p->get_exitcode(); return r; }
	if (w == READ_BLOCK) r.data = raw(p->get_data());
	if (w == READ_POLL) { int guard = 0; for (;;) { Error e = p->poll(); if (e == ERR_FILE_EOF) break; if (e != OK || ++guard > 100000) { r.why = "polling does not reach the end"; break; } std::string d = raw(p->get_data()); if (d.empty()) r.why = "a poll gives no data"; r.data += d; } }
	if (w == PLAIN_FREE) { siginfo_t i; if (p->get_process_id() > 0) waitid(P_PID, p->get_process_id(), &i, WEXITED | WNOWAIT); else r.why = "no process id"; }
	r.running = p->is_process_running(); r.code = p->get_exitcode(); return r;
}
static void arguments() {
	std::vector<std::string> ab = { "a", "'", "\"", "$", "`", "\\", " ", ";", "&", "|", "<", ">", "(", ")", "*", "?", "~", "#", "!", "\n", "\t", "{", "}", "=", "-", "\xc3\xa9", "%", "\r" }, all = { "" };
	for (auto &x : ab) all.push_back(x); for (auto &x : ab) for (auto &y : ab) all.push_back(x + y); for (auto &x : ab) all.push_back("$(echo " + x + ")"); for (const char *x : { "${HOME}", "$0", "$@", "\\n", "'\\''", "$(kill $$)", "`exit 9`", "-n", "--", "a b  c", "''", "\"\"", "\\\\" }) all.push_back(x); if (mc::thorough()) for (auto &x : ab) for (auto &y : ab) for (auto &z : { "a", "'", "\"", "\\", " " }) all.push_back(x + z + y);
	size_t per = 30; for (size_t at = 0; at < all.size(); at += per) for (int w = 0; w < 4; w++) MC_CASE("arguments from %zu %s", at, wn[w]) {
		std::vector<std::string> args = { "-c", w < 2 ? "for a; do printf '%s|' \"[$a]\"; done" : "for a; do printf '%s|' \"[$a]\"; done > out", "zero" }; std::string want; for (size_t i = at; i < std::min(at + per, all.size()); i++) { args.push_back(all[i]); want += "[" + all[i] + "]|"; } unlink("out");
		SubProcess *p = SubProcess::create(); g_on = true; Res r = go(p, (Way)w, "/bin/sh", args, false, 0); g_on = false; std::string got = w < 2 ? r.data : get("out"); size_t d = 0; while (d < std::min(got.size(), want.size()) && got[d] == want[d]) d++;
		CK(r.err == OK && got == want && r.code == 0 && !r.running && r.why.empty(), fmt("SubProcess:arguments:%s", wn[w]), "arguments arrive differently at byte %zu: \"%s\" instead of \"%s\" (result %d, exit code %d) %s", d, vis(got.substr(d > 8 ? d - 8 : 0)).c_str(), vis(want.substr(d > 8 ? d - 8 : 0)).c_str(), r.err, r.code, r.why.c_str()); mc::state(fmt("args%zu %d", at, w)); memdelete(p); CK(no_children(), "SubProcess:reaped", "a child is left behind");
	}
	MC_CASE("arguments and settings are kept") { SubProcess *p = SubProcess::create(); CK(!p->is_process_running() && p->start() != OK && p->get_data() == "", "SubProcess:settings", "a fresh object"); Vector<String> a; a.push_back("x"); p->set_arguments(a); p->set_executable_path("/bin/true"); CK(p->get_arguments().size() == 1 && p->get_arguments()[0] == "x" && p->get_executable_path() == "/bin/true", "SubProcess:settings", "arguments");
		for (int v = 0; v < 64; v++) { p->set_blocking(v & 1); p->set_read_output(v & 2); p->set_read_std(v & 4); p->set_read_std_err(v & 8); p->set_use_pipe_mutex(v & 16); p->set_open_console(v & 32); CK(p->get_blocking() == !!(v & 1) && p->get_read_output() == !!(v & 2) && p->get_read_std() == !!(v & 4) && p->get_read_std_err() == !!(v & 8) && p->get_use_pipe_mutex() == !!(v & 16) && p->get_open_console() == !!(v & 32), "SubProcess:settings", "settings %d are not kept", v); } memdelete(p); }
}
static void outputs() {
	struct O { std::string n, t; }; std::vector<O> os = { { "nothing", "" }, { "x", "x" }, { "x line", "x\n" }, { "two lines", "a\nbc\n" }, { "open end", "a\nbc" }, { "empty lines", "\n\n\n" } };
	auto rep = [](const std::string &x, size_t n) { std::string r; while (r.size() < n) r += x; return r; };
	for (size_t n : { (size_t)65530, (size_t)65531, (size_t)65532, (size_t)65533, (size_t)65534, (size_t)65535, (size_t)65536, (size_t)131080 }) { os.push_back({ fmt("long line %zu", n), rep("q", n) }); os.push_back({ fmt("long line %zu and more", n), rep("q", n - 1) + "\nrest\n" }); }
	for (size_t o = 0; o < 4; o++) { os.push_back({ fmt("e acute from %zu", o), std::string(o, 'a') + rep("\xc3\xa9", 140000) }); os.push_back({ fmt("han from %zu", o), std::string(o, 'a') + rep("\xe4\xb8\xad", 70000) + "\n" }); os.push_back({ fmt("wide from %zu", o), std::string(o, 'a') + rep("\xf0\x9f\x98\x80", 70000) }); }
	for (auto &o : os) for (int code : { 0, 1, 3, 127, 255, -9, -15 }) { if (o.t.size() > 100 && code != 0 && code != 3) continue; for (int w = 0; w < 4; w++) MC_CASE("output %s, exit %d, %s", o.n.c_str(), code, wn[w]) {
		put("in", o.t); std::string sc = std::string("cat in") + (w < 2 ? "" : " > out") + (code == 0 && o.t.size() > 100 ? "" : "; printf 'E%s' rr >&2") + (code >= 0 ? fmt("; exit %d", code) : fmt("; kill %d $$", code));
		for (int err = 0; err < 2; err++) for (int via = 0; via < 3; via++) { if (w >= 2 && (err || via == 1)) continue; uint64_t u = Memory::get_mem_usage(); int keep = -1; if (w >= 2) { fflush(stderr); keep = dup(2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); }
			SubProcess *p = SubProcess::create(); g_on = true; unlink("out"); Res r = go(p, (Way)w, "/bin/sh", { "-c", sc }, err, via); g_on = false; if (keep >= 0) { dup2(keep, 2); close(keep); }
			bool says = sc.find("printf") != std::string::npos; std::string want = o.t + (w < 2 && err && says ? "Err" : ""), got = w < 2 ? r.data : get("out"); if (code < 0 && w < 2 && err) for (const char *x : { "Killed\n", "Terminated\n" }) if (got.size() >= strlen(x) && got.substr(got.size() - strlen(x)) == x) got.resize(got.size() - strlen(x)); /* the calling shell reports the killed one */ std::string in = fmt("%s, stderr %s, way %d, exit %d, output %s", wn[w], err ? "read" : "dropped", via, code, o.n.c_str()); size_t d = 0; while (d < std::min(got.size(), want.size()) && got[d] == want[d]) d++;
			CK(r.err == OK && r.why.empty() && !r.running, fmt("SubProcess:run:%s", wn[w]), "%s: result %d, %s %s", in.c_str(), r.err, r.running ? "still running" : "", r.why.c_str()); CK(got == want, fmt("SubProcess:output:%s", wn[w]), "%s: output differs at byte %zu (%zu instead of %zu): %s", in.c_str(), d, got.size(), want.size(), vis(got.substr(d)).c_str()); CK(code >= 0 ? r.code == code : r.code != 0, fmt("SubProcess:exit code:%s", wn[w]), "%s: exit code %d", in.c_str(), r.code);
			mc::state(in); memdelete(p); CK(no_children(), "SubProcess:reaped", "%s: a child is left behind", in.c_str()); CK(Memory::get_mem_usage() == u, "SubProcess:leak", "%s: %lld bytes left behind", in.c_str(), (long long)(Memory::get_mem_usage() - u)); }
	} }
	for (int w = 0; w < 4; w++) for (int via : { 0, 2 }) MC_CASE("missing program and failing system, %s, %d", wn[w], via) {
		int keep = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); SubProcess *p = SubProcess::create(); g_on = true; Res r = go(p, (Way)w, "/nonexistent/program", {}, false, via); CK(!r.running && (r.err != OK || r.code != 0), "SubProcess:missing", "a missing program, %s: result %d, exit code %d", wn[w], r.err, r.code);
		g_fork_fails = g_popen_fails = 1; r = go(p, (Way)w, "/bin/true", {}, false, via); CK(r.err != OK && !r.running, "SubProcess:no fork", "%s: when no child can be made the result is %d", wn[w], r.err); g_fork_fails = g_popen_fails = 0;
		for (int n = 0; n <= 3; n++) { g_eintr = n; SubProcess *q = SubProcess::create(); r = go(q, (Way)w, "/bin/sh", { "-c", "exit 7" }, false, via); g_eintr = 0; CK(r.err == OK && !r.running && r.code == 7, "SubProcess:interrupted", "%s: waiting interrupted %d times gives exit code %d", wn[w], n, r.code); memdelete(q); }
		r = go(p, (Way)w, "/bin/sh", { "-c", "exit 5" }, false, via); CK(r.err == OK && r.code == 5, "SubProcess:again", "%s: started again, exit code %d", wn[w], r.code); memdelete(p); g_on = false; dup2(keep, 2); close(keep); CK(no_children(), "SubProcess:reaped", "%s: a child is left behind", wn[w]);
	}
}
// histories on one object: S = a child that sleeps, Q = one that ends by itself with code 6, L = one whose output waits to be read
static void lifes(int depth) {
	static const char *on[] = { "start sleeper", "start quick", "start reader", "wait", "running?", "stop", "poll", "set", "run blocking" }; std::vector<int> h;
	std::function<void(int)> rec = [&](int d) { if (d < depth) { for (int o = 0; o < 9; o++) { h.push_back(o); rec(d + 1); h.pop_back(); } return; } if (h[0] > 2) return;
		std::string hn = "life:"; for (int o : h) hn += std::string(" ") + on[o] + ";"; MC_CASE("%s", hn.c_str()) {
			enum { IDLE, SLEEPS, QUICK, QUICK_DEAD, READS, READ_OPEN } st = IDLE; int left = 0, code = 0; bool known = true; SubProcess *p = SubProcess::create(); g_on = true; g_wrong_kill = 0; std::string done = "life:";
			for (int o : h) { mc::transition(); done += std::string(" ") + on[o] + ";"; bool busy = st != IDLE && st != QUICK_DEAD; const char *c = done.c_str(); bool sure = st != QUICK && st != READ_OPEN; // a quick child may or may not have ended yet
				if (o <= 2 || o == 8) { Res r; r.err = p->run("/bin/sh", [&] { Vector<String> a; a.push_back("-c"); a.push_back(o == 0 ? "exec sleep 300" : o == 1 ? "exit 6" : o == 2 ? "echo one; echo two; exit 4" : "exit 8"); return a; }(), o == 2, o == 8);
					if (!sure) { if (r.err != OK) { CK(r.err == ERR_ALREADY_IN_USE || r.err == ERR_BUSY, "SubProcess:life", "%s answers %d", c, r.err); continue; } busy = false; }
					CK((r.err == OK) == !busy, "SubProcess:life", "%s starting %s answers %d", c, busy ? "while a child runs" : "with no child", r.err); if (r.err != OK) continue; known = false; if (o == 0) st = SLEEPS; else if (o == 1) st = QUICK; else if (o == 2) { st = READS; left = 2; } else { st = IDLE; known = true; code = 8; } }
				if (o == 3 && (st == QUICK)) { siginfo_t i; waitid(P_PID, p->get_process_id(), &i, WEXITED | WNOWAIT); st = QUICK_DEAD; }
				if (o == 4) { bool r = p->is_process_running(); if (st == QUICK) { if (!r) { st = IDLE; known = true; code = 6; } } else if (st == READ_OPEN) {} else CK(r == busy, "SubProcess:life", "%s says %s", c, r ? "running" : "not running"); if (st == QUICK_DEAD) { st = IDLE; known = true; code = 6; } }
				if (o == 5) { Error e = p->stop(); CK(e == OK, "SubProcess:life", "%s answers %d", c, (int)e); if (st == READS || st == READ_OPEN) { known = left < 2 && false; } else if (st == QUICK || st == QUICK_DEAD || st == SLEEPS) known = false; st = IDLE; CK(!p->is_process_running(), "SubProcess:life", "%s: stopped and still running", c); }
				if (o == 6) { Error e = p->poll(); if (st == READS || st == READ_OPEN) { if (left) { CK(e == OK && p->get_data() == (left == 2 ? "one\n" : "two\n"), "SubProcess:life", "%s answers %d with \"%s\"", c, (int)e, vis(raw(p->get_data())).c_str()); left--; if (!left) st = READ_OPEN; } else { CK(e == ERR_FILE_EOF, "SubProcess:life", "%s at the end answers %d", c, (int)e); st = IDLE; known = true; code = 4; } } else CK(e == OK, "SubProcess:life", "%s answers %d", c, (int)e); }
				if (o == 7 && sure) { String was = p->get_executable_path(); p->set_executable_path("/other"); p->set_blocking(true); p->set_arguments(Vector<String>()); if (busy) CK(p->get_executable_path() == was && !p->get_blocking() && p->get_arguments().size() == 2, "SubProcess:life", "%s: settings change while a child runs", c); else CK(p->get_executable_path() == "/other" && p->get_blocking() && p->get_arguments().size() == 0, "SubProcess:life", "%s: settings do not change", c); if (st == QUICK_DEAD) { st = IDLE; known = true; code = 6; } }
				if (known && st == IDLE) CK(p->get_exitcode() == code, "SubProcess:life", "%s: exit code %d, expected %d", c, p->get_exitcode(), code); CK(g_wrong_kill == 0, "SubProcess:kill", "%s: a signal is sent to a process that is no longer the child", c); mc::state(fmt("life %d %d %d", (int)st, left, known ? code : -1)); if (mc::S().fails.size() > 50) break; }
			memdelete(p); g_on = false; CK(g_wrong_kill == 0, "SubProcess:kill", "%s then deleted: a signal is sent to a process that is no longer the child", hn.c_str()); CK(no_children(), "SubProcess:reaped", "%s then deleted: a child is left behind", hn.c_str()); while (!no_children()) { siginfo_t i; if (waitid(P_ALL, 0, &i, WEXITED | WNOHANG | WNOWAIT)) break; if (i.si_pid) syscall(SYS_wait4, i.si_pid, nullptr, 0, nullptr); else break; }
		} }; rec(0);
}
// ---- addresses
static void addresses() {
	std::vector<int> oc = { 0, 1, 9, 10, 11, 15, 16, 31, 32, 100, 127, 128, 167, 168, 169, 171, 172, 173, 191, 192, 193, 224, 254, 255 };
	for (int a : oc) for (int b : oc) MC_CASE("addresses %d.%d.*", a, b) for (int c : oc) for (int d : oc) {
		mc::transition(); std::string t = fmt("%d.%d.%d.%d", a, b, c, d); int port = (a * 256 + d * 3 + c) & 0xffff; InetAddress x(t.c_str(), port); uint32_t ip = (uint32_t)a << 24 | b << 16 | c << 8 | d; bool priv = a == 10 || (a == 172 && b >= 16 && b < 32) || (a == 192 && b == 168) || ip == 0x7f000001;
		CK(!x.is_unspecified() && !x.is_ip_v6() && x.family() == AF_INET && x.ip_net_endian() == htonl(ip) && x.to_port() == port && x.port_net_endian() == htons(port), "InetAddress:v4", "%s:%d is read as %08x port %d", t.c_str(), port, ntohl(x.ip_net_endian()), x.to_port()); CK(raw(x.to_ip()) == t && raw(x.to_ip_port()) == t + fmt(":%d", port), "InetAddress:v4 text", "%s:%d is written %s", t.c_str(), port, raw(x.to_ip_port()).c_str());
		if ((a != 127 || ip == 0x7f000001)) { CK(x.is_intranet_ip() == priv, "InetAddress:intranet", "%s is %sprivate", t.c_str(), priv ? "not " : ""); CK(x.is_loopback_ip() == (ip == 0x7f000001), "InetAddress:loopback", "%s loopback", t.c_str()); }
		struct sockaddr_in sa; memset(&sa, 0, sizeof(sa)); sa.sin_family = AF_INET; sa.sin_port = htons(port); sa.sin_addr.s_addr = htonl(ip); InetAddress y(sa); CK(!y.is_unspecified() && !y.is_ip_v6() && raw(y.to_ip_port()) == raw(x.to_ip_port()) && memcmp(y.get_sock_addr(), &sa, sizeof(sa)) == 0, "InetAddress:from sockaddr", "%s from a socket address", t.c_str());
		InetAddress z(x); z.set_port_net_endian(htons(7)); CK(z.to_port() == 7 && x.to_port() == port && z.ip_net_endian() == x.ip_net_endian(), "InetAddress:copy", "a copy of %s", t.c_str()); InetAddress w; w = y; w = *&w; CK(raw(w.to_ip_port()) == raw(x.to_ip_port()) && w.is_ip_v6() == x.is_ip_v6(), "InetAddress:copy", "%s assigned", t.c_str()); if (mc::S().fails.size() > 50) break;
	}
	std::vector<int> wd = { 0, 1, 0xff, 0xabcd, 0xfe80, 0xfebf, 0xfec0, 0xfeff, 0xff00, 0xffff, 0x7f00, 0x0a00, 0xc0a8, 0xac10, 0x09ff, 0x0aff, 0x0b00, 0xac0f, 0xac1f, 0xac20, 0xc0a7, 0xc0a9, 0xfe7f };
	for (int a : wd) MC_CASE("addresses %x:*", a) for (int b : { 0, 1, 0xffff }) for (int m : { 0, 1 }) for (int f : { 0, 0xffff, 1 }) for (int c : wd) for (int d : wd) {
		mc::transition(); int w[8] = { a, b, 0, m, 0, f, c, d }; struct sockaddr_in6 sa; memset(&sa, 0, sizeof(sa)); sa.sin6_family = AF_INET6; int port = (c + d * 3) & 0xffff; sa.sin6_port = htons(port); std::string t; for (int i = 0; i < 8; i++) { sa.sin6_addr.s6_addr[i * 2] = w[i] >> 8; sa.sin6_addr.s6_addr[i * 2 + 1] = w[i] & 255; t += fmt(i ? ":%x" : "%x", w[i]); }
		InetAddress x(t.c_str(), port, true), y(sa); in6_addr back; CK(!x.is_unspecified() && x.is_ip_v6() && y.is_ip_v6() && x.family() == AF_INET6 && x.to_port() == port && memcmp(x.ip6_net_endian(), &sa.sin6_addr, 16) == 0 && memcmp(y.ip6_net_endian(), &sa.sin6_addr, 16) == 0 && memcmp(y.get_sock_addr(), &sa, sizeof(sa)) == 0, "InetAddress:v6", "[%s]:%d", t.c_str(), port);
		std::string u = raw(x.to_ip()); CK(inet_pton(AF_INET6, u.c_str(), &back) == 1 && memcmp(&back, &sa.sin6_addr, 16) == 0 && raw(y.to_ip_port()) == u + fmt(":%d", port), "InetAddress:v6 text", "%s is written %s", t.c_str(), u.c_str());
		bool lead = !a && !b && !m, v4 = lead && f == 0xffff; uint32_t ip = (uint32_t)c << 16 | d; bool lo = (lead && !f && !c && d == 1) || (v4 && ip == 0x7f000001); bool priv = lo || (a & 0xffc0) == 0xfe80 || (a & 0xffc0) == 0xfec0 || (v4 && (ip >> 24 == 10 || ip >> 20 == 0xac1 || ip >> 16 == 0xc0a8)); if (v4 && ip >> 24 == 127 && !lo) continue;
		CK(x.is_loopback_ip() == lo && y.is_loopback_ip() == lo, "InetAddress:loopback", "%s loopback", t.c_str()); CK(x.is_intranet_ip() == priv, "InetAddress:intranet", "%s is %sprivate", t.c_str(), priv ? "not " : ""); InetAddress z; z.set_sock_addr_inet6(sa); CK(z.is_ip_v6() && raw(z.to_ip_port()) == raw(x.to_ip_port()), "InetAddress:copy", "%s set", t.c_str()); InetAddress q(y), r; r = x; CK(q.is_ip_v6() && r.is_ip_v6() && raw(q.to_ip()) == u && raw(r.to_ip()) == u, "InetAddress:copy", "%s copied", t.c_str()); if (mc::S().fails.size() > 50) break;
	}
	MC_CASE("no addresses") { for (int v6 = 0; v6 < 2; v6++) for (const char *t : { "", "a", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", "1..2.3", "::g", "1:2:3", ":::", "12345::", "1.2.3.4:5" }) { InetAddress x(t, 80, v6); CK(x.is_unspecified() && x.is_ip_v6() == (bool)v6 && x.to_port() == 80, "InetAddress:invalid", "\"%s\" is taken for an address", t); InetAddress y(x); CK(y.is_unspecified(), "InetAddress:invalid", "\"%s\" copied", t); }
		for (int lo = 0; lo < 2; lo++) { InetAddress a(99, lo, false), b(99, lo, true); CK(raw(a.to_ip_port()) == (lo ? "127.0.0.1:99" : "0.0.0.0:99") && raw(b.to_ip()) == (lo ? "::1" : "::") && !a.is_unspecified() && !b.is_unspecified() && a.is_loopback_ip() == (bool)lo && b.is_loopback_ip() == (bool)lo, "InetAddress:any", "any and loopback %d: %s %s %d %d %d %d", lo, raw(a.to_ip_port()).c_str(), raw(b.to_ip()).c_str(), a.is_unspecified(), b.is_unspecified(), a.is_loopback_ip(), b.is_loopback_ip()); } }
}
// ---- sockets
static bool ready(int fd, short ev) { struct pollfd p = { fd, ev, 0 }; for (;;) { int r = ::poll(&p, 1, 5000); if (r < 0 && errno == EINTR) continue; return r > 0; } }
static void off(Socket &s) { if (s._socket > 0) { struct linger l = { 1, 0 }; setsockopt(s._socket, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); } s.close_socket(); }
static std::string text(const sockaddr_in6 &a) { return a.sin6_family == AF_INET ? raw(InetAddress(*(const sockaddr_in *)&a).to_ip_port()) : raw(InetAddress(a).to_ip_port()); }
static bool listener(Socket &l, bool v6, int &port) { l.create(v6 ? AF_INET6 : AF_INET); if (l._socket <= 0) return false; if (l.bind_address(InetAddress((uint16_t)0, true, v6)) != 0) return false; if (l.listen() != 0) return false; port = ntohs(l.get_local_addr().sin6_port); return true; }
static bool pair_up(Socket &l, int port, bool v6, Socket &c, Socket &s) { c.create(v6 ? AF_INET6 : AF_INET); int r = c.connect(InetAddress((uint16_t)port, true, v6)); if (r != 0 && errno != EINPROGRESS) return false; if (!ready(l._socket, POLLIN)) return false; if (l.accept(&s) < 0) return false; return ready(c._socket, POLLOUT); }
static void sockets(int depth) {
	static bool up[2] = { false, false }; static int port[2]; static Socket *ls[2];
	for (bool v6 : { false, true }) {
		std::vector<int> h; std::function<void(int)> rec = [&](int d) { if (d < depth) { for (int o = 0; o < 10; o++) { h.push_back(o); rec(d + 1); h.pop_back(); } return; }
			std::string hn = v6 ? "socket6:" : "socket4:"; for (int o : h) hn += fmt(" %s%s", o >= 5 ? "server " : "client ", o % 5 == 0 ? "sends 1;" : o % 5 == 1 ? "sends 700;" : o % 5 == 2 ? "reads 3;" : o % 5 == 3 ? "reads all;" : "ends;");
			MC_CASE("%s", hn.c_str()) {
				if (!ls[v6]) { ls[v6] = new Socket; up[v6] = listener(*ls[v6], v6, port[v6]); } if (!up[v6]) { mc::count("no_such_network"); return; }
				Socket sk[2]; bool paired = pair_up(*ls[v6], port[v6], v6, sk[0], sk[1]); CK(paired, "Socket:connect", "%s no connection", hn.c_str()); if (!paired) { off(sk[0]); off(sk[1]); return; }
				CK(text(sk[0].get_local_addr()) == text(sk[1].get_peer_addr()) && text(sk[1].get_local_addr()) == text(sk[0].get_peer_addr()) && raw(sk[1]._address.to_ip_port()) == text(sk[0].get_local_addr()) && sk[1]._address.is_ip_v6() == v6, "Socket:addresses", "the ends disagree about their addresses: %s %s %s %s, accepted %s", text(sk[0].get_local_addr()).c_str(), text(sk[1].get_peer_addr()).c_str(), text(sk[1].get_local_addr()).c_str(), text(sk[0].get_peer_addr()).c_str(), raw(sk[1]._address.to_ip_port()).c_str());
				for (int i = 0; i < 2; i++) CK((fcntl(sk[i]._socket, F_GETFL) & O_NONBLOCK) && (fcntl(sk[i]._socket, F_GETFD) & FD_CLOEXEC) && sk[i].get_error() == 0 && !sk[i].is_self_connect(), "Socket:flags", "end %d blocks, survives exec, has an error or talks to itself", i);
				std::string q[2]; bool ended[2] = { false, false }; unsigned char stamp = 0; // q[i]: on its way to end i
				for (int o : h) { int me = o / 5, you = 1 - me; mc::transition(); char b[5000];
					switch (o % 5) {
						case 0: case 1: { int n = o % 5 ? 700 : 1; if (ended[me]) break; for (int i = 0; i < n; i++) b[i] = stamp++; int r = sk[me].send(b, n); CK(r == n, "Socket:send", "%s sending %d answers %d", hn.c_str(), n, r); if (r > 0) q[you].append(b, r); break; }
						case 2: case 3: { int n = o % 5 == 2 ? 3 : 5000; if (!q[me].empty() || ended[you]) { bool rd = ready(sk[me]._socket, POLLIN); CK(rd, "Socket:arrives", "%s nothing arrives", hn.c_str()); if (!rd) break; } std::string got; int want = std::min((size_t)n, q[me].size()); memset(b, 0xaa, sizeof(b)); int r = sk[me].read(b, n); int e = errno;
							if (want == 0) { CK(ended[you] ? r == 0 : r == -1 && (e == EAGAIN || e == EWOULDBLOCK), "Socket:read", "%s reading nothing answers %d", hn.c_str(), r); break; }
							for (;;) { if (r > 0) got.append(b, r); if (r <= 0 || (int)got.size() >= want) break; if (!ready(sk[me]._socket, POLLIN)) break; r = sk[me].read(b, n - got.size()); }
							CK(got == q[me].substr(0, want), "Socket:read", "%s reading %d gives %zu bytes or wrong ones", hn.c_str(), n, got.size()); q[me].erase(0, got.size()); break; }
						case 4: if (ended[me]) break; CK(sk[me].close_write() == 0, "Socket:end", "%s ending fails", hn.c_str()); ended[me] = true; break;
					}
					mc::state(fmt("%d %zu %zu %d%d", v6, q[0].size(), q[1].size(), ended[0], ended[1])); }
				off(sk[0]); off(sk[1]); CK(sk[0]._socket == 0 && sk[1]._socket == 0, "Socket:close", "a closed socket keeps its number");
			} }; rec(0);
	}
	MC_CASE("socket options and errors") {
		Socket l; int pt = 0; if (listener(l, false, pt)) { Socket c, s; CK(pair_up(l, pt, false, c, s), "Socket:connect", "no connection"); auto opt = [&](int lv, int o) { int v = -1; socklen_t n = sizeof(v); getsockopt(c._socket, lv, o, &v, &n); return v; };
			for (int on : { 1, 0, 1 }) { c.set_tcp_nodelay(on); c.set_keep_alive(on); c.set_reuse_addr(on); CK(!!opt(IPPROTO_TCP, TCP_NODELAY) == on && !!opt(SOL_SOCKET, SO_KEEPALIVE) == on && !!opt(SOL_SOCKET, SO_REUSEADDR) == on, "Socket:options", "options switched to %d", on); CK(c.set_reuse_port(on) == 0 && !!opt(SOL_SOCKET, SO_REUSEPORT) == on, "Socket:options", "reuse_port switched to %d", on); }
			fcntl(c._socket, F_SETFL, 0); fcntl(c._socket, F_SETFD, 0); CK(c.set_non_block() == 0 && (fcntl(c._socket, F_GETFL) & O_NONBLOCK) && c.set_close_on_exit() == 0 && (fcntl(c._socket, F_GETFD) & FD_CLOEXEC), "Socket:flags", "flags cannot be set");
			Socket t; t.create_net_socket(); CK(t._socket > 0 && t.bind_address(InetAddress((uint16_t)pt, true)) == EADDRINUSE, "Socket:bind", "a port in use can be bound"); Socket u; CK(l.accept(&u) == -1 && u._socket == 0, "Socket:accept", "nobody connects and something is accepted");
			int err = 7; c.get_local_addr(&err); CK(err == 0, "Socket:addresses", "local address error %d", err); t.get_peer_addr(&err); CK(err != 0, "Socket:addresses", "an unconnected socket has a peer"); off(s); off(c); l.close_socket();
			Socket r; r.create_net_socket(); int rc = r.connect(InetAddress((uint16_t)pt, true)); if (rc != 0 && errno == EINPROGRESS) { ready(r._socket, POLLOUT); CK(r.get_error() == ECONNREFUSED, "Socket:error", "a refused connection has no error"); } else CK(rc == -1, "Socket:error", "nobody listens and the connection works"); }
		Socket z; CK(z._socket == 0 && z.connect(InetAddress()) == -1 && z.bind_address(InetAddress()) == -1 && z.listen() == -1 && z.close_write() == -1 && z.get_error() == -1 && z.set_non_block() == -1 && z.set_close_on_exit() == -1 && !z.is_self_connect(), "Socket:closed", "a socket that is not open works");
		int fd[2]; if (pipe(fd) == 0) { { InetAddress a("1.2.3.4", 5); Socket own(fd[0], a); CK(own._socket == fd[0] && raw(own._address.to_ip_port()) == "1.2.3.4:5", "Socket:own", "a socket made of a number and an address"); } CK(fcntl(fd[0], F_GETFD) == -1, "Socket:own", "a deleted socket is not closed"); close(fd[1]); }
	}
}
static void clean() { if (g_dir.empty()) return; for (auto n : { "in", "out" }) unlink((g_dir + "/" + n).c_str()); if (chdir("/") == 0) rmdir(g_dir.c_str()); }
void explore() {
	SFWCore::setup(); char t[] = "/dev/shm/c59-XXXXXX"; if (mkdtemp(t) && chdir(t) == 0) g_dir = t; signal(SIGPIPE, SIG_IGN); bool th = mc::thorough();
	arguments(); outputs(); lifes(th ? 5 : 4); addresses(); sockets(th ? 5 : 4); clean();
}
