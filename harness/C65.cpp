// MC: variant=asan
// C65: clocks, sleeps and randomised seeds. Every short history of waiting, sleeping and looking at the clocks, on simulated clocks that start anywhere, may move at every look and may interrupt
// sleeps with signals: the clocks agree with each other and with the time that passed, sleeps last as long as asked, and generators randomised at different times differ.
#include "hist.h"
#include <thread>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
typedef unsigned long long U;
static U g_mono = 0, g_wall = 0; static unsigned g_tick = 0; static int g_intr = 0; static bool g_bad = false, g_on = false; // nanoseconds; nanoseconds; how far a look moves the clock; signals still to come
static void pass(U d) { g_mono += d; g_wall += d; }
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { U v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g_wall : g_mono; t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; pass(g_tick); return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = g_wall / 1000000000ull; t->tv_usec = g_wall / 1000 % 1000000; return 0; }
extern "C" time_t time(time_t *t) noexcept { time_t r = g_wall / 1000000000ull; if (t) *t = r; return r; }
static int nap(const struct timespec *q, struct timespec *rem) { if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec >= 1000000000l) { g_bad = true; return EINVAL; } U d = q->tv_sec * 1000000000ull + q->tv_nsec; if (g_intr > 0 && d) { g_intr--; U h = d / 2; pass(h); if (rem) { rem->tv_sec = (d - h) / 1000000000ull; rem->tv_nsec = (d - h) % 1000000000ull; } return EINTR; } pass(d); return 0; }
extern "C" int nanosleep(const struct timespec *q, struct timespec *rem) { int r = nap(q, rem); if (r) { errno = r; return -1; } return 0; }
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec *q, struct timespec *rem) { if (!flags) return nap(q, rem); U v = c == CLOCK_REALTIME ? g_wall : g_mono, w = q->tv_sec * 1000000000ull + q->tv_nsec; struct timespec d; U n = w > v ? w - v : 0; d.tv_sec = n / 1000000000ull; d.tv_nsec = n % 1000000000ull; return nap(&d, nullptr); }
extern "C" int usleep(useconds_t u) { struct timespec q = { (time_t)(u / 1000000), (long)(u % 1000000 * 1000) }; return nanosleep(&q, nullptr); }
struct Ev { const char *n; int k; double d; }; // 0: time passes (ns), 1..4: sleep_ns, us, ms, ss
static const Ev EV[] = { { "wait 1ns", 0, 1 }, { "wait 999ns", 0, 999 }, { "wait 1us", 0, 1000 }, { "wait 1.5ms", 0, 1.5e6 }, { "wait 1s+1ns", 0, 1000000001. }, { "wait 3h", 0, 10800e9 }, { "wait 60y", 0, 1.9e18 },
	{ "sleep_ns(1)", 1, 1 }, { "sleep_ns(1e9)", 1, 1e9 }, { "sleep_ns(999999999)", 1, 999999999 }, { "sleep_us(1)", 2, 1 }, { "sleep_us(1500000.25)", 2, 1500000.25 }, { "sleep_ms(0.5)", 3, 0.5 }, { "sleep_ms(2000)", 3, 2000 }, { "sleep_ss(2.75)", 4, 2.75 }, { "sleep_ss(5000)", 4, 5000 }, { "sleep_ms(0)", 3, 0 }, { "sleep_ss(-1)", 4, -1 }, { "another thread looks", 5, 0 } };
static const int NE = sizeof EV / sizeof *EV;
static bool rel(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::fabs(b) + 1e-12; }
static void history(const std::vector<int> &h, U mono, U wall, unsigned tick, int intr) {
	std::string in = mc::fmt("clock at %llu ns, date %llu, %u ns a look, %d signals: ", mono, wall, tick, intr); for (int e : h) in += std::string(EV[e].n) + "; "; mc::state(in);
	std::thread([&] { g_mono = mono; g_wall = wall * 1000000000ull; g_tick = tick; g_bad = false;
		U lo = 0, hi = 0, last = 0; bool first = true; // bounds of the true time between the first look and this one
		auto look = [&](const char *after) {
			U b = g_mono, t = SFWTime::time_ns(), a = g_mono; static U f0, f1, ft; if (first) { f0 = b; f1 = a; ft = t; first = false; last = t; }
			lo = b > f1 ? b - f1 : 0; hi = a - f0; mc::transition(); mc::ok(t >= last, "time:forward", "%s after %s time_ns went from %llu to %llu", in.c_str(), after, last, t); mc::ok(t - ft >= lo && t - ft <= hi, "time:ns", "%s after %s time_ns moved by %llu, the clock by %llu to %llu", in.c_str(), after, t - ft, lo, hi); last = t;
			U tk = g_tick; if (tk) return; // the units agree when the clock stands still
			mc::ok(SFWTime::time_us() == t / 1000 && SFWTime::time_ms() == t / 1000000, "time:units", "%s after %s %llu ns are %llu us or %llu ms", in.c_str(), after, t, (U)SFWTime::time_us(), (U)SFWTime::time_ms());
			mc::ok(rel(SFWTime::time_ss(), t / 1e9) && rel(SFWTime::time_mm(), t / 60e9) && rel(SFWTime::time_hh(), t / 3600e9), "time:units", "%s after %s %llu ns are %.12g s, %.12g min or %.12g h", in.c_str(), after, t, SFWTime::time_ss(), SFWTime::time_mm(), SFWTime::time_hh());
			mc::ok(SFWTime::date_epoch() == g_wall / 1000000000ull, "time:date_epoch", "%s after %s date_epoch is %llu", in.c_str(), after, (U)SFWTime::date_epoch()); };
		look("the start"); for (int e : h) { const Ev &v = EV[e]; U b = g_mono; g_intr = intr; if (!v.k) pass((U)v.d); else if (v.k == 5) std::thread([] { U t = SFWTime::time_ns(); pass(1000); mc::ok(SFWTime::time_ns() - t >= 1000, "time:ns", "a second thread's clock stands still"); }).join(); else if (v.k == 1) SFWTime::sleep_ns(v.d); else if (v.k == 2) SFWTime::sleep_us(v.d); else if (v.k == 3) SFWTime::sleep_ms(v.d); else SFWTime::sleep_ss(v.d); g_intr = 0;
			double el = g_mono - b, want = std::max(0.0, v.k % 5 == 0 ? v.d : v.d * std::pow(1000.0, v.k - 1)); if (v.k % 5) mc::ok(!g_bad && el >= want - 2 && el <= want * (1 + 1e-9) + 2000, "time:sleep", "%s %s lasted %.0f ns%s", in.c_str(), v.n, el, g_bad ? " (a time the system rejects)" : ""); look(v.n); }
	}).join(); mc::outcome(mc::fmt("%d events", (int)h.size()));
}
struct Start { U mono, wall; int thread_age; }; // when a program starts and how long its clock has been running at the call
static std::vector<uint32_t> drawn(const Start &s, int kind, U seed0, U *seed) { std::vector<uint32_t> r; std::thread([&] { g_mono = s.mono; g_wall = s.wall; g_tick = 0; if (s.thread_age >= 0) { SFWTime::time_ns(); pass(s.thread_age); } RandomPCG g(seed0); if (kind) { Math::seed(seed0); Math::randomize(); for (int i = 0; i < 6; i++) r.push_back(Math::rand()); } else { g.randomize(); *seed = g.get_seed(); for (int i = 0; i < 6; i++) r.push_back(g.rand()); RandomPCG o(*seed); std::vector<uint32_t> q; for (int i = 0; i < 6; i++) q.push_back(o.rand()); mc::ok(q == r, "randomize:seed", "a generator given the seed %llu of a randomised one draws other numbers", *seed); } }).join(); return r; }
static void starts(const Start &a, const Start &b, int kind, U seed0) { U s0 = 0, s1 = 0; std::vector<uint32_t> x = drawn(a, kind, seed0, &s0), y = drawn(b, kind, seed0, &s1); mc::transition(); std::string in = mc::fmt("%s from seed %llu at date %llu ns and %d ns after the first look, and at date %llu ns and %d ns", kind ? "Math::randomize" : "RandomPCG::randomize", seed0, a.wall, a.thread_age, b.wall, b.thread_age); mc::state(in);
	mc::ok(x != y && (kind || s0 != s1), "randomize:differs", "%s: the same numbers (%u, %u ...)", in.c_str(), x[0], x[1]); }
void explore() {
	const U M[] = { 0, 1, 999999999ull, 12345678901ull, 4000000000000000000ull }, W[] = { 0, 1700000000ull, 4294967295ull }; int T = mc::thorough() ? 4 : 3;
	for (int len = 1; len <= T; len++) { std::vector<std::vector<int>> pre{ {} }; for (int i = 0; i + 2 < len; i++) { std::vector<std::vector<int>> n; for (auto &p : pre) for (int e = 0; e < NE; e++) { auto x = p; x.push_back(e); n.push_back(x); } pre = n; }
		for (auto &p : pre) for (int e = 0; e < (len > 1 ? NE : 1); e++) MC_CASE("clock histories of %d events (%d, %d)", len, p.empty() ? -1 : p[0], p.size() > 1 ? p[1] * NE + e : e) for (int f = 0; f < NE; f++) { std::vector<int> h = p; if (len > 1) h.push_back(e); h.push_back(f); int big = 0; for (int x : h) big += x == 6; if (big > 4) continue;
			for (int m = 0; m < 5; m++) for (unsigned tick : { 0u, 7u }) for (int intr : { 0, 1, 3 }) { if (len > 2 && !mc::thorough() && (m + f + intr + tick) % 3) continue; if (len > 3 && (m + f + e + intr + tick) % 6) continue; history(h, M[m], W[(m + f) % 3], tick, intr); } } }
	std::vector<Start> st; for (U d : { 0ull, 1ull, 2ull, 59ull, 60ull, 3600ull, 86400ull, 1000000ull }) for (int age : { -1, 0, 3000, 1000000 }) st.push_back(Start{ 5000000000ull + d * 1000000000ull, (1700000000ull + d) * 1000000000ull, age });
	for (size_t i = 0; i < st.size(); i++) MC_CASE("randomised starts, against start %zu", i) for (size_t j = 0; j < st.size(); j++) { auto total = [&](const Start &s) { return s.wall / 1000000000ull * 1000000ull + (s.thread_age > 0 ? s.thread_age / 1000 : 0); }; bool wholes = st[i].wall / 1000000000ull != st[j].wall / 1000000000ull && st[i].thread_age <= 0 && st[j].thread_age <= 0, later = st[i].wall == st[j].wall && total(st[i]) != total(st[j]); if (!wholes && !later) continue; // the same point within different seconds, or different points of the same run
		for (int kind = 0; kind < 2; kind++) for (U s : { 1ull, 12345ull, 12047754176567800795ull, 0xffffffffffffffffull }) starts(st[i], st[j], kind, s); }
	MC_CASE("randomised again and again") for (U s : { 1ull, 77ull }) { std::thread([&] { g_mono = g_wall = 1700000000ull * 1000000000ull; RandomPCG g(s); std::set<U> seen; for (int i = 0; i < 200; i++) { g.randomize(); mc::transition(); mc::ok(seen.insert(g.get_seed()).second, "randomize:again", "randomising %d times, a microsecond apart, came back to seed %llu", i + 1, (U)g.get_seed()); pass(1000); } }).join(); }
}
