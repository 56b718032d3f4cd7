// Explorer support shared by all harnesses.
//
// A harness enumerates *cases* (one history, one operand configuration, one schedule...).  Cases are numbered
// in enumeration order; the driver shards them over processes (case index mod shards).  Every case is
// deterministic and can be run alone (--only N), which is how violations are replayed.
#ifndef MC_H
#define MC_H
#include "sfw.h"

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Shared { // lives in a file shared with the driver: what was running when the process died
	uint64_t case_index;
	char desc[4000];
};

struct State {
	int shard = 0, shards = 1;
	long long only = -1;
	bool thorough = false;
	std::string out;
	Shared *sh = nullptr;
	Shared local;
	long long index = -1; // current case
	std::string desc;
	unsigned long long cases = 0, transitions = 0, checks = 0, nontrivial = 0, traces = 0;
	std::unordered_set<uint64_t> states, distinct, outcomes;
	std::vector<std::string> samples;
	struct Fail { long long index; std::string key, desc, msg; };
	std::vector<Fail> fails;
	std::set<std::string> failkeys;
	std::map<std::string, unsigned long long> counters;
	bool case_failed = false;
	int case_seconds = 30;
	std::vector<std::string> notes;
};
inline State &S() { static State s; return s; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *b = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

inline std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

inline std::string fmtv(const char *f, va_list ap) {
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, f, ap2); va_end(ap2);
	std::string s(n + 1, 0);
	vsnprintf(&s[0], n + 1, f, ap); s.resize(n);
	return s;
}
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); return s; }

inline bool thorough() { return S().thorough; }

inline void arm(int seconds) { // CPU-time limit of one case: a case that does not end is reported as a hang
	struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_prof(int) { _exit(97); }

inline void publish() {
	State &s = S();
	s.sh->case_index = (uint64_t)s.index;
	size_t n = s.desc.size() < sizeof(s.sh->desc) - 1 ? s.desc.size() : sizeof(s.sh->desc) - 1;
	memcpy(s.sh->desc, s.desc.data(), n); s.sh->desc[n] = 0;
}

// Starts the next case.  Returns true when this process has to run it.
inline bool next(const std::string &desc) {
	State &s = S();
	s.index++;
	if (s.only >= 0 ? s.index != s.only : (s.index % s.shards) != s.shard) return false;
	s.desc = desc; s.case_failed = false; s.cases++; s.traces++;
	publish(); arm(s.case_seconds);
	uint64_t h = fnv(desc);
	s.distinct.insert(h);
	if ((s.samples.size() < 3 && s.cases % 17 == 1) || (s.samples.size() < 6 && (s.cases & (s.cases - 1)) == 0)) s.samples.push_back(desc);
	return true;
}
#define MC_CASE(...) if (mc::next(mc::fmt(__VA_ARGS__)))

// Refines the description inside a case (which step is running), for crash reports.
inline void step(const std::string &d) { State &s = S(); s.desc = d; publish(); }

inline void fail(const std::string &key, const char *f, ...) {
	State &s = S();
	va_list ap; va_start(ap, f); std::string m = fmtv(f, ap); va_end(ap);
	s.case_failed = true;
	static const char *first = getenv("MC_FIRST"); // development aid: end at the first failure that is not a known finding
	if (first && !strstr(first, ("|" + key + "|").c_str())) _exit(42);
	if (s.failkeys.count(key)) { s.counters["repeat_failures"]++; return; }
	s.failkeys.insert(key);
	if (s.fails.size() < 200) s.fails.push_back({ s.index, key, s.desc, m });
}
inline void transition(unsigned n = 1) { S().transitions += n; }
inline void state(uint64_t h) { S().states.insert(h); }
inline void state(const std::string &d) { S().states.insert(fnv(d)); }
inline void outcome(const std::string &d) { S().outcomes.insert(fnv(d)); }
inline void count(const std::string &k, unsigned long long n = 1) { S().counters[k] += n; }

inline bool ok(bool cond, const std::string &key, const char *f, ...) {
	S().checks++;
	if (cond) return true;
	va_list ap; va_start(ap, f); std::string m = fmtv(f, ap); va_end(ap);
	fail(key, "%s", m.c_str());
	return false;
}

inline bool close(double a, double b, double rtol = 1e-4, double atol = 1e-5) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= atol + rtol * std::fmax(std::fabs(a), std::fabs(b));
}

// Runs f in a child process; returns true when it ended normally (used for inputs that used to crash).
inline bool survives(const std::function<void()> &f, int seconds = 10) {
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
		signal(SIGPROF, SIG_DFL); arm(seconds);
		f();
		_exit(0);
	}
	int st = 0; waitpid(p, &st, 0);
	return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

inline void write_out() {
	State &s = S();
	if (s.out.empty()) return;
	FILE *f = fopen((s.out + ".tmp").c_str(), "w");
	fprintf(f, "{\"cases\":%llu,\"total\":%lld,\"transitions\":%llu,\"checks\":%llu,\"traces\":%llu,\"states\":[", s.cases, s.index + 1, s.transitions, s.checks, s.traces);
	bool first = true;
	// state hashes are merged by the driver; very large sets are only counted (they are disjoint per shard or an upper bound)
	if (s.states.size() <= 400000) for (uint64_t h : s.states) { fprintf(f, first ? "\"%llx\"" : ",\"%llx\"", (unsigned long long)h); first = false; }
	fprintf(f, "],\"nstates\":%zu,\"distinct\":%zu,\"outcomes\":[", s.states.size(), s.distinct.size());
	first = true;
	size_t k = 0;
	for (uint64_t h : s.outcomes) { if (k++ > 100000) break; fprintf(f, first ? "\"%llx\"" : ",\"%llx\"", (unsigned long long)h); first = false; }
	fprintf(f, "],\"samples\":[");
	for (size_t i = 0; i < s.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(s.samples[i].substr(0, 600)).c_str());
	fprintf(f, "],\"counters\":{");
	first = true;
	for (auto &c : s.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), c.second); first = false; }
	fprintf(f, "},\"fails\":[");
	for (size_t i = 0; i < s.fails.size(); i++)
		fprintf(f, "%s{\"index\":%lld,\"key\":%s,\"desc\":%s,\"msg\":%s}", i ? "," : "", s.fails[i].index, jstr(s.fails[i].key).c_str(), jstr(s.fails[i].desc.substr(0, 3000)).c_str(), jstr(s.fails[i].msg.substr(0, 3000)).c_str());
	fprintf(f, "]}\n");
	fclose(f);
	rename((s.out + ".tmp").c_str(), s.out.c_str());
}

inline void init(int argc, char **argv) {
	State &s = S();
	std::string shfile;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--shard") { s.shard = atoi(argv[++i]); s.shards = atoi(argv[++i]); }
		else if (a == "--only") s.only = atoll(argv[++i]);
		else if (a == "--thorough") s.thorough = true;
		else if (a == "--out") s.out = argv[++i];
		else if (a == "--shared") shfile = argv[++i];
		else if (a == "--case-seconds") s.case_seconds = atoi(argv[++i]);
	}
	s.sh = &s.local;
	memset(s.sh, 0, sizeof(Shared));
	if (!shfile.empty()) {
		int fd = open(shfile.c_str(), O_RDWR | O_CREAT, 0600);
		if (ftruncate(fd, sizeof(Shared)) == 0) {
			void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) s.sh = (Shared *)p;
		}
		::close(fd);
	}
	signal(SIGPROF, on_prof);
	SFWCore::setup();
}
} // namespace mc

void explore(); // each harness defines this

int main(int argc, char **argv) {
	mc::init(argc, argv);
	explore();
	mc::arm(0);
	mc::write_out();
	fflush(nullptr);
	_exit(0); // the library's own shutdown is not part of any property here
}
#endif
