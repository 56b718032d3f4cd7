// Lock-step exploration of operation histories: the real object against a reference model.
#ifndef MC_HIST_H
#define MC_HIST_H
#include "mc.h"
#include <algorithm>
#include <memory>
#include <deque>

namespace mc {

template <class M, class R>
struct Op {
	std::string name;
	// model step: returns false when the operation is outside the alphabet in this state; obs = what it must return
	std::function<bool(M &, std::string &)> m;
	// real step: returns the observation
	std::function<std::string(R &)> r;
};

template <class M, class R>
struct Explorer {
	std::string label;
	std::function<std::string(const M &)> mdump; // canonical form of the model (full: two states with equal dumps have equal futures)
	std::function<std::string(R &)> rdump; // canonical form of the real object, through the public API
	std::function<std::string(const M &)> mkey; // what distinguishes states when merging, when that is more than the dump (e.g. sharing)
	std::function<bool(const M &)> within = [](const M &) { return true; };
	std::vector<Op<M, R>> ops;
	std::function<uint64_t()> held; // memory in use by the code under test; when given, a history must leave none behind

	std::string names(const std::vector<int> &h) const {
		std::string s = label + ":";
		for (int i : h) s += " " + ops[i].name;
		return s;
	}

	// Executes one step on both sides and compares; false when they disagree.
	bool both(M &m, R &r, int op, const std::string &hist) {
		std::string eo;
		M before = m;
		if (!ops[op].m(m, eo)) { m = before; return true; }
		S().transitions++;
		std::string ro = ops[op].r(r);
		std::string dm = mdump(m), dr = rdump(r);
		state(label + dm);
		outcome(ops[op].name + "|" + eo);
		bool good = ok(eo == ro, label + ":" + ops[op].name + ":result", "history [%s] then %s: expected result %s, got %s", hist.c_str(), ops[op].name.c_str(), eo.c_str(), ro.c_str());
		good &= ok(dm == dr, label + ":" + ops[op].name + ":state", "history [%s] then %s: expected state %s, got %s", hist.c_str(), ops[op].name.c_str(), dm.c_str(), dr.c_str());
		return good;
	}

	bool replay(const std::vector<int> &h, M &m, R &r) {
		for (size_t k = 0; k < h.size(); k++)
			if (!both(m, r, h[k], "")) return false;
		return true;
	}

	// The first run of a history may fill caches that live as long as the process; further ones must not hold on to more.
	void leaks(uint64_t a, const std::function<void()> &run, const std::vector<int> &h, int o) {
		if (!held || held() == a) return;
		run(); uint64_t b = held(); run(); uint64_t c = held();
		ok(b == c, label + ":" + ops[o].name + ":leak", "history [%s] then %s leaves %lld bytes behind each time", names(h).c_str(), ops[o].name.c_str(), (long long)(c - b));
	}

	// Every sequence of exactly `depth` operations, without merging states; one case per (depth-1)-prefix.
	void all_sequences(int depth) {
		std::vector<int> h;
		std::function<void(int)> rec = [&](int d) {
			if (d == depth - 1) {
				if (next(names(h) + " *")) {
					for (size_t o = 0; o < ops.size(); o++) {
						std::vector<int> hh = h; bool good = true;
						auto run = [&] { M m; R r; good = replay(hh, m, r); if (good) both(m, r, (int)o, names(h)); };
						uint64_t before = held ? held() : 0;
						run();
						if (!good) { fail(label + ":prefix", "prefix %s already disagrees", names(h).c_str()); break; }
						leaks(before, run, h, (int)o);
					}
				}
				return;
			}
			for (size_t o = 0; o < ops.size(); o++) { h.push_back((int)o); rec(d + 1); h.pop_back(); }
		};
		rec(0);
	}

	// Breadth-first over model states (merged by their full dump); each distinct state is one case, in which every
	// operation is applied to a fresh real object brought there by the state's shortest history.
	void bfs(int depth, size_t max_states) {
		struct N { M m; std::vector<int> h; };
		std::deque<N> q;
		std::unordered_set<std::string> seen;
		auto keyof = [&](const M &m) { return mkey ? mkey(m) : mdump(m); };
		N n0; seen.insert(keyof(n0.m)); q.push_back(n0);
		size_t expanded = 0;
		bool capped = false;
		while (!q.empty()) {
			N n = q.front(); q.pop_front();
			if (expanded >= max_states) { capped = true; break; }
			expanded++;
			bool mine = next(names(n.h) + " |" + mdump(n.m));
			for (size_t o = 0; o < ops.size(); o++) {
				if (mine) {
					bool good = true;
					auto run = [&] { M m; R r; good = replay(n.h, m, r); if (good) both(m, r, (int)o, names(n.h)); };
					uint64_t before = held ? held() : 0;
					run();
					if (!good) break;
					leaks(before, run, n.h, (int)o);
				}
				if ((int)n.h.size() < depth) {
					N x; x.m = n.m; std::string eo;
					if (!ops[o].m(x.m, eo)) continue;
					if (!within(x.m)) continue;
					std::string k = keyof(x.m);
					if (seen.insert(k).second) { x.h = n.h; x.h.push_back((int)o); q.push_back(x); }
				}
			}
		}
		count(label + (capped ? ".bfs_capped_states" : ".bfs_complete_states"), S().shard == 0 ? expanded : 0);
	}
};

inline std::string f2s(double v) {
	if (std::isnan(v)) return "nan";
	if (v == 0) return "0";
	return fmt("%.9g", v);
}
} // namespace mc
#endif
