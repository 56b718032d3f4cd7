// MC: variant=sched
// C60: threads and locks. Every interleaving of every short program over Thread objects (starting, waiting, asking, dropping, nested threads) and over
// mutexes, readers-writer locks, spin locks and their scoped forms, on the real code under a controlled scheduler (mcsched.h).
#define MC_THREADS
#include "mcsched.h"
#include <vector>
#include <dlfcn.h>
#define CHK(c) do { if (!(c)) { sch::Off x_; if (!wrong) wrong = #c " at line " + std::to_string(__LINE__); } } while (0)
struct Wrong { std::string s; bool set = false; bool operator!() const { return !set; } void operator=(const std::string &t) { s = t; set = true; } };
static Wrong wrong; static bool poisoned;
static bool outcome(const sch::Result &r, const std::string &what, const char *fam) {
	mc::transition(r.schedules); mc::count("schedules", r.schedules); mc::count("steps", r.steps); if (r.capped) mc::count(mc::fmt("cut off.%s", fam)); std::string tr; for (int c : r.at) tr += mc::fmt("%d", c); if (!r.err.empty()) poisoned = true;
	return mc::ok(r.err.empty(), mc::fmt("%s:%s", fam, r.key.c_str()), "%s: %s (schedule %s)", what.c_str(), r.err.c_str(), tr.c_str());
}
static long cap() { return mc::thorough() ? 20000 : 4000; }

// ---- threads
struct Rec { int runs, init, term, prio; bool main; Thread::ID caller, again; void *ud; int value, order; Thread *self; bool refused; };
static Rec rec[8]; static int nrec; static Mutex *mx; static int shared; static bool platform;
static thread_local Rec *mine; static thread_local int tinit, tterm, tprio; static BinaryMutex *gate;
static void note_init() { tinit++; } static void note_term() { if (mine) { mine->term++; mine->order = mine->runs; } } static void note_prio(Thread::Priority p) { tprio = 1 + (int)p; }
static void body(void *u);
struct Job { int kind; Rec *r; }; static Job job[8];
static int newjob(int kind) { sch::Off x; int i = nrec++; memset(&rec[i], 0, sizeof rec[i]); job[i].kind = kind; job[i].r = &rec[i]; return i; }
static void body(void *u) {
	Job *j = (Job *)u; Rec *r = j->r; mine = r; r->runs++; r->ud = u; r->init = tinit; r->prio = tprio; r->caller = Thread::get_caller_id(); r->main = Thread::is_main_thread(); r->value = 7;
	switch (j->kind) {
		case 1: mx->lock(); shared++; mx->unlock(); break;
		case 2: { Thread c; int k = newjob(0); c.start(body, &job[k]); CHK(c.is_started() && c.get_id() != Thread::get_caller_id() && c.get_id() != r->caller); Thread::ID id = c.get_id(); c.wait_to_finish(); CHK(rec[k].runs == 1 && rec[k].value == 7 && rec[k].caller == id && !c.is_started()); mine = r; } break;
		case 3: gate->lock(); gate->unlock(); r->self->wait_to_finish(); r->refused = r->self->is_started(); break; // waits for itself: refused
	}
	r->again = Thread::get_caller_id();
}
static std::vector<int> prog; // o: 0-3 start A with kind o, 4 wait A, 5 ask A, 6 drop A; +7: the same for B
static std::string progname() { std::string s; for (int o : prog) { int k = o % 7; s += mc::fmt(" %c%s", o < 7 ? 'A' : 'B', k == 0 ? ".start(write)" : k == 1 ? ".start(lock)" : k == 2 ? ".start(nested)" : k == 3 ? ".start(wait for itself)" : k == 4 ? ".wait" : k == 5 ? ".ask" : " dropped;"); } return s; }
static Thread *th[2];
static void mainprog() {
	int cur[2] = { -1, -1 }; Thread::ID none = th[0]->get_id(), me = Thread::get_caller_id(); CHK(Thread::is_main_thread() && me == Thread::get_main_id() && me != none);
	for (int o : prog) {
		int w = o / 7, k = o % 7; Thread *&t = th[w];
		if (k <= 3) { int i = newjob(k); rec[i].self = t; Thread::Settings st; st.priority = (Thread::Priority)((i + 1) % 3); if (k == 3) gate->lock(); t->start(body, &job[i], st); if (k == 3) gate->unlock(); cur[w] = i; CHK(t->is_started() && t->get_id() != none && t->get_id() != me); if (cur[0] >= 0 && cur[1] >= 0 && th[0]->is_started() && th[1]->is_started()) CHK(th[0]->get_id() != th[1]->get_id()); }
		else if (k == 4) { bool was = t->is_started(); Thread::ID id = t->get_id(); CHK(was == (cur[w] >= 0)); t->wait_to_finish(); CHK(!t->is_started() && t->get_id() == none); if (was) { Rec &r = rec[cur[w]]; CHK(r.runs == 1 && r.value == 7 && r.caller == id && r.again == id && !r.main && r.ud == &job[cur[w]]); if (r.self && job[cur[w]].kind == 3) CHK(r.refused); if (platform) CHK(r.init == 1 && r.term == 1 && r.order == 1 && r.prio == 1 + (cur[w] + 1) % 3); } cur[w] = -1; }
		else if (k == 5) { CHK(t->is_started() == (cur[w] >= 0)); CHK((t->get_id() == none) == (cur[w] < 0)); CHK(Thread::get_caller_id() == me && Thread::is_main_thread()); }
		else { memdelete(t); t = memnew(Thread); cur[w] = -1; CHK(!t->is_started() && t->get_id() == none); }
	}
	for (int w = 0; w < 2; w++) if (cur[w] >= 0) th[w]->wait_to_finish();
}
static void threads(int depth) {
	auto setup = []() { { sch::Off x; nrec = 0; shared = 0; wrong = Wrong(); } mx = memnew(Mutex); gate = memnew(BinaryMutex); th[0] = memnew(Thread); th[1] = memnew(Thread); };
	auto finish = []() -> std::string { memdelete(th[0]); memdelete(th[1]); memdelete(mx); memdelete(gate); if (wrong.set) return wrong.s; int n = 0; for (int i = 0; i < nrec; i++) { if (rec[i].runs != 1) return mc::fmt("callback %d ran %d times", i, rec[i].runs); n += job[i].kind == 1; } if (shared != n) return mc::fmt("%d increments under a lock counted %d", n, shared); return ""; };
	std::vector<std::vector<int>> all; std::function<void()> go = [&]() {
		if (!prog.empty()) all.push_back(prog); if ((int)prog.size() == depth) return;
		for (int o = 0; o < 14; o++) { // at most three threads besides the main one; a thread waiting for itself is not left behind running
			int n = 0; bool live[2] = { false, false }, selfw[2] = { false, false }, oka = true; prog.push_back(o); for (int p : prog) { int w = p / 7, k = p % 7; if (k <= 3) { n += 1 + (k == 2); if (selfw[w]) oka = false; live[w] = true; selfw[w] = k == 3; } else if (k == 4) live[w] = selfw[w] = false; else if (k == 6) { if (selfw[w]) oka = false; live[w] = false; } } if (o >= 7 && prog.size() == 1) oka = false;
			if (!mc::thorough() && prog.size() == 4) for (int p : prog) if (p % 7 == 1 || p % 7 == 2) oka = false; if (n <= 3 && oka && (o != 6 || prog.size() > 1)) go(); prog.pop_back(); } }; go();
	for (auto &p : all) for (int pl = 0; pl < 2; pl++) { if (pl && p.size() > 3) continue; prog = p; MC_CASE("threads:%s%s", pl ? " (with platform functions)" : "", progname().c_str()) { if (poisoned) continue; platform = pl; Thread::_set_platform_funcs(nullptr, pl ? note_prio : nullptr, pl ? note_init : nullptr, pl ? note_term : nullptr);
		sch::Result r = sch::run(setup, { mainprog }, finish, cap()); for (int b = 1; r.capped && r.err.empty() && b <= 2; b++) r = sch::run(setup, { mainprog }, finish, cap(), b); outcome(r, "program" + progname(), "Thread"); mc::state(progname()); } }
	Thread::_set_platform_funcs(nullptr, nullptr);
	MC_CASE("naming without a platform function") { if (!poisoned) { prog.clear(); sch::Result r = sch::run(setup, { []() { CHK(Thread::set_name("x") == ERR_UNAVAILABLE); } }, finish, 10); outcome(r, "set_name", "Thread"); } }
	MC_CASE("naming with a platform function") { if (!poisoned) { static int named; named = 0; Thread::_set_platform_funcs([](const String &s) -> Error { named += s == String("x"); return OK; }, nullptr); prog.clear(); sch::Result r = sch::run(setup, { []() { CHK(Thread::set_name("x") == OK && named == 1); } }, finish, 10); outcome(r, "set_name", "Thread"); Thread::_set_platform_funcs(nullptr, nullptr); } }
}
// ---- locks: each kind offers operations; the model knows who holds what
static int held, holder, depthh, readers, counter, adds, seenp[2]; // holder/depth/readers: model state, changed only right after the lock operation
struct Safe { _THREAD_SAFE_CLASS_ public: int v = 0; void add() { _THREAD_SAFE_METHOD_ int k = v; v = k + 1; adds2++; } void add2() { _THREAD_SAFE_LOCK_ v++; adds2++; _THREAD_SAFE_UNLOCK_ } void both() { _THREAD_SAFE_METHOD_ add(); } int adds2 = 0; };
static void enter(int i) { { sch::Off x; if ((holder >= 0 && holder != i) || readers) { if (!wrong) wrong = mc::fmt("thread %d is let in while thread %d holds the lock and %d read", i, holder, readers); } holder = i; depthh++; } counter++; { sch::Off x; adds++; } }
static void leave(int) { counter++; sch::Off x; adds++; }
static void left(int) { sch::Off x; if (--depthh == 0) holder = -1; } // right after the lock is given back
static void renter(int i) { { sch::Off x; if (holder >= 0) { if (!wrong) wrong = mc::fmt("reader %d is let in while thread %d writes", i, holder); } readers++; seenp[i & 1] = std::max(seenp[i & 1], readers); } int c = counter; CHK(c == counter); }
static void rleave(int) { int c = counter; CHK(c >= 0); }
static void rleft() { sch::Off x; readers--; }
#define LEAVE(call) do { leave(i); call; left(i); } while (0)
static Mutex *m; static BinaryMutex *bm; static RWLock *rw; static SpinLock *sp; static Safe *sf;
static bool excl(int i, bool recursive) { sch::Off x; return (holder < 0 || (recursive && holder == i)) && !readers; }
static void mutex_op(int i, int o) { switch (o) {
	case 0: m->lock(); enter(i); LEAVE(m->unlock()); break; case 1: { Error e = m->try_lock(); CHK((e == OK) == excl(i, true)); CHK(e == OK || e == ERR_BUSY); if (e == OK) { enter(i); LEAVE(m->unlock()); } } break;
	case 2: { { MutexLock l(*m); enter(i); leave(i); } left(i); } break; case 3: m->lock(); enter(i); m->lock(); enter(i); LEAVE(m->unlock()); LEAVE(m->unlock()); break; case 4: { { MutexLock a(*m); enter(i); { MutexLock b(*m); enter(i); leave(i); } left(i); CHK(m->try_lock() == OK); enter(i); LEAVE(m->unlock()); leave(i); } left(i); } break;
	} }
static void global_op(int i, int o) { _global_lock(); enter(i); if (o) { _global_lock(); enter(i); LEAVE(_global_unlock()); } LEAVE(_global_unlock()); }
static void bin_op(int i, int o) { switch (o) { case 0: bm->lock(); enter(i); LEAVE(bm->unlock()); break; case 1: { Error e = bm->try_lock(); CHK((e == OK) == excl(i, false)); CHK(e == OK || e == ERR_BUSY); if (e == OK) { enter(i); CHK(bm->try_lock() == ERR_BUSY); LEAVE(bm->unlock()); } } break; case 2: { { MutexLock l(*bm); enter(i); CHK(bm->try_lock() == ERR_BUSY); leave(i); } left(i); } break; } }
static void rw_op(int i, int o) { switch (o) {
	case 0: rw->write_lock(); enter(i); LEAVE(rw->write_unlock()); break; case 1: rw->read_lock(); renter(i); rleave(i); rw->read_unlock(); rleft(); break; case 2: { { RWLockWrite l(*rw); enter(i); CHK(rw->read_try_lock() == ERR_BUSY); leave(i); } left(i); } break; case 3: { { RWLockRead l(*rw); renter(i); CHK(rw->write_try_lock() == ERR_BUSY); rleave(i); } rleft(); } break;
	case 4: { Error e = rw->write_try_lock(); CHK((e == OK) == excl(i, false)); CHK(e == OK || e == ERR_BUSY); if (e == OK) { enter(i); CHK(rw->write_try_lock() == ERR_BUSY); LEAVE(rw->write_unlock()); } } break;
	case 5: { Error e = rw->read_try_lock(); bool can; { sch::Off x; can = holder < 0; } CHK((e == OK) == can); CHK(e == OK || e == ERR_BUSY); if (e == OK) { renter(i); rleave(i); rw->read_unlock(); rleft(); } } break; } }
static void spin_op(int i, int) { sp->lock(); enter(i); LEAVE(sp->unlock()); }
static void safe_op(int, int o) { switch (o) { case 0: sf->add(); break; case 1: sf->add2(); break; case 2: sf->both(); break; } { sch::Off x; adds++; } }
static void locks(const char *name, void (*op)(int, int), std::vector<int> ops, int two, int three) {
	auto setup = []() { m = memnew(Mutex); bm = memnew(BinaryMutex); rw = memnew(RWLock); sp = memnew(SpinLock); sf = memnew(Safe); sch::Off x; wrong = Wrong(); holder = -1; depthh = readers = counter = adds = 0; };
	static bool safe; safe = op == safe_op; static bool isafe; isafe = safe;
	std::vector<std::vector<int>> q[5]; q[0].push_back({}); for (int d = 1; d <= 4; d++) for (auto &x : q[d - 1]) for (int o : ops) { auto y = x; y.push_back(o); q[d].push_back(y); }
	auto prg = [&](const std::vector<std::vector<int>> &ps) { if (poisoned) return; isafe = op == safe_op; auto finish = []() -> std::string { int v = sf->v, a2 = sf->adds2; memdelete(m); memdelete(bm); memdelete(rw); memdelete(sp); memdelete(sf); if (wrong.set) return wrong.s; if (isafe ? v != adds || a2 != adds : counter != adds) return mc::fmt("%d additions under the lock give %d", adds, isafe ? v : counter); return ""; };
		std::vector<std::function<void()>> fs; std::string n; for (size_t i = 0; i < ps.size(); i++) { auto p = ps[i]; fs.push_back([op, p, i]() { for (int o : p) op(i, o); }); n += mc::fmt(" thread %zu:", i); for (int o : p) n += mc::fmt(" %d", o); }
		sch::Result r = sch::run(setup, fs, finish, cap()); for (int b = 1; r.capped && r.err.empty() && b <= 2; b++) r = sch::run(setup, fs, finish, cap(), b); outcome(r, std::string(name) + n, name); mc::state(name + n); };
	for (auto &a : q[1]) for (auto &b : q[two]) MC_CASE("%s, two threads %d | %d %d", name, a[0], b[0], b.back()) { prg({ a, b }); for (int d = 2; d <= two; d++) for (auto &c : q[d]) if (c[0] == a[0] && c.size() <= b.size()) prg({ c, b }); }
	for (auto &a : q[three]) for (auto &b : q[1]) for (auto &c : q[1]) if (b <= c) MC_CASE("%s, three threads %d | %d | %d", name, a[0], b[0], c[0]) prg({ a, b, c });
}
void explore() {
	static bool once; if (!once) { once = true; SFWCore::setup(); static char ob[4096], eb[4096]; setvbuf(stdout, ob, _IOLBF, sizeof ob); setvbuf(stderr, eb, _IOLBF, sizeof eb); ERR_PRINT("first message"); LOG_WARN("first warning"); sch::init(); sch::threads(); sch::g->quiet.push_back(0); sch::g->quiet.clear(); for (const char *n : { "_ZN6Memory11alloc_countE", "_ZN6Memory9mem_usageE", "_ZN6Memory9max_usageE" }) if (void *p = dlsym(nullptr, n)) sch::g->quiet.push_back((uintptr_t)p); }
	bool t = mc::thorough(); threads(4);
	locks("global lock", global_op, { 0, 1 }, 2, 1); locks("Mutex", mutex_op, { 0, 1, 2, 3, 4 }, t ? 3 : 2, 1); locks("BinaryMutex", bin_op, { 0, 1, 2 }, 2, 1); locks("RWLock", rw_op, { 0, 1, 2, 3, 4, 5 }, 2, t ? 2 : 1); locks("SpinLock", spin_op, { 0 }, 3, t ? 2 : 1); locks("thread-safe class", safe_op, { 0, 1, 2 }, 2, 1);
}
