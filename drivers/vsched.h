// A deterministic scheduler for the code under test. The executable defines the pthread functions the library uses; once
// sched::start() was called, exactly one thread runs at a time and a seeded strategy decides at every synchronisation
// operation (and, in instrumented builds, at basic blocks) which one goes on. Blocked forever: "deadlock" event; too many
// steps: "livelock" event.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vd.h"
#include "vio.h"
#include <pthread.h>
#include <dlfcn.h>
#include <semaphore.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unordered_map>
#include <atomic>

namespace sched {
typedef int (*F1)(void *);
struct Real {
	int (*create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
	int (*join)(pthread_t, void **);
	int (*detach)(pthread_t);
	int (*lock)(pthread_mutex_t *);
	int (*trylock)(pthread_mutex_t *);
	int (*unlock)(pthread_mutex_t *);
	int (*wait)(pthread_cond_t *, pthread_mutex_t *);
	int (*timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
	int (*clockwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
	int (*signal)(pthread_cond_t *);
	int (*broadcast)(pthread_cond_t *);
	bool ok = false;
};
inline Real & real() {
	static Real r;
	if (!r.ok) {
		r.ok = true;
		auto get = [](const char * n, const char * v) { void * p = v ? dlvsym(RTLD_NEXT, n, v) : nullptr; return p ? p : dlsym(RTLD_NEXT, n); };
		*(void **)&r.create = get("pthread_create", nullptr); *(void **)&r.join = get("pthread_join", nullptr); *(void **)&r.detach = get("pthread_detach", nullptr);
		*(void **)&r.lock = get("pthread_mutex_lock", nullptr); *(void **)&r.trylock = get("pthread_mutex_trylock", nullptr); *(void **)&r.unlock = get("pthread_mutex_unlock", nullptr);
		*(void **)&r.wait = get("pthread_cond_wait", "GLIBC_2.3.2"); *(void **)&r.timedwait = get("pthread_cond_timedwait", "GLIBC_2.3.2");
		*(void **)&r.clockwait = get("pthread_cond_clockwait", nullptr);
		*(void **)&r.signal = get("pthread_cond_signal", "GLIBC_2.3.2"); *(void **)&r.broadcast = get("pthread_cond_broadcast", "GLIBC_2.3.2");
	}
	return r;
}

enum St { RUN, WANT_MUTEX, WAIT_COND, WAIT_JOIN, DONE };
struct Thr {
	int id; St st = RUN; void * obj = nullptr; int joinTid = -1; bool timed = false, timedOut = false;
	std::atomic<int> go{0};
	void * (*fn)(void *) = nullptr; void * arg = nullptr; void * ret = nullptr; pthread_t pt; int prio = 0; void * relock = nullptr;
	long spins = 0;
};
struct Mx { int owner = -1; int depth = 0; };
struct S {
	bool on = false;
	std::vector<Thr *> thr;
	std::unordered_map<void *, Mx> mx;
	vd::Rng rng{1};
	int strat = 0;        // 0 random, 1 priorities with change points, 2 mostly stay, 3 starve one thread
	int pct = 20;         // switching probability for 2
	int starve = -1;
	std::vector<long> changes; long steps = 0, maxSteps = 2000000, switches = 0;
	int low = 0;
	int spurious = 0;     // percentage of condition waits that return at once without a signal, as POSIX allows
	uint64_t hash = 1469598103934665603ull;   // of the schedule taken
	int bbEvery = 0; long bbLeft = 0;
};
inline S & s() { static S * x = new S(); return *x; }
inline int & self() { static thread_local int id = -1; return id; }
inline bool & inside() { static thread_local bool b = false; return b; }
struct In { bool o; In() : o(inside()) { inside() = true; } ~In() { inside() = o; } };

inline void fwait(std::atomic<int> & g) { while (g.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int *)&g, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); g.store(0, std::memory_order_relaxed); }
inline void fwake(std::atomic<int> & g) { g.store(1, std::memory_order_release); syscall(SYS_futex, (int *)&g, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

inline bool enabled(Thr * t) {
	switch (t->st) {
	case RUN: return true;
	case WANT_MUTEX: { auto i = s().mx.find(t->obj); return i == s().mx.end() || i->second.owner == -1 || i->second.owner == t->id; }
	case WAIT_COND: return false;
	case WAIT_JOIN: return s().thr[t->joinTid]->st == DONE;
	case DONE: return false;
	}
	return false;
}
inline void dead(const char * what) {
	std::string d;
	for (auto * t : s().thr) { d += "t" + std::to_string(t->id) + ":" + (t->st == RUN ? "run" : t->st == WANT_MUTEX ? "mutex" : t->st == WAIT_COND ? "cond" : t->st == WAIT_JOIN ? "join" : "done") + " "; }
	vd::Log::sink() = nullptr;
	vd::Ev(what).str("threads", d).num("steps", s().steps).emit();
	_exit(0);
}
// Pick the next thread to run.
inline Thr * choose(bool mayStay) {
	S & g = s();
	std::vector<Thr *> en;
	for (auto * t : g.thr) if (enabled(t)) en.push_back(t);
	if (en.empty()) {
		for (auto * t : g.thr) if (t->st == WAIT_COND && t->timed) { t->timedOut = true; t->st = WANT_MUTEX; t->obj = t->relock; if (enabled(t)) en.push_back(t); }
		if (en.empty()) dead("deadlock");
	}
	if (++g.steps > g.maxSteps) dead("livelock");
	if (en.size() == 1) return en[0];
	Thr * cur = g.thr[self()];
	bool curEn = mayStay && enabled(cur);
	switch (g.strat) {
	case 1: {
		while (!g.changes.empty() && g.steps >= g.changes.back()) { g.changes.pop_back(); cur->prio = --g.low; }
		if (++cur->spins > 3000) { cur->spins = 0; cur->prio = --g.low; }
		Thr * b = en[0]; for (auto * t : en) if (t->prio > b->prio) b = t;
		if (b != cur) cur->spins = 0;
		return b;
	}
	case 2: if (curEn && g.rng.below(100) >= g.pct && ++cur->spins < 3000) return cur; cur->spins = 0; return en[g.rng.below(en.size())];
	case 3: {
		if (g.rng.below(400) == 0) g.starve = (int)g.rng.below(g.thr.size());
		std::vector<Thr *> o; for (auto * t : en) if (t->id != g.starve) o.push_back(t);
		if (curEn && cur->id == g.starve && cur->spins > 3000) { cur->spins = 0; g.starve = -1; }
		if (o.empty()) return en[g.rng.below(en.size())];
		if (++cur->spins > 3000) { g.starve = -1; cur->spins = 0; return en[g.rng.below(en.size())]; }
		if (curEn && cur->id != g.starve && g.rng.below(100) >= 30) return cur;
		return o[g.rng.below(o.size())];
	}
	default: return en[g.rng.below(en.size())];
	}
}
inline void grab(Thr * t) {
	// t is about to run: complete what it was waiting for
	if (t->st == WANT_MUTEX) { Mx & m = s().mx[t->obj]; m.owner = t->id; ++m.depth; t->st = RUN; }
	else if (t->st == WAIT_JOIN) t->st = RUN;
}
inline void note(Thr * t) { s().hash = (s().hash ^ (uint64_t)(t->id + 1)) * 1099511628211ull; }
// Give the token to whoever the strategy picks; returns when this thread has it again.
inline void pass(bool mayStay = true) {
	In in;
	Thr * cur = s().thr[self()];
	Thr * n = choose(mayStay);
	note(n);
	if (n != cur) {
		++s().switches;
		grab(n);
		fwake(n->go);
		if (cur->st == DONE) return;
		fwait(cur->go);
	} else grab(cur);
}
inline bool active() { return s().on && self() >= 0 && !inside(); }
inline void point() { if (active()) { pass(); } }
inline void * run(void * p) {
	Thr * t = (Thr *)p;
	self() = t->id;
	fwait(t->go);
	void * r = t->fn(t->arg);
	{ In in; t->ret = r; t->st = DONE; }
	pass(false);
	self() = -1;
	return r;
}
inline void start(uint64_t seed, int strat = -1) {
	S & g = s();
	real();
	g.rng = vd::Rng(seed * 77 + 5);
	g.strat = strat >= 0 ? strat : (int)g.rng.below(4);
	g.pct = (int)g.rng.pick(std::vector<int>{3, 10, 30});
	if (g.strat == 1) { int d = (int)g.rng.range(1, 6); for (int i = 0; i < d; ++i) g.changes.push_back(g.rng.below(i % 2 ? 300 : 3000)); std::sort(g.changes.rbegin(), g.changes.rend()); }
	if (g.strat == 3) g.starve = (int)g.rng.below(3);
	g.spurious = (int)g.rng.pick(std::vector<int>{0, 0, 0, 1, 5, 20});
	Thr * m = new Thr(); m->id = 0; m->prio = (int)g.rng.below(1000);
	g.thr.push_back(m);
	self() = 0;
	g.on = true;
	vio::st().hook = [] { point(); };
}
inline void stop() { s().on = false; }
inline bool installed = (vd::at_trace_start() = [](uint64_t x) { start(x); }, true);
} // namespace sched

extern "C" {
int pthread_create(pthread_t * p, const pthread_attr_t * at, void * (*fn)(void *), void * arg) {
	using namespace sched;
	if (!active()) return real().create(p, at, fn, arg);
	Thr * t;
	{ In in;
	t = new Thr(); t->id = (int)s().thr.size(); t->fn = fn; t->arg = arg; t->prio = (int)s().rng.below(1000);
	s().thr.push_back(t);
	int r = real().create(&t->pt, at, sched::run, t);
	if (r) { s().thr.pop_back(); return r; }
	*p = t->pt; }
	pass();
	return 0;
}
int pthread_join(pthread_t p, void ** ret) {
	using namespace sched;
	if (active()) {
		int k = -1;
		{ In in; for (auto * t : s().thr) if (t->id != 0 && t->joinTid != -2 && pthread_equal(t->pt, p)) k = t->id; }
		if (k >= 0) {
			Thr * me = s().thr[self()];
			me->st = WAIT_JOIN; me->joinTid = k;
			pass(false);
			s().thr[k]->joinTid = -2;   // its pthread_t may be reused from now on
			In in;
			return real().join(p, ret);
		}
	}
	return real().join(p, ret);
}
int pthread_mutex_lock(pthread_mutex_t * m) {
	using namespace sched;
	if (!active()) return s().on && inside() ? 0 : real().lock(m);
	Thr * me = s().thr[self()];
	me->st = WANT_MUTEX; me->obj = m;
	{ auto i = s().mx.find(m); if (i != s().mx.end() && i->second.owner == me->id && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) { me->st = WAIT_COND; me->timed = false; pass(false); } }
	pass();
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
	using namespace sched;
	if (!active()) return s().on && inside() ? 0 : real().trylock(m);
	pass();
	Mx & x = s().mx[m];
	if (x.owner == -1) { x.owner = self(); x.depth = 1; return 0; }
	return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
	using namespace sched;
	if (!active()) return s().on && inside() ? 0 : real().unlock(m);
	{ In in; Mx & x = s().mx[m]; if (--x.depth <= 0) { s().mx.erase(m); } }
	pass();
	return 0;
}
static int sched_condwait(pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
	using namespace sched;
	Thr * me = s().thr[self()];
	{ In in; s().mx.erase(m); me->st = WAIT_COND; me->obj = c; me->relock = m; me->timed = timed; me->timedOut = false;
	if (s().spurious && (int)s().rng.below(100) < s().spurious) { me->st = WANT_MUTEX; me->obj = m; } }
	pass(false);
	return me->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return sched::active() ? sched_condwait(c, m, false) : sched::real().wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { return sched::active() ? sched_condwait(c, m, true) : sched::real().timedwait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { return sched::active() ? sched_condwait(c, m, true) : sched::real().clockwait(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t * c) {
	using namespace sched;
	if (!active()) return real().signal(c);
	{ In in;
	std::vector<Thr *> w; for (auto * t : s().thr) if (t->st == WAIT_COND && t->obj == c) w.push_back(t);
	if (!w.empty()) { Thr * t = w[s().rng.below(w.size())]; t->st = WANT_MUTEX; t->obj = t->relock; } }
	pass();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
	using namespace sched;
	if (!active()) return real().broadcast(c);
	{ In in; for (auto * t : s().thr) if (t->st == WAIT_COND && t->obj == c) { t->st = WANT_MUTEX; t->obj = t->relock; } }
	pass();
	return 0;
}
#ifdef VD_BB
// Basic blocks of the code under test (instrumented with -fsanitize-coverage=trace-pc).
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
	using namespace sched;
	S & g = s();
	if (!g.on || g.bbEvery == 0 || --g.bbLeft > 0) return;
	if (!active()) return;
	g.bbLeft = 1 + g.rng.below(2 * g.bbEvery);
	pass();
}
#endif
}
