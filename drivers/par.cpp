// Conformance driver for parallel pipeline sections (C03), under the deterministic scheduler.
#include "vd.h"
#include "vsched.h"
#include <filesystem>
#include <tpie/tpie.h>
#include <tpie/memory.h>
#include <tpie/tempname.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/job.h>
using namespace tpie;
using namespace tpie::pipelining;
using vd::Ev; using vd::Rng;

struct Boom : std::runtime_error { int v; Boom(int v) : std::runtime_error("boom"), v(v) {} };

// Items are either plain numbers or strings.
template <typename T> struct Val;
template <> struct Val<int> { static int mk(int v) { return v; } static int num(int v) { return v; } };
template <> struct Val<std::string> { static std::string mk(int v) { return "a string too long to be stored inside its object " + std::to_string(v); } static int num(const std::string & s) { return s.size() < 48 ? -1 : atoi(s.c_str() + s.rfind(' ')); } };

// Where exceptions are thrown: in which node, in which of its callbacks, at which call.
struct Point { int sec; char what; int n; int v; bool plain; };
struct World {
	std::vector<Point> pts; std::map<std::pair<int, char>, int> seen; int yields = 0;
	std::vector<int> copies;   // per section: copies prepared
	void at(int sec, char what) {
		int k = ++seen[{sec, what}];
		for (auto & p : pts) if (p.sec == sec && p.what == what && p.n == k) {
			Ev("throw").num("v", p.v).emit();
			if (p.plain) throw int(p.v); else throw Boom(p.v);
		}
	}
	void yield() { for (int i = 0; i < yields; ++i) sched::point(); }
};
static World * w;

struct Fan { int a, b, m, ends; int k(int x) const { return (x * a + b) % m; } };

template <typename dest_t> struct src_t : node {
	dest_t dest; int n;
	src_t(dest_t d, int n) : dest(std::move(d)), n(n) { add_push_destination(dest); set_name("source"); }
	void propagate() override { set_steps(n); }
	void begin() override { w->at(0, 'b'); }
	void go() override {
		for (int i = 1; i <= n; ++i) {
			w->at(0, 'g');
			w->yield();
			Ev("in").num("s", 1).num("x", i).emit();
			dest.push(Val<typename push_type<dest_t>::type>::mk(i));
			step();
		}
		w->at(0, 'g');
	}
	void end() override { w->at(0, 'e'); }
};

// The section: logs what it gets, outputs k(x) items for x, and some when it ends.
template <typename I, typename O> struct sec {
	template <typename dest_t> struct type : node {
		dest_t dest; int s; Fan f; int copy = 0;
		typedef I item_type;
		type(dest_t d, int s, Fan f) : dest(std::move(d)), s(s), f(f) { add_push_destination(dest); set_name("section"); }
		void prepare() override { copy = ++w->copies[s]; }
		void begin() override { w->at(s, 'b'); Ev("begin").num("s", s).num("c", copy).emit(); }
		void push(const I & it) {
			int x = Val<I>::num(it);
			Ev("work").num("s", s).num("c", copy).num("x", x).emit();
			w->yield();
			int k = f.k(x);
			for (int j = 0; j < k; ++j) {
				w->at(s, 'p');
				dest.push(Val<O>::mk(x * 10 + j));
				if (j % 3 == 1) w->yield();
			}
			w->at(s, 'p');
		}
		void end() override {
			w->at(s, 'e');
			for (int j = 0; j < f.ends; ++j) dest.push(Val<O>::mk((900 + copy) * 10 + j));
			Ev("end").num("s", s).num("c", copy).emit();
		}
	};
	template <typename dest_t> using t = type<dest_t>;
};
// Between and after sections.
template <typename I> struct mid {
	template <typename dest_t> struct type : node {
		dest_t dest; int s; typedef I item_type;
		type(dest_t d, int s) : dest(std::move(d)), s(s) { add_push_destination(dest); set_name("between"); }
		void begin() override { w->at(10 + s, 'b'); }
		void push(const I & it) {
			int x = Val<I>::num(it);
			Ev("out").num("s", s).num("y", x).emit();
			w->at(10 + s, 'p'); w->yield();
			Ev("in").num("s", s + 1).num("x", x).emit();
			dest.push(it);
		}
		void end() override { w->at(10 + s, 'e'); }
	};
};
template <typename I> struct sink_t : node {
	typedef I item_type; int s;
	sink_t(int s) : s(s) { set_name("sink"); }
	void begin() override { w->at(10 + s, 'b'); }
	void push(const I & it) { Ev("out").num("s", s).num("y", Val<I>::num(it)).emit(); w->at(10 + s, 'p'); w->yield(); }
	void end() override { w->at(10 + s, 'e'); }
};

static pipe_begin<factory<src_t, int>> source(int n) { return {n}; }
template <typename I, typename O> static pipe_middle<factory<sec<I, O>::template type, int, Fan>> section(int s, Fan f) { return {s, f}; }
template <typename I> static pipe_middle<factory<mid<I>::template type, int>> between(int s) { return {s}; }
template <typename I> static pipe_end<termfactory<sink_t<I>, int>> sink(int s) { return {s}; }

static int live() { int n = 0; for (auto * x : sched::s().thr) n += x->id != 0 && x->st != sched::DONE; return n; }
template <typename I, typename O> static void one(int64_t t, Rng & r) {
	World world; w = &world;
	w->yields = r.chance(40) ? 0 : (int)r.below(3);
	w->copies.assign(4, 0);
	int kind = (int)r.weighted({75, 25});   // one section or two
	int secs = kind == 1 ? 2 : 1;
	struct Par { Fan f; maintain_order_type mo; int jobs, buf; } p[2];
	std::string ps = "[";
	for (int i = 0; i < 2; ++i) {
		Fan f; f.a = (int)r.below(4); f.b = (int)r.below(3);
		f.m = (int)r.pick(std::vector<int>{1, 2, 2, 3, 10}); if (f.m == 1) f.m = 2, f.a = 0, f.b = (int)r.chance(85);
		f.ends = r.chance(30) ? (int)r.below(10) : 0;
		p[i].f = f; p[i].mo = r.chance(50) ? maintain_order : arbitrary_order;
		p[i].jobs = (int)r.pick(std::vector<int>{1, 2, 2, 3, 4}); p[i].buf = (int)r.pick(std::vector<int>{1, 1, 2, 3, 5, 8}); if (r.chance(3)) p[i].buf = 2048;
	}
	for (int i = 0; i < secs; ++i) {
		Ev e("p"); e.s = "{"; e.first = true;
		e.num("a", p[i].f.a).num("b", p[i].f.b).num("m", p[i].f.m).num("ends", p[i].f.ends).num("jobs", p[i].jobs).boolean("order", p[i].mo == maintain_order);
		ps += (i ? "," : "") + e.s + "}";
	}
	ps += "]";
	int n = (int)r.pick(std::vector<int>{0, 1, 2, 5, 9, 14, 25, 40});
	int np = r.chance(50) ? 0 : 1 + (int)r.chance(15);
	for (int i = 0; i < np; ++i) {
		Point q; q.v = (int)r.below(1000) + 1000 * i; q.plain = r.chance(15);
		int at = (int)r.weighted({25, 50, 25});
		q.sec = at == 0 ? 0 : at == 1 ? 1 + (int)r.below(secs) : 10 + 1 + (int)r.below(secs);
		q.what = at == 0 ? "bge"[r.below(3)] : "bppe"[r.below(4)];
		q.n = q.what == 'p' || q.what == 'g' ? 1 + (int)r.below(r.chance(50) ? 6 : 40) : 1 + (int)r.below(at == 1 ? 4 : 1);
		w->pts.push_back(q);
	}
	bool run = !r.chance(4), lim = r.chance(15);
	Ev("new").num("t", t).num("n", n).num("kind", kind).raw("secs", ps).boolean("run", run).boolean("lim", lim).emit();
	int others = live();
	memory_size_type before = get_memory_manager().used();
	if (lim) { get_memory_manager().set_enforcement(memory_manager::ENFORCE_THROW); get_memory_manager().set_limit(before + (r.chance(50) ? r.below(3000) : r.below(100000))); }
	try {
		pipeline pl;
		if (kind == 0) pl = source(n) | parallel(section<I, O>(1, p[0].f), p[0].mo, p[0].jobs, p[0].buf) | sink<O>(1);
		else pl = source(n) | parallel(section<I, O>(1, p[0].f), p[0].mo, p[0].jobs, p[0].buf) | between<O>(1)
			| parallel(section<O, I>(2, p[1].f), p[1].mo, p[1].jobs, p[1].buf) | sink<I>(2);
		if (run) {
			try { progress_indicator_null pi; pl(n, pi, TPIE_FSI); Ev("ran").emit(); }
			catch (const Boom & b) { Ev("caught").num("v", b.v).emit(); }
			catch (int v) { Ev("caught").num("v", v).emit(); }
			catch (const out_of_memory_error & e) { Ev("oom").emit(); }
			catch (const std::exception & e) { Ev("other").str("what", e.what()).emit(); }
		}
		w->yield();
	} catch (const out_of_memory_error & e) { Ev("oom").emit(); }
	Ev("gone").num("threads", live() - others).num("leak", (int64_t)get_memory_manager().used() - (int64_t)before).emit();
	for (int i = 0; i < 20; ++i) sched::point();
	Ev("over").emit();
}

int main(int argc, char ** argv) {
	vd::Args a = vd::parse(argc, argv);
	return vd::run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		tpie_init(ALL & ~DEFAULT_LOGGING);
		set_worker_count(0);
		tempname::set_default_path(a.dir);
		if (r.chance(50)) one<int, int>(t, r); else one<int, std::string>(t, r);
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
