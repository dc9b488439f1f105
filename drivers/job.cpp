// Conformance driver for the job pool (C01) and the parallel sort (C02), under the deterministic scheduler.
#include "vd.h"
#include "vsched.h"
#include <tpie/job.h>
#include <tpie/parallel_sort.h>
#include <tpie/array.h>
#include <tpie/memory.h>
#include <thread>
using namespace vd;
using namespace tpie;

struct TJ : public job {
	int id; std::vector<TJ *> kids; std::vector<int> up; TJ * above = nullptr; uint64_t seed; bool again; int yields;
	void operator()() override {
		Ev("start").num("j", id).emit();
		Rng r(seed);
		for (size_t i = 0; i < kids.size(); ++i) {
			TJ * p = this;
			for (int u = up[i]; u > 0 && p->above; --u) p = p->above;
			for (int y = 0; y < yields; ++y) sched::point();
			kids[i]->above = p;
			Ev("enq").num("j", kids[i]->id).num("p", p->id).emit();
			kids[i]->enqueue(p);
			if (r.chance(20)) ask(kids[i], 100 + id);
		}
		if (again) bad(this);
		if (again && above) bad(above);
		for (int y = 0; y < yields; ++y) sched::point();
		Ev("ret").num("j", id).emit();
	}
	void on_done() override { Ev("done").num("j", id).emit(); }
	static void bad(TJ * j) {
		try { j->enqueue(); Ev("accepted").num("j", j->id).emit(); } catch (const tpie::exception &) { Ev("refused").num("j", j->id).emit(); }
	}
	static void ask(TJ * j, int t) {
		Ev("ask").num("t", t).num("j", j->id).emit();
		bool d = j->is_done();
		Ev("answer").num("t", t).num("j", j->id).boolean("r", d).emit();
	}
};

static TJ * tree(Rng & r, std::vector<std::unique_ptr<TJ>> & all, TJ * above, int budget, int depth) {
	all.emplace_back(new TJ());
	TJ * j = all.back().get();
	j->id = (int)all.size(); j->above = nullptr; j->seed = r.next(); j->again = r.chance(15); j->yields = r.chance(50) ? 0 : (int)r.below(4);
	int k = depth == 0 ? 0 : (int)r.below(budget + 1);
	for (int i = 0; i < k; ++i) { j->kids.push_back(tree(r, all, j, std::max(0, budget - 1), depth - 1)); j->up.push_back(r.chance(15) ? (int)r.below(3) : 0); }
	return j;
}

static void jobs(int64_t t, Rng & r) {
	std::vector<std::unique_ptr<TJ>> all;
	int nt = (int)r.weighted({60, 25, 15}) + 1;
	std::vector<std::vector<TJ *>> roots(nt);
	bool flood = r.chance(25);   // more jobs than the queue holds
	if (flood) {
		for (int i = 0; i < nt; ++i) {
			TJ * j = tree(r, all, nullptr, 0, 0); roots[i].push_back(j);
			int n = (int)r.range(50, 180) / nt;
			bool flat = r.chance(50);
			for (int k = 0; k < n; ++k) { if (flat) roots[i].push_back(tree(r, all, nullptr, r.chance(10), 1)); else { j->kids.push_back(tree(r, all, j, r.chance(10), 1)); j->up.push_back(0); } }
		}
	} else for (int i = 0; i < nt; ++i) { int n = (int)r.range(1, 4); for (int k = 0; k < n; ++k) roots[i].push_back(tree(r, all, nullptr, (int)r.range(0, 4), (int)r.range(0, 4))); }
	int workers = (int)r.pick(std::vector<int>{0, 1, 1, 2, 2, 3, 4});
	Ev("new").num("t", t).num("n", all.size()).num("workers", workers).emit();
	set_worker_count(workers);
	int rounds = flood ? 1 : (int)r.range(1, 3);
	auto work = [&](int me, uint64_t seed) {
		Rng r(seed);
		for (int round = 0; round < rounds; ++round) {
			std::vector<std::thread> watch;
			std::vector<TJ *> mine = roots[me];
			for (TJ * j : mine) {
				Ev("enq").num("j", j->id).num("p", 0).emit();
				j->enqueue();
				if (r.chance(30)) TJ::ask(j, me);
				if (!flood && r.chance(20)) { TJ * w = j; int n = (int)r.range(1, 2); for (int i = 0; i < n; ++i) watch.emplace_back([w] { w->join(); Ev("joined").num("j", w->id).emit(); }); }
				if (me == 0 && r.chance(flood ? 3 : 20)) { int w = (int)r.below(4); Ev("workers").num("n", w).emit(); set_worker_count(w); }
				if (r.chance(10)) { j->join(); Ev("joined").num("j", j->id).emit(); }
			}
			while (!mine.empty()) {
				size_t i = r.below(mine.size()); TJ * j = mine[i]; mine.erase(mine.begin() + i);
				while (r.chance(20)) TJ::ask(j, me);
				j->join();
				Ev("joined").num("j", j->id).emit();
				if (r.chance(20)) TJ::ask(j, me);
			}
			for (auto & w : watch) w.join();
		}
	};
	std::vector<std::thread> ts;
	for (int i = 1; i < nt; ++i) { uint64_t s = r.next(); ts.emplace_back([&, i, s] { work(i, s); }); }
	work(0, r.next());
	for (auto & x : ts) x.join();
	Ev("end").emit();
	bool leftover = r.chance(10);
	if (!leftover) all.clear();
}

// --------------------------------------------------------------------------------------------- parallel sort
static std::atomic<long> late{0};
static std::atomic<bool> returned{false};
template <bool REV> struct Cmp { bool operator()(const int & a, const int & b) const { if (returned) ++late; return REV ? a / 1000 > b / 1000 : a / 1000 < b / 1000; } };
struct Rec : public progress_indicator_base {
	stream_size_type last = 0; bool ok = true; int done_ = 0, init_ = 0;
	Rec() : progress_indicator_base(0) {}
	void refresh() override { if (get_current() < last && init_ == 0) ok = false; last = get_current(); }
	void init(stream_size_type r) override { progress_indicator_base::init(r); last = 0; ++init_; }
	void done() override { progress_indicator_base::done(); ++done_; }
};
template <typename It, typename C, size_t MIN> static void call(It a, It b, Rec * pi) {
	if (pi) { parallel_sort_impl<It, C, true, MIN> s(pi); s(a, b, C()); }
	else { parallel_sort_impl<It, C, false, MIN> s(0); s(a, b, C()); }
}
template <typename It, typename C> static void pick(int m, It a, It b, Rec * pi) {
	switch (m) {
	case 0: call<It, C, 1>(a, b, pi); break;
	case 1: call<It, C, 2>(a, b, pi); break;
	case 2: call<It, C, 8>(a, b, pi); break;
	case 3: call<It, C, 16>(a, b, pi); break;
	default: parallel_sort(a, b, C()); break;
	}
}
static void psort(int64_t t, Rng & r) {
	Ev("new").num("t", t).emit();
	set_worker_count(r.pick(std::vector<int>{0, 1, 2, 2, 3, 4}));
	auto one = [&](uint64_t seed) {
		Rng r(seed);
		int n = (int)r.pick(std::vector<int>{0, 1, 2, 3, 9, 20, 40, 80, 150}); n = n < 3 ? n : n + (int)r.below(n / 2);
		std::string p = r.pick(std::vector<std::string>{"any", "few", "asc", "desc", "same", "saw", "organ"});
		std::vector<int> v;
		for (int i = 0; i < n; ++i) {
			int k = p == "any" ? (int)r.below(1000) : p == "few" ? (int)r.below(3) : p == "asc" ? i : p == "desc" ? n - i : p == "same" ? 5 : p == "saw" ? i * 7 % 20 : std::min(i, n - i);
			v.push_back(k * 1000 + i);
		}
		std::vector<int> in = v;
		int m = (int)r.below(n < 80 ? 4 : 3) + (n >= 80); if (r.chance(3)) m = 4;
		bool rev = r.chance(40), pi = r.chance(40);
		Rec rec; Rec * q = pi && m != 4 ? &rec : nullptr;
		returned = false; late = 0;
		std::vector<int> out;
		switch (r.below(3)) {
		case 0: if (rev) pick<std::vector<int>::iterator, Cmp<true>>(m, v.begin(), v.end(), q); else pick<std::vector<int>::iterator, Cmp<false>>(m, v.begin(), v.end(), q); out = v; returned = true; break;
		case 1: if (rev) pick<int *, Cmp<true>>(m, v.data(), v.data() + n, q); else pick<int *, Cmp<false>>(m, v.data(), v.data() + n, q); out = v; returned = true; break;
		default: { tpie::array<int> a(n); for (int i = 0; i < n; ++i) a[i] = v[i];
			if (rev) pick<tpie::array<int>::iterator, Cmp<true>>(m, a.begin(), a.end(), q); else pick<tpie::array<int>::iterator, Cmp<false>>(m, a.begin(), a.end(), q);
			out.assign(a.begin(), a.end()); returned = true;
			for (int i = 0; i < 30; ++i) sched::point();
			v.assign(a.begin(), a.end()); }
		}
		for (int i = 0; i < 30; ++i) sched::point();   // whoever still works on it does so now
		Ev e("sort"); e.boolean("rev", rev).seq("in", in).seq("r", out).seq("after", v).num("late", late);
		if (q) e.num("cur", rec.get_current()).num("range", rec.get_range()).boolean("grew", rec.ok).num("dones", rec.done_);
		else e.num("cur", 0).num("range", 0).boolean("grew", true).num("dones", 1);
		e.emit();
	};
	int n = (int)r.range(1, 3);
	for (int i = 0; i < n; ++i) one(r.next());
	Ev("end").emit();
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		tpie_init(ALL & ~DEFAULT_LOGGING);
		if (a.mode == "sort") psort(t, r); else jobs(t, r);
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
