// Conformance driver for pipelines composed with the factories (L01, L03): memory fractions, node sets and forwards given to
// parts of a pipeline, groupings of the parts, push and pull pipelines, several pipelines joined by node sets.
#include "vd.h"
#include <tpie/pipelining/node.h>
#include <tpie/pipelining/pipeline.h>
#include <tpie/pipelining/pipe_base.h>
#include <tpie/pipelining/factory_helpers.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;
using namespace tpie::pipelining;

struct Plan {   // what is done with a node
	bool own = false; int64_t lo = 0, hi = -1, flo = 0, fhi = -1, ffr = 0, fr = -1;
	std::vector<std::pair<int, int>> sets;   // kind 0: member, 1: depends, 2: depends and is forwarded to; which set
	std::vector<std::pair<std::string, int64_t>> fwd;
};
struct W {
	Rng & r;
	std::vector<Plan> plan;
	std::vector<node_set> sets;
	int64_t budget = 60, next = 100;
	bool resources = false;
	std::vector<int> destroyed;
	std::map<std::pair<int, int>, int64_t> dist;
};
static W * w;
static const int64_t FAR = 1000;

struct Pn : node {
	int id;
	Pn(int id) : id(id) {
		auto & p = w->plan[id];
		set_minimum_resource_usage(MEMORY, p.lo); if (p.hi >= 0) set_maximum_resource_usage(MEMORY, p.hi);
		set_minimum_resource_usage(FILES, p.flo); if (p.fhi >= 0) set_maximum_resource_usage(FILES, p.fhi);
		set_resource_fraction(FILES, (double)p.ffr);
	}
	Pn(Pn && o) : node(std::move(o)), id(o.id) { o.id = 0; }
	~Pn() override { if (id) w->destroyed.push_back(id); }
	void ev(const char * n) { Ev(n).num("n", id).emit(); }
	void get(const std::string & key) {
		bool c = can_fetch(key); int64_t v = 0;
		if (c) v = fetch<int64_t>(key);
		Ev("get").num("n", id).str("key", key).boolean("found", c).num("v", v).emit();
	}
	void meta() {
		while (w->r.chance(40)) {
			int k = (int)w->r.below(2); std::string key = k ? "a" : "b";
			if (w->r.chance(30)) {
				auto & d = w->dist[{id, k}];
				if (d == 0) d = 1 + (w->r.chance(60) ? FAR : w->r.below(4));
				int64_t v = w->next++;
				if (d - 1 == FAR) forward<int64_t>(key, v); else forward<int64_t>(key, v, (memory_size_type)(d - 1));
				Ev("fwd").num("n", id).str("key", key).num("v", v).num("k", d - 1).emit();
			} else get(key);
		}
	}
	void have() { if (w->resources) Ev("have").num("n", id).num("mem", (int64_t)get_available_memory()).num("files", (int64_t)get_available_of_resource(FILES)).emit(); }
	void prepare() override { ev("prepare"); meta(); }
	void propagate() override { ev("propagate"); have(); meta(); }
	void begin() override { ev("begin"); have(); if (w->r.chance(20)) flow(); }
	void end() override { ev("end"); if (w->r.chance(30)) flow(); meta(); }
	void resource_available_changed(resource_type t, memory_size_type a) override {
		Ev("give").num("n", id).str("r", t == FILES ? "files" : "mem").num("a", (int64_t)std::min<memory_size_type>(a, 2000000000)).emit();
	}
	virtual void flow() {}
	bool may() { if (w->budget <= 0 || !w->r.chance(80)) return false; --w->budget; return true; }
	void start() { ev("go"); int64_t k = w->r.below(4); for (int64_t i = 0; i < k; ++i) flow(); ev("gone"); }
};
template <typename D> struct Begin : Pn {
	D dest;
	Begin(D d, int id) : Pn(id), dest(std::move(d)) { if (w->plan[id].own) add_push_destination(dest); }
	void go() override { start(); }
	void flow() override { if (may()) dest.push(id); }
};
template <typename D> struct Mid : Pn {
	D dest;
	Mid(D d, int id) : Pn(id), dest(std::move(d)) { if (w->plan[id].own) add_push_destination(dest); }
	void push(int from) { Ev("push").num("n", from).num("to", id).emit(); flow(); }
	void flow() override { if (may()) dest.push(id); }
};
struct End : Pn {
	End(int id) : Pn(id) {}
	void push(int from) { Ev("push").num("n", from).num("to", id).emit(); }
};
struct PullBegin : Pn {
	PullBegin(int id) : Pn(id) {}
	void pull(int from) { Ev("pull").num("n", from).num("to", id).emit(); }
};
template <typename S> struct PullMid : Pn {
	S src;
	PullMid(S s, int id) : Pn(id), src(std::move(s)) { if (w->plan[id].own) add_pull_source(src); }
	void pull(int from) { Ev("pull").num("n", from).num("to", id).emit(); flow(); }
	void flow() override { if (may()) src.pull(id); }
};
template <typename S> struct PullEnd : Pn {
	S src;
	PullEnd(S s, int id) : Pn(id), src(std::move(s)) { if (w->plan[id].own) add_pull_source(src); }
	void go() override { start(); }
	void flow() override { if (may()) src.pull(id); }
};

struct Op { int k; double x; int s; std::string key; int64_t v; };
template <typename P> P apply(P p, const Op & o) {
	switch (o.k) {
	case 0: return p.memory(o.x);
	case 1: return p.add_to_set(w->sets[o.s]);
	case 2: return p.add_dependencies(w->sets[o.s]);
	case 3: return p.add_forwarding_dependencies(w->sets[o.s]);
	case 4: return p.template forward<int64_t>(o.key, o.v);
	case 5: return p.name(o.key);
	case 6: return p.phase_name(o.key, PRIORITY_INSIGNIFICANT);
	default: return p.breadcrumb(o.key);
	}
}
template <typename P> P each(P p, const std::vector<Op> & os, size_t i) {
	if (i == os.size()) return p;
	return each(apply(std::move(p), os[i]), os, i + 1);
}
template <typename P> P deco(P p, int id) {
	auto & pl = w->plan[id];
	std::vector<std::vector<Op>> parts(4);   // any order of these
	if (pl.fr >= 0) { if (w->r.chance(20)) parts[0].push_back({0, 77, 0, "", 0}); parts[0].push_back({0, (double)pl.fr, 0, "", 0}); }
	for (auto & s : pl.sets) parts[1].push_back({1 + s.first, 0, s.second, "", 0});
	for (auto & f : pl.fwd) parts[2].push_back({4, 0, 0, f.first, f.second});
	for (int k = 5; k <= 7; ++k) if (w->r.chance(25)) parts[3].push_back({k, 0, 0, "node" + std::to_string(id), 0});
	for (size_t i = 4; i > 1; --i) std::swap(parts[i - 1], parts[w->r.below(i)]);
	std::vector<Op> os; for (auto & x : parts) os.insert(os.end(), x.begin(), x.end());
	return each(std::move(p), os, 0);
}
template <typename P> P crumb(P p) {   // of a group of parts
	if (w->r.chance(30)) return p.name("group");
	if (w->r.chance(30)) return p.breadcrumb("group");
	return p;
}
static auto first(int id) { return deco(pipe_begin<factory<Begin, int>>(id), id); }
static auto mid(int id) { return deco(pipe_middle<factory<Mid, int>>(id), id); }
static auto last(int id) { return deco(pipe_end<termfactory<End, int>>(id), id); }
static auto pfirst(int id) { return deco(pullpipe_begin<termfactory<PullBegin, int>>(id), id); }
static auto pmid(int id) { return deco(pullpipe_middle<factory<PullMid, int>>(id), id); }
static auto plast(int id) { return deco(pullpipe_end<factory<PullEnd, int>>(id), id); }

template <int D, typename B, typename M, typename L> pipeline rest(B b, const std::vector<int> & ids, size_t at, M mid, L last) {
	size_t left = ids.size() - 1 - at;
	if (left == 0) return pipeline(std::move(b) | last(ids[at]));
	if (left == 1 && (D == 2 || w->r.chance(40))) return pipeline(std::move(b) | crumb(mid(ids[at]) | last(ids[at + 1])));
	if constexpr (D < 2) {
		if (left >= 2 && w->r.chance(50)) return rest<D + 1>(crumb(std::move(b) | crumb(mid(ids[at]) | mid(ids[at + 1]))), ids, at + 2, mid, last);
		return rest<D + 1>(crumb(std::move(b) | mid(ids[at])), ids, at + 1, mid, last);
	} else throw std::logic_error("too long");
}

static std::string pairs(const std::vector<std::pair<int, int>> & v) {
	std::string s = "[";
	for (auto & p : v) s += (s.size() > 1 ? ",[" : "[") + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
	return s + "]";
}

int main(int argc, char ** argv) {
	vd::Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		set_block_size(16384);
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		W world{r}; w = &world;
		w->resources = a.mode == "res" || r.chance(20);
		int C = (int)r.range(1, 4), N = 0;
		std::vector<std::vector<int>> chain(C); std::vector<bool> pull(C);
		std::vector<std::pair<int, int>> pushE, pullE, dep, nfdep;
		for (int c = 0; c < C; ++c) {
			int k = (int)r.range(2, 5); pull[c] = r.chance(35);
			for (int i = 0; i < k; ++i) chain[c].push_back(++N);
			for (int i = 1; i < k; ++i) if (pull[c]) pullE.push_back({chain[c][i], chain[c][i - 1]}); else pushE.push_back({chain[c][i - 1], chain[c][i]});
		}
		w->plan.resize(N + 1);
		for (int n = 1; n <= N; ++n) w->plan[n].own = r.chance(40);
		auto set = [&](std::vector<int> from, std::vector<int> to) {   // the nodes of some chains and what depends on them
			int s = (int)w->sets.size(); w->sets.push_back(make_node_set());
			std::vector<int> m; std::vector<std::pair<int, int>> d;
			for (int c : from) for (int i = (int)r.range(1, 2); i > 0; --i) { int n = r.pick(chain[c]); if (std::find(m.begin(), m.end(), n) == m.end()) m.push_back(n); }
			for (int c : to) for (int i = (int)r.range(1, 2); i > 0; --i) { auto x = std::make_pair(r.pick(chain[c]), (int)r.range(1, 2)); if (std::find(d.begin(), d.end(), x) == d.end()) d.push_back(x); }
			for (int n : m) w->plan[n].sets.push_back({0, s});
			for (auto & x : d) w->plan[x.first].sets.push_back({x.second, s});
			for (int n : m) for (auto & x : d) (x.second == 1 ? nfdep : dep).push_back({x.first, n});
		};
		for (int c = 1; c < C; ++c) set({(int)r.below(c)}, {c});
		for (int k = C > 1 ? (int)r.below(3) : 0; k > 0; --k) {
			int p = (int)r.range(1, C - 1); std::vector<int> f, o;
			for (int c = 0; c < C; ++c) if (r.chance(60)) (c < p ? f : o).push_back(c);
			if (!f.empty() && !o.empty()) set(f, o);
		}
		if (C > 1 && r.chance(4)) set({C - 1}, {0});   // a cycle
		for (int n = 1; n <= N; ++n) for (size_t i = w->plan[n].sets.size(); i > 1; --i) std::swap(w->plan[n].sets[i - 1], w->plan[n].sets[r.below(i)]);
		for (int k = 0; k < 2; ++k) if (r.chance(50)) {
			int n = (int)r.range(1, N);
			for (int i = (int)r.range(1, 2); i > 0; --i) w->plan[n].fwd.push_back({k ? "a" : "b", w->next++});
			w->dist[{n, k}] = 1 + FAR;
		}
		if (w->resources) for (int n = 1; n <= N; ++n) {
			auto & p = w->plan[n]; int64_t scale = r.pick(std::vector<int64_t>{1, 10, 1000, 40000});
			if (r.chance(60)) { p.lo = r.chance(40) ? 0 : r.below(6) * scale; p.hi = r.chance(40) ? -1 : p.lo + r.below(12) * scale; }
			if (r.chance(30)) { p.flo = r.below(4); p.fhi = r.chance(40) ? -1 : p.flo + r.below(6); p.ffr = r.below(4); }
			if (r.chance(70)) p.fr = r.chance(20) ? 0 : r.range(1, 10);
		}
		int64_t mem = r.pick(std::vector<int64_t>{0, 10, 100, 1000, 5000, 100000, 900000}) + r.below(20), files = r.pick(std::vector<int64_t>{0, 5, 10, 40, 200});
		std::string s = "[";
		for (int n = 1; n <= N; ++n) s += n > 1 ? ",false" : "false";
		Ev e("new");
		e.num("t", t).num("n", N).raw("push", pairs(pushE)).raw("pull", pairs(pullE)).raw("dep", pairs(dep)).raw("nfdep", pairs(nfdep)).raw("msdep", "[]");
		e.raw("evac", s + "]").raw("stop", "[]").raw("second", "[]").num("mem", mem).num("files", files).raw("duse", "[]").num("d", 0).boolean("res", w->resources);
		e.emit();
		std::vector<int> order; for (int c = 0; c < C; ++c) order.push_back(c);
		for (int i = C; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
		{
			std::vector<pipeline> ps;
			for (int c : order) {
				auto & ids = chain[c];
				if (pull[c]) ps.push_back(rest<0>(pfirst(ids[0]), ids, 1, [](int id) { return pmid(id); }, [](int id) { return plast(id); }));
				else ps.push_back(rest<0>(first(ids[0]), ids, 1, [](int id) { return mid(id); }, [](int id) { return last(id); }));
			}
			w->sets.clear();
			for (int n = 1; n <= N; ++n) {
				auto & p = w->plan[n];
				if (w->resources) {
					Ev("set").num("n", n).str("r", "mem").num("lo", p.lo).num("hi", p.hi < 0 ? 2000000000 : p.hi).num("fr", std::max<int64_t>(p.fr, 0)).emit();
					Ev("set").num("n", n).str("r", "files").num("lo", p.flo).num("hi", p.fhi < 0 ? 2000000000 : p.fhi).num("fr", p.ffr).emit();
				}
				for (auto & f : p.fwd) Ev("fwd").num("n", n).str("key", f.first).num("v", f.second).num("k", FAR).emit();
			}
			pipeline x = r.pick(ps);
			if (r.chance(30)) { int64_t v = w->next++; x.forward<int64_t>("a", v); Ev("pfwd").str("key", "a").num("v", v).emit(); }
			progress_indicator_null pi; bool ran = false;   // what is given to parts is forwarded once the pipeline runs
			try { x(1, pi, (memory_size_type)files, (memory_size_type)mem, nullptr, nullptr); Ev("done").emit(); ran = true; }
			catch (const tpie::exception & b) { Ev("refused").str("what", b.what()).emit(); }
			catch (...) { Ev("unexpected").emit(); }
			for (const char * k : {"a", "b"}) if (ran) {
				bool c = x.can_fetch(k); int64_t v = c ? x.fetch<int64_t>(k) : 0;
				Ev("pget").str("key", k).boolean("found", c).num("v", v).emit();
			}
			if (r.chance(50)) x = pipeline();
			while (!ps.empty()) { size_t i = r.below(ps.size()); ps.erase(ps.begin() + (std::ptrdiff_t)i); }
		}
		std::sort(w->destroyed.begin(), w->destroyed.end());
		Ev("destroyed").seq("ns", w->destroyed).emit();
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
