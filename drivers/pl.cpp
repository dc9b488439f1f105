// Conformance driver for the pipelining runtime (L01, L03, L04): pipelines of probe nodes with arbitrary relations.
#include "vd.h"
#include <tpie/pipelining/node.h>
#include <tpie/pipelining/pipeline.h>
#include <tpie/pipelining/runtime.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;
using namespace tpie::pipelining;

struct Boom : tpie::exception { int v; Boom(int v) : tpie::exception("boom"), v(v) {} };
struct Bang { int v; };
struct Probe;
struct W {
	Rng & r;
	std::vector<Probe *> nodes;
	int64_t budget = 60, boom = -1, next = 100;
	int kind = 0;
	bool quiet = false, resources = false, forwards = false;
	std::vector<int> destroyed;
	std::map<std::pair<int, int>, int64_t> dist;   // how far a node forwards a key
	int dsAlive = 0;
};
static W * w;
static const int64_t FAR = 1000;

struct Tok {   // kept in a data structure
	int d = -1;
	Tok(int d) : d(d) {}
	Tok(Tok && o) : d(o.d) { o.d = -1; }
	Tok & operator=(Tok && o) { std::swap(d, o.d); return *this; }
	~Tok() { if (d >= 0 && !w->quiet) Ev("dsfree").num("d", d).emit(); }
};

struct Probe : node {
	int id; bool evac = false;
	std::vector<Probe *> dst, src;
	std::vector<int> ds;
	Probe(int id) : id(id) {}
	~Probe() override { w->destroyed.push_back(id); }
	void ev(const char * n) {
		Ev(n).num("n", id).emit();
		tick();
	}
	void tick() {
		if (w->boom > 0 && --w->boom == 0) {
			int v = (int)w->r.below(1000);
			Ev("throw").num("v", v).num("kind", w->kind).emit();
			if (w->kind == 0) throw Boom(v);
			if (w->kind == 1) throw Bang{v};
			throw std::runtime_error(std::to_string(v));
		}
	}
	void limits(int pct) {
		if (!w->resources || !w->r.chance(pct)) return;
		int t = (int)w->r.below(2);
		params(t == 0 ? FILES : MEMORY);
	}
	void params(resource_type t) {
		int64_t scale = t == FILES ? 1 : w->r.pick(std::vector<int64_t>{1, 10, 1000, 40000});
		int64_t lo = w->r.chance(40) ? 0 : w->r.below(6) * scale + (w->r.chance(30) ? 1 : 0);
		int64_t hi = w->r.chance(40) ? -1 : lo + w->r.below(12) * scale;
		int64_t fr = w->r.chance(30) ? 0 : w->r.chance(30) ? w->r.range(1, 50) : w->r.range(1, 4);
		set_minimum_resource_usage(t, lo);
		if (hi >= 0) set_maximum_resource_usage(t, hi); else set_maximum_resource_usage(t, std::numeric_limits<memory_size_type>::max());
		set_resource_fraction(t, (double)fr);
		Ev("set").num("n", id).str("r", t == FILES ? "files" : "mem").num("lo", lo).num("hi", hi < 0 ? 2000000000 : hi).num("fr", fr).emit();
	}
	void meta() {
		if (!w->forwards) return;
		while (w->r.chance(40)) {
			int k = (int)w->r.below(2);
			std::string key = k ? "a" : "b";
			if (w->r.chance(50)) {
				auto & d = w->dist[{id, k}];
				if (d == 0) d = 1 + (w->r.chance(60) ? FAR : w->r.below(4));
				int64_t v = w->next++;
				if (d - 1 == FAR) forward<int64_t>(key, v); else forward<int64_t>(key, v, (memory_size_type)(d - 1));
				Ev("fwd").num("n", id).str("key", key).num("v", v).num("k", d - 1).emit();
			} else get(key);
		}
	}
	void get(const std::string & key) {
		bool c = can_fetch(key); int64_t v = 0;
		if (c) v = fetch<int64_t>(key);
		else { try { fetch<int64_t>(key); v = -1; } catch (const invalid_argument_exception &) {} }
		Ev("get").num("n", id).str("key", key).boolean("found", c).num("v", v).emit();
	}
	void have() {
		if (w->resources) Ev("have").num("n", id).num("mem", (int64_t)get_available_memory()).num("files", (int64_t)get_available_of_resource(FILES)).emit();
	}
	void prepare() override { ev("prepare"); meta(); limits(40); }
	void propagate() override { ev("propagate"); have(); meta(); limits(20); }
	void begin() override {
		Ev("begin").num("n", id).emit();
		have();
		for (int d : ds) {
			Ev("ds").num("n", id).num("d", d).num("mem", (int64_t)get_datastructure_memory(name(d))).emit();
			if (w->dsAlive & (1 << d)) Ev("dsget").num("n", id).num("d", d).num("v", get_datastructure<Tok>(name(d)).d).emit();
			else { w->dsAlive |= 1 << d; set_datastructure<Tok>(name(d), Tok(d)); Ev("dsset").num("n", id).num("d", d).emit(); }
		}
		tick();
		if (w->forwards && w->r.chance(30)) get(w->r.chance(50) ? "a" : "b");
		if (w->r.chance(20)) flow();
	}
	void go() override { ev("go"); int64_t k = w->r.below(4); for (int64_t i = 0; i < k; ++i) flow(); Ev("gone").num("n", id).emit(); }
	void end() override { ev("end"); if (w->r.chance(30)) flow(); meta(); }
	bool can_evacuate() override { return evac; }
	void evacuate() override { ev("evacuate"); }
	void resource_available_changed(resource_type t, memory_size_type a) override {
		Ev("give").num("n", id).str("r", t == FILES ? "files" : "mem").num("a", (int64_t)std::min<memory_size_type>(a, 2000000000)).emit();
		tick();
		if (t == FILES && w->resources && w->r.chance(8)) params(MEMORY);   // memory is handed out later
	}
	void flow() {
		for (auto d : dst) if (w->budget > 0 && w->r.chance(80)) { --w->budget; d->push(id); }
		for (auto s : src) if (w->budget > 0 && w->r.chance(80)) { --w->budget; s->pull(id); }
	}
	void push(int from) { Ev("push").num("n", from).num("to", id).emit(); tick(); flow(); }
	void pull(int from) { Ev("pull").num("n", from).num("to", id).emit(); tick(); flow(); }
	static std::string name(int d) { return "ds" + std::to_string(d); }
};

struct P : tpie::pipelining::bits::pipeline_base {
	P(tpie::pipelining::bits::node_map::ptr m) { m_nodeMap = m->find_authority(); m_nodeMap->increment_pipeline_ref(); m_memory = 1; }
	~P() override { m_nodeMap->find_authority()->decrement_pipeline_ref(); }
};

static std::string pairs(const std::vector<std::pair<int, int>> & v) {
	std::string s = "[";
	for (auto & p : v) s += (s.size() > 1 ? ",[" : "[") + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
	return s + "]";
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	bool res = a.mode == "res", fault = a.mode == "fault";
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		set_block_size(16384);
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		W world{r}; w = &world;
		w->resources = res || r.chance(20);
		w->forwards = !res || r.chance(20);
		int G = (int)r.range(1, res ? 4 : 5), N = 0;
		std::vector<int> grp;                        // node -> group
		std::vector<std::pair<int, int>> push, pull, dep, nfdep, msdep;
		std::vector<std::vector<int>> members(G);
		for (int g = 0; g < G; ++g) {
			int k = (int)r.range(1, 4);
			for (int i = 0; i < k; ++i) { members[g].push_back(++N); grp.push_back(g); }
		}
		
		for (int g = 0; g < G; ++g) {                // any pair of orders of actors and of items
			auto act = members[g], item = act;
			for (size_t i = act.size(); i > 1; --i) { std::swap(act[i - 1], act[r.below(i)]); std::swap(item[i - 1], item[r.below(i)]); }
			auto pos = [&](int n) { return std::find(item.begin(), item.end(), n) - item.begin(); };
			for (size_t j = 1; j < act.size(); ++j) {
				std::vector<size_t> from; from.push_back(r.below(j));   // connected; there may be several that nobody calls
				for (size_t i = 0; i < j; ++i) if (i != from[0] && r.chance(25)) from.push_back(i);
				if (j + 1 < act.size() && r.chance(15)) { (pos(act[j]) < pos(act.back()) ? push : pull).push_back({act[j], act.back()}); continue; }
				for (size_t i : from) (pos(act[i]) < pos(act[j]) ? push : pull).push_back({act[i], act[j]});
			}
		}
		std::vector<bool> evac(N + 1);
		int green = r.chance(50) ? 0 : 50;
		for (int n = 1; n <= N; ++n) evac[n] = !r.chance(green);
		int split = G > 1 && r.chance(25) ? (int)r.range(1, G - 1) : 0;   // two pipelines, the second one after the first
		for (int g = 1; g < G; ++g) for (int h = 0; h < g; ++h) {
			if (split && h < split && g >= split) continue;
			int k = r.chance(50) ? 1 : 0; if (r.chance(10)) ++k;
			for (int i = 0; i < k; ++i) {
				auto e = std::make_pair(r.pick(members[g]), r.pick(members[h]));   // first depends on second
				switch (r.weighted({5, 2, 4})) { case 0: dep.push_back(e); break; case 1: nfdep.push_back(e); break; default: msdep.push_back(e); }
			}
		}
		if (G > 1 && r.chance(4) && !split) { int g = (int)r.range(1, G - 1); dep.push_back({r.pick(members[r.below(g)]), r.pick(members[g])}); }   // perhaps a cycle
		std::vector<int> stop; if (w->forwards) for (int n = 1; n <= N; ++n) if (r.chance(12)) stop.push_back(n);
		int D = res && r.chance(50) ? (int)r.range(1, 3) : 0;
		std::vector<std::pair<int, int>> duse; std::vector<int64_t> dlo(D), dhi(D), dpr(D);

		// the nodes are made and joined in an arbitrary order
		std::vector<int> order; for (int n = 1; n <= N; ++n) order.push_back(n);
		for (int i = N; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
		std::vector<Probe *> nd(N + 1);
		for (int n : order) { nd[n] = new Probe(n); nd[n]->evac = evac[n]; }
		struct Rel { int k; int u, v; };
		std::vector<Rel> rels;
		for (auto & e : push) rels.push_back({0, e.first, e.second});
		for (auto & e : pull) rels.push_back({1, e.first, e.second});
		for (auto & e : dep) rels.push_back({2, e.first, e.second});
		for (auto & e : nfdep) rels.push_back({3, e.first, e.second});
		for (auto & e : msdep) rels.push_back({4, e.first, e.second});
		for (size_t i = rels.size(); i > 1; --i) std::swap(rels[i - 1], rels[r.below(i)]);
		for (auto & e : rels) {
			Probe * u = nd[e.u], * v = nd[e.v];
			switch (e.k) {
			case 0: u->add_push_destination(*v); u->dst.push_back(v); break;
			case 1: u->add_pull_source(*v); u->src.push_back(v); break;
			case 2: u->add_dependency(*v); break;
			case 3: u->get_node_map()->union_set(v->get_node_map()); u->get_node_map()->find_authority()->add_relation(u->get_id(), v->get_id(), tpie::pipelining::bits::no_forward_depends); break;
			default: u->add_memory_share_dependency(*v);
			}
		}
		auto part = [&](int n) { return split && grp[n - 1] >= split ? 1 : 0; };
		int root[2] = {0, 0};
		for (int n : order) { int & q = root[part(n)]; if (q) nd[q]->get_node_map()->union_set(nd[n]->get_node_map()); else q = n; }
		std::string s = "[";
		for (int n = 1; n <= N; ++n) s += std::string(n > 1 ? "," : "") + (evac[n] ? "true" : "false");
		std::vector<int> second; for (int n = 1; n <= N; ++n) if (part(n)) second.push_back(n);
		int64_t mem = r.pick(std::vector<int64_t>{0, 10, 100, 1000, 5000, 100000, 900000}) + r.below(20), files = r.pick(std::vector<int64_t>{0, 5, 10, 40, 200});
		for (int d = 0; d < D; ++d) for (int n = 1; n <= N; ++n) if (r.chance(35)) duse.push_back({n, d});
		Ev e("new");
		e.num("t", t).num("n", N).raw("push", pairs(push)).raw("pull", pairs(pull)).raw("dep", pairs(dep)).raw("nfdep", pairs(nfdep)).raw("msdep", pairs(msdep));
		e.raw("evac", s + "]").seq("stop", stop).seq("second", second).num("mem", mem).num("files", files).raw("duse", pairs(duse)).num("d", D).boolean("res", w->resources);
		e.emit();
		for (int n : stop) nd[n]->no_forward_through();
		for (int d = 0; d < D; ++d) { dlo[d] = r.chance(40) ? 0 : r.below(1000); dhi[d] = r.chance(40) ? 2000000000 : dlo[d] + r.below(3000); dpr[d] = r.below(5); }
		for (auto & u : duse) {
			Probe * p = nd[u.first]; int d = u.second; p->ds.push_back(d);
			int64_t lo = r.chance(70) ? dlo[d] : dlo[d] / 2, hi = r.chance(70) ? dhi[d] : dhi[d] + 10, pr = dpr[d];
			p->register_datastructure_usage(Probe::name(d), (double)pr);
			p->set_datastructure_memory_limits(Probe::name(d), lo, hi >= 2000000000 ? std::numeric_limits<memory_size_type>::max() : (memory_size_type)hi);
			Ev("dslim").num("d", d).num("lo", lo).num("hi", std::min<int64_t>(hi, 2000000000)).num("pr", pr).emit();
		}
		if (w->resources) for (int n = 1; n <= N; ++n) { if (r.chance(70)) nd[n]->params(MEMORY); if (r.chance(50)) nd[n]->params(FILES); }
		if (fault) { w->boom = r.chance(30) ? r.range(1, 200) : r.range(1, 20 + N * 6); w->kind = (int)r.below(3); }
		{
			std::unique_ptr<P> p, q;
			p.reset(new P(nd[root[0]]->get_node_map()));
			if (split) q.reset(new P(nd[root[1]]->get_node_map()));
			for (int n = 1; n <= N; ++n) nd[n]->get_node_map()->find_authority()->add_owned_node(std::unique_ptr<node>(nd[n]));
			if (split) p->order_before(*q);
			P & x = split && r.chance(50) ? *q : *p;
			if (w->forwards && r.chance(40)) { int64_t v = w->next++; x.forward_any("a", any_noncopyable(v)); Ev("pfwd").str("key", "a").num("v", v).emit(); }
			progress_indicator_null pi;
			try {
				x(1, pi, (memory_size_type)files, (memory_size_type)mem, nullptr, nullptr);
				Ev("done").emit();
			} catch (const Boom & b) { Ev("caught").num("v", b.v).num("kind", 0).emit(); }
			catch (const Bang & b) { Ev("caught").num("v", b.v).num("kind", 1).emit(); }
			catch (const tpie::exception & b) { Ev("refused").str("what", b.what()).emit(); }
			catch (const std::runtime_error & b) { Ev("caught").num("v", atoi(b.what())).num("kind", 2).emit(); }
			catch (...) { Ev("unexpected").emit(); }
			for (const char * k : {"a", "b"}) if (w->forwards) {
				bool c = x.can_fetch(k); int64_t v = 0;
				if (c) v = any_cast<int64_t>(x.fetch_any(k));
				Ev("pget").str("key", k).boolean("found", c).num("v", v).emit();
			}
			if (r.chance(50)) p.reset(); else q.reset();
		}
		std::sort(w->destroyed.begin(), w->destroyed.end());
		Ev("destroyed").seq("ns", w->destroyed).emit();
		w->quiet = true;
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
