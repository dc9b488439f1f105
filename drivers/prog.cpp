// Conformance driver for progress indicators (R04): a growing tree of indicators under a terminal indicator.
#include "vd.h"
#include <tpie/progress_indicator_arrow.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/fractional_progress.h>
#include <sstream>
using namespace vd;
using namespace tpie;

struct FS : public fractional_subindicator {
	FS(fractional_progress & fp) : fractional_subindicator(fp) {}
	int64_t outer() { return (int64_t)m_outerRange; }
};
// What is on the terminal: the last percentage written.
static int64_t percent(const std::string & s) {
	size_t p = s.rfind('%');
	if (p == std::string::npos) return -1;
	size_t b = p; while (b > 0 && isdigit(s[b - 1])) --b;
	return b == p ? -1 : atoll(s.substr(b, p - b).c_str());
}
struct Node {
	int p = 0; int kind = 0;   // 0 plain sub, 1 fractional
	std::unique_ptr<progress_indicator_subindicator> s; int st = 0;   // 0 set up, 1 running, 2 done
	int64_t outer = 0, range = 0, used = 0, cur = 0, over = 0; int fp = -1; int owner = -1; int kids = 0;
};
struct Fp { std::unique_ptr<fractional_progress> f; int node; std::vector<int> kids; int st = 0; };

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	setenv("HOME", a.dir.c_str(), 1);
	int64_t ops = a.num("ops", 60);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		tpie_init(ALL & ~DEFAULT_LOGGING);
		{
		std::ostringstream os;
		int64_t R = r.chance(10) ? 0 : r.pick(std::vector<int64_t>{1, 2, 3, 10, 100, 997, 10000});
		std::unique_ptr<progress_indicator_base> root;
		if (r.chance(50)) root.reset(new progress_indicator_arrow("x", R, os)); else root.reset(new progress_indicator_terminal("x", R, os));
		std::vector<Node> nodes(1);
		std::vector<Fp> fps;
		nodes[0].range = R;
		for (const char * id : {"a", "b", "c", "d"}) if (r.chance(80)) update_fractions((std::string("f.cpp:go:") + id).c_str(), (float)0.0, 0);
		std::map<std::string, int64_t> fr;
		for (const char * id : {"a", "b", "c", "d"}) { fr[id] = r.below(6); update_fractions((std::string("f.cpp:go:") + id).c_str(), (float)fr[id], 1); }
		fr["e"] = 1;   // not known: counts as one
		auto P = [&](int i) -> progress_indicator_base * { return i == 0 ? root.get() : nodes[i].s.get(); };
		auto curs = [&](Ev & e) {
			std::vector<int64_t> v; for (size_t i = 0; i < nodes.size(); ++i) v.push_back((int64_t)P(i)->get_current());
			e.seq("c", v).num("pct", percent(os.str())).emit();
		};
		Ev("new").num("t", t).num("range", R).emit();
		{ root->init(R); Ev e("init"); e.num("i", 1).num("range", R).num("outer", 0); nodes[0].st = 1; curs(e); }
		auto setup = [&](int p, int64_t outer) {
			Node n; n.p = p; n.outer = outer;
			const char * crumb = r.chance(50) ? "crumb" : nullptr;
			if (r.chance(50)) n.s.reset(new progress_indicator_subindicator(P(p), outer, crumb, IMPORTANCE_MAJOR, log_group_mode::disabled));
			else { n.s.reset(new progress_indicator_subindicator()); n.s->setup(P(p), outer, crumb, IMPORTANCE_MAJOR, log_group_mode::disabled); }
			nodes[p].used += outer; ++nodes[p].kids;
			nodes.push_back(std::move(n));
			Ev e("setup"); e.num("p", p + 1).num("outer", outer); curs(e);
		};
		// Indicators that still move; crumbs are popped in the order of a stack, so crumbs need no check of their own.
		for (int64_t o = 0; o < ops; ++o) {
			int i = (int)r.below(nodes.size()); if (r.chance(60)) i = (int)(nodes.size() - 1 - r.below(std::min<size_t>(3, nodes.size())));
			Node & n = nodes[i];
			bool busy = false; for (size_t k = 1; k < nodes.size(); ++k) if (nodes[k].p == i && nodes[k].st < 2 && (int)k != i) busy = true;
			if (n.st == 0) {
				if (r.chance(15) && n.kind == 0) {   // its share of the work is an object that may be moved about before it is used
					if (r.chance(50)) n.s.reset(new progress_indicator_subindicator(std::move(*n.s)));
					else { std::unique_ptr<progress_indicator_subindicator> x(new progress_indicator_subindicator()); *x = std::move(*n.s); n.s = std::move(x); }
					Ev e("move"); e.num("i", i + 1); curs(e);
				}
				if (n.kind == 0 && r.chance(25) && nodes.size() < 25) {   // divide it by recorded fractions
					Fp f; f.node = i;
					f.f.reset(new fractional_progress(P(i)));
					f.f->id() << (int)(t * 100 + i);
					int k = (int)r.range(1, 4);
					std::vector<int> ks; std::vector<int64_t> w;
					static const char * ids[] = {"a", "b", "c", "d", "e"};
					for (int j = 0; j < k; ++j) {
						Node m; m.p = i; m.kind = 1; std::unique_ptr<FS> s(new FS(*f.f));
						const char * id = ids[r.below(5)]; bool en = r.chance(85);
						s->setup(id, "dir/f.cpp", "go", r.pick(std::vector<int64_t>{0, 1, 100}), nullptr, IMPORTANCE_MAJOR, en);
						w.push_back(en ? fr[id] : 0);
						m.owner = (int)fps.size();
						m.s = std::move(s); ks.push_back((int)nodes.size()); nodes.push_back(std::move(m));
					}
					f.kids = ks;
					f.f->init();
					nodes[i].st = 1; nodes[i].range = 23000; nodes[i].fp = (int)fps.size(); nodes[i].kids = k;
					Ev e("split"); e.num("i", i + 1).seq("w", w); 
					fps.push_back(std::move(f));
					curs(e);
					continue;
				}
				int64_t range = r.pick(std::vector<int64_t>{0, 1, 2, 3, 7, 10, 100, 1000, 12345});
				n.s->init(range); n.st = 1; n.range = range;
				Ev e("init"); e.num("i", i + 1).num("range", range).num("outer", n.kind ? ((FS *)n.s.get())->outer() : n.outer); curs(e);
			} else if (n.st == 1) {
				if (n.fp >= 0) {   // its parts work; finished with them
					if (!busy && r.chance(60)) {
						fps[n.fp].f->done(); n.st = 2; fps[n.fp].f.reset();
						Ev e("done"); e.num("i", i + 1); curs(e);
					}
					continue;
				}
				int64_t left = n.range - n.used - n.cur;
				switch (r.weighted({50, nodes.size() < 25 ? 30 : 0, i == 0 ? 1 : 20})) {
				case 0: {
					int64_t k = r.chance(30) ? 1 : r.below(left + 1);
					if (k > left) { if (i == 0 || n.kids || !r.chance(30)) break; }   // more steps than announced, for an indicator of its own
					P(i)->step(k); n.cur += k;
					Ev e("step"); e.num("i", i + 1).num("k", k); curs(e);
					break; }
				case 1: if (n.cur <= n.range && left >= 0) { setup(i, r.chance(30) ? left : r.below(left + 1)); } break;
				default: if (!busy) { P(i)->done(); n.st = 2; Ev e("done"); e.num("i", i + 1); curs(e); if (i == 0) o = ops; }
				}
			}
		}
		for (int i = (int)nodes.size() - 1; i >= 0; --i) {   // what was begun is finished
			if (nodes[i].st == 0) { if (nodes[i].kind == 0 && r.chance(50)) { nodes[i].st = 2; continue; } P(i)->init(5); nodes[i].st = 1; Ev e("init"); e.num("i", i + 1).num("range", 5).num("outer", nodes[i].kind ? ((FS *)nodes[i].s.get())->outer() : nodes[i].outer); curs(e); }
			if (nodes[i].st == 1) {
				if (nodes[i].fp >= 0) { fps[nodes[i].fp].f->done(); } else P(i)->done();
				nodes[i].st = 2; Ev e("done"); e.num("i", i + 1); curs(e);
			}
		}
		Ev("end").emit();
		while (nodes.size() > 1) nodes.pop_back();
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
