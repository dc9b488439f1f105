// Conformance driver for block_collection and block_collection_cache (B04).
#include "vd.h"
#include "vsched.h"
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;
using namespace tpie::blocks;

enum { CELLS = 4 };
int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		size_t cell = (size_t)r.pick(std::vector<int64_t>{4, 5, 16, 33, 250});
		size_t bs = cell * CELLS;
		bool cached = r.chance(65);
		size_t csize = (size_t)r.pick(std::vector<int64_t>{1, 2, 3, 5, 8});
		set_block_size((size_t)r.pick(std::vector<int64_t>{64, 16 * 3, 4096}));
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		vio::st().shortPct = (int)a.num("short", 0); vio::st().rng += trace_seed(a, t) * 2654435761u;
		{
		std::string path = a.dir + "/blocks";
		std::unique_ptr<block_collection> c; std::unique_ptr<block_collection_cache> k;
		auto open = [&](bool w) { if (cached) k.reset(new block_collection_cache(path, bs, csize, w)); else c.reset(new block_collection(path, bs, w)); };
		auto encc = [&](int64_t v, char * p) { for (size_t i = 0; i < cell; ++i) p[i] = (char)(i < 3 ? v >> (8 * i) : v * 31 + i * 7); };
		auto decc = [&](const char * p) -> int64_t {
			int64_t v = (unsigned char)p[0] | (unsigned char)p[1] << 8 | (unsigned char)p[2] << 16;
			std::vector<char> q(cell); encc(v, q.data());
			return memcmp(q.data(), p, cell) ? -1 : v;
		};
		std::map<int64_t, std::pair<block_handle, int>> live;   // block number -> handle, cells known to be in the file
		std::map<int64_t, int> best;
		int64_t ctr = 1; std::string mode = "w";
		Ev("new").num("t", t).num("bs", bs).boolean("cached", cached).num("csize", csize).emit();
		open(true);
		auto guard = [&](Ev & e, const std::function<void()> & f) {
			std::string x;
			try { f(); } catch (const std::exception & ex) { x = std::string("exception ") + ex.what(); }
			e.str("x", x).emit();
			return x.empty();
		};
		auto write = [&](int64_t b, int n) {
			std::vector<int64_t> v; for (int i = 0; i < n; ++i) v.push_back(ctr++);
			Ev e("write"); e.num("b", b).seq("c", v);
			guard(e, [&] {
				block_handle h = live[b].first;
				if (cached) {
					block * p = k->read_block(h);
					for (int i = 0; i < n; ++i) encc(v[i], p->get() + i * cell);
					k->write_block(h);
				} else {
					block p(cell * n);
					for (int i = 0; i < n; ++i) encc(v[i], p.get() + i * cell);
					c->write_block(h, p);
				}
			});
			int & m = live[b].second; m = std::max(m, n);
		};
		auto alloc = [&] {
			Ev e("alloc"); block_handle h;
			if (!guard(e, [&] { h = cached ? k->get_free_block() : c->get_free_block(); e.num("b", h.position / bs).num("off", h.position % bs + (h.size == bs ? 0 : 1)); })) return;
			live[h.position / bs] = {h, cached ? CELLS : 0};
			// a block nothing was written to is not in the file yet
			if (!cached) write(h.position / bs, CELLS); else write(h.position / bs, (int)r.range(1, CELLS));
		};
		auto some = [&]() -> int64_t { auto i = live.begin(); std::advance(i, r.below(live.size())); return i->first; };
		auto close = [&] { Ev e("close"); guard(e, [&] { c.reset(); k.reset(); }); };
		auto reopen = [&](bool w) { Ev e("open"); e.str("m", w ? "w" : "r"); if (guard(e, [&] { open(w); })) mode = w ? "w" : "r"; };
		auto read = [&](int64_t b) {
			Ev e("read"); e.num("b", b); std::vector<int64_t> v;
			guard(e, [&] {
				block p; block * q = &p;
				if (cached) q = k->read_block(live[b].first); else c->read_block(live[b].first, p);
				for (int i = 0; i < CELLS; ++i) v.push_back(q->size() == bs ? decc(q->get() + i * cell) : -2);
				e.seq("r", v);
			});
		};
		int n = (int)r.range(5, (int)a.num("ops", 100)), phase = 0, cap = (int)r.pick(std::vector<int64_t>{2, 5, 12, 25});
		for (int i = 0; i < n; ++i) {
			if (r.chance(15)) phase = (int)r.below(3);
			if (mode == "r") { if (r.chance(25)) { close(); reopen(r.chance(80)); } else if (!live.empty()) read(some()); continue; }
			if (live.empty()) { alloc(); continue; }
			switch (r.weighted(phase == 0 ? std::vector<int>{40, 5, 15, 20, 2} : phase == 1 ? std::vector<int>{5, 40, 15, 20, 2} : std::vector<int>{12, 10, 35, 35, 4})) {
			case 0: if ((int)live.size() < cap) alloc(); break;
			case 1: { int64_t b = some(); Ev e("free"); e.num("b", b); guard(e, [&] { block_handle h = live[b].first; if (cached) k->free_block(h); else c->free_block(h); }); live.erase(b); } break;
			case 2: write(some(), r.chance(60) ? CELLS : (int)r.range(1, CELLS)); break;
			case 3: read(some()); break;
			case 4: close(); reopen(r.chance(75)); break;
			}
		}
		for (auto & x : live) read(x.first);
		close(); reopen(false);
		for (auto & x : live) read(x.first);
		close(); reopen(true);
		for (int i = 0; i < 6; ++i) alloc();
		for (auto & x : live) read(x.first);
		close();
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
