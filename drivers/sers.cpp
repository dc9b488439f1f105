// Conformance driver for sorting serialized items (X02).
#include "vd.h"
#include "vsched.h"
#include <tpie/serialization2.h>
#include <tpie/serialization_sorter.h>
#include <tpie/file_manager.h>
#include <tpie/memory.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;
static const int64_t W = 10000;

struct Obj { int64_t v = 0; std::string s; };
template <typename D> void serialize(D & d, const Obj & o) { using tpie::serialize; serialize(d, o.v); serialize(d, o.s); }
template <typename D> void unserialize(D & d, Obj & o) { using tpie::unserialize; unserialize(d, o.v); unserialize(d, o.s); }
static int64_t KEYFLIP = 0;
struct Cmp { bool operator()(const Obj & a, const Obj & b) const { return KEYFLIP ? a.v / W > b.v / W : a.v / W < b.v / W; } };
static std::map<int64_t, size_t> lens;
static std::string payload(int64_t v, size_t n) { std::string s(n, ' '); uint64_t h = v * 1099511628211ull + n; for (auto & c : s) { h = h * 6364136223846793005ull + 1442695040888963407ull; c = char(h >> 56); } return s; }
static Obj mk(int64_t v, size_t n) { Obj o; o.v = v; o.s = payload(v, n); lens[v] = n; return o; }
static int64_t val(const Obj & o) { auto i = lens.find(o.v); if (i == lens.end() || i->second != o.s.size() || o.s != payload(o.v, o.s.size())) return -1; return o.v; }

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		get_file_manager().set_enforcement(file_manager::ENFORCE_IGNORE);
		get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE);
		get_memory_manager().set_limit(1 << 30);
		size_t open0 = get_file_manager().used(), mem0 = get_memory_manager().used(); int64_t use0 = get_temp_file_usage();
		KEYFLIP = r.chance(40);
		auto flip = [&](int64_t v) { return KEYFLIP && v >= 0 ? (999 - v / W) * W + v % W : v; };
		size_t wr = serialization_writer::memory_usage(), rd = serialization_reader::memory_usage();
		size_t extra = r.pick(std::vector<int64_t>{300, 1000, 3000, 10000, 100000});
		size_t big = r.pick(std::vector<int64_t>{1, 20, 100, 1000, extra > 2000 ? (int64_t)extra / 3 : 60});
		if (r.chance(8)) big = extra;
		size_t minItem = r.chance(50) ? sizeof(Obj) : 16;
		size_t m1 = wr + extra, m2 = 0, m3 = 0; size_t f1 = 1, f2 = r.range(3, 6), f3 = r.range(3, 6);
		// around the least memory that allows a fan-out of k
		auto lim = [&](bool w) { int64_t k = r.range(2, 5); return (size_t)(k * (rd + big + 40) + (w ? wr : 0) + r.pick(std::vector<int64_t>{0, 0, 1000, 100000})); };
		m2 = lim(true); m3 = r.chance(50) ? lim(true) : std::max(m2, lim(true));
		if (r.chance(5)) m2 -= std::min<size_t>(m2, r.below(2 * rd)); if (r.chance(5)) m3 -= std::min<size_t>(m3, r.below(2 * rd));
		if (r.chance(3)) f2 = r.range(1, 2); if (r.chance(3)) f3 = r.range(1, 2); if (r.chance(3)) m1 -= std::min<size_t>(m1, r.below(2 * extra));
		if (m1 > wr) extra = m1 - wr; else extra = 0;
		int64_t n = r.chance(10) ? r.below(3) : r.pick(std::vector<int64_t>{5, 20, 60, 150, 300}) + r.below(30);
		Ev("new").num("t", t).num("n", n).num("extra", extra).num("big", big).num("m2", m2).num("m3", m3).num("f2", f2).num("f3", f3).emit();
		bool files = r.chance(80);
		{
		serialization_sorter<Obj, Cmp> s(minItem);
		bool refused = false;
		size_t maxser = 0; bool single = true;
		auto refuse = [&](bool may) { Ev("refused").boolean("may", may).emit(); refused = true; };
		if (files) { if (r.chance(50)) s.set_available_files(f1, f2, f3); else { s.set_phase_3_files(f3); s.set_phase_2_files(f2); s.set_phase_1_files(f1); } }
		else f2 = f3 = 253;
		if (r.chance(50)) s.set_available_memory(m1, m2, m3); else { s.set_phase_2_memory(m2); s.set_phase_1_memory(m1); s.set_phase_3_memory(m3); }
		try { s.begin(); } catch (const tpie::exception &) { refuse(m1 <= wr || std::min(m2, m3) < wr + 2 * (minItem + rd) || f2 < 3 || f3 < 3); }
		std::string p = r.pick(std::vector<std::string>{"any", "few", "asc", "desc", "same"});
		int64_t id = 1, left = n;
		int giveup = r.chance(20) ? (int)r.range(1, 4) : 0;   // destroyed before it is finished
		while (left > 0 && !refused) {
			if (giveup == 1 && r.chance(20)) break;
			int64_t b = std::min<int64_t>(left, r.range(1, 60)); left -= b;
			std::vector<int64_t> v;
			for (int64_t i = 0; i < b; ++i) {
				int64_t q = id++, k = p == "any" ? r.below(1000) : p == "few" ? r.below(3) : p == "asc" ? q * 999 / (n + 1) : p == "desc" ? 999 - q * 999 / (n + 1) : 7;
				size_t len = r.chance(20) ? r.below(big + 1) : r.chance(10) ? big : r.below(std::min<size_t>(big + 1, 30));
				Obj o = mk(flip(k * W + q), len);
				size_t ser = len + 16;
				try { s.push(o); } catch (const tpie::exception &) { Ev("push").seq("r", v).num("count", v.size() + id - 2 - v.size()).emit(); refuse(ser + 200 > extra / 2); break; }
				maxser = std::max(maxser, ser);
				v.push_back(k * W + q);
			}
			if (!refused) Ev("push").seq("r", v).num("count", s.item_count()).emit();
		}
		if (!refused && giveup != 1) {
			s.end(); Ev("end").emit();
			int e = (int)r.below(5);   // when it is told to move to disk
			auto evac = [&]() { s.evacuate(); Ev("evac").emit(); };
			if (e == 1 || e == 3) evac();
			bool fr = s.is_merge_runs_free(); (void)fr;
			if (giveup != 2) try { s.merge_runs(); } catch (const tpie::exception &) {
				size_t per = rd + maxser + sizeof(Obj) + 32;
				refuse(m2 < wr + 2 * per || m3 < 2 * per || f2 < 3 || f3 < 3);
			}
			if (!refused && giveup != 2) {
				if (e == 2 || e == 3) evac();
				Ev("calc").boolean("more", s.can_pull()).emit();
				bool all = r.chance(85); bool mid = e == 4;
				while (giveup != 3) {
					int64_t b = r.range(1, 60);
					if (mid && r.chance(60)) { evac(); if (r.chance(70)) mid = false; }
					std::vector<int64_t> v;
					for (int64_t i = 0; i < b && s.can_pull(); ++i) v.push_back(flip(val(s.pull())));
					bool more = s.can_pull();
					Ev("pull").num("n", b).seq("r", v).boolean("more", more).emit();
					if (!more || (!all && r.chance(30))) break;
				}
			}
		}
		}
		Ev("gone").num("files", count_files(a.dir)).num("open", get_file_manager().used() - open0).num("usage", get_temp_file_usage() - use0).num("mem", get_memory_manager().used() - mem0).emit();
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
