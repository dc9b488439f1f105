// Conformance driver for external merge sorting (X01): merge_sorter and sorting whole streams.
#include "vd.h"
#include "vsched.h"
#include <tpie/sort.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/file_manager.h>
#include <tpie/memory.h>
#include <tpie/tempname.h>
#include <tpie/parallel_sort.h>
#include <tpie/dummy_progress.h>
using namespace vd;
using namespace tpie;
static const int64_t W = 10000;
template <size_t N> struct Less { bool operator()(const Item<N> & a, const Item<N> & b) const { return dec(a) / W < dec(b) / W; } };
template <size_t N> struct More { bool operator()(const Item<N> & a, const Item<N> & b) const { return dec(a) / W > dec(b) / W; } };
// For sorting with the less-than operator.
namespace vd { template <size_t N> bool operator<(const Item<N> & a, const Item<N> & b) { return dec(a) / W < dec(b) / W; } }

struct Keys {
	Rng & r; std::string p; int64_t id = 1, base, range;
	Keys(Rng & r_) : r(r_) { p = r.pick(std::vector<std::string>{"any", "few", "asc", "desc", "same", "saw"}); base = r.below(500); range = r.pick(std::vector<int64_t>{2, 5, 100, 1000}); }
	int64_t next(int64_t n) {
		int64_t i = id++, k;
		if (p == "asc") k = i * 999 / (n + 1); else if (p == "desc") k = 999 - i * 999 / (n + 1); else if (p == "same") k = base;
		else if (p == "saw") k = (i * 37) % 200; else if (p == "few") k = r.below(3); else k = r.below(range);
		return k * W + i;
	}
};

// What is pushed and pulled for an item: the item itself or a pointer to it.
template <typename O> struct Outer { template <size_t N> static O in(int64_t v) { return enc<N>(v); } static int64_t out(O && o) { return dec(o); } };
template <size_t N> struct Outer<Item<N> *> { template <size_t> static Item<N> * in(int64_t v) { return tpie_new<Item<N>>(enc<N>(v)); } static int64_t out(Item<N> * o) { int64_t v = dec(*o); tpie_delete(o); return v; } };
template <size_t N> struct Outer<tpie::unique_ptr<Item<N>>> { template <size_t> static tpie::unique_ptr<Item<N>> in(int64_t v) { return tpie::unique_ptr<Item<N>>(tpie_new<Item<N>>(enc<N>(v))); } static int64_t out(tpie::unique_ptr<Item<N>> o) { return dec(*o); } };

template <size_t N, bool REV> struct T {
	typedef typename std::conditional<REV, More<N>, Less<N>>::type C;
	static int64_t flip(int64_t v) { return REV && v >= 0 ? (999 - v / W) * W + v % W : v; }
	template <typename ST = default_store> static void sorter(Rng & r, bool manual, int64_t n) {
		typedef typename ST::template specific<Item<N>>::outer_type O;
		merge_sorter<O, false, C, ST> s;
		constexpr bool raw = std::is_pointer<O>::value, plain = std::is_same<O, Item<N>>::value;   // raw: whoever pulls it owns it
		int minfiles = 100;
		if (manual) s.set_parameters(r.pick(std::vector<int64_t>{1, 2, 3, 5, 10, 40}), r.range(2, 6));
		else {
			auto files = [&]() { return (memory_size_type)(r.chance(3) ? r.range(1, 4) : r.range(5, 12)); };
			auto mem = [&]() { return (memory_size_type)r.pick(std::vector<int64_t>{0, 100000, 200000, 400000, 1000000, 4000000}); };
			memory_size_type f1 = files(), f2 = files(), f3 = files();
			switch (r.below(3)) {
			case 0: s.set_available_files(f2); f3 = f2; break;
			case 1: s.set_available_files(f1, f2, f3); break;
			default: s.set_phase_1_files(f1); s.set_phase_3_files(f3); s.set_phase_2_files(f2); break;
			}
			minfiles = (int)std::min(f2, f3);
			memory_size_type m1 = mem(), m2 = mem(), m3 = mem();
			switch (r.below(3)) {
			case 0: s.set_available_memory(m1); break;
			case 1: s.set_available_memory(m1, m2, m3); break;
			default: s.set_phase_2_memory(m2); s.set_phase_1_memory(m1); s.set_phase_3_memory(m3); break;
			}
		}
		if (r.chance(30)) s.set_items(r.chance(50) ? n : n + r.below(1000));
		try { s.begin(); } catch (const tpie::exception &) { Ev("refused").boolean("may", minfiles < 5).emit(); return; }
		Keys k(r);
		int64_t left = n;
		while (left > 0) {
			int64_t b = std::min<int64_t>(left, r.range(1, 120)); left -= b;
			std::vector<int64_t> v;
			for (int64_t i = 0; i < b; ++i) { int64_t w = k.next(n); v.push_back(w); if constexpr (plain) { if (i & 1) s.push(enc<N>(flip(w))); else { const Item<N> x = enc<N>(flip(w)); s.push(x); } } else s.push(Outer<O>::template in<N>(flip(w))); }
			Ev("push").seq("r", v).num("count", s.item_count()).emit();
		}
		int giveup = !raw && r.chance(15) ? (int)r.range(1, 3) : 0;   // destroyed before it is finished
		if (giveup == 1) return;
		s.end(); Ev("end").emit();
		int e = (int)r.below(5);   // when it is told to move to disk
		auto evac = [&]() { switch (r.below(3)) { case 0: s.evacuate(); break; case 1: s.evacuate_before_merging(); break; default: s.evacuate_before_reporting(); } Ev("evac").emit(); };
		if (e == 1 || e == 3) evac();
		if (e == 3 && r.chance(30)) evac();
		if (giveup == 2) return;
		dummy_progress_indicator pi;
		s.calc(pi);
		if (giveup == 3) return;
		if (e == 2 || e == 3) evac();
		Ev("calc").boolean("more", s.can_pull()).emit();
		if (e == 4) evac();
		bool all = raw || r.chance(85);
		for (;;) {
			int64_t b = r.range(1, 150);
			std::vector<int64_t> v;
			for (int64_t i = 0; i < b && s.can_pull(); ++i) v.push_back(flip(Outer<O>::out(s.pull())));
			bool more = s.can_pull();
			Ev("pull").num("n", b).seq("r", v).boolean("more", more).emit();
			if (!more || (!all && r.chance(30))) break;
		}
	}
	template <typename S> static void stream(Rng & r, int64_t n, int how) {
		S in, out;
		in.open(); 
		constexpr bool un = std::is_same<S, uncompressed_stream<typename S::item_type>>::value;
		bool two = how == 1 || how == 4 || how == 6;
		if (two) out.open();
		Keys k(r);
		std::vector<int64_t> v, o, keep;
		for (int64_t i = 0; i < n; ++i) { v.push_back(k.next(n)); in.write(enc<N>(v.back())); }
		if (two && r.chance(50)) for (int i = 0; i < 5; ++i) out.write(enc<N>(1));
		if (r.chance(50)) in.seek(0);
		std::less<typename S::item_type> less;
		progress_indicator_null pi;
		if (how == 0) tpie::sort(in, pi);
		else if (how == 1) tpie::sort(in, out);
		else if (how == 3) tpie::sort(in, less, pi);
		else if (how == 4) { if constexpr (un) tpie::sort(in, out, less, pi); else tpie::sort(in, out, &pi); }
		else if (how == 5) { if constexpr (un) tpie::sort(in); else tpie::sort(in, in, &pi); }
		else if (how == 6) tpie::sort(in, out, &pi);
		else tpie::sort(in, in);
		S & q = two ? out : in;
		int64_t off = q.offset();
		while (q.can_read()) o.push_back(dec(q.read()));
		if (two) { in.seek(0); while (in.can_read()) keep.push_back(dec(in.read())); }
		Ev("sort").seq("in", v).seq("r", o).num("off", off).boolean("two", two).seq("keep", keep).emit();
	}
};

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		set_block_size((size_t)r.pick(std::vector<int64_t>{16384, 65536}));
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		get_file_manager().set_enforcement(file_manager::ENFORCE_IGNORE);
		get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE);
		get_memory_manager().set_limit(r.pick(std::vector<int64_t>{1000000, 4000000, 1 << 30}));
		size_t open0 = get_file_manager().used(); int64_t use0 = get_temp_file_usage();
		int part = (int)r.weighted({40, 40, 20});
		int64_t n = r.chance(10) ? r.below(3) : r.pick(std::vector<int64_t>{0, 1, 10, 60, 200, 500, 900}) + r.below(100);
		Ev("new").num("t", t).num("part", part).num("n", n).emit();
		int sz = (int)r.below(3); bool rev = r.chance(40);
		if (part == 1) sz = 1 + (int)r.below(2);
		if (part < 2) {
			bool m = part == 0;
			int st = (int)r.below(12);
			if (st == 0) { if (sz == 0) T<8, false>::sorter<pointer_store>(r, m, n); else T<1500, true>::sorter<plain_store>(r, m, n); }
			else if (st == 1) { if (sz == 0) T<8, false>::sorter<explicit_tpie_pointer_store>(r, m, n); else T<1500, true>::sorter<explicit_tpie_pointer_store>(r, m, n); }
			else if (st == 2) { if (sz == 0) T<8, true>::sorter<explicit_tpie_unique_pointer_store>(r, m, n); else T<1500, false>::sorter<explicit_tpie_unique_pointer_store>(r, m, n); }
			else if (sz == 0) { if (rev) T<8, true>::sorter(r, m, n); else T<8, false>::sorter(r, m, n); }
			else if (sz == 1) { if (rev) T<1500, true>::sorter(r, m, n); else T<1500, false>::sorter(r, m, n); }
			else { if (rev) T<9000, true>::sorter(r, m, n); else T<9000, false>::sorter(r, m, n); }
		} else {
			int how = (int)r.below(7);
			if (r.chance(30)) get_file_manager().set_limit(open0 + r.range(8, 12));
			switch (sz * 2 + (int)r.below(2)) {
			case 0: T<24, false>::stream<file_stream<Item<24>>>(r, n, how); break;
			case 2: T<9000, false>::stream<file_stream<Item<9000>>>(r, n, how); break;
			case 4: T<1500, false>::stream<file_stream<Item<1500>>>(r, n, how); break;
			case 1: T<24, false>::stream<uncompressed_stream<Item<24>>>(r, n, how); break;
			case 3: T<9000, false>::stream<uncompressed_stream<Item<9000>>>(r, n, how); break;
			default: T<1500, false>::stream<uncompressed_stream<Item<1500>>>(r, n, how); break;
			}
			get_file_manager().set_limit(0);
		}
		Ev("gone").num("files", count_files(a.dir)).num("open", get_file_manager().used() - open0).num("usage", get_temp_file_usage() - use0).emit();
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
