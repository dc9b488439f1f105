// Conformance driver for budgets (R05): components that are given memory and open files, run under limits that are enforced.
#include "vd.h"
#include "vsched.h"
#include <tpie/sort.h>
#include <tpie/serialization2.h>
#include <tpie/serialization_sorter.h>
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/pipelining.h>
#include <tpie/priority_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/array.h>
#include <tpie/bit_array.h>
#include <tpie/packed_array.h>
#include <tpie/disjoint_sets.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/serialization_stream.h>
#include <tpie/file_manager.h>
#include <tpie/memory.h>
#include <tpie/tempname.h>
#include <tpie/dummy_progress.h>
#include <tpie/progress_indicator_null.h>
using namespace vd;
using namespace tpie;

template <size_t N> struct Less { bool operator()(const Item<N> & a, const Item<N> & b) const { return dec(a) < dec(b); } };
struct Obj { int64_t v = 0; std::string s; };
template <typename D> void serialize(D & d, const Obj & o) { using tpie::serialize; serialize(d, o.v); serialize(d, o.s); }
template <typename D> void unserialize(D & d, Obj & o) { using tpie::unserialize; unserialize(d, o.v); unserialize(d, o.s); }
struct ObjLess { bool operator()(const Obj & a, const Obj & b) const { return a.v < b.v; } };

static size_t mem0, files0, bs;
static memory_manager & mm() { return get_memory_manager(); }
static file_manager & fm() { return get_file_manager(); }
static size_t a_min(int, size_t n) { return 400000 + 64 * n + 10 * bs; }
static void unlimited() { mm().set_enforcement(memory_manager::ENFORCE_IGNORE); fm().set_enforcement(file_manager::ENFORCE_IGNORE); mm().set_limit(1 << 30); fm().set_limit(500); }
// From here on no more than this may be in use.
static void limits(size_t m, size_t f) {
	mm().set_limit(mem0 + m); fm().set_limit(files0 + f);
	mm().set_enforcement(memory_manager::ENFORCE_THROW); fm().set_enforcement(file_manager::ENFORCE_THROW);
}
struct Phase {
	const char * name; size_t m, f, hm = 0, hf = 0; size_t slack;
	static const char * & cur() { static const char * c = ""; return c; }
	Phase(const char * n, size_t m_, size_t f_, size_t slack_) : name(n), m(m_), f(f_), slack(slack_) { cur() = n; see(); limits(std::max(m, hm) + slack, std::max(f, hf)); }
	void see() { hm = std::max(hm, mm().used() - mem0); hf = std::max(hf, fm().used() - files0); }
	void out(int64_t n) { see(); Ev("phase").str("p", name).num("m", m).num("f", f).num("mem", hm).num("files", hf).num("slack", slack).num("n", n).emit(); }
};

template <size_t N> void msort(Rng & r, size_t slack) {
	typedef merge_sorter<Item<N>, false, Less<N>> S;
	std::unique_ptr<S> s(new S());
	size_t lo[3] = {s->minimum_memory_phase_1() + std::max<size_t>(128 * 1024, 16 * N), s->minimum_memory_phase_2(), s->minimum_memory_phase_3()}, m[3], f[3];
	for (int i = 0; i < 3; ++i) { m[i] = lo[i] + (r.chance(30) ? 0 : r.chance(60) ? r.below(10 * bs) : r.below(100 * bs)); f[i] = i == 0 ? r.range(3, 6) : r.range(5, 14); }
	int64_t run = (m[0] - s->minimum_memory_phase_1()) / N;
	int64_t n = r.chance(20) ? r.below(10) : r.chance(50) ? run * r.range(1, 12) + r.below(3) - 1 : r.below(run * 20 + 1);
	n = std::min<int64_t>(n, 60000);
	s->set_available_memory(m[0], m[1], m[2]); s->set_available_files(f[0], f[1], f[2]);
	Ev("sorter").num("item", N).seq("m", std::vector<int64_t>{(int64_t)m[0], (int64_t)m[1], (int64_t)m[2]}).num("n", n).emit();
	int e = (int)r.below(5), give = r.chance(10) ? (int)r.range(1, 3) : 0;
	Phase a("form", m[0], f[0], slack);
	s->begin(); a.see();
	for (int64_t i = 0; i < n; ++i) { s->push(enc<N>((i * 7919) % 65521)); if (i % 64 == 0) a.see(); }
	if (give == 1) { a.out(n); return; }
	s->end();
	if (e == 1 || e == 3) s->evacuate();
	a.out(n);
	if (give == 2) return;
	Phase b("merge", m[1], f[1], slack);
	if (e == 4) s->evacuate_before_merging();
	dummy_progress_indicator pi; s->calc(pi);
	if (e == 2 || e == 3) s->evacuate();
	b.out(n);
	if (give == 3) return;
	Phase c("report", m[2], f[2], slack);
	int64_t k = 0;
	while (s->can_pull()) { s->pull(); if (k++ % 64 == 0) c.see(); }
	c.out(k);
}

void sersort(Rng & r, size_t slack) {
	size_t wr = serialization_writer::memory_usage(), rd = serialization_reader::memory_usage();
	typedef serialization_sorter<Obj, ObjLess> S;
	size_t big = r.pick(std::vector<int64_t>{0, 20, 200, 1000});
	std::unique_ptr<S> s(new S(16));
	size_t m[3], f[3];
	m[0] = 2 * wr + 3000 + r.below(r.chance(50) ? 10000 : 200000);
	for (int i = 1; i < 3; ++i) m[i] = wr + r.range(2, 9) * (rd + big + 200) + r.below(rd);
	f[0] = 1 + r.below(3); f[1] = r.range(3, 9); f[2] = r.range(3, 9);
	int64_t n = r.range(0, 1500);
	s->set_available_memory(m[0], m[1], m[2]); s->set_available_files(f[0], f[1], f[2]);
	Ev("sorter").num("item", big).seq("m", std::vector<int64_t>{(int64_t)m[0], (int64_t)m[1], (int64_t)m[2]}).num("n", n).emit();
	int e = (int)r.below(5);
	Phase a("form", m[0], f[0], slack);
	s->begin(); a.see();
	Rng q(r.next());
	for (int64_t i = 0; i < n; ++i) { Obj o; o.v = (i * 7919) % 65521; o.s = std::string(q.below(big + 1), 'x'); s->push(o); a.see(); }
	s->end();
	if (e == 1 || e == 3) s->evacuate();
	a.out(n);
	Phase b("merge", m[1], f[1], slack);
	s->merge_runs();
	if (e == 2 || e == 3) s->evacuate();
	b.out(n);
	Phase c("report", m[2], f[2], slack);
	int64_t k = 0;
	while (s->can_pull()) { s->pull(); ++k; c.see(); }
	c.out(k);
}

template <size_t N> void pq(Rng & r, size_t slack) {
	typedef priority_queue<Item<N>, Less<N>> Q;
	float bf = 1;
	size_t fan = r.range(4, 12);
	fm().set_limit(files0 + fan);
	size_t m = 8000;
	std::unique_ptr<Q> q;
	for (; m < 100000000; m += 1 + m / 16) { try { q.reset(new Q(memory_size_type(m), bf)); break; } catch (const std::exception &) {} }
	q.reset();
	if (r.chance(60)) m += r.below(r.chance(50) ? 10 * bs : 60 * bs);
	int64_t n = r.range(0, 4000);
	Ev("sorter").num("item", N).seq("m", std::vector<int64_t>{(int64_t)m}).num("n", n).emit();
	Phase a("queue", m, fan, slack);
	q.reset(new Q(memory_size_type(m), bf)); a.see();
	bool full = false;
	for (int64_t i = 0; i < n && !full; ++i) {
		if (q->empty() || r.chance(i < n / 2 ? 80 : 40)) {
			try { q->push(enc<N>(r.below(60000))); }
			catch (const priority_queue_error & e) { full = std::string(e.what()).find("queue is full") != std::string::npos; if (!full) throw; }
			catch (const out_of_resource_error &) { throw; }
			catch (const tpie::exception & e) { full = std::string(e.what()).find("queue is full") != std::string::npos; if (!full) throw; }
		} else q->pop();
		a.see();
	}
	while (!full && !q->empty()) { q->pop(); a.see(); }
	a.out(n);
}

// tpie::sort of a stream into itself or another one, with nothing but the limit to go by.
template <size_t N> void whole(Rng & r, size_t slack) {
	typedef Item<N> T;
	int64_t n = r.chance(10) ? r.below(3) : r.below(N > 100 ? 4000 : 60000);
	bool two = r.chance(50);
	file_stream<T> in, out;
	in.open(); if (two) out.open();
	for (int64_t i = 0; i < n; ++i) in.write(enc<N>((i * 7919) % 65521));
	size_t used = mm().used() - mem0;
	size_t m = used + merge_sorter<T, false, Less<N>>().minimum_memory_phase_1() + 256 * 1024 + 64 * N + r.below(100 * bs), f = fm().used() - files0 + r.range(6, 14);
	Ev("sorter").num("item", N).seq("m", std::vector<int64_t>{(int64_t)m}).num("n", n).emit();
	// The sort takes what is available, so nothing can be set aside for the slack: look instead of enforcing.
	Phase a("sort", m, f, slack);
	mm().set_enforcement(memory_manager::ENFORCE_IGNORE); mm().set_limit(mem0 + m);
	struct Cmp { Phase * a; int * k; bool operator()(const T & x, const T & y) const { if (++*k % 16 == 0) a->see(); return dec(x) < dec(y); } };
	int k = 0;
	bits::generic_sort<file_stream<T>, T>(in, two ? out : in, Cmp{&a, &k}, nullptr);
	a.out(n);
}

// A pipeline that is given memory and files.
template <size_t N> void pipes(Rng & r, size_t slack) {
	typedef Item<N> T;
	namespace P = pipelining;
	int64_t n = r.chance(10) ? r.below(3) : r.below(N > 100 ? 4000 : 60000);
	file_stream<T> in, out;
	in.open(); out.open();
	for (int64_t i = 0; i < n; ++i) in.write(enc<N>((i * 7919) % 65521));
	in.seek(0);
	int kind = (int)r.below(6);
	Less<N> lt;
	std::unique_ptr<P::pipeline> p;
	switch (kind) {
	case 0: p.reset(new P::pipeline(P::input(in) | P::sort(lt) | P::output(out))); break;
	case 1: p.reset(new P::pipeline(P::input(in) | P::buffer() | P::output(out))); break;
	case 2: p.reset(new P::pipeline(P::input(in) | P::reverser() | P::output(out))); break;
	case 3: p.reset(new P::pipeline(P::input(in) | P::sort(lt) | P::buffer() | P::sort(lt) | P::output(out))); break;
	case 4: p.reset(new P::pipeline(P::input(in) | P::sort(lt) | P::reverser() | P::output(out))); break;
	default: p.reset(new P::pipeline(P::input(in) | P::sort(lt) | P::sort(lt) | P::sort(lt) | P::output(out))); break;
	}
	size_t used = mm().used() - mem0, uf = fm().used() - files0;
	size_t m = a_min(kind, N) + r.below(r.chance(50) ? 30 * bs : 200 * bs), f = r.range(14, 40);
	Ev("sorter").num("item", N).seq("m", std::vector<int64_t>{(int64_t)m, kind}).num("n", n).emit();
	Phase a("pipe", used + m, uf + f, slack);
	progress_indicator_null pi;
	(*p)(n, pi, f, m, "f", "g");
	a.out(n);
	p.reset();
}

// What an object says it needs for n elements, and what making one allocates besides the object itself.
template <typename F> void says(const char * what, int64_t n, size_t claim, size_t own, F make) {
	unlimited();
	size_t b = mm().used();
	auto p = make();
	size_t u = mm().used() - b;
	Ev("says").str("c", what).num("n", n).num("claim", claim).num("own", own).num("used", u).emit();
}
template <typename S> S * fill(int64_t n) { S * s = new S(); s->open(); for (int64_t i = 0; i < n; ++i) s->write(typename S::item_type()); s->seek(0); while (s->can_read()) s->read(); return s; }
template <typename S> S * pushed(int64_t n) { S * s = new S(); for (int64_t i = 0; i < n; ++i) s->push({}); return s; }
struct Writer { temp_file f; serialization_writer w; };
Writer * wrote(int64_t n) { auto * s = new Writer(); s->w.open(s->f); for (int64_t i = 0; i < n; ++i) s->w.serialize(i); return s; }
serialization_reader * readr(temp_file & f, int64_t n) { auto * s = new serialization_reader(); s->open(f); int64_t x; for (int64_t i = 0; i < n / 2; ++i) s->unserialize(x); return s; }
template <size_t N> void claims(Rng & r) {
	typedef Item<N> T;
	int64_t n = r.chance(20) ? r.below(3) : r.below(3000);
#define SAYS(NAME, TYPE, CLAIM, MAKE) says(NAME, n, CLAIM, sizeof(TYPE), [&]() { return std::unique_ptr<TYPE>(MAKE); })
	switch (r.below(15)) {
	case 9: { typedef file_stream<T> S; SAYS("stream", S, S::memory_usage(), fill<S>(n)); break; }
	case 10: { typedef uncompressed_stream<T> S; SAYS("ustream", S, S::memory_usage(), fill<S>(n)); break; }
	case 11: { typedef stack<T> S; SAYS("estack", S, S::memory_usage(), pushed<S>(n)); break; }
	case 12: { typedef queue<T> S; SAYS("equeue", S, S::memory_usage(), pushed<S>(n)); break; }
	case 13: { typedef Writer S; SAYS("writer", S, serialization_writer::memory_usage() + sizeof(S), wrote(n)); break; }
	case 14: { typedef serialization_reader S; temp_file f; { serialization_writer w; w.open(f); for (int64_t i = 0; i < n; ++i) w.serialize(i); w.close(); }
		SAYS("reader", S, S::memory_usage() + sizeof(S), readr(f, n)); break; }
	case 0: SAYS("array", array<T>, array<T>::memory_usage(n), new array<T>(n)); break;
	case 1: SAYS("stack", internal_stack<T>, internal_stack<T>::memory_usage(n), new internal_stack<T>(n)); break;
	case 2: SAYS("vector", internal_vector<T>, internal_vector<T>::memory_usage(n), new internal_vector<T>(n)); break;
	case 3: SAYS("queue", internal_queue<T>, internal_queue<T>::memory_usage(n), new internal_queue<T>(n)); break;
	case 4: { typedef internal_priority_queue<T, Less<N>> P; SAYS("pq", P, P::memory_usage(n), new P(n)); break; }
	case 5: SAYS("bits", bit_array, bit_array::memory_usage(n), new bit_array(n)); break;
	case 6: { typedef packed_array<int, 2> P; SAYS("packed", P, P::memory_usage(n), new P(n)); break; }
	case 7: SAYS("dsu", disjoint_sets<>, disjoint_sets<>::memory_usage(n), new disjoint_sets<>(n)); break;
	case 8: SAYS("array bool", array<bool>, array<bool>::memory_usage(n), new array<bool>(n)); break;
	}
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		bs = (size_t)r.pick(std::vector<int64_t>{4096, 16384});
		set_block_size(bs);
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		unlimited();
		mem0 = mm().used(); files0 = fm().used();
		size_t slack = (size_t)(a.num("slack", 1) * bs) + bs / 5 + 8192;
		Ev("new").num("t", t).num("bs", bs).emit();
		try {
			switch (a.mode == "ms" ? 0 : a.mode == "ser" ? 1 : a.mode == "pq" ? 2 : a.mode == "says" ? 3 : a.mode == "sort" ? 4 : a.mode == "pipe" ? 5 : (int)r.below(6)) {
			case 0: switch (r.below(3)) { case 0: msort<8>(r, slack); break; case 1: msort<64>(r, slack); break; default: msort<1500>(r, slack); } break;
			case 1: sersort(r, slack); break;
			case 2: switch (r.below(3)) { case 0: pq<16>(r, slack); break; case 1: pq<64>(r, slack); break; default: pq<500>(r, slack); } break;
			case 4: switch (r.below(3)) { case 0: whole<8>(r, slack); break; case 1: whole<64>(r, slack); break; default: whole<1500>(r, slack); } break;
			case 5: switch (r.below(3)) { case 0: pipes<8>(r, slack); break; case 1: pipes<64>(r, slack); break; default: pipes<1500>(r, slack); } break;
			case 3: switch (r.below(3)) { case 0: claims<1>(r); break; case 1: claims<8>(r); break; default: claims<24>(r); } break;
			}
		} catch (const out_of_resource_error & e) { unlimited(); Ev("over").str("p", Phase::cur()).str("what", e.what()).emit(); }
		catch (const std::exception & e) { unlimited(); Ev("exc").str("what", e.what()).emit(); }
		unlimited();
		Ev("gone").num("mem", mm().used() - mem0).num("files", fm().used() - files0).emit();
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
