// Random compositions of the pipelining operators; what arrives at each sink is recorded with the composition that led to it.
#include "vd.h"
#include <filesystem>
#include <tpie/tpie.h>
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
#include <tpie/file_manager.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/pipelining/helpers.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/map.h>
#include <tpie/pipelining/visit.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/join.h>
#include <tpie/pipelining/split.h>
#include <tpie/pipelining/merge.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/reverse.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/uniq.h>
#include <tpie/pipelining/std_glue.h>
#include <tpie/pipelining/file_stream.h>
#include <tpie/pipelining/numeric.h>
#include <tpie/pipelining/subpipeline.h>
#include <tpie/pipelining/forwarder.h>
using namespace tpie;
using namespace tpie::pipelining;
using vd::Ev; using vd::Rng;
typedef int64_t T;
typedef std::pair<T, T> TT;
static const int64_t M = 1009;

struct Boom : std::runtime_error { int v; Boom(int v) : std::runtime_error("boom"), v(v) {} };

struct World {
	Rng & r;
	std::string dir;
	std::vector<std::shared_ptr<void>> kept;        // inputs, passive objects: outlive the pipeline
	std::vector<pipelining::bits::virtual_chunk_base> parts;   // pipelines that feed passive nodes
	struct Sink { std::string ex; std::function<std::vector<T>()> got; };
	std::vector<Sink> sinks;
	int64_t boom = 0; int boomv = 0; bool thrown = false, byItem = false, fault = false;
	int files = 0, budget = 0, phases = 0;
	World(Rng & r, std::string d) : r(r), dir(d) {}
	template <typename X> X & keep(X * x) { kept.push_back(std::shared_ptr<X>(x)); return *x; }
	void tick(bool item = true) {
		if (thrown) Ev("after").emit();
		if (item == byItem && boom > 0 && --boom == 0) { boomv = (int)r.below(1000); thrown = true; Ev("throw").num("v", boomv).emit(); throw Boom(boomv); }
	}
};
static World * w;

struct Map { T k; T operator()(T x) const { w->tick(); return (x * k + 7) % M; } };
struct Keep { T m, q; bool operator()(T x) const { w->tick(); return x % m != q; } };
struct Lam { typedef T argument_type; T k; T operator()(T x) const { return (x * k + 7) % M; } };
struct ExLam { typedef T argument_type; typedef std::pair<T, bool> result_type; T m, q; result_type operator()(T x) const { return {x, x % m != q}; } };
struct ByKey { T m; bool operator()(T a, T b) const { return a % m != b % m ? a % m < b % m : a < b; } };
struct Comb { T operator()(const TT & p) const { return (p.first * 31 + p.second) % M; } };
struct Cut { TT operator()(T x) const { return TT(x / 7, x % 7); } };
struct Sum { T operator()(const std::vector<T> & v) const { T s = 0; for (T x : v) s = (s * 3 + x) % M; return s; } };

// Does nothing but count down to an exception in every callback.
template <typename dest_t>
struct probe_t : node {
	dest_t dest; typedef T item_type;
	probe_t(dest_t d) : dest(std::move(d)) { add_push_destination(this->dest); }
	void prepare() override { w->tick(false); }
	void propagate() override { w->tick(false); }
	void begin() override { w->tick(false); }
	void push(T x) { w->tick(); dest.push(x); }
	void end() override { w->tick(false); }
};
typedef pipe_middle<factory<probe_t>> probe;
template <typename src_t>
struct pull_probe_t : node {
	src_t src; typedef T item_type;
	pull_probe_t(src_t s) : src(std::move(s)) { add_pull_source(this->src); }
	void propagate() override { w->tick(false); }
	void begin() override { w->tick(false); }
	bool can_pull() { return src.can_pull(); }
	T pull() { w->tick(); return src.pull(); }
	void end() override { w->tick(false); }
};
typedef pullpipe_middle<factory<pull_probe_t>> pull_probe;

template <typename dest_t, typename src_fact_t>
struct drain_t : node {
	typename src_fact_t::constructed_type src; dest_t dest; typedef T item_type;
	drain_t(dest_t d, src_fact_t f) : src(f.construct()), dest(std::move(d)) { add_push_destination(this->dest); add_pull_source(src); }
	void go() override { while (src.can_pull()) { dest.push(src.pull()); } }
};
template <typename fact_t>
pipe_begin<tfactory<drain_t, Args<fact_t>, fact_t>> drain(pullpipe_begin<fact_t> from) { return {std::move(from.factory)}; }
// Pushes to the other destination before its own.
template <typename dest_t, typename fact_t>
struct first_t : node {
	typename fact_t::constructed_type other; dest_t dest; typedef T item_type;
	first_t(dest_t d, fact_t f) : other(f.construct()), dest(std::move(d)) { add_push_destination(this->dest); add_push_destination(other); }
	void push(T x) { other.push(x); dest.push(x); }
};
template <typename fact_t>
pipe_middle<tfactory<first_t, Args<fact_t>, fact_t>> first(pipe_end<fact_t> to) { return {std::move(to.factory)}; }
static std::string S(const char * op) { return "[\"" + std::string(op) + "\"]"; }
static std::string S(const char * op, const std::string & a) { return "[\"" + std::string(op) + "\"," + a + "]"; }
static std::string S(const char * op, const std::string & a, const std::string & b) { return "[\"" + std::string(op) + "\"," + a + "," + b + "]"; }
static std::string S(const char * op, const std::string & a, const std::string & b, const std::string & c) { return "[\"" + std::string(op) + "\"," + a + "," + b + "," + c + "]"; }
static std::string N(T x) { return std::to_string(x); }
static std::string lit(const std::vector<T> & v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + N(v[i]); return S("lit", s + "]"); }

struct Seq { std::string ex; size_t most; bool items; };     // what flows, at most how many, whether the number of items was forwarded
typedef virtual_chunk_begin<T> Begin; typedef virtual_chunk<T> Mid; typedef virtual_chunk_end<T> End;
typedef virtual_chunk_pull_begin<T> PBegin; typedef virtual_chunk_pull<T> PMid;

static std::vector<T> values(size_t atLeast = 0) {
	static const std::vector<size_t> sizes{2, 5, 20, 60, 200, 400};
	size_t n = atLeast + w->r.below(w->r.pick(sizes) + 1);
	T range = w->r.pick(std::vector<T>{1, 3, 40, M});
	std::vector<T> v(n);
	T x = w->r.below(range);
	for (auto & y : v) { if (!w->r.chance(25)) x = w->r.below(range); y = x; }
	return v;
}
static std::vector<T> & keptValues(Seq & s, size_t atLeast = 0) {
	auto & v = w->keep(new std::vector<T>(values(atLeast)));
	s = {lit(v), v.size(), true};
	return v;
}
static file_stream<T> & keptFile(Seq & s, size_t atLeast, bool rewind = true) {
	auto & f = w->keep(new file_stream<T>());
	std::string p = w->dir + "/in" + N(w->files++);
	f.open(p, access_read_write, 0, access_sequential, w->r.chance(50) ? compression_normal : compression_none);
	std::vector<T> v = values(atLeast);
	for (T x : v) f.write(x);
	if (rewind) f.seek(0);
	s = {lit(v), v.size(), true};
	return f;
}
static file_stream<T> & keptOut() {
	auto & f = w->keep(new file_stream<T>());
	f.open(w->dir + "/out" + N(w->files++), access_read_write, 0, access_sequential, w->r.chance(50) ? compression_normal : compression_none);
	return f;
}
static std::vector<T> & sinkVector(const Seq & s) {
	auto & v = w->keep(new std::vector<T>());
	w->sinks.push_back({s.ex, [&v] { return v; }});
	return v;
}
static file_stream<T> & sinkFile(const Seq & s) {
	auto & f = keptOut();
	w->sinks.push_back({s.ex, [&f] { std::vector<T> v; f.seek(0); while (f.can_read()) v.push_back(f.read()); return v; }});
	return f;
}

static stream_options opts() { stream_options o; if (w->r.chance(50)) o |= STREAM_RESET; if (w->r.chance(50)) o |= STREAM_CLOSE; return o; }
static Begin genPush(int depth, Seq & s, size_t atLeast = 0);
// atLeast >= 0: only so many items are certain to be pulled
static PBegin genPull(int depth, Seq & s, long atLeast = -1);
static Mid stage(int depth, Seq & s);

// An end that s flows into; may have stages of its own.
static End genEnd(int depth, Seq s) {
	std::vector<Mid> ms;
	while (depth > 0 && w->budget > 0 && w->r.chance(40)) ms.push_back(stage(depth - 1, s));
	End e;
	switch (w->r.below(8)) {
	case 0: e = output(sinkFile(s)); break;
	case 5: if (w->r.chance(50)) e = chunk_end_if(true, End(output_vector(sinkVector(s)))); else e = chunk_end_if(false, End(map_sink([](T) { Ev("after").emit(); }))); break;
	case 1: { auto & v = w->keep(new std::vector<T>(s.most + 1, 0)); auto & n = w->keep(new size_t(0));
		w->sinks.push_back({s.ex, [&v, &n] { return std::vector<T>(v.begin(), v.begin() + n); }});
		e = map_sink([&v, &n](T x) { v.at(n++) = x; }); break; }
	case 2: { auto & v = sinkVector(s); e = typed_push_output_iterator<T>(std::back_inserter(v)); break; }
	case 3: { auto & v = sinkVector(s); e = map_sink([&v](T x) { w->tick(); v.push_back(x); }); break; }
	case 4: { std::string p = w->dir + "/named" + N(w->files++);
		w->sinks.push_back({s.ex, [p] { std::vector<T> v; file_stream<T> f; f.open(p, access_read); while (f.can_read()) v.push_back(f.read()); return v; }});
		e = named_output<T>(p); break; }
	default: e = output_vector(sinkVector(s));
	}
	while (!ms.empty()) { e = End(ms.back() | e); ms.pop_back(); }
	return e;
}

template <typename P> static std::pair<End, PBegin> passiveParts(P * p) {
	P & q = w->keep(p);
	std::pair<End, PBegin> res;
	if (getenv("OPDBG")) fprintf(stderr, "passive %s\n", typeid(P).name());
	res.first = q.input();
	res.second = q.output();
	++w->phases;
	return res;
}
struct Less { bool operator()(T a, T b) const { return a < b; } };
// Something passive: items go in at one end and can be pulled at the other.
static std::pair<End, PBegin> passive(Seq & s) {
	switch (w->r.below(9)) {
	case 0: s.ex = S("sort", s.ex); return passiveParts(new passive_sorter<T>());
	case 1: { T m = w->r.range(1, 9); s.ex = S("ksort", s.ex, N(m)); return passiveParts(new passive_sorter<T, ByKey>(ByKey{m})); }
	case 2: s.ex = S("sort", s.ex); return passiveParts(new serialization_passive_sorter<T>());
	case 3: return passiveParts(new passive_buffer<T>());
	case 4: s.ex = S("rev", s.ex); return passiveParts(new passive_reverser<T>());
	case 5: s.ex = S("rev", s.ex); return passiveParts(new internal_passive_reverser<T>());
	case 6: s.ex = S("rev", s.ex); return passiveParts(new passive_serialization_reverser<T>());
	case 7: return passiveParts(new passive_serialization_buffer<T>());
	default: { s.ex = S("sort", s.ex); return passiveParts(new passive_sorter<T, std::less<T>, pointer_store>()); }
	}
}

static PMid pullStage(Seq & s) {
	--w->budget;
	int kind = (int)w->r.below(8);
	if (getenv("OPDBG")) fprintf(stderr, "pullstage %d\n", kind);
	switch (kind) {
	case 0: { T k = w->r.range(1, 20); s.ex = S("map", s.ex, N(k)); return pull_map(Map{k}); }
	case 1: s.ex = S("uniq", s.ex); return pull_unique([](T a, T b) { return a == b; });
	case 2: return pull_peek();
	case 3: { auto & v = sinkVector(s); return pull_fork(output_vector(v)); }
	case 4: return pull_tee(sinkFile(s));
	case 5: { T k = w->r.range(1, 20); s.ex = S("map", s.ex, N(k)); PMid m(pull_map(Map{k})); return pull_peek() | devirtualize(m); }
	case 6: { T k = w->r.range(1, 20); s.ex = S("uniq", S("map", s.ex, N(k))); PMid m(pull_map(Map{k})); PMid q(pull_unique([](T a, T b) { return a == b; })); return m | q; }
	default: return pull_probe();
	}
}

static PBegin genPull(int depth, Seq & s, long whole) {
	bool all = whole < 0;
	size_t atLeast = all ? 0 : whole;
	PBegin b;
	--w->budget;
	bool simple = depth <= 0 || w->budget <= 0 || atLeast;
	switch (w->r.below(simple ? 6 : 12)) {
	case 0: b = pull_input_vector(keptValues(s, atLeast)); break;
	case 1: { auto & v = keptValues(s, atLeast); b = pull_input_iterator(v.begin(), v.end()); s.items = false; break; }
	case 2: b = pull_input(keptFile(s, atLeast), opts()); break;
	case 3: { b = pull_reverse_input(keptFile(s, atLeast, false), opts()); s.ex = S("rev", s.ex); break; }
	case 4: { std::string p = w->dir + "/in" + N(w->files++); std::vector<T> v = values(atLeast);
		{ file_stream<T> f; f.open(p); for (T x : v) f.write(x); }
		s = {lit(v), v.size(), true}; b = named_pull_input<T>(p); break; }
	case 5: if (!atLeast) { s = {lit({}), 0, true}; b = zero_source<T>(); } else b = pull_input_vector(keptValues(s, atLeast)); break;
	default: {
		Begin from = genPush(depth - 1, s);
		auto p = passive(s);
		w->parts.push_back(from | p.first);
		s.items = true;
		b = p.second; }
	}
	if (all) while (w->budget > 0 && w->r.chance(35)) b = b | pullStage(s);
	return b;
}

static Begin genPush(int depth, Seq & s, size_t atLeast) {
	Begin b;
	--w->budget;
	switch (w->r.below(8)) {
	case 0: { auto & v = keptValues(s); b = push_input_iterator(v.begin(), v.end()); s.items = false; break; }
	case 1: { T a = (T)w->r.below(20), c = w->r.range(1, 5), z = (T)w->r.below(100); b = range(a, z, c); s = {S("range", N(a), N(z), N(c)), 100, true}; break; }
	case 2: b = input(keptFile(s, atLeast), opts()); break;
	case 3: { std::string p = w->dir + "/in" + N(w->files++); std::vector<T> v = values();
		{ file_stream<T> f; f.open(p); for (T x : v) f.write(x); }
		s = {lit(v), v.size(), true}; b = named_input(p); break; }
	case 4: case 5: {
		PBegin p = genPull(depth - 1, s);
		if (getenv("OPDBG")) fprintf(stderr, "pull %s %d\n", s.ex.c_str(), s.items);
		if (s.items) { b = pull_source(devirtualize(p)); break; }
		// the number of items is not known here
		b = drain(devirtualize(p)); break; }
	default: b = input_vector(keptValues(s));
	}
	while (w->budget > 0 && w->r.chance(depth > 0 ? 75 : 40)) b = b | stage(depth - 1, s);
	return b;
}

typedef virtual_chunk_pull_end<T> PEnd;
static PEnd genPullEnd(Seq & s) {
	switch (w->r.below(3)) {
	case 0: return pull_output(sinkFile(s));
	case 1: { auto & v = sinkVector(s); return pull_output_iterator(std::back_inserter(v)); }
	default: { PEnd e(pull_output(sinkFile(s))); PMid m{pull_probe()}; return m | e; }
	}
}
// A pipeline of its own for every n items; what it computes is described relative to ["in"].
struct Inner { std::vector<std::pair<int, T>> ops; };
static Inner genInner(std::string & ex) {
	Inner in;
	ex = S("in");
	for (int i = 0, n = (int)w->r.range(0, 3); i < n; ++i) {
		int o = (int)w->r.below(8); T k = w->r.range(1, 9);
		in.ops.push_back({o, k});
		switch (o) {
		case 0: ex = S("map", ex, N(k)); break;
		case 1: ex = S("filter", ex, N(k), "0"); break;
		case 2: ex = S("uniq", ex); break;
		case 3: ex = S("sort", ex); break;
		case 4: ex = S("rev", ex); break;
		case 5: ex = S("ksort", ex, N(k)); break;
		case 6: break;
		default: ex = S("sort", ex); break;
		}
	}
	return in;
}
static End innerEnd(const Inner & in, End e) {
	for (size_t i = in.ops.size(); i--;) {
		T k = in.ops[i].second; Mid m;
		switch (in.ops[i].first) {
		case 0: m = map(Map{k}); break;
		case 1: m = filter(Keep{k, 0}); break;
		case 2: m = pipeuniq(); break;
		case 3: m = sort(); break;
		case 4: m = reverser(); break;
		case 5: m = sort(ByKey{k}); break;
		case 6: m = buffer(); break;
		default: m = serialization_sort(); break;
		}
		e = m | e;
	}
	return e;
}
template <typename dest_t>
struct sub_t : node {
	dest_t dest; typedef T item_type;
	Inner in; size_t n, c = 0; bool direct; subpipeline<T> sp;
	struct out_t : node { dest_t & d; typedef T item_type; out_t(dest_t & d) : d(d) {} void push(T x) { d.push(x); } };
	sub_t(dest_t d, Inner in, size_t n, bool direct) : dest(std::move(d)), in(in), n(n), direct(direct) { add_push_destination(dest); set_memory_fraction(2); }
	void push(T x) {
		if (!c) {
			if (direct) sp = sort() | pipe_end<termfactory<out_t, dest_t &>>(dest);
			else sp = innerEnd(in, End(pipe_end<termfactory<out_t, dest_t &>>(dest)));
			sp.begin(std::max<size_t>(get_available_memory(), 20000000));
		}
		sp.push(x);
		if (++c == n) { sp.end(); c = 0; }
	}
	void end() override { if (c) sp.end(); }
};
typedef pipe_middle<factory<sub_t, Inner, size_t, bool>> sub;

// A stage: what comes out of it is described by s afterwards.
static Mid stage(int depth, Seq & s) {
	--w->budget;
	auto split2 = [&](std::pair<End, PBegin> p) { ++w->phases; s.items = true; return Mid(p.first, Begin(pull_source(devirtualize(p.second)))); };
	switch (w->fault && w->r.chance(30) ? w->r.range(32, 33) : w->r.below(46)) {
	case 0: { T k = w->r.range(1, 20); s.ex = S("map", s.ex, N(k)); return map(Map{k}); }
	case 1: { T m = w->r.range(1, 6), q = (T)w->r.below(6); s.ex = S("filter", s.ex, N(m), N(q)); return filter(Keep{m, q}); }
	case 2: { T m = w->r.range(1, 6), q = (T)w->r.below(6); s.ex = S("filter", s.ex, N(m), N(q)); return exclude_lambda(ExLam{m, q}); }
	case 3: { T k = w->r.range(1, 20); s.ex = S("map", s.ex, N(k)); return lambda(Lam{k}); }
	case 4: { T f = w->r.range(1, 9), a = (T)w->r.below(50); s.ex = S("map", S("lin", s.ex, N(f), N(a)), "1"); return linear<T>(f, a) | map(Map{1}); }
	case 5: s.ex = S("uniq", s.ex); return unique([](T a, T b) { return a == b; });
	case 6: s.ex = S("uniq", s.ex); return pipeuniq();
	case 7: s.ex = S("sort", s.ex); s.items = true; return sort();
	case 8: s.ex = S("rsort", s.ex); s.items = true; return sort(std::greater<T>());
	case 9: { T m = w->r.range(1, 9); s.ex = S("ksort", s.ex, N(m)); s.items = true; return sort(ByKey{m}); }
	case 10: s.ex = S("sort", s.ex); s.items = true; return serialization_sort();
	case 11: { T m = w->r.range(1, 9); s.ex = S("ksort", s.ex, N(m)); s.items = true; return store_sort<pointer_store>(ByKey{m}) | preparer([](node &) { w->tick(false); }); }
	case 12: s.ex = S("rev", s.ex); s.items = true; return reverser();
	case 13: s.ex = S("rev", s.ex); s.items = true; return internal_reverser();
	case 14: s.ex = S("rev", s.ex); s.items = true; return serialization_reverser();
	case 15: s.items = true; return buffer();
	case 16: s.items = true; return serialization_buffer();
	case 17: { T n = w->r.range(1, 12); s.ex = S("chunks", s.ex, N(n)); return chunker((size_t)n) | map(Sum()); }
	case 18: return fork(devirtualize(genEnd(depth, s)));
	case 19: return vfork(genEnd(depth, s));
	case 20: return tee(sinkFile(s));
	case 21: { auto & c = w->keep(new std::vector<T>()); w->sinks.push_back({s.ex, [&c] { return c; }}); return visit([&c](T x) { c.push_back(x); }); }
	case 22: { Seq q; auto p = genPull(depth, q, s.most); s.ex = S("merge", s.ex, q.ex); s.most *= 2; return merge(devirtualize(p)); }
	case 23: { Seq q; auto p = genPull(depth, q); s.ex = S("omerge", s.ex, q.ex); s.most += q.most; return ordered_merge(std::move((devirtualize(p) | pull_peek()).factory)); }
	case 24: { Seq q; auto p = genPull(depth, q, s.most); s.ex = S("zip", s.ex, q.ex); return zip(devirtualize(p)) | map(Comb()); }
	case 25: { Seq q = s; q.ex = S("snd", q.ex); s.ex = S("fst", s.ex); return map(Cut()) | unzip(devirtualize(genEnd(depth, q))); }
	case 26: { auto & j = w->keep(new tpie::pipelining::join<T>()); T k = w->r.range(1, 20), l = w->r.range(1, 20);
		s.ex = S("join", s.ex, N(k), N(l)); s.most *= 2;
		End a(map(Map{k}) | fork(map(Map{l}) | j.sink()) | j.sink());
		return Mid(a, Begin(j.source())); }
	case 27: { auto & p = w->keep(new tpie::pipelining::split<T>());
		End a(p.sink()); Begin b(p.source()); Begin c(p.source());
		End d = genEnd(depth, s); w->parts.push_back(c | d);
		return Mid(a, b); }
	case 28: case 29: case 30: return split2(passive(s));
	case 31: { auto & q = w->keep(new internal_passive_buffer<T>(s.most + 1)); T k = w->r.range(1, 20);   // each item comes back next to its image
		s.ex = S("both", s.ex, N(k)); s.most *= 2;
		return first(q.input()) | map(Map{k}) | merge(q.output()); }
	case 32: return probe();
	case 33: return preparer([](node &) { w->tick(false); }) | propagater([](node &) { w->tick(false); });
	case 34: { T k = w->r.range(1, 20); s.ex = S("rev", S("sort", S("uniq", S("map", s.ex, N(k))))); s.items = true; return map(Map{k}) | pipeuniq() | sort() | reverser(); }
	case 35: { T m = w->r.range(1, 6); s.ex = S("uniq", S("filter", S("sort", s.ex), N(m), "0")); s.items = true; auto p = sort() | filter(Keep{m, 0}) | pipeuniq(); return p; }
	case 36: { T k = w->r.range(1, 20); s.items = true; std::string a = s.ex; s.ex = S("map", S("rev", s.ex), N(k)); Mid m1{reverser()}, m2{map(Map{k})}; return m1 | m2; }
	case 37: { T k = w->r.range(1, 20); s.ex = S("map", S("rev", s.ex), N(k)); s.items = true; Mid m(map(Map{k})); return reverser() | devirtualize(m); }
	case 38: return chunk_if(w->r.chance(50), Mid(probe())) | Mid(probe());
	case 39: case 40: { std::string ex; bool direct = w->r.chance(20); size_t n = (size_t)w->r.range(1, 30); Inner in = genInner(ex); if (direct) ex = S("sort", S("in"));
		s.ex = S("sub", s.ex, N((T)n), ex); s.items = false; return sub(in, n, direct); }
	case 41: return fork_to_virtual(genEnd(depth, s));
	case 42: return vfork(End());
	case 43: return forwarder("x" + N(w->files++), w->r.range(1, 9));
	case 44: { std::vector<std::pair<std::string, any_noncopyable>> v; v.emplace_back("x", any_noncopyable(std::unique_ptr<T>(new T(1)))); v.emplace_back("y", any_noncopyable(T(2))); return forwarder(std::move(v)); }
	default: return item_type<T>();
	}
}

static int64_t listing(const std::string & d) { int64_t n = 0; for (auto & e : std::filesystem::recursive_directory_iterator(d)) { n += e.is_regular_file(); } return n; }

int main(int argc, char ** argv) {
	vd::Args a = vd::parse(argc, argv);
	bool fault = a.mode == "fault";
	a.dir = std::filesystem::absolute(a.dir).string();
	return vd::run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		std::string dir = a.dir + "/o" + N(t), tmp = dir + "/tmp";
		std::filesystem::create_directories(tmp);
		set_block_size(r.pick(std::vector<size_t>{4096, 16384}));
		tempname::set_default_path(tmp);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE);
		int rounds = fault ? 2 : 1;
		Ev("new").num("t", t).emit();
		for (int i = 0; i < rounds; ++i) {
			auto mem0 = get_memory_manager().used(); auto files0 = get_file_manager().used(); auto tmp0 = get_temp_file_usage(); auto list0 = listing(tmp);
			get_memory_manager().set_limit(mem0 + r.pick(std::vector<size_t>{500000, 3000000, 60000000, 1000000000}));
			Ev("build").emit();
			{
				World ww(r, dir); w = &ww;
				ww.files = 1000 * i;
				ww.budget = (int)r.range(2, r.chance(30) ? 25 : 9);
				ww.fault = fault && i == 0;
				Seq s;
				bool done = false;
				try {
					bool pulls = r.chance(25);
					pipelining::bits::virtual_chunk_base base; std::unique_ptr<pipelining::pipeline> direct;
					if (pulls) { PBegin b = genPull(3, s); PEnd e = genPullEnd(s); if (r.chance(50)) base = b | e; else { direct.reset(new pipelining::pipeline(devirtualize(b) | devirtualize(e))); } }
					else { Begin b = genPush(3, s); base = b | genEnd(2, s); }
					if (fault && i == 0) { ww.byItem = r.chance(50); ww.boom = ww.byItem && r.chance(60) ? r.range(1, 600) : r.range(1, 25); }
					if (!direct) direct.reset(new pipelining::pipeline(base));
					pipelining::pipeline & p = *direct;
					if (r.chance(30)) { progress_indicator_null pi; p(r.below(1000), pi, "f", "g"); } else p();
					done = true;
					Ev("done").emit();
				} catch (const Boom & e) { Ev("caught").num("v", e.v).emit(); }
				catch (const std::exception & e) { Ev("exception").str("what", e.what()).emit(); }
				ww.boom = 0;
				if (done) for (auto & k : ww.sinks) Ev("sink").raw("ex", k.ex).seq("got", k.got()).emit();
				ww.parts.clear();
				ww.sinks.clear();
				ww.kept.clear();
			}
			Ev("left").num("mem", (int64_t)get_memory_manager().used() - (int64_t)mem0).num("files", (int64_t)get_file_manager().used() - (int64_t)files0)
				.num("tmp", (int64_t)get_temp_file_usage() - (int64_t)tmp0).num("list", listing(tmp) - list0).emit();
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
		std::filesystem::remove_all(dir);
	});
}
