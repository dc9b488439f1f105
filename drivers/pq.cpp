// Conformance driver for the external priority queue (X03).
#include "vd.h"
#include "vsched.h"
#include <tpie/priority_queue.h>
#include <tpie/file_manager.h>
#include <tpie/memory.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;
static const int64_t W = 10000;

template <size_t N> struct Less { bool operator()(const Item<N> & a, const Item<N> & b) const { return dec(a) / W < dec(b) / W; } };
template <size_t N> struct More { bool operator()(const Item<N> & a, const Item<N> & b) const { return dec(a) / W > dec(b) / W; } };

struct Base {
	virtual ~Base() {}
	virtual void push(int64_t v) = 0; virtual int64_t top() = 0; virtual void pop() = 0; virtual int64_t size() = 0; virtual bool empty() = 0;
	virtual std::vector<int64_t> popeq() = 0;
};
// Keys are mirrored for a reversed comparator, so that the specification always sees the least first.
template <size_t N, bool REV> struct Impl : Base {
	typedef typename std::conditional<REV, More<N>, Less<N>>::type C;
	typedef tpie::priority_queue<Item<N>, C> Q;
	std::unique_ptr<Q> q;
	static int64_t flip(int64_t v) { return REV && v >= 0 ? (999 - v / W) * W + v % W : v; }
	void push(int64_t v) override { q->push(enc<N>(flip(v))); }
	int64_t top() override { return flip(dec(q->top())); }
	void pop() override { q->pop(); }
	int64_t size() override { return q->size(); }
	bool empty() override { return q->empty(); }
	struct F { std::vector<int64_t> * v; void operator()(const Item<N> & x) { v->push_back(flip(dec(x))); } };
	std::vector<int64_t> popeq() override { std::vector<int64_t> r; F f{&r}; q->pop_equals(f); return r; }
};

static size_t usable = 0;
template <size_t N, bool REV> Base * make(Rng & r, int mode, float b, int fan) {
	auto * p = new Impl<N, REV>();
	typedef typename Impl<N, REV>::Q Q;
	if (mode == 0) { p->q.reset(new Q(memory_size_type(100000000), b)); return p; }
	if (mode == 1) { p->q.reset(new Q(memory_size_type(100000000), b, stream_size_type(4000))); return p; }   // all in memory
	// the least memory with which it can be built, and a little more
	get_file_manager().set_limit(get_file_manager().used() + fan);
	size_t m = 8000;
	for (; m < 100000000; m += 1 + m / 16) {
		try { p->q.reset(new Q(memory_size_type(m), b)); break; } catch (const std::exception &) {}
	}
	if (mode == 3) { m += r.below(m); p->q.reset(); p->q.reset(new Q(memory_size_type(m), b)); }
	get_file_manager().set_limit(0);
	usable = m;
	return p;
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> * script) {
		size_t bs = (size_t)r.pick(std::vector<int64_t>{4096, 16384, 65536, 2097152});
		set_block_size(bs);
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		get_file_manager().set_enforcement(file_manager::ENFORCE_IGNORE);
		get_memory_manager().set_limit(1 << 30);
		get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE);
		{
		float b = bs <= 16384 ? 1.0 : 0.0625;
		int mode = (int)r.weighted({1, 1, 6, 3}), fan = (int)r.range(4, 7);
		if (bs == 2097152) mode = (int)r.below(2);
		std::unique_ptr<Base> q;
		switch (r.below(6)) {
		case 0: q.reset(make<16, false>(r, mode, b, fan)); break;
		case 1: q.reset(make<64, false>(r, mode, b, fan)); break;
		case 2: q.reset(make<64, true>(r, mode, b, fan)); break;
		case 3: q.reset(make<200, false>(r, mode, b, fan)); break;
		case 4: q.reset(make<500, true>(r, mode, b, fan)); break;
		default: q.reset(make<1000, false>(r, mode, b, fan)); break;
		}
		Ev("new").num("t", t).num("mode", mode).num("fan", fan).num("mem", usable).emit();
		bool full = false; int64_t id = 1, lo = 500, lastTop = 0;
		int64_t maxItems = a.num("items", 2500);
		auto key = [&](const std::string & p, int i, int n) -> int64_t {
			if (p == "low") return r.below(10);
			if (p == "high") return 900 + r.below(100);
			if (p == "same") return lo;
			if (p == "asc") return std::min<int64_t>(999, lastTop + i * 300 / n);
			if (p == "desc") return std::max<int64_t>(0, 999 - i * 999 / n);
			if (p == "near") return std::min<int64_t>(999, lastTop + r.below(4));
			return r.below(1000);
		};
		auto fin = [&](Ev & e, const std::string & x) { e.str("x", x).num("size", q->size()).boolean("empty", q->empty()); e.emit(); };
		auto op = [&](const std::string & o, int n, const std::string & p) {
			std::vector<int64_t> v; std::string x;
			Ev e(o.c_str());
			try {
				if (o == "push") {
					if (id + n >= W) return;
					for (int i = 0; i < n; ++i) { int64_t w = key(p, i, n) * W + id++; v.push_back(w); }
					if (full) return;
					std::vector<int64_t> done;
					e.num("n", n);
					try { for (int64_t w : v) { q->push(w); done.push_back(w); } }
					catch (const std::exception & ex) { full = std::string(ex.what()).find("queue is full") != std::string::npos; if (!full) throw; x = "full"; }
					v = done;
				} else if (o == "pop") {
					e.num("n", n);
					for (int i = 0; i < n; ++i) { int64_t w = q->empty() ? -1 : q->top(); if (r.chance(20) && w >= 0) w = q->top(); q->pop(); v.push_back(w); if (w >= 0) lastTop = w / W; }
				} else if (o == "top") v.push_back(q->top());
				else if (o == "popeq") v = q->popeq();
			} catch (const priority_queue_error &) { x = "empty"; }
			catch (const std::exception & ex) { x = std::string("other ") + ex.what(); }
			e.seq("r", v); fin(e, x);
		};
		static const std::vector<std::string> P{"low", "high", "same", "asc", "desc", "near", "any", "any"};
		int n = (int)r.range(5, (int)a.num("ops", 60));
		// waves: grow, shrink, mixed
		int64_t target = r.pick(std::vector<int64_t>{20, 200, 600, 1200, 2000});
		int phase = 0;
		for (int i = 0; i < n && id < maxItems; ++i) {
			if (r.chance(15)) phase = (int)r.below(3);
			if (r.chance(10)) lo = r.below(1000);
			int batch = (int)r.pick(std::vector<int64_t>{1, 2, 5, 20, 60, 150, 300});
			size_t k = r.weighted(phase == 0 ? std::vector<int>{60, 15, 10, 8} : phase == 1 ? std::vector<int>{15, 60, 10, 12} : std::vector<int>{40, 40, 8, 10});
			if (q->size() > target && k == 0) k = 1;
			if (k == 1 && batch > 100 && r.chance(50)) batch = 40;
			if (k == 0) op("push", batch, r.pick(P));
			else if (k == 1) op("pop", batch, "");
			else if (k == 2) op("top", 0, "");
			else op("popeq", 0, "");
		}
		if (r.chance(70)) { while (!q->empty()) op("pop", 200, ""); op("pop", 1, ""); op("top", 0, ""); if (r.chance(50)) { op("push", 30, "any"); op("pop", 31, ""); } }
		q.reset();
		}
		int left = count_files(a.dir);
		if (left) Ev("leftfiles").num("n", left).emit();
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
