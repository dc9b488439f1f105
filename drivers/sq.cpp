// Conformance driver for the external stack and queue (X04).
#include "vd.h"
#include "vsched.h"
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;

struct Base {
	virtual ~Base() {}
	virtual void push(int64_t v) = 0; virtual int64_t pop() = 0; virtual int64_t peek() = 0; virtual int64_t size() = 0; virtual bool empty() = 0;
	virtual void close() {} virtual void reopen() {} virtual void persist(bool) {}
	virtual std::string path() { return ""; }
};
struct Eos {};
template <size_t N> struct Stack : Base {
	std::string p; double bf; std::unique_ptr<temp_file> tf; std::unique_ptr<tpie::stack<Item<N>>> s;
	Stack(const std::string & path, double b, bool temp) : p(path), bf(b) {
		if (temp) { tf.reset(new temp_file()); p = tf->path(); }
		if (!p.empty()) reopen(); else s.reset(new tpie::stack<Item<N>>(bf));
	}
	void push(int64_t v) override { s->push(enc<N>(v)); }
	int64_t pop() override { return dec(s->pop()); }
	int64_t peek() override { return dec(s->top()); }
	int64_t size() override { return s->size(); }
	bool empty() override { return s->empty(); }
	void close() override { s.reset(); }
	void reopen() override { if (tf) s.reset(new tpie::stack<Item<N>>(*tf, bf)); else s.reset(new tpie::stack<Item<N>>(p, bf)); }
	std::string path() override { return p; }
};
template <size_t N> struct AmiStack : Base {
	std::string p; std::unique_ptr<tpie::ami::stack<Item<N>>> s;
	AmiStack(const std::string & path) : p(path) { if (p.empty()) s.reset(new tpie::ami::stack<Item<N>>()); else reopen(); }
	static void chk(tpie::ami::err e) { if (e == tpie::ami::END_OF_STREAM) throw Eos(); if (e != tpie::ami::NO_ERROR) throw tpie::exception("ami error"); }
	void push(int64_t v) override { chk(s->push(enc<N>(v))); }
	int64_t pop() override { const Item<N> * i; chk(s->pop(&i)); return dec(*i); }
	int64_t peek() override { const Item<N> * i; chk(s->peek(&i)); return dec(*i); }
	int64_t size() override { return s->size(); }
	bool empty() override { return s->is_empty(); }
	void close() override { s.reset(); }
	void reopen() override { s.reset(new tpie::ami::stack<Item<N>>(p)); }
	void persist(bool b) override { s->persist(b ? PERSIST_PERSISTENT : PERSIST_DELETE); }
	std::string path() override { return p; }
};
template <size_t N> struct Queue : Base {
	tpie::queue<Item<N>> q;
	Queue(cache_hint h, compression_flags c) : q(h, c) {}
	void push(int64_t v) override { q.push(enc<N>(v)); }
	int64_t pop() override { return dec(q.pop()); }
	int64_t peek() override { return dec(q.front()); }
	int64_t size() override { return q.size(); }
	bool empty() override { return q.empty(); }
};

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> * script) {
		static const std::vector<int64_t> IS{1, 4, 12, 40};
		int64_t is = r.pick(IS);
		int64_t per = r.range(1, 9);
		set_block_size(is * per + r.below(is));
		double bf = r.pick(std::vector<double>{1.0, 1.0, 2.0, 3.0});
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		vio::st().shortPct = (int)a.num("short", 0); vio::st().rng += trace_seed(a, t) * 2654435761u;
		{
		bool isq = r.chance(40);
		if (script) isq = (*script)[0] == "kind queue";
		int impl = (int)r.below(4);   // stack: anonymous, named, on a temp_file, ami
		bool keep = !isq && (impl == 1 || impl == 2 || impl == 3);
		bool ami = !isq && impl == 3;
		std::string p = impl == 1 || ami ? a.dir + "/stk" : "";
		std::unique_ptr<Base> b;
		auto mk = [&](auto n) {
			constexpr size_t N = decltype(n)::value;
			cache_hint h = r.pick(std::vector<cache_hint>{access_sequential, access_normal});
			compression_flags c = r.pick(std::vector<compression_flags>{compression_none, compression_normal, compression_all});
			if (isq) b.reset(new Queue<N>(h, c)); else if (ami) b.reset(new AmiStack<N>(p)); else b.reset(new Stack<N>(p, bf, impl == 2));
		};
		switch (is) { case 1: mk(std::integral_constant<size_t, 1>()); break; case 4: mk(std::integral_constant<size_t, 4>()); break;
			case 12: mk(std::integral_constant<size_t, 12>()); break; default: mk(std::integral_constant<size_t, 40>()); }
		std::string path = b->path();
		bool opened = true;
		Ev("new").num("t", t).str("kind", isq ? "queue" : "stack").boolean("keep", keep).num("is", is).num("per", per).num("impl", impl).emit();
		int64_t ctr = 0;
		auto op = [&](const std::vector<std::string> & w) {
			const std::string & o = w[0];
			if (o == "kind") return;
			if (o == "reopen" ? opened || path.empty() : !opened) return;
			if (o == "persist" && !ami) return;
			if (o == "close" && path.empty()) return;
			Ev e(o.c_str());
			std::string x; std::vector<int64_t> v;
			int n = w.size() > 1 ? atoi(w[1].c_str()) : 0;
			try {
				if (o == "push") {
					int64_t lim = is == 1 ? 256 : 60000;
					if (ctr + n >= lim) ctr = 0;
					e.num("v", ctr).num("n", n);
					for (int i = 0; i < n; ++i) b->push(ctr++);
				} else if (o == "pop") { e.num("n", n); for (int i = 0; i < n; ++i) v.push_back(b->pop()); }
				else if (o == "peek") v.push_back(b->peek());
				else if (o == "persist") { e.boolean("p", n); b->persist(n); keep = n; }
				else if (o == "close") { b->close(); opened = false; }
				else if (o == "reopen") { b->reopen(); opened = true; if (ami) keep = true; }
			} catch (const end_of_stream_exception &) { x = "eos"; }
			catch (const Eos &) { x = "eos"; }
			catch (const std::exception & ex) { x = std::string("other ") + ex.what(); }
			struct stat st;
			e.str("x", x).seq("r", v).num("size", opened ? b->size() : 0).boolean("empty", opened ? b->empty() : true)
			 .boolean("file", opened || path.empty() ? keep : stat(path.c_str(), &st) == 0);
			e.emit();
		};
		auto N = [](int64_t n) { return std::to_string(n); };
		if (script) { for (auto & l : *script) op(split(l)); }
		else {
			int n = (int)r.range(5, (int)a.num("ops", 80)), phase = 0;
			int maxb = (int)r.pick(std::vector<int64_t>{3, 12, 60});
			for (int i = 0; i < n; ++i) {
				if (r.chance(12)) phase = (int)r.below(3);
				int k = (int)r.range(1, maxb);
				switch (r.weighted(phase == 0 ? std::vector<int>{60, 20, 12, 2, 4} : phase == 1 ? std::vector<int>{20, 60, 12, 2, 4} : std::vector<int>{40, 40, 15, 2, 4})) {
				case 0: if (b->path().empty() || opened) { if (opened && b->size() < 500) op({"push", N(k)}); } break;
				case 1: op({"pop", N(k)}); break;
				case 2: op({"peek"}); break;
				case 3: op({"persist", N(r.below(2))}); break;
				case 4: if (opened) op({"close"}); op({"reopen"}); break;
				}
				if (!opened) op({"reopen"});
			}
			if (opened) op({"pop", "600"});
			if (opened) { op({"pop", "1"}); op({"peek"}); op({"push", "2"}); op({"pop", "3"}); }
		}
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
