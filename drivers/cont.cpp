// Conformance driver for the in-memory containers (D01).
#include "vd.h"
#include <tpie/tpie.h>
#include <tpie/array.h>
#include <tpie/array_view.h>
#include <tpie/maybe.h>
#include <tpie/bit_array.h>
#include <tpie/packed_array.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/disjoint_sets.h>
#include <vector>
#include <memory>
#include <tpie/tiny.h>
#include <tpie/memory.h>
#include <algorithm>
using namespace vd;
enum { W = 10000 };
typedef std::vector<int64_t> Seq;
static int64_t live = 0;
static bool REV = false;
static int64_t flip(int64_t v) { return REV && v >= 0 ? (99 - v / W) * W + v % W : v; }
// an item that counts its copies; its own order is by id, which no container may use
struct V {
	int64_t v; 
	V(int64_t x = -1) : v(x) { ++live; } V(const V & o) : v(o.v) { ++live; } V(V && o) : v(o.v) { o.v = -7; ++live; }
	V & operator=(const V & o) { v = o.v; return *this; } V & operator=(V && o) { int64_t x = o.v; o.v = -7; v = x; return *this; } ~V() { v = -9; --live; }
	bool operator<(const V & o) const { return v % W > o.v % W; } bool operator==(const V & o) const { return v == o.v; } bool operator!=(const V & o) const { return v != o.v; }
};
struct K { int64_t k; explicit K(int64_t x = -1) : k(x) {} bool operator<(const K & o) const { return k < o.k; } bool operator==(const K & o) const { return k == o.k; } };
struct M { int64_t id; explicit M(int64_t x = -1) : id(x) {} bool operator<(const M & o) const { return id > o.id; } bool operator==(const M & o) const { return id == o.id; } };
struct Less {
	bool rev; Less() : rev(REV) {}
	bool lt(int64_t a, int64_t b) const { return rev ? a > b : a < b; }
	bool operator()(const V & a, const V & b) const { return lt(a.v / W, b.v / W); }
	bool operator()(const K & a, const K & b) const { return lt(a.k, b.k); }
	bool operator()(int64_t a, int64_t b) const { return lt(a / W, b / W); }
};
static int64_t out(const V & v) { return flip(v.v); }
static int64_t out(int64_t v) { return flip(v); }
static int64_t out(const std::pair<K, M> & p) { return flip(p.first.k * W + p.second.id); }
template <typename C> Seq seq(const C & c) { Seq s; for (auto i = c.begin(); i != c.end(); ++i) s.push_back(out(*i)); return s; }
template <typename C> Seq rseq(const C & c) { Seq s; for (auto i = c.rbegin(); i != c.rend(); ++i) s.push_back(out(*i)); return s; }

struct Base {
	virtual ~Base() {}
	virtual void step(Rng & r) = 0;
};
static int64_t nid = 1;
static int64_t val(Rng & r, int keys) { int64_t v = r.below(keys) * W + nid; nid = nid % 9000 + 1; return v; }

template <typename T> struct Stack : Base {
	std::unique_ptr<tpie::internal_stack<T>> c[2]; size_t cap[2];
	Stack(Rng & r) { for (int i = 0; i < 2; ++i) { cap[i] = r.below(9); c[i].reset(new tpie::internal_stack<T>(cap[i])); ev("resize", i).num("n", cap[i]); obs(i); } }
	Ev * e = nullptr; std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	void obs(int i) { auto & s = *c[i]; h->num("size", s.size()).boolean("empty", s.empty()).num("top", s.empty() ? -1 : out(s.top())).emit(); }
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i];
		switch (r.weighted({50, 35, 4, 4})) {
		case 0: if (s.size() < cap[i]) { int64_t v = val(r, 20); s.push(T(flip(v))); ev("push", i).num("v", v); obs(i); } break;
		case 1: if (!s.empty()) { s.pop(); ev("pop", i); obs(i); } break;
		case 2: s.clear(); ev("clear", i); obs(i); break;
		case 3: cap[i] = r.below(9); s.resize(cap[i]); ev("resize", i).num("n", cap[i]); obs(i); break;
		}
	}
};
template <typename T> struct Vector : Base {
	std::unique_ptr<tpie::internal_vector<T>> c[2]; size_t cap[2], high[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	Vector(Rng & r) { for (int i = 0; i < 2; ++i) { cap[i] = r.below(9); high[i] = 0; c[i].reset(new tpie::internal_vector<T>(cap[i])); ev("resize", i).num("n", cap[i]); obs(i); } }
	void obs(int i) {
		auto & s = *c[i]; const auto & k = s; Seq a; for (size_t j = 0; j < s.size(); ++j) a.push_back(out(j % 2 ? s[j] : k[j]));
		Seq b; for (auto j = s.begin(); j != s.end(); ++j) b.push_back(out(*j));
		h->num("size", s.size()).boolean("empty", s.empty()).seq("s", a).seq("s2", b).seq("s3", seq(k)).num("front", s.empty() ? -1 : out(s.front())).num("back", s.empty() ? -1 : out(k.back())).emit();
	}
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i];
		switch (r.weighted({45, 30, 10, 15, 4, 4})) {
		case 0: if (s.size() < cap[i]) { int64_t v = val(r, 20); s.push_back(T(flip(v))); high[i] = std::max(high[i], s.size()); ev("push", i).num("v", v); obs(i); } break;
		case 1: if (!s.empty()) { s.pop_back(); ev("pop", i); obs(i); } break;
		case 2: if (s.size() < high[i]) { s.push_back(); ev("repush", i); obs(i); } break;
		case 3: if (!s.empty()) { int64_t j = r.below(s.size()), v = val(r, 20); if (r.chance(50)) s[j] = T(flip(v)); else *(s.begin() + j) = T(flip(v)); ev("assign", i).num("j", j).num("v", v); obs(i); } break;
		case 4: s.clear(); ev("clear", i); obs(i); break;
		case 5: cap[i] = r.below(9); high[i] = 0; s.resize(cap[i]); ev("resize", i).num("n", cap[i]); obs(i); break;
		}
	}
};
template <typename T> struct Queue : Base {
	std::unique_ptr<tpie::internal_queue<T>> c[2]; size_t cap[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	Queue(Rng & r) { for (int i = 0; i < 2; ++i) { cap[i] = 1 + r.below(8); c[i].reset(new tpie::internal_queue<T>(cap[i])); ev("resize", i).num("n", cap[i]); obs(i); } }
	void obs(int i) { auto & s = *c[i]; h->num("size", s.size()).boolean("empty", s.empty()).boolean("full", s.full()).num("front", s.empty() ? -1 : out(s.front())).num("back", s.empty() ? -1 : out(s.back())).emit(); }
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i];
		switch (r.weighted({50, 45, 2, 2})) {
		case 0: if (s.size() < cap[i]) { int64_t v = val(r, 20); s.push(T(flip(v))); ev("push", i).num("v", v); obs(i); } break;
		case 1: if (!s.empty()) { s.pop(); ev("pop", i); obs(i); } break;
		case 2: s.clear(); ev("clear", i); obs(i); break;
		case 3: cap[i] = 1 + r.below(8); s.resize(cap[i]); ev("resize", i).num("n", cap[i]); obs(i); break;
		}
	}
};
template <typename T> struct Pq : Base {
	typedef tpie::internal_priority_queue<T, Less> C; std::unique_ptr<C> c[2]; size_t cap[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	Seq some(Rng & r, size_t n) { Seq v; for (size_t j = 0; j < n; ++j) v.push_back(val(r, 6)); return v; }
	std::vector<T> in(const Seq & v) { std::vector<T> x; for (auto q : v) x.push_back(T(flip(q))); return x; }
	Pq(Rng & r) { for (int i = 0; i < 2; ++i) {
		cap[i] = r.below(24); ev("resize", i).num("n", cap[i]);
		if (r.chance(30) && cap[i]) { Seq v = some(r, r.below(cap[i] + 1)); auto x = in(v); c[i].reset(new C(cap[i], x.begin(), x.end(), Less())); h->emit(); ev("push", i).seq("v", v); obs(i); }
		else { c[i].reset(new C(cap[i], Less())); obs(i); }
	} }
	void obs(int i) { auto & s = *c[i]; const auto & k = s; h->num("size", s.size()).boolean("empty", s.empty()).num("top", s.empty() ? -1 : out(k.top())).emit(); }
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i]; size_t room = cap[i] - s.size();
		switch (r.weighted({45, 35, 20, 4, 4, 2, 2})) {
		case 0: if (room) { int64_t v = val(r, 6); T x(flip(v)); if (r.chance(50)) s.push(x); else s.push(std::move(x)); ev("push", i).seq("v", Seq{v}); obs(i); } break;
		case 1: if (!s.empty()) { int64_t v = out(s.top()); s.pop(); ev("pop", i).num("v", v); obs(i); } break;
		case 2: if (!s.empty()) { int64_t v = out(s.top()), w = val(r, 6); T x(flip(w)); if (r.chance(50)) s.pop_and_push(x); else s.pop_and_push(std::move(x)); ev("poppush", i).num("v", v).num("w", w); obs(i); } break;
		case 3: { Seq v = some(r, r.below(room + 1)); auto x = in(v); s.insert(x.begin(), x.end()); ev("push", i).seq("v", v); obs(i); } break;
		case 4: { Seq v = some(r, r.below(room + 1)); for (auto & x : in(v)) if (r.chance(50)) s.unsafe_push(x); else s.unsafe_push(T(x)); s.make_safe(); ev("push", i).seq("v", v); obs(i); } break;
		case 5: s.clear(); ev("clear", i); obs(i); break;
		case 6: cap[i] = r.below(24); s.resize(cap[i]); ev("resize", i).num("n", cap[i]); obs(i); break;
		}
	}
};
// sets and maps: C the container, P how a value becomes an element and a key
struct PSet { static const bool map = false; typedef V key; static V elem(int64_t v) { return V(v); } static V mk(int64_t k) { return V(k * W); } };
struct PMulti { static const bool map = false; typedef K key; static std::pair<K, M> elem(int64_t v) { return std::make_pair(K(v / W), M(v % W)); } static K mk(int64_t k) { return K(k); } };
struct PMap : PMulti { static const bool map = true; };
template <typename C> int64_t pos(C & c, const typename C::iterator & i) { return i - c.begin(); }
template <typename C> int64_t rpos(C & c, const std::pair<typename C::iterator, bool> & i) { return (i.first - c.begin()) * 2 + i.second; }
template <typename C> int64_t rpos(C & c, const typename C::iterator & i) { return (i - c.begin()) * 2 + 1; }
template <typename C> void assign(C & d, const C & s, Rng & r) {
	if constexpr (std::is_copy_assignable<C>::value) { if (r.chance(40)) { d = s; return; } }
	C z(s); d.swap(z);
}
template <typename C, typename P> struct Tiny : Base {
	std::unique_ptr<C> c[2]; int keys;
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	Tiny(Rng & r) { keys = (int)r.range(2, 12); for (int i = 0; i < 2; ++i) { c[i].reset(new C(Less())); } }
	void obs(int i) { auto & s = *c[i]; h->num("size", s.size()).boolean("empty", s.empty()).seq("s", seq(s)).seq("rs", rseq(s)).emit(); }
	static int64_t fk(int64_t k) { return REV ? 99 - k : k; }
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i]; const C & cs = s;
		switch (r.weighted({40, 10, 10, 6, 25, 3, 4, 4, 8, 2, 14})) {
		case 0: { int64_t v = val(r, keys), q; auto x = P::elem(flip(v)); switch (r.below(3)) { case 0: q = rpos(s, s.insert(x)); break; case 1: q = rpos(s, s.insert(std::move(x))); break; default: q = rpos(s, s.emplace(x)); }
			ev("tins", i).num("v", v).num("r", q); obs(i); } break;
		case 1: { int64_t k = r.below(keys); typename P::key kk = P::mk(fk(k)); int64_t q = s.erase(kk); ev("terk", i).num("k", k).num("r", q); obs(i); } break;
		case 2: if (!s.empty()) { int64_t p = r.below(s.size()); int64_t q = pos(s, s.erase(s.begin() + p)); ev("ter", i).num("a", p).num("b", p + 1).num("r", q); obs(i); } break;
		case 3: { int64_t a = r.below(s.size() + 1), b = a + r.below(s.size() - a + 1); int64_t q = pos(s, s.erase(s.begin() + a, s.begin() + b)); ev("ter", i).num("a", a).num("b", b).num("r", q); obs(i); } break;
		case 4: { int64_t k = r.below(keys); typename P::key kk = P::mk(fk(k)); auto er = s.equal_range(kk); auto ce = cs.equal_range(kk);
			Seq q{pos(s, s.lower_bound(kk)), pos(s, s.upper_bound(kk)), (int64_t)s.count(kk), pos(s, s.find(kk)), pos(s, er.first), pos(s, er.second)};
			Seq p{cs.lower_bound(kk) - cs.begin(), cs.upper_bound(kk) - cs.begin(), (int64_t)cs.count(kk), cs.find(kk) - cs.begin(), ce.first - cs.begin(), ce.second - cs.begin()};
			ev("tq", i).num("k", k).seq("r", q).seq("r2", p); obs(i); } break;
		case 5: s.clear(); ev("clear0", i); obs(i); break;
		case 6: { assign(*c[1 - i], s, r); ev("copy", i); obs(i); ev("same", 1 - i); obs(1 - i); } break;
		case 7: { if (r.chance(50)) swap(*c[0], *c[1]); else s.swap(*c[1 - i]); ev("swap", i); obs(i); ev("same", 1 - i); obs(1 - i); } break;
		case 8: { C & a = *c[0]; C & b = *c[1]; ev("tcmp", 0).seq("r", Seq{a == b, a != b, a < b, a <= b, a > b, a >= b}); obs(0); } break;
		case 9: { Seq v; std::vector<typename C::value_type> x; for (int n = (int)r.below(7); n--;) { v.push_back(val(r, keys)); x.push_back(P::elem(flip(v.back()))); } if (r.chance(30)) { ev("clear0", i).emit(); C z(x.begin(), x.end(), Less()); s.swap(z); } else s.insert(x.begin(), x.end()); ev("tinss", i).seq("v", v); obs(i); } break;
		case 10: if constexpr (P::map) {   // operator[] and at
			int64_t v = val(r, keys); typename P::key kk(fk(v / W)); const C & cs2 = s; int64_t q = -1;
			try { q = flip(fk(v / W) * W + cs2.at(kk).id); } catch (const std::out_of_range &) { q = -1; }
			ev("tat", i).num("k", v / W).num("r", q); obs(i);
			if (r.chance(60)) { if (r.chance(50)) s[kk] = M(v % W); else s[typename P::key(kk)] = M(v % W); ev("tidx", i).num("v", v); obs(i); }
			} break;
		}
	}
};
struct Dsu : Base {
	typedef tpie::disjoint_sets<uint32_t> C; std::unique_ptr<C> c[2]; size_t cap[2];
	std::vector<bool> in[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	Dsu(Rng & r) { for (int i = 0; i < 2; ++i) { cap[i] = 1 + r.below(14); in[i].assign(cap[i], false); c[i].reset(new C(cap[i])); ev("resize", i).num("n", cap[i]); obs(i, r); } }
	void obs(int i, Rng & r) {
		auto & s = *c[i]; Seq f(cap[i], -1), is;
		for (size_t e = 0; e < cap[i]; ++e) is.push_back(s.is_set(e));
		if (r.chance(40)) { for (size_t e = 0; e < cap[i]; ++e) if (in[i][e]) f[e] = s.find_set(e); } else f.clear();   // asking now and then: it changes the links
		h->num("count", s.count_sets()).seq("is", is).seq("f", f).emit();
	}
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i]; int64_t a = r.below(cap[i]), b = r.below(cap[i]);
		switch (r.weighted({45, 50, 1, 1})) {
		case 0: if (!in[i][a]) { s.make_set(a); in[i][a] = true; ev("make", i).num("a", a); obs(i, r); } break;
		case 1: if (in[i][a] && in[i][b]) { int64_t q = r.chance(50) ? s.union_set(a, b) : s.link(s.find_set(a), s.find_set(b)); ev("union", i).num("a", a).num("b", b).num("r", q); obs(i, r); } break;
		case 2: s.clear(); in[i].assign(cap[i], false); ev("new0", i).num("n", cap[i]); obs(i, r); break;
		case 3: cap[i] = 1 + r.below(14); in[i].assign(cap[i], false); s.resize(cap[i]); ev("resize", i).num("n", cap[i]); obs(i, r); break;
		}
	}
};
template <typename T> struct Array : Base {
	typedef tpie::array<T> C; std::unique_ptr<C> c[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	Array(Rng & r) { for (int i = 0; i < 2; ++i) { int64_t n = r.below(9), v = val(r, 9); c[i].reset(new C(n, T(flip(v)))); ev("afill", i).num("n", n).num("v", v); obs(i, r); } }
	void obs(int i, Rng & r) {
		auto & s = *c[i]; const C & k = s; Seq a; for (size_t j = 0; j < s.size(); ++j) a.push_back(out(j % 3 == 0 ? s[j] : j % 3 == 1 ? k.at(j) : *k.find(j)));
		Seq b; for (auto j = s.rbegin(); j != s.rend(); ++j) b.push_back(out(*j));
		std::vector<T> x(s.size()), y(s.size());
		if (s.size()) { if (r.chance(50)) { std::copy(s.begin(), s.end(), x.begin()); std::copy(k.rbegin(), k.rend(), y.begin()); } else { C t(s.size()), u(s.size()); std::copy(k.begin(), k.end(), t.begin()); std::copy(s.rbegin(), s.rend(), u.begin()); std::copy(t.begin(), t.end(), x.begin()); std::copy(u.begin(), u.end(), y.begin()); } }
		h->num("size", s.size()).boolean("empty", s.empty()).seq("s", a).seq("rs", b).seq("s2", seq(x)).seq("rs2", seq(y)).num("front", s.empty() ? -1 : out(s.front())).num("back", s.empty() ? -1 : out(k.back())).emit();
	}
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i]; int64_t n = r.below(9), v = val(r, 9);
		switch (r.weighted({20, 20, 40, 12, 8, 8, 6, 10, 14, 12})) {
		case 8: {   // a view of a part
			size_t z = s.size(), x = r.below(z + 1), y = r.range(x, z); const C & k = s; T * q = s.get();
			auto look = [&](auto w) {
				Seq a, b; for (size_t j = 0; j < w.size(); ++j) a.push_back(out(j % 3 == 0 ? w[j] : j % 3 == 1 ? w.at(j) : *w.find(j)));
				for (auto j = w.begin(); j != w.end(); ++j) b.push_back(out(*j));
				auto u = w; bool ok = u == w && !(u != w) && w.end() - w.begin() == (ptrdiff_t)w.size();
				h->num("x", x).num("y", y).num("len", w.size()).boolean("none", w.empty()).seq("v", a).seq("v2", b).boolean("ok", ok).num("vf", w.empty() ? -1 : out(w.front())).num("vb", w.empty() ? -1 : out(w.back()));
			};
			ev("aview", i);
			switch (r.below(8)) {
			case 0: look(tpie::array_view<T>(q + x, q + y)); break;
			case 1: look(tpie::array_view<T>(q + x, size_t(y - x))); break;
			case 2: look(tpie::array_view<const T>(tpie::array_view<T>(q + x, q + y))); break;
			case 3: look(tpie::array_view<const T>((const T *)k.get() + x, size_t(y - x))); break;
			case 4: if (z) { x = 0; y = z; look(tpie::array_view<const T>((const T *)q, (const T *)q + z)); } else look(tpie::array_view<T>(q, q)); break;
			case 5: look(tpie::make_array_view(q + x, q + y)); break;
			case 6: { std::vector<T> w(s.begin(), s.end()); w.resize(z + 1); look(tpie::array_view<T>(w, x, y)); break; }
			default: { std::vector<T> w(s.begin(), s.end()); w.resize(z + 1); look(tpie::array_view<const T>((const std::vector<T> &)w, x, y)); break; }
			}
			obs(i, r); break; }
		case 9: if (r.chance(50)) {   // a new array from a view of the other
				size_t z = s.size(), x = r.below(z + 1), y = r.range(x, z); T * q = s.get();
				if (r.chance(50)) c[1 - i].reset(new C(tpie::array_view<T>(q + x, q + y))); else *c[1 - i] = C(tpie::array_view<const T>((const T *)q + x, (const T *)q + y));
				ev("aslice", i).num("x", x).num("y", y); obs(i, r); ev("same", 1 - i); obs(1 - i, r);
			} else if (s.size()) {   // a change through a view
				size_t z = s.size(), x = r.below(z), j = r.range(x, z - 1); tpie::array_view<T> w(s.get() + x, z - x);
				switch (r.below(4)) { case 0: w[j - x] = T(flip(v)); break; case 1: w.at(j - x) = T(flip(v)); break; case 2: *w.find(j - x) = T(flip(v)); break; default: *(w.begin() + (j - x)) = T(flip(v)); }
				ev("aset", i).num("j", j).num("v", v); obs(i, r);
			} break;
		case 0: s.resize(n, T(flip(v))); ev("afill", i).num("n", n).num("v", v); obs(i, r); break;
		case 1: s.resize(n); std::fill(s.begin(), s.end(), T(flip(v))); ev("afill", i).num("n", n).num("v", v); obs(i, r); break;
		case 2: if (s.size()) { int64_t j = r.below(s.size()); switch (r.below(4)) { case 0: s[j] = T(flip(v)); break; case 1: s.at(j) = T(flip(v)); break; case 2: *s.find(j) = T(flip(v)); break; default: s.rbegin()[s.size() - 1 - j] = T(flip(v)); } ev("aset", i).num("j", j).num("v", v); obs(i, r); } break;
		case 3: { switch (r.below(3)) { case 0: *c[1 - i] = s; break; case 1: c[1 - i].reset(new C(s)); break; default: { C z; z = s; *c[1 - i] = std::move(z); } } ev("copy", i); obs(i, r); ev("same", 1 - i); obs(1 - i, r); } break;
		case 4: if (r.chance(50)) std::swap(*c[0], *c[1]); else s.swap(*c[1 - i]); ev("swap", i); obs(i, r); ev("same", 1 - i); obs(1 - i, r); break;
		case 5: { C & o = s; s = o; ev("same", i); obs(i, r); } break;
		case 6: ev("acmp", 0).seq("r", Seq{*c[0] == *c[1], *c[0] != *c[1]}); obs(0, r); break;
		case 7: if (r.chance(50)) tpie::tiny::sort(s.begin(), s.end(), Less()); else std::stable_sort(s.begin(), s.end(), Less()); ev("sort", i); obs(i, r); break;
		}
	}
};
template <typename T, int B> struct Bits : Base {
	typedef tpie::packed_array<T, B> C; std::unique_ptr<C> c[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	int64_t sz(Rng & r) { return r.chance(30) ? r.below(4) : r.range(60 / B, 70 / B + r.below(90)); }
	Bits(Rng & r) { for (int i = 0; i < 2; ++i) { int64_t n = sz(r), v = r.below(1 << B); c[i].reset(new C(n, T(v))); ev("afill", i).num("n", n).num("v", v); obs(i, r); } }
	void obs(int i, Rng & r) {
		auto & s = *c[i]; const C & k = s; Seq a, b, x, y;
		for (size_t j = 0; j < s.size(); ++j) a.push_back(j % 3 == 0 ? (T)s[j] : j % 3 == 1 ? (T)k[j] : (T)*k.find(j));
		if (s.size()) for (auto j = s.rbegin(); j != s.rend(); ++j) b.push_back((T)*j);
		for (auto j = s.begin(); j != s.end(); ++j) x.push_back((T)*j);
		if (s.size()) for (auto j = k.rbegin(); j != k.rend(); ++j) y.push_back(*j);
		h->num("size", s.size()).boolean("empty", s.empty()).seq("s", a).seq("rs", b).seq("s2", x).seq("rs2", y).num("front", s.empty() ? -1 : (T)k[0]).num("back", s.empty() ? -1 : (T)k[k.size() - 1]).emit();
	}
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i]; int64_t n = sz(r), v = r.below(1 << B);
		switch (r.weighted({12, 8, 50, 8, 6, 4, 8, 8})) {
		case 0: s.resize(n, T(v)); ev("afill", i).num("n", n).num("v", v); obs(i, r); break;
		case 1: s.resize(n); s.fill(T(v)); ev("afill", i).num("n", n).num("v", v); obs(i, r); break;
		case 2: if (s.size()) { int64_t j = r.below(s.size()); switch (r.below(6)) { case 0: s[j] = T(v); break; case 1: *s.find(j) = T(v); break; case 2: { auto q = s.begin() + j; *q = T(v); } break; case 3: { auto q = s.rbegin() + (s.size() - 1 - j); *q = T(v); } break; case 4: { auto q = s.end(); q -= s.size() - j; *q = T(v); } break; default: { auto q = s.rend() - (j + 1); if (s.rend() - q == j + 1 && q < s.rend()) *q = T(v); } } ev("aset", i).num("j", j).num("v", v); obs(i, r); } break;
		case 3: { switch (r.below(3)) { case 0: *c[1 - i] = s; break; case 1: c[1 - i].reset(new C(s)); break; default: { C z; z = s; *c[1 - i] = std::move(z); } } ev("copy", i); obs(i, r); ev("same", 1 - i); obs(1 - i, r); } break;
		case 4: if (r.chance(50)) std::swap(*c[0], *c[1]); else s.swap(*c[1 - i]); ev("swap", i); obs(i, r); ev("same", 1 - i); obs(1 - i, r); break;
		case 5: { C & o = s; s = o; ev("same", i); obs(i, r); } break;
		case 6: if (s.size()) {   // one place to another, through references
			int64_t j = r.below(s.size()), q = r.below(s.size()); int64_t was = (T)s[q];
			if (r.chance(50)) s[j] = s[q]; else { auto x = s.find(j), y = s.find(q); *x = *y; }
			ev("aset", i).num("j", j).num("v", was); obs(i, r); } break;
		case 7: { auto & d = *c[1 - i]; d.resize(s.size()); if (r.chance(50)) std::copy(s.begin(), s.end(), d.begin()); else { const C & k = s; std::copy(k.begin(), k.end(), d.begin()); } ev("copy", i); obs(i, r); ev("same", 1 - i); obs(1 - i, r); } break;
		}
	}
};
template <typename T> struct Maybe : Base {
	typedef tpie::maybe<T> C; std::unique_ptr<C> c[2];
	std::unique_ptr<Ev> h;
	Ev & ev(const char * o, int i) { h.reset(new Ev(o)); h->num("i", i); return *h; }
	void obs(int i) { C & s = *c[i]; const C & k = s; bool q = k.is_constructed(); h->num("size", q).num("top", q ? out(*s) : -1).num("top2", q ? out(*k) : -1).num("top3", q ? out(*k.operator->()) : -1).num("top4", q ? out(*s.operator->()) : -1).emit(); }
	Maybe(Rng &) { for (int i = 0; i < 2; ++i) { c[i].reset(new C()); ev("resize", i).num("n", 1); obs(i); } }
	void step(Rng & r) override {
		int i = (int)r.below(2); auto & s = *c[i]; int64_t v = val(r, 9); bool x = false;
		switch (r.below(5)) {
		case 0: case 1: try { if (r.chance(50)) s.construct(flip(v)); else { const T o(flip(v)); s.construct(o); } } catch (const tpie::exception &) { x = true; } ev("mcon", i).num("v", v).boolean("x", x); obs(i); break;
		case 2: s.destruct(); ev("clear", i); obs(i); break;
		case 3: c[i].reset(); c[i].reset(new C()); ev("clear", i); obs(i); break;
		default:   // only what is not constructed can be copied
			switch (r.below(3)) {
			case 0: try { s = *c[1 - i]; } catch (const tpie::exception &) { x = true; } ev("masg", i).boolean("x", x); obs(i); break;
			case 1: try { C o(s); x = o.is_constructed(); } catch (const tpie::exception &) { x = true; } ev("mcpy", i).boolean("x", x); obs(i); break;
			default: try { C o(std::move(s)); x = o.is_constructed(); } catch (const tpie::exception &) { x = true; } ev("mcpy", i).boolean("x", x); obs(i);
			}
		}
	}
};
template <typename T> Base * lin(const std::string & k, Rng & r) {
	if (k == "stack") return new Stack<T>(r); if (k == "vector") return new Vector<T>(r); if (k == "queue") return new Queue<T>(r);
	if (k == "pq") return new Pq<T>(r); if (k == "maybe") return new Maybe<T>(r); return new Array<T>(r);
}
int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		static const char * ks[] = {"stack", "vector", "queue", "pq", "set", "multiset", "map", "multimap", "dsu", "array", "bits", "maybe"};
		std::string k = ks[t % 12];
		REV = k != "dsu" && k != "bits" && r.chance(50);
		tpie::tpie_init(tpie::ALL & ~tpie::DEFAULT_LOGGING);
		tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
		int64_t mem = tpie::get_memory_manager().used(); live = 0;
		Ev("new").num("t", t).str("kind", k).emit();
		{
		std::unique_ptr<Base> b;
		if (k == "set") b.reset(new Tiny<tpie::tiny::set<V, Less>, PSet>(r));
		else if (k == "multiset") b.reset(new Tiny<tpie::tiny::multiset<V, Less>, PSet>(r));
		else if (k == "map") b.reset(new Tiny<tpie::tiny::map<K, M, Less>, PMap>(r));
		else if (k == "multimap") b.reset(new Tiny<tpie::tiny::multimap<K, M, Less>, PMulti>(r));
		else if (k == "dsu") b.reset(new Dsu(r));
		else if (k == "bits") { switch (r.below(4)) { case 0: b.reset(new Bits<bool, 1>(r)); break; case 1: b.reset(new Bits<int, 2>(r)); break; case 2: b.reset(new Bits<int, 4>(r)); break; default: b.reset(new Bits<int, 1>(r)); } }
		else b.reset(r.chance(60) ? lin<V>(k, r) : lin<int64_t>(k, r));
		int n = (int)r.range(10, (int)a.num("ops", 60));
		while (n--) b->step(r);
		}
		Ev("gone").num("live", live).num("mem", (int64_t)tpie::get_memory_manager().used() - mem).emit();
		tpie::tpie_finish(tpie::ALL & ~tpie::DEFAULT_LOGGING);
	});
}
