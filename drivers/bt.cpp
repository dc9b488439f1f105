// Conformance driver for the B-trees (B01 dynamic, B02 structure, B03 bulk built and reopened).
#include "vd.h"
#include "vsched.h"
#include <tpie/btree.h>
#include <tpie/serialization2.h>
#include <tpie/tempname.h>
using namespace tpie;

enum { W = 10000 };
struct VItem { int v; };                        // plain item
struct SItem { int v = 0; std::string s; };     // item of varying serialized size
static std::string payload(int v) { return std::string((v * 7) % 41, char('a' + v % 26)); }
template <typename T> static T make(int v);
template <> VItem make<VItem>(int v) { return VItem{v}; }
template <> SItem make<SItem>(int v) { SItem s; s.v = v; s.s = payload(v); return s; }
static int val(const VItem & i) { return i.v; }
static int val(const SItem & i) { return i.s == payload(i.v) ? i.v : -1; }
template <typename D> void serialize(D & d, const SItem & i) { using tpie::serialize; serialize(d, i.v); serialize(d, i.s); }
template <typename S> void unserialize(S & s, SItem & i) { using tpie::unserialize; unserialize(s, i.v); unserialize(s, i.s); }
struct KeyOf { template <typename T> int operator()(const T & i) const { return i.v / W; } };
struct Aug { int c, s; };
struct Augment {
	template <typename N> Aug operator()(const N & n) {
		Aug a{0, 0};
		for (size_t i = 0; i < n.count(); ++i)
			if (n.is_leaf()) { a.c++; a.s += val(n.value(i)); } else { a.c += n.get_augmentation(i).c; a.s += n.get_augmentation(i).s; }
		return a;
	}
};
using namespace vd;

struct Shape { int leafmin, leafmax, innermin, innermax; };
struct Base {
	Shape sh; bool ordered = true, dynamic = true, ext = false, ser = false, meta = false;
	virtual ~Base() {}
	virtual void fresh() = 0; virtual void build(const std::vector<int64_t> &, const std::string &, btree_flags) = 0; virtual void close() = 0; virtual void open() = 0;
	virtual int64_t insert(int64_t v) = 0; virtual void insert_at(int64_t v, int64_t p) = 0; virtual int64_t erase_at(int64_t p) = 0; virtual int64_t erase_key(int64_t k) = 0;
	virtual std::vector<int64_t> ask(char q, int64_t k, int64_t steps) = 0;
	virtual std::vector<int64_t> walk(int64_t p, int64_t n, bool fwd) = 0;
	virtual int64_t size() = 0; virtual bool empty() = 0; virtual std::string shape() = 0;
	virtual std::string get_meta() = 0; virtual void set_meta(const std::string &) = 0;
	virtual std::string try_open(const std::string &) { return ""; }
};

template <typename T, bool ORD, bool DYN, bool EXT, bool SER, typename... O> struct Tree : Base {
	using tree_t = btree<T, btree_key<KeyOf>, btree_augment<Augment>, O...>;
	using builder_t = btree_builder<T, btree_key<KeyOf>, btree_augment<Augment>, O...>;
	std::unique_ptr<tree_t> t; std::string path;
	Tree(Shape s, std::string p) : path(p) { sh = s; ordered = ORD; dynamic = DYN; ext = EXT; ser = SER; meta = !EXT || SER; }
	template <bool E> typename std::enable_if<E, tree_t *>::type mk(const std::string & p) { return new tree_t(p); }
	template <bool E> typename std::enable_if<!E, tree_t *>::type mk(const std::string &) { return new tree_t(); }
	template <bool E> typename std::enable_if<E, builder_t *>::type mkb(btree_flags f) { return new builder_t(path, default_comp(), Augment(), f); }
	template <bool E> typename std::enable_if<!E, builder_t *>::type mkb(btree_flags) { return new builder_t(); }
	void fresh() override { t.reset(mk<EXT>(path)); }
	void open() override { fresh(); }
	void close() override { t.reset(); }
	void build(const std::vector<int64_t> & v, const std::string & m, btree_flags f) override {
		t.reset();
		std::unique_ptr<builder_t> b(mkb<EXT>(f));
		for (auto x : v) b->push(make<T>((int)x));
		if (meta) t.reset(new tree_t(b->build(m))); else t.reset(new tree_t(b->build()));
	}
	typename tree_t::iterator at(int64_t p) {
		int64_t n = t->size();
		if (p * 2 > n) { auto i = t->end(); for (; p < n; ++p) --i; return i; }
		auto i = t->begin(); for (; p > 0; --p) ++i; return i;
	}
	int64_t where(int64_t v) { int64_t p = 0; auto i = t->begin(); for (int64_t n = t->size(); p < n && i != t->end(); ++i, ++p) if (val(*i) == v) return p; return -1; }
	template <bool D> typename std::enable_if<D && ORD, int64_t>::type insert_(int64_t v) { t->insert(make<T>((int)v)); return where(v); }
	template <bool D> typename std::enable_if<!(D && ORD), int64_t>::type insert_(int64_t v) { return -1; }
	template <bool D> typename std::enable_if<D>::type insert_at_(int64_t v, int64_t p) { t->insert_before(make<T>((int)v), at(p)); }
	template <bool D> typename std::enable_if<!D>::type insert_at_(int64_t v, int64_t p) {}
	template <bool D> typename std::enable_if<D, int64_t>::type erase_at_(int64_t p) { auto i = at(p); int64_t v = val(*i); t->erase(i); return v; }
	template <bool D> typename std::enable_if<!D, int64_t>::type erase_at_(int64_t p) { return -1; }
	template <bool D> typename std::enable_if<D && ORD, int64_t>::type erase_key_(int64_t k) { return t->erase((int)k); }
	template <bool D> typename std::enable_if<!(D && ORD), int64_t>::type erase_key_(int64_t k) { return -1; }
	template <bool D> typename std::enable_if<D, typename tree_t::iterator>::type ask_(char q, int k) { return q == 'f' ? t->find(k) : q == 'l' ? t->lower_bound(k) : t->upper_bound(k); }
	template <bool D> typename std::enable_if<!D, typename tree_t::iterator>::type ask_(char, int) { return t->end(); }
	int64_t insert(int64_t v) override { return insert_<DYN>(v); }
	void insert_at(int64_t v, int64_t p) override { insert_at_<DYN>(v, p); }
	int64_t erase_at(int64_t p) override { return erase_at_<DYN>(p); }
	int64_t erase_key(int64_t k) override { return erase_key_<DYN>(k); }
	std::vector<int64_t> ask(char q, int64_t k, int64_t steps) override {
		auto i = ask_<ORD>(q, (int)k); std::vector<int64_t> r;
		if (i != t->end()) { r.push_back(val(*i)); }
		return r;
	}
	std::vector<int64_t> walk(int64_t p, int64_t n, bool fwd) override {
		auto i = fwd && p == 0 ? t->begin() : !fwd && p == (int64_t)t->size() ? t->end() : at(p); std::vector<int64_t> r;
		if (fwd) for (; n-- > 0 && i != t->end(); ++i) r.push_back(val(*i));
		else for (; n-- > 0 && i != t->begin();) { --i; r.push_back(val(*i)); }
		return r;
	}
	int64_t size() override { return t->size(); }
	bool empty() override { return t->empty(); }
	std::string get_meta() override { return t->get_metadata(); }
	void set_meta(const std::string & m) override { t->set_metadata(m); }
	int mk_of(const int & k) { return k; }
	template <typename K> int mk_of(const K &) { return 0; }
	std::string shape() override {
		std::string s = "["; int n = 0;
		if (!t->empty()) {
			std::function<void(typename tree_t::node_type, int, int)> rec = [&](typename tree_t::node_type x, int d, int p) {
				int me = ++n;
				if (me > 1) s += ",";
				Ev e("n"); e.boolean("leaf", x.is_leaf()).num("d", d).num("p", p);
				bool up = x.has_parent() == (d > 0); int idx = 0;
				if (x.has_parent()) {
					idx = (int)x.index();
					auto q = x.get_parent();
					up = up && !q.is_leaf() && idx < (int)q.count() && q.has_parent() == (d > 1);
					auto y = q.get_child(idx);
					up = up && y.count() == x.count() && y.is_leaf() == x.is_leaf() && (int)y.index() == idx;
					if (x.is_leaf()) { for (size_t j = 0; up && j < x.count(); ++j) up = val(y.value(j)) == val(x.value(j)); }
				}
				std::vector<int64_t> v, mk, c, ss;
				for (size_t j = 0; j < x.count(); ++j) {
					if (ORD) mk.push_back(mk_of(x.min_key(j)));
					if (x.is_leaf()) v.push_back(val(x.value(j)));
					else { Aug a = x.get_augmentation(j); c.push_back(a.c); ss.push_back(a.s); }
				}
				e.num("i", idx).boolean("up", up).seq("v", v).seq("mk", mk).seq("c", c).seq("s", ss);
				s += e.s + "}";
				if (!x.is_leaf()) for (size_t j = 0; j < x.count(); ++j) rec(x.get_child(j), d + 1, me);
			};
			rec(t->root(), 0, 0);
		}
		return s + "]";
	}
	std::string try_open(const std::string & p) override {
		try { std::unique_ptr<tree_t> x(mk<EXT>(p)); return "opened with size " + std::to_string(x->size()); }
		catch (const std::exception &) { return "refused"; }
	}
};

static Base * pick(int c, const std::string & p) {
	switch (c) {
	case 0: return new Tree<VItem, true, true, false, false, btree_internal, btree_fanout<2, 4>>({2, 4, 2, 4}, p);
	case 1: return new Tree<VItem, true, true, false, false, btree_internal, btree_fanout<2, 3>>({2, 3, 2, 3}, p);
	case 2: return new Tree<VItem, true, true, false, false, btree_internal, btree_fanout<3, 8>>({3, 8, 3, 8}, p);
	case 3: return new Tree<VItem, true, true, true, false, btree_external, btree_fanout<2, 4>>({2, 4, 2, 4}, p);
	case 4: return new Tree<VItem, true, true, true, false, btree_external, btree_fanout<3, 5>>({3, 5, 3, 5}, p);
	case 5: return new Tree<VItem, true, true, true, false, btree_external, btree_blocksize<200>>({12, 48, 2, 6}, p);
	case 6: return new Tree<VItem, false, true, false, false, btree_internal, btree_unordered, btree_fanout<2, 5>>({2, 5, 2, 5}, p);
	case 7: return new Tree<VItem, false, true, true, false, btree_external, btree_unordered, btree_fanout<2, 4>>({2, 4, 2, 4}, p);
	case 8: return new Tree<VItem, true, false, false, false, btree_internal, btree_static, btree_fanout<2, 4>>({2, 4, 2, 4}, p);
	case 9: return new Tree<VItem, true, false, true, false, btree_external, btree_static, btree_fanout<3, 7>>({3, 7, 3, 7}, p);
	case 10: return new Tree<VItem, true, false, true, true, btree_external, btree_static, btree_serialized, btree_blocksize<120>>({1, 1000, 1, 1000}, p);
	case 11: return new Tree<SItem, true, false, true, true, btree_external, btree_static, btree_serialized, btree_blocksize<400>>({1, 1000, 1, 1000}, p);
	case 12: return new Tree<VItem, true, false, true, true, btree_external, btree_static, btree_serialized, btree_fanout<3, 4>>({1, 1000, 1, 1000}, p);
	default: return new Tree<VItem, false, false, true, true, btree_external, btree_static, btree_serialized, btree_unordered, btree_fanout<2, 3>>({1, 1000, 1, 1000}, p);
	}
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	bool bulk = a.mode == "build", shapes = a.mode == "shape";
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		set_block_size((size_t)r.pick(std::vector<int64_t>{64, 256, 4096}));
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		{
		int cfg = bulk ? (int)r.below(14) : (int)r.below(shapes ? 14 : 8);
		std::unique_ptr<Base> b(pick(cfg, a.dir + "/tree"));
		Ev("new").num("t", t).num("cfg", cfg).boolean("ordered", b->ordered).num("lmin", b->sh.leafmin).num("lmax", b->sh.leafmax).num("imin", b->sh.innermin).num("imax", b->sh.innermax).emit();
		int maxn = (int)r.pick(std::vector<int64_t>{5, 20, 60, 60, 200});
		if (shapes && maxn > 60) maxn = 60;
		int keys = (int)r.pick(std::vector<int64_t>{1, 3, 12, 90});
		std::vector<int64_t> cur;   // kept only to choose sensible operations
		int ids = 0;
		auto key = [&] { return r.below(keys) + 1; };
		auto mkv = [&](int64_t k) { return k * W + ids++; };
		bool isopen = true;
		auto done = [&](Ev & e, const std::string & x) { e.str("x", x).num("n", x.empty() && isopen ? b->size() : 0).boolean("empty", x.empty() && isopen ? b->empty() : true).emit(); return x.empty(); };
		auto run = [&](Ev & e, const std::function<void()> & f) { std::string x; try { f(); } catch (const std::exception & ex) { x = std::string("exception ") + ex.what(); } return done(e, x); };
		auto all = [&](bool f) { std::vector<int64_t> v; Ev e(f ? "fwd" : "bwd"); int64_t n = b->size(); e.num("p", f ? 0 : n).num("k", n + 3); run(e, [&] { v = b->walk(f ? 0 : n, n + 3, f); e.seq("r", v); }); return v; };
		auto shape = [&] { Ev e("shape"); run(e, [&] { e.raw("t", b->shape()); }); };
		auto mut = [&] { if (shapes) shape(); };
		auto build = [&] {
			std::vector<int64_t> v; int n = (int)(r.chance(8) ? 0 : r.range(0, maxn));
			for (int i = 0; i < n; ++i) v.push_back(mkv(key()));
			if (b->ordered) std::stable_sort(v.begin(), v.end(), [](int64_t x, int64_t y) { return x / W < y / W; });
			std::string m = b->meta && r.chance(60) ? std::string((size_t)r.range(1, 40), char('A' + r.below(26))) : "";
			static const std::vector<uint64_t> comp{0, 1, 2, 3, 0x0303, 0x1003};
			btree_flags f = (btree_flags)(r.pick(comp) | (uint64_t)btree_flags::defaults);
			Ev e("build"); e.seq("v", v).str("m", m);
			if (run(e, [&] { b->build(v, m, f); })) cur = v;
			mut();
			if (b->ser) {
				// what cannot be a complete tree is refused
				std::string src = a.dir + "/tree", dst = a.dir + "/torn";
				std::ifstream i(src, std::ios::binary); std::string all((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
				int64_t full = (int64_t)all.size() - (int64_t)m.size();
				for (int j = 0; j < 3; ++j) {
					int64_t cut = r.below(full); if (r.chance(30)) cut = full - 1 - r.below(std::min<int64_t>(full, 20));
					std::string c = all.substr(0, cut); int kind = (int)r.below(3);
					if (kind == 1) { c = all; for (int z = 0; z < 8; ++z) c[z] = 0; } if (kind == 2) { c = std::string((size_t)r.range(0, 300), (char)r.below(256)); }
					{ std::ofstream o(dst, std::ios::binary | std::ios::trunc); o << c; }
					Ev e2("torn"); e2.num("kind", kind).num("cut", cut).num("of", full); std::string x = b->try_open(dst); e2.str("r", x); done(e2, "");
				}
			}
		};
		auto ask = [&] { char q = "flu"[r.below(3)]; int64_t k = r.range(0, keys + 1); Ev e(q == 'f' ? "find" : q == 'l' ? "lb" : "ub"); e.num("k", k); run(e, [&] { e.seq("r", b->ask(q, k, 0)); }); };
		auto walk = [&] { int64_t p = r.below((int64_t)cur.size() + 1), k = r.range(0, 12); bool f = r.chance(50); Ev e(f ? "fwd" : "bwd"); e.num("p", p).num("k", k); run(e, [&] { e.seq("r", b->walk(p, k, f)); }); };
		auto getm = [&] { if (!b->meta) return; Ev e("getmeta"); run(e, [&] { e.str("m", b->get_meta()); }); };
		auto reopen = [&] {
			if (!b->ext) return;
			{ Ev e("close"); isopen = false; run(e, [&] { b->close(); }); }
			{ Ev e("open"); if (run(e, [&] { b->open(); isopen = true; })) {} }
			if (shapes || cur.size() <= 60) shape();   // what was summed up survives as well
		};
		std::string err;
		if (!b->dynamic || r.chance(30)) build(); else { b->fresh(); if (b->ser) build(); }
		int n = (int)r.range(5, (int)a.num("ops", 80)), phase = 0;
		if (maxn >= 200 && !bulk) n *= 3;
		for (int i = 0; i < n; ++i) {
			if (!isopen) break;
			if (b->dynamic && !bulk) {
				if (r.chance(6)) phase = (int)r.below(3);
				std::vector<int> w = phase == 0 ? std::vector<int>{50, 12, 8, 1, 8, 4, 1, 2} : phase == 1 ? std::vector<int>{8, 3, 50, 5, 8, 4, 1, 2} : std::vector<int>{25, 8, 25, 3, 20, 15, 5, 2};
				switch (r.weighted(w)) {
				case 0:
					if ((int)cur.size() >= maxn) { phase = 1; break; }
					if (b->ordered) {
						int64_t v = mkv(key()); Ev e("insert"); e.num("v", v); int64_t p = -1;
						if (run(e, [&] { p = b->insert(v); e.num("p", p); }) && p >= 0 && p <= (int64_t)cur.size()) cur.insert(cur.begin() + p, v);
						mut(); break;
					} // fall through
				case 1: {
					if ((int)cur.size() >= maxn) break;
					int64_t p = r.below((int64_t)cur.size() + 1), k = key();
					if (b->ordered && !cur.empty()) k = p < (int64_t)cur.size() ? cur[p] / W : cur.back() / W;
					int64_t v = mkv(k); Ev e("insert"); e.num("v", v).num("p", p);
					if (run(e, [&] { b->insert_at(v, p); })) cur.insert(cur.begin() + p, v);
					mut(); break; }
				case 2: {
					if (cur.empty()) { phase = 0; break; }
					int64_t p = r.below(cur.size()); if (r.chance(20)) p = 0; if (r.chance(20)) p = cur.size() - 1;
					Ev e("erase"); e.num("p", p); if (run(e, [&] { e.num("v", b->erase_at(p)); })) cur.erase(cur.begin() + p);
					mut(); break; }
				case 3: {
					if (!b->ordered) break;
					int64_t k = key(); Ev e("erasekey"); e.num("k", k);
					if (run(e, [&] { e.num("c", b->erase_key(k)); })) cur.erase(std::remove_if(cur.begin(), cur.end(), [&](int64_t v) { return v / W == k; }), cur.end());
					mut(); break; }
				case 4: if (b->ordered) ask(); break;
				case 5: walk(); break;
				case 6: all(r.chance(50)); break;
				case 7: if (r.chance(60)) reopen(); else getm(); break;
				}
			} else {
				switch (r.weighted({b->ordered ? 40 : 0, 25, 8, 8, 8, b->dynamic ? 25 : 0, 3})) {
				case 0: ask(); break;
				case 1: walk(); break;
				case 2: all(r.chance(50)); break;
				case 3: reopen(); break;
				case 4: getm(); break;
				case 5: {
					if (cur.empty() || r.chance(50)) { if ((int)cur.size() >= maxn) break; int64_t p = r.below((int64_t)cur.size() + 1), k = key(); if (b->ordered && !cur.empty()) k = p < (int64_t)cur.size() ? cur[p] / W : cur.back() / W;
						int64_t v = mkv(k); Ev e("insert"); e.num("v", v).num("p", p); if (run(e, [&] { b->insert_at(v, p); })) cur.insert(cur.begin() + p, v); }
					else { int64_t p = r.below(cur.size()); Ev e("erase"); e.num("p", p); if (run(e, [&] { e.num("v", b->erase_at(p)); })) cur.erase(cur.begin() + p); }
					mut(); break; }
				case 6: if (!b->dynamic || !b->ext) build(); break;
				}
			}
		}
		if (isopen) { all(true); all(false); if (!shapes && b->ext) { reopen(); if (isopen) { all(true); getm(); } } }
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
