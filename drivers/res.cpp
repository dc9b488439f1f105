// Conformance driver for the accounting of memory and files (R01).
#include "vd.h"
#include <filesystem>
#include <thread>
#include <atomic>
#include <tpie/tpie.h>
#include <tpie/memory.h>
#include <tpie/array.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#include <tpie/file_accessor/file_accessor.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file_stream.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/internal_queue.h>
#include <tpie/bit_array.h>
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#include <tpie/serialization_stream.h>
using namespace vd;
using tpie::memory_manager;
struct Boom {};
static int fuse = -1;                       // constructions left before one throws
static int64_t objects = 0;
static void tick() { if (fuse == 0) { fuse = -1; throw Boom(); } if (fuse > 0) --fuse; }
struct P16 { int64_t a, b; P16() : a(1), b(2) { tick(); ++objects; } P16(const P16 & o) : a(o.a), b(o.b) { tick(); ++objects; } ~P16() { --objects; } };
struct Plain { char c[24]; Plain() { tick(); ++objects; } Plain(const Plain &) { tick(); ++objects; } ~Plain() { --objects; } };
struct Virt : Plain { int64_t x = 5; Virt() { tick(); } virtual ~Virt() {} virtual int f() { return 1; } };   // its first base may throw before it is an object with virtual functions
struct Big : Virt { char more[100]; Big() { tick(); } ~Big() override {} int f() override { return 2; } };
struct Other { virtual ~Other() {} virtual int g() { return 3; } };
struct Multi : Other, Virt { char more[10]; Multi() { tick(); } };
template <typename F> std::string attempt(F f) {
	try { f(); return ""; } catch (Boom &) { return "own"; } catch (tpie::out_of_memory_error &) { return "limit"; } catch (tpie::out_of_files_error &) { return "limit"; }
	catch (tpie::io_exception &) { return "own"; } catch (std::bad_alloc &) { return "own"; } catch (std::exception & e) { return std::string("?") + e.what(); } catch (...) { return "?"; }
}
static tpie::memory_bucket bk[2];
static std::string root;
static int fds() {
	int n = 0; std::error_code ec;
	for (int i = 0; i < 1024; ++i) { char b[512]; std::string p = "/proc/self/fd/" + std::to_string(i); ssize_t k = readlink(p.c_str(), b, sizeof b - 1); if (k > 0) { b[k] = 0; if (!strncmp(b, root.c_str(), root.size())) ++n; } }
	return n;
}
static void obs(Ev & e) {
	auto & m = tpie::get_memory_manager(); auto & f = tpie::get_file_manager();
	e.num("used", m.used()).num("limit", m.limit()).num("avail", m.available()).seq("buckets", std::vector<int64_t>{(int64_t)bk[0].count, (int64_t)bk[1].count})
	 .num("fused", f.used()).num("fds", fds()).num("flimit", f.limit()).num("favail", f.available()).emit();
}
struct H { int64_t id = 0; int64_t n = 0; int b = -1; int kind = 0; std::function<void()> drop; std::shared_ptr<tpie::array<P16>> arr; std::shared_ptr<tpie::array<int>> ai; };
static tpie::memory_bucket_ref ref(int b) { return b < 0 ? tpie::memory_bucket_ref() : tpie::memory_bucket_ref(&bk[b]); }

static void sequential(Rng & r, const Args & a) {
	auto & m = tpie::get_memory_manager(); auto & f = tpie::get_file_manager();
	int64_t base = m.used(), next = 1;
	std::vector<H> hs; std::vector<std::pair<int64_t, std::shared_ptr<tpie::file_accessor::raw_file_accessor>>> fs;
	Ev("new").num("t", a.num("t", 0)).num("fl", f.limit()).emit();
	m.set_limit(0); m.set_enforcement(memory_manager::ENFORCE_IGNORE);
	{ Ev e("req"); e.num("h", 0).num("n", base).num("b", -1).str("x", ""); obs(e); }
	static const memory_manager::enforce_t modes[] = {memory_manager::ENFORCE_IGNORE, memory_manager::ENFORCE_DEBUG, memory_manager::ENFORCE_WARN, memory_manager::ENFORCE_THROW};
	static const char * names[] = {"ignore", "debug", "warn", "throw"};
	int n = (int)r.range(10, a.num("ops", 80));
	for (int i = 0; i < n; ++i) {
		fuse = r.chance(12) ? (int)r.below(6) : -1;
		switch (r.weighted({50, 30, 12, 6, 8, 14, 12, 3, 3, 2})) {
		case 0: {
			H h; h.id = next++; h.b = -1; std::string x; int k = (int)r.below(11);
			if (k < 5) fuse = fuse > 3 ? 3 : fuse;
			switch (k) {
			case 0: { P16 * p = nullptr; h.n = sizeof(P16); x = attempt([&] { p = tpie::tpie_new<P16>(); }); h.drop = [p] { tpie::tpie_delete(p); }; } break;
			case 1: { Virt * p = nullptr; h.n = sizeof(Big); x = attempt([&] { p = tpie::tpie_new<Big>(); }); h.drop = [p] { tpie::tpie_delete(p); }; } break;
			case 2: { Virt * p = nullptr; h.n = sizeof(Multi); x = attempt([&] { p = tpie::tpie_new<Multi>(); }); h.drop = [p] { tpie::tpie_delete(p); }; } break;
			case 3: { auto p = std::make_shared<tpie::unique_ptr<Virt>>(); h.n = sizeof(Virt); x = attempt([&] { *p = tpie::make_unique<Virt>(); }); h.drop = [p] { p->reset(); }; } break;
			case 4: { size_t c = r.below(40); P16 * p = nullptr; h.n = c * sizeof(P16); x = attempt([&] { p = tpie::tpie_new_array<P16>(c); }); h.drop = [p, c] { tpie::tpie_delete_array(p, c); }; } break;
			case 5: { size_t c = 1 + r.below(4000); char * p = nullptr; h.n = c; x = attempt([&] { p = tpie::tpie_new_array<char>(c); }); h.drop = [p, c] { tpie::tpie_delete_array(p, c); }; fuse = -1; } break;
			case 6: case 7: { h.b = (int)r.below(3) - 1; size_t c = 1 + r.below(100); tpie::allocator<int64_t> al(ref(h.b)); int64_t * p = nullptr; h.n = c * 8; x = attempt([&] { p = al.allocate(c); }); h.drop = [p, c, al]() mutable { al.deallocate(p, c); }; fuse = -1; } break;
			case 8: { h.b = (int)r.below(3) - 1; auto v = std::make_shared<std::vector<int64_t, tpie::allocator<int64_t>>>(tpie::allocator<int64_t>(ref(h.b))); size_t c = 1 + r.below(200); h.n = c * 8; x = attempt([&] { v->reserve(c); }); h.drop = [v] { std::vector<int64_t, tpie::allocator<int64_t>> e(v->get_allocator()); v->swap(e); }; fuse = -1; } break;
			case 9: { h.b = (int)r.below(3) - 1; size_t c = r.below(60); h.n = c * sizeof(P16); int how = (int)r.below(2);
				int keep = fuse; fuse = -1; P16 q; fuse = keep;
				x = attempt([&] { if (how == 0) h.arr.reset(new tpie::array<P16>(c, tpie::allocator<P16>(ref(h.b)))); else h.arr.reset(new tpie::array<P16>(c, q, tpie::allocator<P16>(ref(h.b)))); });
				h.kind = 1; } break;
			default: { h.b = (int)r.below(3) - 1; size_t c = r.below(60); h.n = c * sizeof(int); x = attempt([&] { h.ai.reset(new tpie::array<int>(c, tpie::allocator<int>(ref(h.b)))); }); h.kind = 2; fuse = -1; } break;
			}
			fuse = -1;
			Ev e("req"); e.num("h", h.id).num("n", h.n).num("b", h.b).str("x", x); obs(e);
			if (x.empty()) hs.push_back(h);
		} break;
		case 1: if (!hs.empty()) { fuse = -1; size_t j = r.below(hs.size()); H h = hs[j]; hs.erase(hs.begin() + j); if (h.drop) h.drop(); h.arr.reset(); h.ai.reset(); Ev e("free"); e.num("h", h.id); obs(e); } break;
		case 2: {   // an array changes size
			std::vector<size_t> ar; for (size_t j = 0; j < hs.size(); ++j) if (hs[j].kind) ar.push_back(j);
			if (ar.empty()) break;
			H & h = hs[ar[r.below(ar.size())]]; size_t c = r.below(60); std::string x; int how = (int)r.below(2);
			int keep = fuse; fuse = -1; P16 q; fuse = keep; size_t old = h.arr ? h.arr->size() : h.ai->size();
			if (how && old == c) break;   // filled in place
			if (h.arr) x = attempt([&] { if (how) h.arr->resize(c, q); else h.arr->resize(c); }); else x = attempt([&] { if (how) h.ai->resize(c, 7); else h.ai->resize(c); });
			fuse = -1;
			h.n = c * (h.arr ? sizeof(P16) : sizeof(int));
			Ev e("resize"); e.num("h", h.id).num("n", h.n).num("b", h.b).str("x", x); obs(e);
			if (!x.empty() && (h.arr ? h.arr->size() : h.ai->size()) != 0) Ev("bad").emit();
		} break;
		case 3: { int k = (int)r.below(4); m.set_enforcement(modes[k]); Ev e("mode"); e.str("m", names[k]); obs(e); } break;
		case 4: { int64_t v = r.chance(15) ? 0 : m.used() + r.range(-500, 3000); if (v < 0) v = 0; m.set_limit(v); Ev e("limit"); e.num("n", v); obs(e); } break;
		case 5: {   // open a file
			fuse = -1; auto p = std::make_shared<tpie::file_accessor::raw_file_accessor>(); int64_t id = next++; std::string path = root + "/f" + std::to_string(id); bool bad = r.chance(20); if (bad) path = root + "/none/x";
			int how = (int)r.below(3); std::string x = attempt([&] { if (how == 0) p->open_wo(path); else if (how == 1) p->open_rw_new(path); else { if (!bad) std::ofstream(path) << "x"; p->open_ro(path); } });
			Ev e("open"); e.num("h", id).str("x", x); obs(e);
			if (x.empty()) fs.push_back({id, p}); else if (p->is_open()) Ev("bad").emit();
		} break;
		case 6: if (!fs.empty()) { size_t j = r.below(fs.size()); auto h = fs[j]; fs.erase(fs.begin() + j); if (r.chance(50)) h.second->close_i(); h.second.reset(); Ev e("close"); e.num("h", h.first); obs(e); } break;
		case 7: { int64_t v = r.chance(20) ? 0 : r.below(8); f.set_limit(v); Ev e("limitf"); e.num("n", v); obs(e); } break;
		case 8: { int k = (int)r.below(4); f.set_enforcement(modes[k]); Ev e("modef"); e.str("m", names[k]); obs(e); } break;
		case 9: { int64_t j = r.range(0, 40); int64_t w = j < 20 ? (int64_t)tpie::get_user(j) + 7 : 0; tpie::increment_user(j, 7); Ev("user").num("j", j).num("w", w).num("r", tpie::get_user(j)).emit(); } break;
		}
	}
	while (!hs.empty()) { H h = hs.back(); hs.pop_back(); if (h.drop) h.drop(); h.arr.reset(); h.ai.reset(); Ev e("free"); e.num("h", h.id); obs(e); }
	while (!fs.empty()) { auto h = fs.back(); fs.pop_back(); h.second.reset(); Ev e("close"); e.num("h", h.first); obs(e); }
	if (objects != 0) Ev("bad").num("objects", objects).emit();
	m.set_enforcement(memory_manager::ENFORCE_IGNORE); f.set_enforcement(tpie::file_manager::ENFORCE_IGNORE);
}
static void threads(Rng & r, const Args & a) {
	auto & m = tpie::get_memory_manager();
	Ev("new").num("t", a.num("t", 0)).num("fl", 0).emit();
	int64_t base = m.used(); int T = (int)r.range(2, 8); int hold = (int)r.range(1, 6), most = (int)r.range(10, 400); bool fits = r.chance(50);
	int64_t total = (int64_t)T * hold * most; int64_t lim = fits ? total : total / r.range(2, 5) + 1;
	m.set_limit(base + lim); m.set_enforcement(memory_manager::ENFORCE_THROW);
	std::atomic<int64_t> now(0), peak(0), refused(0), wrong(0); std::atomic<int> ready(0); bool greedy = r.chance(60);
	std::vector<std::vector<std::pair<char *, size_t>>> kept(T); std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (int t = 0; t < T; ++t) seeds.push_back(r.next());
	int64_t rounds = a.num("rounds", 3000);
	for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
		Rng q(seeds[t]); auto & mine = kept[t]; tpie::allocator<char> al; ++ready; while (ready < T) {}
		for (int i = 0; i < rounds; ++i) {
			if (greedy && t == 0) { try { char * p = tpie::tpie_new_array<char>(lim + 1 + q.below(100)); (void)p; ++wrong; } catch (tpie::out_of_memory_error &) {} continue; }
			if ((int)mine.size() < hold && q.chance(55)) {
				size_t n = 1 + q.below(most);
				try { char * p = q.chance(50) ? tpie::tpie_new_array<char>(n) : nullptr; if (!p) { p = tpie::tpie_new_array<char>(n); }
					int64_t v = now.fetch_add(n) + n, o = peak.load(); while (o < v && !peak.compare_exchange_weak(o, v)) {} mine.push_back({p, n}); }
				catch (tpie::out_of_memory_error &) { ++refused; }
			} else if (!mine.empty()) { size_t j = q.below(mine.size()); now -= mine[j].second; tpie::tpie_delete_array(mine[j].first, mine[j].second); mine.erase(mine.begin() + j); }
			if (m.available() > (size_t)(lim) ) ++wrong;
		}
	});
	for (auto & t : ts) t.join();
	int64_t k = 0; for (auto & v : kept) for (auto & x : v) k += x.second;
	Ev e("threads"); e.num("used", (int64_t)m.used() - base).num("kept", k).num("limit", lim).num("peak", peak).num("total", total).num("refused", refused);
	for (auto & v : kept) for (auto & x : v) tpie::tpie_delete_array(x.first, x.second);
	e.num("after", (int64_t)m.used() - base + wrong).emit();
	m.set_enforcement(memory_manager::ENFORCE_IGNORE); m.set_limit(0);
}
struct Cmp { bool operator()(int64_t x, int64_t y) const { return x < y; } };
// closing and destroying may need memory themselves; a destructor cannot refuse
struct Lift { ~Lift() { tpie::get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE); tpie::get_file_manager().set_enforcement(tpie::file_manager::ENFORCE_IGNORE); } };
static void use(int k, Rng & r, int64_t amount, std::function<void()> memlimit) {
	if (k != 7 && k != 8) memlimit();       // a constructor that gives up destroys what it has built
	std::string p = root + "/c" + std::to_string(k);
	switch (k) {
	case 0: { tpie::uncompressed_stream<int64_t> s; s.open(p); for (int64_t i = 0; i < amount; ++i) s.write(i); s.seek(0); for (int64_t i = 0; i < amount; ++i) if (s.read() != i) throw Boom(); s.close(); } break;
	case 1: { tpie::file_stream<int64_t> s; s.open(p); for (int64_t i = 0; i < amount; ++i) s.write(i); s.seek(0); for (int64_t i = 0; i < amount; ++i) if (s.read() != i) throw Boom(); s.close(); } break;
	case 2: { tpie::stack<int64_t> s; Lift l; for (int64_t i = 0; i < amount; ++i) s.push(i); while (!s.empty()) if (s.pop() != --amount) throw Boom(); } break;
	case 3: { tpie::queue<int64_t> s; Lift l; for (int64_t i = 0; i < amount; ++i) s.push(i); for (int64_t i = 0; i < amount; ++i) if (s.pop() != i) throw Boom(); } break;
	case 4: { tpie::internal_priority_queue<int64_t, Cmp> q(amount); for (int64_t i = 0; i < amount; ++i) q.push(i * 7 % 101); q.resize(amount * 2); } break;
	case 5: { tpie::internal_queue<int64_t> q(amount); for (int64_t i = 0; i < amount; ++i) q.push(i); q.resize(amount + 5); } break;
	case 6: { tpie::bit_array b(amount * 50, false); b.resize(amount * 90, true); tpie::bit_array c2(b); c2 = b; } break;
	case 7: { tpie::blocks::block_collection c(p, 256, true); Lift l; memlimit(); for (int i = 0; i < 5; ++i) { tpie::blocks::block_handle h = c.get_free_block(); tpie::blocks::block b(256); c.write_block(h, b); c.read_block(h, b); } } break;
	case 8: { tpie::blocks::block_collection_cache c(p, 256, 3, true); Lift l; memlimit(); for (int i = 0; i < 8; ++i) { tpie::blocks::block_handle h = c.get_free_block(); c.write_block(h); } } break;
	case 9: { tpie::serialization_writer w; w.open(p); for (int64_t i = 0; i < amount; ++i) w.serialize(std::string("abc")); w.close(); tpie::serialization_reader d; d.open(p); std::string s; for (int64_t i = 0; i < amount; ++i) d.unserialize(s); d.close(); } break;
	case 10: { tpie::array<tpie::array<int64_t>> x(4); for (int i = 0; i < 4; ++i) x[i].resize(amount); tpie::array<tpie::array<int64_t>> y(x); y = x; } break;
	default: { std::vector<std::string, tpie::allocator<std::string>> v; for (int64_t i = 0; i < amount; ++i) v.push_back("x"); } break;
	}
	(void)r;
}
static void component(Rng & r, const Args & a) {
	auto & m = tpie::get_memory_manager(); auto & f = tpie::get_file_manager();
	Ev("new").num("t", a.num("t", 0)).num("fl", 0).emit();
	for (int i = 0; i < 6; ++i) {
		int k = (int)r.below(12); int64_t amount = r.range(1, 2000); bool mem = r.chance(75), fil = !mem || r.chance(30);
		int64_t before = m.used(), fb = f.used(); int fd0 = fds();
		int64_t room = r.range(1, r.chance(50) ? 2000 : 60000);
		auto memlimit = [&] { if (mem) { m.set_limit((k == 7 || k == 8 ? m.used() : before) + room); m.set_enforcement(memory_manager::ENFORCE_THROW); } };
		if (fil) { auto p = std::make_shared<tpie::file_accessor::raw_file_accessor>(); f.set_limit(1); f.set_enforcement(tpie::file_manager::ENFORCE_THROW);
			if (r.chance(70)) { p->open_wo(root + "/held"); fb = f.used() - 1; }
			std::string x = attempt([&] { use(k, r, amount, memlimit); });
			m.set_enforcement(memory_manager::ENFORCE_IGNORE); f.set_enforcement(tpie::file_manager::ENFORCE_IGNORE); m.set_limit(0); p.reset();
			Ev("component").num("k", k).str("x", x).num("before", before).num("after", m.used()).num("fbefore", fb).num("fafter", f.used()).num("fds0", fd0).num("fds1", fds()).num("kept", 1).emit();
			continue; }
		std::string x = attempt([&] { use(k, r, amount, memlimit); });
		m.set_enforcement(memory_manager::ENFORCE_IGNORE); m.set_limit(0);
		Ev("component").num("k", k).str("x", x).num("before", before).num("after", m.used()).num("fbefore", fb).num("fafter", f.used()).num("fds0", fd0).num("fds1", fds()).num("kept", 1).emit();
	}
}
int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		tpie::set_block_size(4096); root = a.dir;
		tpie::tpie_init(tpie::ALL & ~tpie::DEFAULT_LOGGING); tpie::tempname::set_default_path(a.dir);
		Args b = a; b.kv["t"] = std::to_string(t);
		tpie::get_file_manager().set_enforcement(tpie::file_manager::ENFORCE_WARN);
		if (a.mode == "threads") threads(r, b); else if (a.mode == "comp") component(r, b); else sequential(r, b);
		tpie::tpie_finish(tpie::ALL & ~tpie::DEFAULT_LOGGING);
	});
}
