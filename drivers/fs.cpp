// Conformance driver for tpie::file_stream (S01, S02): runs operation lines against a real stream and logs what it answers.
#include "vd.h"
#include "vsched.h"
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
#include <tpie/compressed/thread.h>
#include <sys/wait.h>
#include <thread>
using namespace vd;
using namespace tpie;

static std::string g_exe, g_dir;

struct Cfg {
	int comp = 0;        // 0 none, 1 normal, 2 all
	int scheme = 0;      // 0 none 1 snappy
	int itemSize = 4, blockItems = 3, slack = 0;
	double bf = 1.0;
	int kind = 0;        // 0 named path, 1 temp_file, 2 anonymous
	int udmax = 0;
	int cache = 0;
};

static const char * kind_of(const std::exception * e) {
	if (dynamic_cast<const end_of_stream_exception *>(e)) return "eos";
	if (dynamic_cast<const invalid_file_exception *>(e)) return "invalid";
	if (dynamic_cast<const io_exception *>(e)) return "io";
	if (dynamic_cast<const stream_exception *>(e)) return "stream";
	if (dynamic_cast<const tpie::exception *>(e)) return "exc";
	return "std";
}

static std::string slurp(const std::string & p) {
	std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}
static void spew(const std::string & p, const std::string & d) {
	std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size());
}

struct IMachine {
	virtual ~IMachine() {}
	virtual void op(const std::vector<std::string> & w) = 0;
	virtual int64_t size() = 0;
	virtual int64_t offset() = 0;
	std::string mode = "rw";
	bool comp = false;
	std::map<int, int64_t> slots;
	int64_t udmax = 0;
	bool exists = true;
};

template <size_t N> struct Machine : IMachine {
	typedef Item<N> T;
	Cfg c;
	std::unique_ptr<temp_file> tf;
	std::unique_ptr<file_stream<T>> fs;
	std::string path;
	stream_position sp[3];
	std::string before;

	open::type cflags(int comp) {
		open::type f = open::defaults;
		if (comp == 1) f = f | open::compression_normal;
		if (comp == 2) f = f | open::compression_all;
		if (c.cache == 1) f = f | open::access_normal;
		if (c.cache == 2) f = f | open::access_random;
		return f;
	}
	Machine(const Cfg & c_, int64_t t, const std::string & dir) : c(c_) {
		{
		compressor_thread_lock lk(the_compressor_thread());
		the_compressor_thread().set_preferred_compression(lk,
			c.scheme == 1 ? compression_scheme::snappy : compression_scheme::none);
		}
		path = dir + "/s";
		fs.reset(new file_stream<T>(c.bf));
		std::string x;
		if (c.kind == 1) { tf.reset(new temp_file()); path = tf->path(); fs->open(*tf, cflags(c.comp), c.udmax); }
		else if (c.kind == 2) { fs->open(cflags(c.comp), c.udmax); path = fs->path(); }
		else fs->open(path, cflags(c.comp), c.udmax);
		comp = c.comp != 0; udmax = c.udmax;
		Ev("new").num("t", t).boolean("comp", comp).boolean("named", c.kind != 2).num("udmax", c.udmax)
			.num("scheme", c.scheme).num("item", c.itemSize).num("block", c.blockItems).num("slack", c.slack)
			.num("bf10", int64_t(c.bf * 10)).num("kind", c.kind).emit();
	}
	int64_t size() override { return fs->size(); }
	int64_t offset() override { return fs->offset(); }

	void obs(Ev & e) {
		if (fs->is_open()) e.num("size", fs->size()).num("off", fs->offset()).boolean("cr", fs->can_read()).boolean("cb", fs->can_read_back());
		else e.num("size", 0).num("off", 0).boolean("cr", false).boolean("cb", false);
	}
	void op(const std::vector<std::string> & w) override {
		if (getenv("VD_OPS")) fprintf(stderr, "op %s | %s\n", join(w).c_str(), fs->describe().c_str());
		Ev e(w[0].c_str());
		std::vector<int64_t> r; std::string x;
		const std::string & o = w[0];
		try {
			if (o == "read") r.push_back(dec<N>(fs->read()));
			else if (o == "peek") r.push_back(dec<N>(fs->peek()));
			else if (o == "skip") fs->skip();
			else if (o == "readback") r.push_back(dec<N>(fs->read_back()));
			else if (o == "skipback") fs->skip_back();
			else if (o == "reada") {
				int64_t n = atoll(w[1].c_str());
				e.num("n", n);
				T filler = enc<N>(N == 1 ? 254 : 254);
				std::vector<T> buf(n, filler);
				int64_t o0 = fs->offset();
				try { fs->read(buf.begin(), buf.end()); }
				catch (...) { buf.resize(std::min<int64_t>(n, std::max<int64_t>(0, int64_t(fs->offset()) - o0))); for (auto & b : buf) r.push_back(dec<N>(b)); throw; }
				for (auto & b : buf) r.push_back(dec<N>(b));
			} else if (o == "write") {
				std::vector<int64_t> a{atoll(w[1].c_str())}; e.seq("a", a);
				fs->write(enc<N>(a[0]));
			} else if (o == "writea") {
				std::vector<int64_t> a; std::vector<T> b;
				for (size_t i = 1; i < w.size(); ++i) { a.push_back(atoll(w[i].c_str())); b.push_back(enc<N>(a.back())); }
				e.seq("a", a);
				fs->write(b.begin(), b.end());
			} else if (o == "seek") {
				int64_t n = atoll(w[1].c_str()); e.num("n", n).str("w", w[2]);
				auto wh = w[2] == "beg" ? file_stream<T>::beginning : w[2] == "end" ? file_stream<T>::end : file_stream<T>::current;
				fs->seek(n, wh);
			} else if (o == "getpos") {
				int s = atoi(w[1].c_str()); e.num("s", s);
				sp[s] = fs->get_position(); r.push_back(sp[s].offset()); slots[s] = sp[s].offset();
			} else if (o == "setpos") {
				int s = atoi(w[1].c_str()); e.num("s", s);
				fs->set_position(sp[s]);
			} else if (o == "setend") fs->set_position(stream_position::end());
			else if (o == "trunc" || o == "truncpos") {
				int64_t n = atoll(w[1].c_str());
				if (o == "trunc") { e.num("n", n); fs->truncate(n); }
				else { e.num("s", n); fs->truncate(sp[n]); }
				if (comp) for (auto it = slots.begin(); it != slots.end();) { if (it->second > size()) it = slots.erase(it); else ++it; }
			} else if (o == "wud") {
				std::vector<int64_t> a; std::string b;
				for (size_t i = 1; i < w.size(); ++i) { a.push_back(atoll(w[i].c_str())); b.push_back(char(a.back())); }
				e.seq("a", a);
				fs->write_user_data((const void *)b.data(), b.size());
			} else if (o == "rud") {
				std::vector<unsigned char> b(64, 0xEE);
				size_t k = fs->read_user_data((void *)b.data(), fs->user_data_size());
				if (k != fs->user_data_size()) k = 63;
				for (size_t i = 0; i < k; ++i) r.push_back(b[i]);
			} else if (o == "close") {
				bool ro = mode == "ro";
				fs->close(); mode = "closed";
				e.boolean("same", !ro || slurp(path) == before);
				if (c.kind == 2) exists = false;
			} else if (o == "open") {
				int64_t u = atoll(w[2].c_str()); bool cc = w[3] == "1";
				e.str("m", w[1]).num("u", u).boolean("c", cc);
				open::type f = cflags(cc ? (c.comp == 2 ? 2 : 1) : 0);
				if (w[1] == "ro") f = f | open::read_only;
				if (w[1] == "wo") f = f | open::write_only;
				if (w[1] == "ro") before = slurp(path);
				if (c.kind == 1) fs->open(*tf, f, u); else fs->open(path, f, u);
				mode = w[1];
				if (w[1] == "wo") { slots.clear(); comp = cc; udmax = u; }
			} else if (o == "badopen") {
				e.str("k", w[1]);
				bad(w[1], e);
			} else if (o == "xread") xread(e, r);
			else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(94); }
		} catch (const std::exception & ex) { x = kind_of(&ex); }
		if (o == "close" && !x.empty()) e.boolean("same", false);
		if (o == "badopen" && x.empty()) {}
		e.str("x", x).seq("r", r);
		obs(e);
		e.emit();
	}

	// Opening something that must be refused. The file itself has to stay as it is.
	void bad(const std::string & k, Ev & e) {
		std::string before_ = slurp(path);
		std::string copy = path + ".copy";
		auto tryopen = [&](auto tag, const std::string & p, open::type f) {
			typedef decltype(tag) U;
			file_stream<U> s(c.bf);
			s.open(p, f, 0);
		};
		open::type fl = k.size() > 2 && k.substr(k.size() - 2) == "ro" ? open::read_only : open::defaults;
		try {
			if (k.compare(0, 4, "size") == 0) {
				if ((N + 3) <= c.itemSize * c.blockItems * c.bf) tryopen(Item<N + 3>(), path, fl);
				else if (N > 1) tryopen(Item<(N > 1 ? N - 1 : 1)>(), path, fl);
				else throw invalid_file_exception("skipped");
			}
			else {
				std::string d = before_;
				if (k.compare(0, 5, "magic") == 0) d[3] ^= 0x40;
				else if (k.compare(0, 4, "vers") == 0) d[8] ^= 1;
				else if (k.compare(0, 4, "torn") == 0) d.resize(std::min<size_t>(d.size(), atoi(k.c_str() + 4)));
				else if (k.compare(0, 4, "junk") == 0) { d.assign(5000, 'x'); }
				// "dirty": a copy of the file as it is now, while a writer has it open
				spew(copy, d);
				tryopen(T(), copy, fl);
			}
		} catch (...) {
			e.boolean("same", k[0] == 'd' || slurp(path) == before_); // a dirty file may still be written in the background
			unlink(copy.c_str());
			throw;
		}
		unlink(copy.c_str());
		e.boolean("same", k[0] == 'd' || slurp(path) == before_);
	}

	void xread(Ev & e, std::vector<int64_t> & r) {
		std::string outp = g_dir + "/xread.out";
		std::string cmd = g_exe + " --readfile " + path + " " + std::to_string(c.itemSize) + " " + std::to_string(c.itemSize * c.blockItems + c.slack)
			+ " " + std::to_string(c.bf) + " > " + outp + " 2>/dev/null";
		int rc = system(cmd.c_str());
		std::vector<int64_t> ud;
		std::ifstream f(outp); std::string l;
		if (rc != 0) { r.push_back(-99); }
		while (std::getline(f, l)) {
			auto w = split(l);
			if (w.empty()) continue;
			if (w[0] == "i") r.push_back(atoll(w[1].c_str())); else if (w[0] == "u") ud.push_back(atoll(w[1].c_str())); else r.push_back(-98);
		}
		e.seq("ud", ud);
	}
};

template <size_t N> int readfile(const std::string & p, size_t bs, double bf) {
	set_block_size(bs);
	file_stream<Item<N>> s(bf);
	s.open(p, open::read_only);
	std::vector<unsigned char> b(64);
	size_t k = s.read_user_data((void *)b.data(), s.user_data_size());
	for (size_t i = 0; i < k; ++i) printf("u %d\n", b[i]);
	while (s.can_read()) printf("i %lld\n", (long long)dec<N>(s.read()));
	return 0;
}

template <template <size_t> class M> std::unique_ptr<IMachine> make(const Cfg & c, int64_t t, const std::string & dir) {
	switch (c.itemSize) {
	case 1: return std::unique_ptr<IMachine>(new M<1>(c, t, dir));
	case 4: return std::unique_ptr<IMachine>(new M<4>(c, t, dir));
	case 8: return std::unique_ptr<IMachine>(new M<8>(c, t, dir));
	default: return std::unique_ptr<IMachine>(new M<13>(c, t, dir));
	}
}

// Chooses the operations of a random history.
struct Gen {
	const Cfg & c; Rng & r; bool life; int64_t lim; int vmax; std::vector<int> wt; int wlife, badw; bool solo = true;
	Gen(const Cfg & c_, Rng & r_, bool life_) : c(c_), r(r_), life(life_) {
		lim = c.blockItems * 5 + 3;
		vmax = c.itemSize == 1 ? 250 : 60000;
		// a profile makes some operations frequent so that deep states are reached
		for (int i = 0; i < 16; ++i) wt.push_back((int)r.weighted({3, 4, 2}) == 0 ? 0 : (int)r.range(1, 20));
		if (wt[0] < 4) wt[0] = 4;
		wlife = life ? 25 : 0;
		badw = life ? 6 : 0;
	}
	std::string val() { return std::to_string(r.range(1, vmax)); }
	bool step(IMachine * m) {

				if (m->mode == "closed") {
					if (!m->exists && c.kind == 2) return false;
					int k = (int)r.weighted({10, 3, 2});
					if (k == 1) { m->op({"badopen", r.pick(std::vector<std::string>{"size", "sizero", "magic", "magicro", "versro", "torn0", "torn10ro", "torn71", "torn0ro", "junk"})}); return true; }
					if (k == 2 && solo && r.chance(20)) { m->op({"xread"}); return true; }
					std::string md = r.pick(std::vector<std::string>{"rw", "rw", "rw", "ro", "ro", "wo"});
					std::string u = std::to_string(r.chance(70) ? r.below(m->udmax + 1) : r.range(0, 12));
					m->op({"open", md, u, r.chance(50) ? "1" : "0"});
					return true;
				}
				bool canW = m->mode != "ro", canR = m->mode != "wo";
				int64_t sz = m->size(), of = m->offset();
				std::vector<int> w2 = wt; w2.push_back(life ? wlife : 0); w2.push_back(badw);
				if (m->comp && canW && r.chance(7)) {
					// Fill blocks, then at once do something that needs the file.
					if (of != sz) m->op({"seek", "0", "end"});
					std::vector<std::string> o{"writea"};
					int64_t q = c.blockItems * r.range(1, 2) - sz % c.blockItems + r.below(2);
					for (int64_t j = 0; j < q; ++j) o.push_back(val());
					if (o.size() > 1 && sz < lim * 2) m->op(o);
					switch (r.below(4)) {
					case 0: m->op({"trunc", "0"}); break;
					case 1: m->op({"wud"}); break;
					case 2: m->op({"trunc", std::to_string(m->size())}); break;
					case 3: if (life) m->op({"close"}); break;
					}
					return true;
				}
				size_t k = r.weighted(w2);
				switch (k) {
				case 0: case 1: if (canW && sz < lim * 2) { if (m->comp && of != sz && r.chance(60)) m->op({"seek", "0", "end"}); m->op({"write", val()}); } break;
				case 2: if (canW && sz < lim) {
						std::vector<std::string> o{"writea"};
						int64_t q = r.below(r.chance(30) ? 2 * c.blockItems + 3 : 4);
						for (int64_t j = 0; j < q; ++j) o.push_back(val());
						if (o.size() > 1) m->op(o);
					} break;
				case 3: if (canR) m->op({"read"}); break;
				case 4: if (canR) m->op({"peek"}); break;
				case 5: if (canR) { int q = (int)r.range(1, c.blockItems + 1); while (q--) m->op({"skip"}); } break;
				case 6: if (canR) m->op({"readback"}); break;
				case 7: if (canR) { int q = (int)r.range(1, c.blockItems + 1); while (q--) m->op({"skipback"}); } break;
				case 8: if (canR) m->op({"reada", std::to_string(r.below(2 * c.blockItems + 2))}); break;
				case 9: {
						static const char * W[] = {"beg", "end", "cur"};
						int wi = (int)r.below(3); int64_t n_ = 0;
						if (!m->comp || r.chance(10)) {
							if (r.chance(85)) { int64_t tg = r.chance(40) ? std::min<int64_t>(sz, r.below(sz / std::max(1, c.blockItems) + 1) * c.blockItems) : r.range(0, sz); n_ = wi == 0 ? tg : wi == 1 ? tg - sz : tg - of; }
							else n_ = r.range(-sz - 2, sz + 2);
						}
						m->op({"seek", std::to_string(n_), W[wi]});
					} break;
				case 10: m->op({"getpos", std::to_string(r.below(3))}); break;
				case 11: case 12: { int s = (int)r.below(3); if (m->slots.count(s)) m->op({"setpos", std::to_string(s)}); else if (r.chance(20)) m->op({"setend"}); } break;
				case 13: if (canW) {
						int64_t n_ = m->comp ? (r.chance(40) ? 0 : r.chance(60) ? sz : r.range(0, sz)) : r.chance(85) ? r.range(sz / 2, sz) : r.range(0, sz + c.blockItems * 2);
						m->op({"trunc", std::to_string(n_)});
					} break;
				case 14: if (canW) { int s = (int)r.below(3); if (m->slots.count(s)) m->op({"truncpos", std::to_string(s)}); } break;
				case 15: if (r.chance(50) && canR) m->op({"rud"}); else if (canW) { std::vector<std::string> o{"wud"}; int q = (int)r.below(m->udmax + 2); while (q--) o.push_back(std::to_string(r.below(256))); m->op(o); } break;
				case 16: m->op({"close"}); break;
				case 17: if (canW) m->op({"badopen", r.chance(50) ? "dirty" : "dirtyro"}); break;
				}
			
		return true;
	}
	// Read everything at the end.
	void finish(IMachine * m) {
			if (m->mode != "closed") {
				if (m->mode == "wo") { m->op({"close"}); m->op({"open", "ro", "0", "0"}); }
				m->op({"seek", "0", "beg"});
				while (m->offset() < m->size()) m->op({"read"});
				m->op({"read"});
				if (r.chance(50)) { while (m->offset() > 0) m->op({"readback"}); }
			}
	}
};

static Cfg pick_cfg(Rng & r, bool life) {
	Cfg c;
	c.comp = (int)r.weighted({50, 25, 25});
	c.scheme = (int)r.weighted({30, 70});
	c.itemSize = r.pick(std::vector<int>{1, 4, 8, 13});
	c.blockItems = r.pick(std::vector<int>{1, 2, 3, 3, 4, 5, 7, 16});
	c.slack = r.chance(40) ? (int)r.below(c.itemSize) : 0;
	c.bf = r.pick(std::vector<double>{1, 1, 1, 1, 2, 3, 0.5});
	if (c.bf < 1 && c.blockItems < 4) c.bf = 1;
	c.kind = life ? (r.chance(70) ? 0 : 1) : (int)r.weighted({50, 20, 30});
	c.udmax = r.chance(40) ? (int)r.range(1, 12) : 0;
	c.cache = (int)r.below(3);
	return c;
}

// Several streams at once, each used by one of several threads; every stream's events form a trace of its own.
static void multi(const Args & a, int64_t t, Rng & r) {
	Ev("new").num("t", t).boolean("comp", false).boolean("named", true).num("udmax", 0).str("part", "multi").emit();
	tempname::set_default_path(a.dir);
	int bs = (int)r.pick(std::vector<int>{13, 16, 26, 40, 60});
	set_block_size(bs);
	tpie_init(ALL & ~DEFAULT_LOGGING);
	int k = (int)r.range(2, 5), threads = (int)r.range(1, 3);
	int maxops = (int)a.num("ops", 60);
	bool allcomp = r.chance(60);
	struct One { Cfg c; bool life; Rng r{1}; std::unique_ptr<IMachine> m; std::unique_ptr<Gen> g; std::vector<std::string> log; int left; int64_t id; };
	std::vector<std::unique_ptr<One>> all;
	for (int i = 0; i < k; ++i) {
		auto o = std::make_unique<One>();
		o->life = r.chance(60);
		o->c = pick_cfg(r, o->life);
		if (allcomp && o->c.comp == 0) o->c.comp = 1 + (int)r.below(2);
		o->c.scheme = 1;
		if (o->c.itemSize > bs) o->c.itemSize = 4;
		o->c.bf = r.chance(70) ? 1 : 2;
		o->c.blockItems = std::max(1, (int)(bs * o->c.bf) / o->c.itemSize);
		o->r = Rng(r.next());
		o->left = (int)r.range(5, maxops); o->id = i;
		all.push_back(std::move(o));
	}
	auto worker = [&](int th) {
		std::vector<One *> mine;
		for (auto & o : all) if (o->id % threads == th) mine.push_back(o.get());
		Rng w(r.s + th);
		while (!mine.empty()) {
			size_t i = w.below(mine.size());
			One * o = mine[i];
			Log::sink() = &o->log;
			if (!o->m) { std::string d = a.dir + "/s" + std::to_string(o->id); mkdir(d.c_str(), 0755); o->m = make<Machine>(o->c, t, d); o->g.reset(new Gen(o->c, o->r, o->life)); o->g->solo = false; }
			int burst = (int)w.range(1, 12);
			bool done = false;
			while (burst-- && !done) done = o->left-- <= 0 || !o->g->step(o->m.get());
			if (done) { o->g->finish(o->m.get()); if (o->m->mode != "closed" && w.chance(50)) { o->m->op({"close"}); } o->m.reset(); mine.erase(mine.begin() + i); }
			Log::sink() = nullptr;
		}
	};
	std::vector<std::thread> th;
	for (int i = 1; i < threads; ++i) th.emplace_back(worker, i);
	worker(0);
	for (auto & x : th) x.join();
	tpie_finish(ALL & ~DEFAULT_LOGGING);
	for (auto & o : all) for (auto & l : o->log) log().line(l);
}

int main(int argc, char ** argv) {
	if (argc > 4 && std::string(argv[1]) == "--readfile") {
		tpie_init(ALL & ~DEFAULT_LOGGING);
		std::string p = argv[2]; int is = atoi(argv[3]); size_t bs = atoll(argv[4]); double bf = atof(argv[5]);
		int r = is == 1 ? readfile<1>(p, bs, bf) : is == 4 ? readfile<4>(p, bs, bf) : is == 8 ? readfile<8>(p, bs, bf) : readfile<13>(p, bs, bf);
		tpie_finish(ALL & ~DEFAULT_LOGGING);
		fflush(stdout);
		return r;
	}
	Args a = parse(argc, argv);
	{ char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k] = 0; g_exe = b; }
	g_dir = a.dir;
	bool life = a.get("life") == "1";
	int maxops = (int)a.num("ops", 60);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> * script) {
		if (a.mode == "multi") { multi(a, t, r); return; }
		Cfg c = pick_cfg(r, life);
		size_t so = 0;
		if (script) {
			for (; so < script->size(); ++so) {
				auto w = split((*script)[so]);
				if (w[0] == "comp") { if (w[1] == "0") c.comp = 0; else if (c.comp == 0) c.comp = 1 + (int)r.below(2); }
				else if (w[0] == "named") { if (w[1] == "0") c.kind = 2; else if (c.kind == 2) c.kind = (int)r.below(2); }
				else if (w[0] == "udmax") c.udmax = atoi(w[1].c_str());
				else break;
			}
			if (c.blockItems > 5) c.blockItems = (int)r.range(1, 4);
			if (c.bf < 1 && c.blockItems < 4) c.bf = 1;
		}
		set_block_size(c.itemSize * c.blockItems + c.slack);
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		vio::st().shortPct = (int)a.num("short", 0); vio::st().rng += trace_seed(a, t) * 2654435761u;
		auto m = make<Machine>(c, t, a.dir);
		if (script) {
			for (; so < script->size(); ++so) m->op(split((*script)[so]));
		} else {
			int n = (int)r.range(5, maxops);
			Gen g(c, r, life);
			for (int i = 0; i < n && g.step(m.get()); ++i) {}
			g.finish(m.get());
		}
		m.reset();
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
