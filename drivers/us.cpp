// Conformance driver for tpie::uncompressed_stream and tpie::file<T>::stream (S04).
#include "vd.h"
#include "vsched.h"
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;

struct Cfg { bool plain = true; int itemSize = 4, blockItems = 3, slack = 0; double bf = 1; int kind = 0; int udmax = 0; int cache = 0; };

static const char * kind_of(const std::exception * e) {
	if (dynamic_cast<const end_of_stream_exception *>(e)) return "eos";
	if (dynamic_cast<const invalid_file_exception *>(e)) return "invalid";
	if (dynamic_cast<const io_exception *>(e)) return "io";
	if (dynamic_cast<const stream_exception *>(e)) return "stream";
	if (dynamic_cast<const tpie::exception *>(e)) return "exc";
	return "std";
}
static std::string slurp(const std::string & p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spew(const std::string & p, const std::string & d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }

struct IMachine {
	virtual ~IMachine() {}
	virtual void op(const std::vector<std::string> & w) = 0;
	virtual int64_t size() = 0;
	virtual int64_t offset(int s) = 0;   // -1: not attached
	std::string mode = "rw";
	int64_t udmax = 0;
	bool exists = true;
};

template <size_t N, bool P> struct Machine : IMachine {
	typedef Item<N> T;
	typedef uncompressed_stream<T> US;
	typedef file<T> F;
	typedef typename F::stream FS;
	Cfg c;
	std::unique_ptr<temp_file> tf;
	std::unique_ptr<US> us;
	std::unique_ptr<F> f;
	std::unique_ptr<FS> fs[3];
	std::string path, before;

	template <typename O> void doopen(O & o, access_type a, int64_t u) {
		cache_hint h = c.cache == 0 ? access_sequential : c.cache == 1 ? access_normal : access_random;
		if (c.kind == 1) o.open(*tf, a, u, h);
		else if (c.kind == 2) { o.open(u, h); path = o.path(); }
		else o.open(path, a, u, h);
	}
	Machine(const Cfg & c_, int64_t t, const std::string & dir) : c(c_) {
		Ev("new").num("t", t).boolean("plain", P).boolean("named", c.kind != 2).num("udmax", c.udmax).num("item", c.itemSize)
			.num("block", c.blockItems).num("slack", c.slack).num("bf10", int64_t(c.bf * 10)).num("kind", c.kind).emit();
		path = dir + "/s";
		if (c.kind == 1) { tf.reset(new temp_file()); path = tf->path(); }
		if (P) { us.reset(new US(c.bf)); doopen(*us, access_read_write, c.udmax); }
		else { f.reset(new F(c.bf)); doopen(*f, access_read_write, c.udmax); }
		udmax = c.udmax;
	}
	bool is_open() { return P ? us->is_open() : f->is_open(); }
	int64_t size() override { return P ? us->size() : f->size(); }
	int64_t offset(int s) override {
		if (P) return s == 0 && us->is_open() ? (int64_t)us->offset() : -1;
		return fs[s] && fs[s]->attached() ? (int64_t)fs[s]->offset() : -1;
	}
	void obs(Ev & e) {
		std::vector<int64_t> o, cr, cb;
		for (int s = 0; s < 3; ++s) {
			o.push_back(is_open() ? offset(s) : -1);
			bool a = o.back() >= 0;
			cr.push_back(a && (P ? us->can_read() : fs[s]->can_read()));
			cb.push_back(a && (P ? us->can_read_back() : fs[s]->can_read_back()));
		}
		e.num("size", is_open() ? size() : 0).seq("off", o).seq("cr", cr).seq("cb", cb);
	}
	template <typename S> void sop(S & s, const std::vector<std::string> & w, Ev & e, std::vector<int64_t> & r) {
		const std::string & o = w[0];
		if (o == "read") r.push_back(dec<N>(s.read()));
		else if (o == "readback") r.push_back(dec<N>(s.read_back()));
		else if (o == "reada") {
			int64_t n = atoll(w[2].c_str()); e.num("n", n);
			std::vector<T> buf(n, enc<N>(254));
			s.read(buf.begin(), buf.end());
			for (auto & b : buf) r.push_back(dec<N>(b));
		} else if (o == "write") {
			std::vector<int64_t> a{atoll(w[2].c_str())}; e.seq("a", a);
			s.write(enc<N>(a[0]));
		} else if (o == "writea") {
			std::vector<int64_t> a; std::vector<T> b;
			for (size_t i = 2; i < w.size(); ++i) { a.push_back(atoll(w[i].c_str())); b.push_back(enc<N>(a.back())); }
			e.seq("a", a);
			s.write(b.begin(), b.end());
		} else if (o == "seek") {
			int64_t n = atoll(w[2].c_str()); e.num("n", n).str("w", w[3]);
			s.seek(n, w[3] == "beg" ? S::beginning : w[3] == "end" ? S::end : S::current);
		} else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(94); }
	}
	void sop1(US & s, const std::vector<std::string> & w, Ev & e, std::vector<int64_t> & r) {
		if (w[0] == "peek") r.push_back(dec<N>(s.peek()));
		else if (w[0] == "skip") s.skip();
		else if (w[0] == "skipback") s.skip_back();
		else sop(s, w, e, r);
	}
	template <typename O> void fop(O & o_, const std::vector<std::string> & w, Ev & e, std::vector<int64_t> & r) {
		const std::string & o = w[0];
		if (o == "trunc") { int64_t n = atoll(w[1].c_str()); e.num("n", n); o_.truncate(n); }
		else if (o == "wud") {
			std::vector<int64_t> a; std::string b;
			for (size_t i = 1; i < w.size(); ++i) { a.push_back(atoll(w[i].c_str())); b.push_back(char(a.back())); }
			e.seq("a", a);
			o_.write_user_data((const void *)b.data(), b.size());
		} else if (o == "rud") {
			std::vector<unsigned char> b(64, 0xEE);
			size_t k = o_.read_user_data((void *)b.data(), o_.user_data_size());
			if (k != o_.user_data_size()) k = 63;
			for (size_t i = 0; i < k; ++i) r.push_back(b[i]);
		} else if (o == "close") {
			bool ro = mode == "ro";
			o_.close(); mode = "closed";
			e.boolean("same", !ro || slurp(path) == before);
			if (c.kind == 2) exists = false;
		} else if (o == "open") {
			int64_t u = atoll(w[2].c_str());
			e.str("m", w[1]).num("u", u);
			if (w[1] == "ro") before = slurp(path);
			doopen(o_, w[1] == "wo" ? access_write : w[1] == "ro" ? access_read : access_read_write, u);
			mode = w[1];
			if (w[1] == "wo") udmax = u;
		} else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(94); }
	}
	void op(const std::vector<std::string> & w) override {
		if (getenv("VD_OPS")) fprintf(stderr, "op %s\n", join(w).c_str());
		Ev e(w[0].c_str());
		std::vector<int64_t> r; std::string x;
		const std::string & o = w[0];
		static const std::set<std::string> fops{"trunc", "wud", "rud", "close", "open"};
		try {
			if (fops.count(o)) { if (P) fop(*us, w, e, r); else fop(*f, w, e, r); }
			else if (o == "badopen") { e.str("k", w[1]); bad(w[1], e); }
			else if (o == "swap") {
				US other(c.bf);
				if (w[1] == "2") { std::string p2 = path + ".other"; other.open(p2); other.write(enc<N>(9)); }
				us->swap(other);
				std::unique_ptr<US> q(new US(c.bf));
				q->swap(other);      // now q is the stream, *us the other one
				us.swap(q);
				if (q->is_open()) q->close();
				unlink((path + ".other").c_str());
			}
			else {
				int s = atoi(w[1].c_str());
				// a script made by the specification may have taken another branch of a nondeterministic step
				if ((o == "attach") == (offset(s) >= 0)) return;
				e.num("s", s);
				if (o == "attach") {
					int64_t n = atoll(w[2].c_str()); e.num("n", n);
					fs[s].reset();
					if (n == 0 && c.cache != 1) { fs[s].reset(new FS()); fs[s]->attach(*f); }
					else fs[s].reset(new FS(*f, n));
				} else if (o == "detach") { if (c.cache == 2) fs[s].reset(); else fs[s]->detach(); }
				else if (P) sop1(*us, w, e, r); else sop(*fs[s], w, e, r);
			}
		} catch (const std::exception & ex) { x = kind_of(&ex); }
		e.str("x", x).seq("r", r);
		if (o == "close" && !x.empty()) e.boolean("same", false);
		obs(e);
		e.emit();
	}
	template <typename U> void tryopen(const std::string & p, access_type a) {
		if (P) { uncompressed_stream<U> s(c.bf); s.open(p, a); } else { file<U> s(c.bf); s.open(p, a); }
	}
	void bad(const std::string & k, Ev & e) {
		std::string d = slurp(path), b = d, copy = path + ".copy";
		access_type a = k.size() > 2 && k.substr(k.size() - 2) == "ro" ? access_read : access_read_write;
		bool same = false;
		try {
			if (k.compare(0, 4, "size") == 0) tryopen<Item<N + 1>>(path, a);
			else {
				if (k.compare(0, 5, "magic") == 0) d[2] ^= 0x20;
				else if (k.compare(0, 4, "vers") == 0) d[8] ^= 1;
				else if (k.compare(0, 4, "torn") == 0) d.resize(std::min<size_t>(d.size(), atoi(k.c_str() + 4)));
				else if (k.compare(0, 4, "junk") == 0) d.assign(4096, 'y');
				spew(copy, d);
				tryopen<T>(copy, a);
			}
		} catch (...) { same = slurp(path) == b; e.boolean("same", same); unlink(copy.c_str()); throw; }
		unlink(copy.c_str());
		e.boolean("same", slurp(path) == b);
	}
};
template <size_t N> std::unique_ptr<IMachine> mk(const Cfg & c, int64_t t, const std::string & d) {
	if (c.plain) return std::unique_ptr<IMachine>(new Machine<N, true>(c, t, d));
	return std::unique_ptr<IMachine>(new Machine<N, false>(c, t, d));
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	int maxops = (int)a.num("ops", 60);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> * script) {
		Cfg c;
		c.plain = r.chance(50);
		c.itemSize = r.pick(std::vector<int>{1, 4, 8, 13});
		c.blockItems = r.pick(std::vector<int>{1, 2, 3, 3, 4, 5, 7, 16});
		c.slack = r.chance(40) ? (int)r.below(c.itemSize) : 0;
		c.bf = r.pick(std::vector<double>{1, 1, 1, 2, 0.5});
		c.kind = (int)r.weighted({60, 20, 20});
		c.udmax = r.chance(40) ? (int)r.range(1, 12) : 0;
		c.cache = (int)r.below(3);
		size_t so = 0;
		if (script) {
			for (; so < script->size(); ++so) {
				auto w = split((*script)[so]);
				if (w[0] == "plain") c.plain = w[1] == "1";
				else if (w[0] == "named") { if (w[1] == "0") c.kind = 2; else if (c.kind == 2) c.kind = (int)r.below(2); }
				else if (w[0] == "udmax") c.udmax = atoi(w[1].c_str());
				else break;
			}
			if (c.blockItems > 5) c.blockItems = (int)r.range(1, 4);
		}
		if (c.bf < 1 && c.blockItems < 4) c.bf = 1;
		set_block_size(c.itemSize * c.blockItems + c.slack);
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		vio::st().shortPct = (int)a.num("short", 0); vio::st().rng += trace_seed(a, t) * 2654435761u;
		{
		std::unique_ptr<IMachine> m = c.itemSize == 1 ? mk<1>(c, t, a.dir) : c.itemSize == 4 ? mk<4>(c, t, a.dir) : c.itemSize == 8 ? mk<8>(c, t, a.dir) : mk<13>(c, t, a.dir);
		auto attached = [&](int s) { return m->mode != "closed" && m->offset(s) >= 0; };
		auto num = [](int64_t n) { return std::to_string(n); };
		if (script) {
			for (; so < script->size(); ++so) m->op(split((*script)[so]));
		} else {
			int n = (int)r.range(5, maxops);
			int bi = std::max(1, int((c.itemSize * c.blockItems + c.slack) * c.bf) / c.itemSize);
			int64_t lim = bi * 4 + 3;
			int vmax = c.itemSize == 1 ? 250 : 60000;
			auto val = [&]() { return num(r.range(1, vmax)); };
			std::vector<int> wt;
			for (int i = 0; i < 14; ++i) wt.push_back(r.chance(30) ? 0 : (int)r.range(1, 20));
			if (wt[0] < 4) wt[0] = 4;
			wt[11] = 1 + wt[11] / 8; wt[12] = c.plain ? 0 : 1 + wt[12] / 4; wt[13] = c.plain ? 1 : 0;
			for (int i = 0; i < n; ++i) {
				if (m->mode == "closed") {
					if (!m->exists && c.kind == 2) break;
					if (r.chance(25)) { m->op({"badopen", r.pick(std::vector<std::string>{"size", "sizero", "magic", "magicro", "versro", "torn0", "torn10ro", "torn30", "junk"})}); continue; }
					m->op({"open", r.pick(std::vector<std::string>{"rw", "rw", "rw", "ro", "ro", "wo"}), num(r.chance(70) ? r.below(m->udmax + 1) : r.range(0, 12))});
					continue;
				}
				bool canW = m->mode != "ro", canR = m->mode != "wo";
				int s = c.plain ? 0 : (int)r.below(3);
				int64_t sz = m->size();
				if (!attached(s)) {
					bool any = false; for (int q = 0; q < 3; ++q) any |= attached(q);
					if (!any && canW && r.chance(15)) { m->op({"trunc", num(r.range(0, sz + bi))}); continue; }
					if (!any && r.chance(10)) { m->op({"close"}); continue; }
					m->op({"attach", num(s), num(r.chance(60) ? 0 : r.chance(95) ? r.range(0, sz) : sz + 1)}); continue;
				}
				int64_t of = m->offset(s);
				std::string S = num(s);
				switch (r.weighted(wt)) {
				case 0: case 1: if (canW && (of < sz || sz < lim * 2)) m->op({"write", S, val()}); break;
				case 2: if (canW && sz < lim) {
						std::vector<std::string> o{"writea", S};
						int64_t q = r.below(r.chance(30) ? 2 * bi + 3 : 4);
						for (int64_t j = 0; j < q; ++j) o.push_back(val());
						m->op(o);
					} break;
				case 3: if (canR) m->op({"read", S}); break;
				case 4: if (canR) m->op({c.plain ? "peek" : "read", S}); break;
				case 5: if (c.plain) { int q = (int)r.range(1, bi + 1); while (q--) m->op({r.chance(50) || !canR ? "skip" : "read", S}); } break;
				case 6: if (canR) m->op({"readback", S}); break;
				case 7: if (c.plain) { int q = (int)r.range(1, bi + 1); while (q--) m->op({"skipback", S}); } break;
				case 8: if (canR) m->op({"reada", S, num(r.below(2 * bi + 2))}); break;
				case 9: {
						static const char * W[] = {"beg", "end", "cur"};
						int wi = (int)r.below(3); int64_t n_;
						if (r.chance(88)) { int64_t tg = r.chance(40) ? std::min<int64_t>(sz, r.below(sz / bi + 1) * bi) : r.range(0, sz); n_ = wi == 0 ? tg : wi == 1 ? tg - sz : tg - of; }
						else n_ = r.range(-sz - 2, sz + 2);
						m->op({"seek", S, num(n_), W[wi]});
					} break;
				case 10: if (canW && c.plain) m->op({"trunc", num(r.chance(85) ? r.range(0, sz) : r.range(0, sz + bi * 2))});
					else if (!c.plain) m->op({"detach", S});
					break;
				case 11: if (c.plain) { m->op({"close"}); break; }
					for (int q = 0; q < 3; ++q) if (attached(q)) m->op({"detach", num(q)});
					m->op({"close"});
					break;
				case 12: if (r.chance(50) && canR) m->op({"rud"}); else if (canW) { std::vector<std::string> o{"wud"}; int q = (int)r.below(m->udmax + 2); while (q--) o.push_back(num(r.below(256))); m->op(o); } break;
				case 13: m->op({"swap", r.chance(50) ? "1" : "2"}); break;
				}
			}
			if (m->mode == "wo") {
				for (int q = 0; q < 3; ++q) if (!c.plain && attached(q)) m->op({"detach", num(q)});
				m->op({"close"}); if (m->exists) m->op({"open", "ro", "0"});
			}
			if (m->mode != "closed") {
				if (!attached(0)) m->op({"attach", "0", "0"});
				m->op({"seek", "0", "0", "beg"});
				while (m->offset(0) < m->size()) m->op({"read", "0"});
				m->op({"read", "0"});
				if (r.chance(30)) while (m->offset(0) > 0) m->op({"readback", "0"});
			}
		}
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
