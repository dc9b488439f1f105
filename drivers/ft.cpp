// Conformance driver for I/O failures (R03): streams, stacks, queues, serialization files and block collections while the
// operating system fails some of their calls.
#include "vd.h"
#include "vsched.h"
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/serialization_stream.h>
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
#include <tpie/compressed/thread.h>
using namespace vd;
using namespace tpie;

static const char * kind_of(const std::exception * e) {
	if (dynamic_cast<const out_of_space_exception *>(e)) return "full";
	if (dynamic_cast<const end_of_stream_exception *>(e)) return "eos";
	if (dynamic_cast<const invalid_file_exception *>(e)) return "invalid";
	if (dynamic_cast<const io_exception *>(e)) return "io";
	if (dynamic_cast<const stream_exception *>(e)) return "stream";
	if (dynamic_cast<const tpie::exception *>(e)) return "exc";
	return "std";
}
typedef Item<8> T;

// A sequence of items that is used through a cursor, from one end, or from both.
struct Seq {
	virtual ~Seq() {}
	virtual void open(const std::string & m) = 0;
	virtual void close() {}
	virtual bool is_open() { return true; }
	virtual int64_t size() = 0;
	virtual int64_t offset() { return 0; }
	virtual void write(int64_t v) = 0;
	virtual int64_t read() = 0;
	virtual int64_t readback() { return -5; }
	virtual void seek(int64_t) {}
	virtual void trunc(int64_t) {}
	virtual bool flushes() { return true; }      // close() writes what is left
};
struct FS : Seq {
	file_stream<T> s; std::string p; int comp; double bf;
	FS(const std::string & p_, int c, double b) : s(b), p(p_), comp(c) {}
	void open(const std::string & m) override {
		open::type f = open::defaults;
		if (comp == 1) f = f | open::compression_normal;
		if (comp == 2) f = f | open::compression_all;
		if (m == "ro") f = f | open::read_only;
		if (m == "wo") f = f | open::write_only;
		s.open(p, f);
	}
	void close() override { s.close(); }
	bool is_open() override { return s.is_open(); }
	int64_t size() override { return s.size(); }
	int64_t offset() override { return s.offset(); }
	void write(int64_t v) override { s.write(enc<8>(v)); }
	int64_t read() override { return dec(s.read()); }
	int64_t readback() override { return dec(s.read_back()); }
	void seek(int64_t n) override { if (!comp) s.seek(n); else if (n == 0) s.seek(0); else s.seek(0, file_stream<T>::end); }
	void trunc(int64_t n) override { if (comp && n != 0 && n != size()) s.truncate(s.get_position()); else s.truncate(n); }
};
struct US : Seq {
	uncompressed_stream<T> s; std::string p;
	US(const std::string & p_, double b) : s(b), p(p_) {}
	void open(const std::string & m) override { s.open(p, m == "ro" ? access_read : m == "wo" ? access_write : access_read_write); }
	void close() override { s.close(); }
	bool is_open() override { return s.is_open(); }
	int64_t size() override { return s.size(); }
	int64_t offset() override { return s.offset(); }
	void write(int64_t v) override { s.write(enc<8>(v)); }
	int64_t read() override { return dec(s.read()); }
	int64_t readback() override { return dec(s.read_back()); }
	void seek(int64_t n) override { s.seek(n); }
	void trunc(int64_t n) override { s.truncate(n); }
};
struct FL : Seq {
	file<T> f; std::unique_ptr<file<T>::stream> s; std::string p;
	FL(const std::string & p_, double b) : f(b), p(p_) {}
	~FL() { s.reset(); }
	void open(const std::string & m) override {
		f.open(p, m == "ro" ? access_read : m == "wo" ? access_write : access_read_write);
		s.reset(new file<T>::stream(f));
	}
	void close() override { if (s) s->detach(); s.reset(); f.close(); }
	bool is_open() override { return f.is_open() && s; }
	int64_t size() override { return f.size(); }
	int64_t offset() override { return s->offset(); }
	void write(int64_t v) override { s->write(enc<8>(v)); }
	int64_t read() override { return dec(s->read()); }
	int64_t readback() override { return dec(s->read_back()); }
	void seek(int64_t n) override { s->seek(n); }
};
struct ST : Seq {
	std::unique_ptr<tpie::stack<T>> s; std::string p; double bf;
	ST(const std::string & p_, double b) : p(p_), bf(b) {}
	void open(const std::string &) override { s.reset(new tpie::stack<T>(p, bf)); }
	void close() override { s.reset(); }
	bool is_open() override { return (bool)s; }
	int64_t size() override { return s->size(); }
	int64_t offset() override { return s->size(); }
	void write(int64_t v) override { s->push(enc<8>(v)); }
	int64_t read() override { return dec(s->pop()); }
};
struct QU : Seq {
	std::unique_ptr<tpie::queue<T>> s; compression_flags c;
	QU(compression_flags c_) : c(c_) {}
	void open(const std::string &) override { s.reset(new tpie::queue<T>(access_sequential, c)); }
	bool is_open() override { return (bool)s; }
	int64_t size() override { return s->size(); }
	void write(int64_t v) override { s->push(enc<8>(v)); }
	int64_t read() override { return dec(s->pop()); }
};
// Written from the beginning, read from the beginning.
template <typename W, typename R> struct SE : Seq {
	W w; R r; std::string p; int st = 0;
	SE(const std::string & p_) : p(p_) {}
	static std::string pad(int64_t v) { return std::string(v % 9 == 5 ? 1500000 + v % 100 : size_t(v * 7919 % 97), char(v)); }
	void open(const std::string & m) override { if (m == "wo") { st = 1; w.open(p); } else { st = 2; r.open(p); } }
	void close() override { int q = st; st = 0; if (q == 1) w.close(); else if (q == 2) r.close(); }
	bool is_open() override { return st != 0; }
	int64_t size() override { return -1; }
	void write(int64_t v) override { w.serialize(v); w.serialize(pad(v)); }
	int64_t read() override {
		if (!r.can_read()) throw end_of_stream_exception();
		int64_t v; std::string s;
		if (std::is_same<R, serialization_reader>::value) { r.unserialize(v); r.unserialize(s); } else { r.unserialize(s); r.unserialize(v); }
		return s == pad(v) ? v : -1;
	}
};

static std::string faults(Ev & e) { e.num("fr", vio::st().failedR).num("fw", vio::st().failedW); return ""; }

// Choose when and how calls fail.
struct Faulty {
	Rng & r; int mask; int err; bool on = false;
	int pct;
	Faulty(Rng & r_) : r(r_) {
		using namespace vio;
		mask = r.pick(std::vector<int>{1 << READ, 1 << READ, 1 << OPEN | 1 << READ, 1 << WRITE, 1 << WRITE, 1 << TRUNC, 1 << WRITE | 1 << TRUNC, 1 << READ | 1 << WRITE | 1 << TRUNC});
		err = (mask & (1 << READ | 1 << OPEN)) ? EIO : r.pick(std::vector<int>{EIO, ENOSPC});
		pct = r.pick(std::vector<int>{2, 5, 15});
	}
	void step() {
		if (!on && r.chance(pct)) { on = true; vio::arm(mask, r.range(1, r.chance(50) ? 1 : 6), err, r.chance(60) ? 1 : r.chance(50) ? 2 : 1000000); }
		else if (on && r.chance(25)) { on = false; vio::disarm(); }
	}
	void off() { on = false; vio::disarm(); }
};

static void sequence(const Args & a, int64_t t, Rng & r) {
	int per = (int)r.pick(std::vector<int>{1, 2, 3, 5});
	set_block_size(8 * per);
	double bf = r.pick(std::vector<double>{1, 1, 2});
	int scheme = (int)r.weighted({30, 70});
	tempname::set_default_path(a.dir);
	static const std::vector<std::string> K{"fs0", "fs0", "fs1", "fs1", "fs2", "fs2", "us", "us", "file", "stack", "queue", "ser", "rser"};
	std::string k = a.get("kind", r.pick(K));
	tpie_init(ALL & ~DEFAULT_LOGGING);
	{ compressor_thread_lock lk(the_compressor_thread()); the_compressor_thread().set_preferred_compression(lk, scheme ? compression_scheme::snappy : compression_scheme::none); }
	std::string p = a.dir + "/s";
	std::unique_ptr<Seq> s;
	if (k == "fs0" || k == "fs1" || k == "fs2") s.reset(new FS(p, k[2] - '0', bf));
	else if (k == "us") s.reset(new US(p, bf));
	else if (k == "file") s.reset(new FL(p, bf));
	else if (k == "stack") s.reset(new ST(p, bf));
	else if (k == "queue") s.reset(new QU(r.pick(std::vector<compression_flags>{compression_none, compression_normal, compression_all})));
	else if (k == "ser") s.reset(new SE<serialization_writer, serialization_reader>(p));
	else s.reset(new SE<serialization_reverse_writer, serialization_reverse_reader>(p));
	bool cursor = k[0] == 'f' || k == "us", fs = k[0] == 'f' && k != "file", ser = k == "ser" || k == "rser", comp = k == "fs1" || k == "fs2";
	Faulty f(r);
	int64_t br = get_bytes_read(), bw = get_bytes_written(), vr = vio::st().bytesR, vw = vio::st().bytesW;
	// what the operations chosen below may rely on
	std::string mode = "closed"; bool file = false;
	if (k == "stack" || k == "queue") f.pct = 6;
	Ev("new").num("t", t).str("kind", k).num("per", per).num("scheme", scheme).num("err", f.err).emit();
	std::string x;
	auto op = [&](const std::string & o, int64_t n = 0, const std::string & m = "") {
		Ev e(o.c_str()); std::vector<int64_t> res; x.clear();
		e.num("n", n).str("m", m);
		try {
			if (o == "open") s->open(m);
			else if (o == "close") s->close();
			else if (o == "write") s->write(n);
			else if (o == "read") res.push_back(s->read());
			else if (o == "readback") res.push_back(s->readback());
			else if (o == "seek") s->seek(n);
			else if (o == "trunc") s->trunc(n);
		} catch (const std::exception & ex) { x = kind_of(&ex); }
		bool op_ = s->is_open();
		if (ser && o != "open" && !x.empty() && x != "eos") { try { s->close(); } catch (const std::exception &) {} op_ = s->is_open(); }
		if ((k == "stack" || k == "queue") && !x.empty()) op_ = false;
		if (ser && o == "open" && !x.empty()) { try { s->close(); } catch (const std::exception &) {} op_ = s->is_open(); }
		// the size and the position come after a failed operation too
		int64_t sz = 0, of = 0;
		if (op_ && !ser) try { sz = s->size(); of = s->offset(); } catch (const std::exception & ex) { sz = -1; }
		e.str("x", x).seq("r", res).boolean("open", op_).num("size", sz).num("off", of);
		faults(e);
		e.emit();
		if (o == "open" && x.empty()) { mode = m; file = true; }
		if (!op_) mode = "closed";
	};
	int64_t ctr = 1;
	int ops = (int)r.range(10, (int)a.num("ops", 60));
	op("open", 0, ser ? "wo" : "rw");
	auto fill = [&](int64_t q) { while (q-- && mode != "closed" && mode != "ro") op("write", ctr++); };
	if (r.chance(80)) fill(r.range(1, 4 * per));
	for (int i = 0; i < ops; ++i) {
		f.step();
		if ((k == "stack" || k == "queue") && !x.empty()) break;   // there is no telling what state it is in
		if (mode == "closed") {
			if (k == "queue" || (k == "stack" && !s->is_open() && !file)) break;
			if (k == "stack") { op("open", 0, "rw"); if (mode == "closed") break; continue; }
			op("open", 0, !file ? (ser ? "wo" : "rw") : ser ? r.pick(std::vector<std::string>{"wo", "ro", "ro", "ro"}) : r.pick(std::vector<std::string>{"rw", "rw", "rw", "ro", "ro", "wo"}));
			continue;
		}
		bool W = mode != "ro", R = mode != "wo";
		int64_t sz = ser ? 0 : s->size(), of = ser ? 0 : s->offset();
		switch (r.weighted({30, 20, cursor && R && k != "file" ? 12 : 0, cursor ? 10 : 0, fs || k == "us" ? 6 : 0, k == "queue" || k == "stack" ? 0 : 8, cursor && W ? 8 : 0})) {
		case 0: if (W) { if (comp && of != sz) op("seek", sz); if (mode != "closed" && s->offset() == s->size()) op("write", ctr++); else if (mode != "closed" && !comp) op("write", ctr++); } break;
		case 1: if (R) { int64_t q = r.range(1, per * 2); while (q-- && mode != "closed" && (ser || (k == "stack" || k == "queue" ? s->size() > 0 : s->offset() < s->size()))) op("read"); } break;
		case 2: { int64_t q = r.range(1, per * 2); while (q-- && mode != "closed" && s->offset() > 0) op("readback"); break; }
		case 3: op("seek", comp ? (r.chance(50) ? 0 : sz) : r.range(0, sz)); break;
		case 4: if (W) op("trunc", comp ? (r.chance(40) ? 0 : r.chance(60) ? sz : of) : r.range(sz / 2, sz)); break;
		case 5: op("close"); break;
		case 6: if (of != sz) op("seek", sz); fill(r.range(1, per * 3)); break;
		}
	}
	f.off();
	Ev e0("calm"); faults(e0); e0.emit();
	if ((k == "queue" || k == "stack") && !x.empty()) {}
	else if (k == "queue" || k == "stack") { while (mode != "closed" && s->size() > 0) { op("read"); if (!x.empty()) break; } }
	else {
		if (mode != "closed" && r.chance(80)) op("close");
		if (mode == "closed" && file) op("open", 0, "ro");
		if (mode == "ro") { if (!ser) op("seek", 0); while (mode != "closed" && (ser || s->offset() < s->size())) { op("read"); if (!x.empty()) break; } if (mode != "closed") op("close"); }
	}
	{ Ev e("drop"); faults(e); e.emit(); }
	if (k == "stack" && x.empty()) {
		static_cast<ST *>(s.get())->s.reset();
		{ Ev e("dropped"); faults(e); e.emit(); }
		op("open", 0, "rw");
		while (mode != "closed" && s->size() > 0) { op("read"); if (!x.empty()) break; }
		{ Ev e("drop"); faults(e); e.emit(); }
	}
	s.reset();
	tpie_finish(ALL & ~DEFAULT_LOGGING);
	Ev e("end");
	e.num("dr", get_bytes_read() - br - (vio::st().bytesR - vr)).num("dw", get_bytes_written() - bw - (vio::st().bytesW - vw));
	faults(e);
	e.emit();
}

// Block collections: every block has one value, repeated.
static void blocks_(const Args & a, int64_t t, Rng & r) {
	using namespace tpie::blocks;
	size_t bs = (size_t)r.pick(std::vector<int64_t>{8, 24, 200});
	bool cached = r.chance(65);
	size_t csize = (size_t)r.pick(std::vector<int64_t>{1, 2, 3, 5});
	set_block_size(64);
	tempname::set_default_path(a.dir);
	tpie_init(ALL & ~DEFAULT_LOGGING);
	std::string path = a.dir + "/blocks";
	vio::st().root = path; vio::st().exact = true;
	std::unique_ptr<block_collection> c; std::unique_ptr<block_collection_cache> k;
	Faulty f(r);
	Ev("new").num("t", t).str("kind", cached ? "cache" : "blocks").num("csize", csize).num("bs", bs).num("err", f.err).emit();
	auto open = [&](bool w) { if (cached) k.reset(new block_collection_cache(path, bs, csize, w)); else c.reset(new block_collection(path, bs, w)); };
	open(true);
	std::map<int64_t, block_handle> live;
	std::set<int64_t> written;
	int64_t ctr = 1;
	auto encb = [&](int64_t v, char * p) { for (size_t i = 0; i < bs; ++i) p[i] = (char)(i < 3 ? v >> (8 * i) : v * 31 + i * 7); };
	auto decb = [&](const char * p) -> int64_t {
		int64_t v = (unsigned char)p[0] | (unsigned char)p[1] << 8 | (unsigned char)p[2] << 16;
		std::vector<char> q(bs); encb(v, q.data());
		return memcmp(q.data(), p, bs) ? -1 : v;
	};
	auto op = [&](const std::string & o, int64_t b = 0, int64_t v = 0) {
		Ev e(o.c_str()); std::string x; std::vector<int64_t> res;
		try {
			if (o == "alloc") { block_handle h = cached ? k->get_free_block() : c->get_free_block(); b = h.position / bs; live[b] = h; res.push_back(b); }
			else if (o == "free") { block_handle h = live[b]; live.erase(b); written.erase(b); if (cached) k->free_block(h); else c->free_block(h); }
			else if (o == "bwrite") {
				if (cached) { block * p = k->read_block(live[b]); encb(v, p->get()); k->write_block(live[b]); }
				else { block p(bs); encb(v, p.get()); c->write_block(live[b], p); }
			} else if (o == "bread") {
				if (cached) res.push_back(decb(k->read_block(live[b])->get()));
				else { block p; c->read_block(live[b], p); res.push_back(decb(p.get())); }
			}
		} catch (const std::exception & ex) { x = kind_of(&ex); }
		e.num("b", b).num("v", v).str("x", x).seq("r", res);
		faults(e);
		e.emit();
		if (o == "bwrite" && x.empty()) written.insert(b);
	};
	auto any = [&](const auto & m) { auto i = m.begin(); std::advance(i, r.below(m.size())); return *i; };
	int ops = (int)r.range(10, (int)a.num("ops", 60));
	for (int i = 0; i < ops; ++i) {
		f.step();
		int64_t w = written.empty() ? -1 : any(written);
		switch (r.weighted({20, live.empty() ? 0 : 8, live.empty() ? 0 : 30, w < 0 ? 0 : 30})) {
		case 0: if (live.size() < 10) { size_t n = live.size(); int64_t old = (int64_t)n; (void)old; op("alloc");
			// a new block gets a value at once: until then nothing may be read from the file
			if (live.size() > n) for (auto & l : live) if (!written.count(l.first)) { op("bwrite", l.first, ctr++); break; } } break;
		case 1: op("free", any(live).first); break;
		case 2: { int64_t b = any(live).first; if (!cached || written.count(b) || r.chance(20)) op("bwrite", b, ctr++); break; }
		case 3: op("bread", w); break;
		}
	}
	f.off();
	Ev e0("calm"); faults(e0); e0.emit();
	if (cached || r.chance(50)) { k.reset(); c.reset(); Ev e("reopen"); faults(e); e.emit(); open(false); }
	for (int64_t b : std::set<int64_t>(written)) op("bread", b);
	{ Ev e("drop"); faults(e); e.emit(); }
	k.reset(); c.reset();
	tpie_finish(ALL & ~DEFAULT_LOGGING);
	Ev e("end"); e.num("dr", 0).num("dw", 0); faults(e); e.emit();
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		vio::st().shortPct = (int)a.num("short", 20); vio::st().wholeHeader = true; vio::st().rng += trace_seed(a, t) * 2654435761u;
		if (a.mode == "blocks") blocks_(a, t, r); else sequence(a, t, r);
	});
}
