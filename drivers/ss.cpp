// Conformance driver for the serialization streams (S05).
#include "vd.h"
#include "vsched.h"
#include <tpie/serialization_stream.h>
#include <tpie/serialization2.h>
#include <tpie/file_manager.h>
#include <tpie/tempname.h>
using namespace vd;
using namespace tpie;

static const char * kind_of(const std::exception * e) {
	if (dynamic_cast<const end_of_stream_exception *>(e)) return "eos";
	if (dynamic_cast<const invalid_file_exception *>(e)) return "invalid";
	if (dynamic_cast<const io_exception *>(e)) return "io";
	if (dynamic_cast<const stream_exception *>(e)) return "stream";
	if (dynamic_cast<const tpie::exception *>(e)) return "exc";
	return "std";
}
static std::string slurp(const std::string & p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spew(const std::string & p, const std::string & d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }

// pseudo random content of object id
static std::string text(int64_t id, size_t n) {
	std::string s(n, 0);
	uint64_t h = uint64_t(id) * 0x9E3779B97F4A7C15ull + 99;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) { h = h * 6364136223846793005ull + 1442695040888963407ull; uint64_t g = h ^ (h >> 29); memcpy(&s[i], &g, 8); }
	for (; i < n; ++i) { h = h * 6364136223846793005ull + 1442695040888963407ull; s[i] = char(h >> 50); }
	return s;
}
struct Obj { char k; int64_t id; size_t len; };
typedef std::pair<std::string, int32_t> P;
typedef std::tuple<uint8_t, std::string, uint16_t> Tu;
static std::vector<double> vec(const Obj & o) { std::vector<double> v; for (size_t i = 0; i < o.len; ++i) v.push_back(o.id * 7.5 + i / 3.0); return v; }
static std::vector<uint32_t> ints(const Obj & o) { std::vector<uint32_t> v(o.len); for (size_t i = 0; i < o.len; ++i) v[i] = uint32_t(o.id * 1000003u + i * 2654435761u); return v; }
// parts of an object with several strings: lengths and contents depend on the object
static std::vector<std::string> words(const Obj & o) {
	std::vector<std::string> v; size_t n = o.id % 5, rest = o.len;
	for (size_t i = 0; i < n; ++i) { size_t k = i + 1 == n ? rest : rest * ((o.id * 7 + i * 3) % 4) / 4; v.push_back(text(o.id * 11 + i, k)); rest -= k; }
	return v;
}
// an object of a user, serialized piece by piece
struct User { uint16_t a; std::string s; std::vector<std::pair<uint8_t, std::string>> v; bool operator==(const User & o) const { return a == o.a && s == o.s && v == o.v; } };
template <typename D> void serialize(D & d, const User & u) { using tpie::serialize; serialize(d, u.a); serialize(d, u.s); serialize(d, u.v); }
template <typename S> void unserialize(S & d, User & u) { using tpie::unserialize; unserialize(d, u.a); unserialize(d, u.s); unserialize(d, u.v); }
static User user(const Obj & o) { User u; u.a = uint16_t(o.id * 5); u.s = text(o.id, o.len / 2); for (auto & w : words(o)) u.v.emplace_back(uint8_t(w.size()), w); return u; }
typedef std::vector<std::vector<uint32_t>> VV;
static VV rows(const Obj & o) { VV r; auto v = ints(o); size_t at = 0; for (size_t i = 0; at < v.size(); ++i) { size_t k = std::min(v.size() - at, (o.id + i * 5) % 7); r.emplace_back(v.begin() + at, v.begin() + at + k); at += k; if (k == 0) { r.emplace_back(1, v[at]); ++at; } } return r; }
typedef std::array<std::string, 3> A3;
static A3 three(const Obj & o) { A3 x; auto w = words(o); for (size_t i = 0; i < 3 && i < w.size(); ++i) x[i] = w[i]; return x; }
static std::u32string wide(const Obj & o) { std::u32string s; for (uint32_t x : ints(o)) s.push_back(char32_t(x)); return s; }
static size_t sum(const std::vector<std::string> & v) { size_t n = 0; for (auto & x : v) n += 8 + x.size(); return n; }
template <size_t N> struct Raw { unsigned char b[N]; };
static size_t bytes(const Obj & o) {
	switch (o.k) {
	case 'i': return 4;
	case 'u': return 8;
	case 's': return 8 + o.len;
	case 'v': return 8 + 8 * o.len;
	case 'p': return 8 + o.len + 4;
	case 't': return 1 + 8 + o.len + 2;
	case 'r': return 4 * o.len;
	case 'w': return 8 + 4 * o.len;
	case 'a': return 8 + 4 * o.len;
	case 'B': return 1 << 20;
	case 'n': case 'x': return 8 + sum(words(o));
	case 'R': return sum(words(o));
	case 'm': { size_t n = 8; for (auto & v : rows(o)) n += 8 + 4 * v.size(); return n; }
	case 'y': { size_t n = 0; for (auto & v : three(o)) n += 8 + v.size(); return n; }
	case 'h': return 10;
	case 'c': { size_t n = 0; for (auto & v : three(o)) n += 8 + v.size(); return n; }
	case 'U': return 8 + 4 * o.len;
	case 'o': { User u = user(o); size_t n = 2 + 8 + u.s.size() + 8; for (auto & v : u.v) n += 1 + 8 + v.second.size(); return n; }
	}
	return 0;
}
template <typename W> void put(W & w, const Obj & o) {
	switch (o.k) {
	case 'i': w.serialize(int32_t(o.id)); break;
	case 'u': w.serialize(uint64_t(o.id) * 1000000007ull); break;
	case 's': w.serialize(text(o.id, o.len)); break;
	case 'v': w.serialize(vec(o)); break;
	case 'p': w.serialize(P(text(o.id, o.len), int32_t(o.id))); break;
	case 't': w.serialize(Tu(uint8_t(o.id), text(o.id, o.len), uint16_t(o.id * 3))); break;
	case 'r': { auto v = ints(o); w.serialize(v.begin(), v.end()); break; }
	case 'w': w.serialize(ints(o)); break;
	case 'a': { auto v = ints(o); tpie::array<uint32_t> x(v.size()); std::copy(v.begin(), v.end(), x.begin()); w.serialize(x); break; }
	case 'n': w.serialize(words(o)); break;
	case 'x': { auto v = words(o); tpie::array<std::string> x(v.size()); std::copy(v.begin(), v.end(), x.begin()); w.serialize(x); break; }
	case 'R': { auto v = words(o); w.serialize(v.begin(), v.end()); break; }
	case 'm': w.serialize(rows(o)); break;
	case 'y': w.serialize(three(o)); break;
	case 'c': { auto v = three(o); std::string x[3] = {v[0], v[1], v[2]}; w.serialize(x); break; }
	case 'h': { uint16_t y[5]; for (int i = 0; i < 5; ++i) y[i] = uint16_t(o.id * 31 + i); w.serialize(y); break; }
	case 'U': w.serialize(wide(o)); break;
	case 'o': w.serialize(user(o)); break;
	case 'B': { std::unique_ptr<Raw<1 << 20>> r(new Raw<1 << 20>()); std::string t = text(o.id, 1 << 20); memcpy(r->b, t.data(), t.size()); w.serialize(*r); break; }
	}
}
// what serialized_size() says
struct Sizer { size_t n = 0; template <typename T> void serialize(const T & x) { n += serialized_size(x); } template <typename T> void serialize(T a, T b) { for (; a != b; ++a) n += serialized_size(*a); } };
static size_t sized(const Obj & o) { Sizer s; put(s, o); return s.n; }
template <typename R> bool get(R & r, const Obj & o) {
	switch (o.k) {
	case 'i': { int32_t x = -5; r.unserialize(x); return x == int32_t(o.id); }
	case 'u': { uint64_t x = 5; r.unserialize(x); return x == uint64_t(o.id) * 1000000007ull; }
	case 's': { std::string x = "zz"; r.unserialize(x); return x == text(o.id, o.len); }
	case 'v': { std::vector<double> x(1); r.unserialize(x); return x == vec(o); }
	case 'p': { P x; r.unserialize(x); return x == P(text(o.id, o.len), int32_t(o.id)); }
	case 't': { Tu x; r.unserialize(x); return x == Tu(uint8_t(o.id), text(o.id, o.len), uint16_t(o.id * 3)); }
	case 'r': { std::vector<uint32_t> v(o.len, 7); r.unserialize(v.begin(), v.end()); return v == ints(o); }
	case 'w': { std::vector<uint32_t> v; r.unserialize(v); return v == ints(o); }
	case 'a': { tpie::array<uint32_t> x; r.unserialize(x); auto v = ints(o); return x.size() == v.size() && std::equal(v.begin(), v.end(), x.begin()); }
	case 'n': { std::vector<std::string> x(2, "q"); r.unserialize(x); return x == words(o); }
	case 'x': { tpie::array<std::string> x(1); r.unserialize(x); auto v = words(o); return x.size() == v.size() && std::equal(v.begin(), v.end(), x.begin()); }
	case 'R': { auto v = words(o); std::vector<std::string> x(v.size(), "old"); r.unserialize(x.begin(), x.end()); return x == v; }
	case 'm': { VV x(3, std::vector<uint32_t>(2)); r.unserialize(x); return x == rows(o); }
	case 'y': { A3 x; r.unserialize(x); return x == three(o); }
	case 'c': { auto v = three(o); std::string x[3]; r.unserialize(x); return std::equal(v.begin(), v.end(), x); }
	case 'h': { uint16_t y[5]; r.unserialize(y); for (int i = 0; i < 5; ++i) if (y[i] != uint16_t(o.id * 31 + i)) return false; return true; }
	case 'U': { std::u32string x = U"ab"; r.unserialize(x); return x == wide(o); }
	case 'o': { User u; r.unserialize(u); return u == user(o); }
	case 'B': { std::unique_ptr<Raw<1 << 20>> q(new Raw<1 << 20>()); r.unserialize(*q); return memcmp(q->b, text(o.id, 1 << 20).data(), 1 << 20) == 0; }
	}
	return false;
}

struct M {
	std::string dir;
	std::unique_ptr<temp_file> tf[3];
	std::string path[3];
	std::unique_ptr<serialization_writer> fw; std::unique_ptr<serialization_reverse_writer> rw;
	std::unique_ptr<serialization_reader> fr; std::unique_ptr<serialization_reverse_reader> rr;
	std::vector<Obj> objs[3];
	int wf[2] = {-1, -1}, rf[2] = {-1, -1}; size_t ri[2] = {0, 0};
	int64_t nextId = 1;
	bool useTemp[3], destroy;
	size_t base;
	M(const std::string & d, Rng & r, int64_t t) : dir(d) {
		for (int i = 0; i < 3; ++i) { useTemp[i] = r.chance(30); if (useTemp[i]) { tf[i].reset(new temp_file()); path[i] = tf[i]->path(); } else path[i] = d + "/f" + std::to_string(i); }
		destroy = r.chance(40);
		fw.reset(new serialization_writer()); rw.reset(new serialization_reverse_writer());
		fr.reset(new serialization_reader()); rr.reset(new serialization_reverse_reader());
		base = get_file_manager().used();
		Ev("new").num("t", t).emit();
	}
	void done(Ev & e, const std::string & x, const std::vector<int64_t> & r) {
		std::vector<int64_t> cr, off, size;
		for (int d = 0; d < 2; ++d) {
			bool o = rf[d] >= 0;
			cr.push_back(o && (d == 0 ? fr->can_read() : rr->can_read()));
			off.push_back(o ? (d == 0 ? fr->offset() : rr->offset()) : 0);
			size.push_back(o ? (d == 0 ? fr->size() : rr->size()) : 0);
		}
		e.str("x", x).seq("r", r).num("open", int64_t(get_file_manager().used() - base)).seq("cr", cr).seq("off", off).seq("size", size);
		e.emit();
	}
	void op(const std::vector<std::string> & w) {
		Ev e(w[0] == "serb" ? "ser" : w[0].c_str());
		std::string x; std::vector<int64_t> r;
		const std::string & o = w[0];
		int d = atoi(w[1].c_str());
		try {
			if (o == "openw") {
				int f = atoi(w[2].c_str());
				e.num("d", d).num("f", f);
				objs[f].clear();
				wf[d] = f;
				if (d == 0) { if (useTemp[f]) fw->open(*tf[f]); else fw->open(path[f]); }
				else { if (useTemp[f]) rw->open(*tf[f]); else rw->open(path[f]); }
			} else if (o == "ser") {
				Obj q; q.k = w[2][0]; q.len = atoll(w[3].c_str()); q.id = nextId++;
				e.num("d", d).num("id", q.id).num("b", bytes(q)).str("k", w[2]).num("len", q.len);
				objs[wf[d]].push_back(q);
				if (d == 0) put(*fw, q); else put(*rw, q);
				if (sized(q) != bytes(q)) x = "size";
			} else if (o == "closew") {
				e.num("d", d);
				if (destroy) { if (d == 0) fw.reset(new serialization_writer()); else rw.reset(new serialization_reverse_writer()); }
				else { if (d == 0) fw->close(); else rw->close(); }
				wf[d] = -1;
			} else if (o == "openr") {
				int f = atoi(w[2].c_str());
				e.num("d", d).num("f", f);
				rf[d] = -1;
				if (d == 0) { if (useTemp[f]) fr->open(*tf[f]); else fr->open(path[f]); }
				else { if (useTemp[f]) rr->open(*tf[f]); else rr->open(path[f]); }
				rf[d] = f; ri[d] = 0;
			} else if (o == "unser") {
				e.num("d", d);
				size_t n = objs[rf[d]].size();
				Obj q{'i', 0, 0};
				if (ri[d] < n) q = d == 0 ? objs[rf[d]][ri[d]] : objs[rf[d]][n - 1 - ri[d]];
				else if (nextId % 2) q = Obj{'u', 1, 0};
				bool ok = d == 0 ? get(*fr, q) : get(*rr, q);
				r.push_back(ok ? q.id : -1);
				++ri[d];
			} else if (o == "closer") {
				e.num("d", d);
				if (destroy) { if (d == 0) fr.reset(new serialization_reader()); else rr.reset(new serialization_reverse_reader()); }
				else { if (d == 0) fr->close(); else rr->close(); }
				rf[d] = -1;
			} else if (o == "damage") {
				int f = d; const std::string & k = w[2];
				e.num("f", f).str("k", k);
				std::string c = slurp(path[f]);
				if (k == "magic") c[1] ^= 4; else if (k == "version") c[8] ^= 2; else if (k == "unclean") c[24] = 0;
				else if (k == "torn") c.resize(std::min<size_t>(c.size(), nextId * 7 % 26)); else if (k == "empty") c.clear(); else if (k == "gone") { unlink(path[f].c_str()); }
				if (k != "gone") spew(path[f], c);
			} else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(94); }
		} catch (const std::exception & ex) { x = kind_of(&ex); }
		done(e, x, r);
	}
	bool busy(int f) { return wf[0] == f || wf[1] == f || rf[0] == f || rf[1] == f; }
};

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> * script) {
		tempname::set_default_path(a.dir);
		tpie_init(ALL & ~DEFAULT_LOGGING);
		vio::st().shortPct = (int)a.num("short", 0); vio::st().rng += trace_seed(a, t) * 2654435761u;
		{
		M m(a.dir, r, t);
		const int64_t BS = 2 * 1024 * 1024;
		auto N = [](int64_t n) { return std::to_string(n); };
		int64_t budget = 14000000;
		auto obj = [&](int d) {
			static const char * K = "iusvptrwanxRmychUo";
			// bytes the current file has so far decide where block borders are
			int64_t tot = 0; for (auto & o : m.objs[m.wf[d]]) tot += bytes(o);
			char k = K[r.below(18)];
			int64_t len = r.below(40);
			size_t c = r.weighted({60, 12, 10, 10, 8});
			if (budget < 2 * BS) c = 0;
			if (c == 1) len = r.below(9000);
			else if (c == 2) { k = 's'; len = BS - tot % BS - 8 + r.range(-9, 9); if (len < 0) len += BS; }          // end near a block border
			else if (c == 3) { k = "svpt"[r.below(4)]; len = r.range(BS / 3, BS * 3 / 2); }
			else if (c == 4) { k = r.chance(50) ? 'r' : 'B'; len = r.range(BS / 16, BS / 3); }
			budget -= c == 0 ? 0 : len;
			m.op({"ser", N(d), std::string(1, k), N(len)});
		};
		// sometimes a file that ends exactly where a block ends
		auto closew = [&](int d) {
			if (m.wf[d] >= 0 && r.chance(25)) {
				int64_t tot = 0; for (auto & o : m.objs[m.wf[d]]) tot += bytes(o);
				int64_t len = BS - tot % BS;
				if (len < BS) { while (len < 8) len += BS; m.op({"ser", N(d), "s", N(len - 8)}); }
			}
			m.op({"closew", N(d)});
		};
		if (script) {
			for (auto & l : *script) {
				auto w = split(l);
				if (w[0] == "closew") { closew(atoi(w[1].c_str())); continue; }
				if (w[0] == "serb") obj(atoi(w[1].c_str())); else m.op(w);
			}
		} else {
			int n = (int)r.range(6, (int)a.num("ops", 60));
			int prof = (int)r.below(3);
			for (int i = 0; i < n; ++i) {
				int d = (int)r.below(2); int f = (int)r.below(3);
				size_t k = r.weighted(prof == 0 ? std::vector<int>{6, 30, 4, 5, 30, 2, 1} : prof == 1 ? std::vector<int>{3, 40, 2, 3, 40, 1, 0} : std::vector<int>{10, 20, 6, 10, 20, 6, 4});
				switch (k) {
				case 0: if (m.wf[d] != f && !m.busy(f) && (m.wf[d] < 0 || r.chance(30))) m.op({"openw", N(d), N(f)}); break;
				case 1: if (m.wf[d] >= 0) { int q = (int)r.range(1, 5); while (q--) obj(d); } break;
				case 2: if (m.wf[d] >= 0) closew(d); break;
				case 3: if (r.chance(70)) { for (int g = 0; g < 3; ++g) if (!m.busy(g) && !m.objs[g].empty()) { f = g; } } if (m.rf[d] < 0 || r.chance(30)) m.op({"openr", N(d), N(f)}); break;
				case 4: if (m.rf[d] >= 0) { int q = (int)r.range(1, 6); while (q--) m.op({"unser", N(d)}); } break;
				case 5: if (m.rf[d] >= 0) m.op({"closer", N(d)}); break;
				case 6: if (!m.busy(f)) { struct stat st; if (stat(m.path[f].c_str(), &st) == 0 && st.st_size > 100) m.op({"damage", N(f), r.pick(std::vector<std::string>{"magic", "version", "unclean", "torn", "empty", "gone"})}); } break;
				}
			}
			// finish: close the writers, read everything
			for (int d = 0; d < 2; ++d) {
				if (m.wf[d] < 0) continue;
				int f = m.wf[d];
				closew(d);
				m.op({"openr", N(d), N(f)});
				for (size_t i = 0; i <= m.objs[f].size() + 1; ++i) m.op({"unser", N(d)});
			}
		}
		}
		tpie_finish(ALL & ~DEFAULT_LOGGING);
	});
}
