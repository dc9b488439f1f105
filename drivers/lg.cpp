// Conformance driver for the log (R06): streams of all levels, listening targets, the default log, groups.
#include "vd.h"
#include <tpie/tpie_log.h>
#include <tpie/tempname.h>
#include <tpie/progress_indicator_subindicator.h>
using namespace vd;
using namespace tpie;

enum { DIRECT = 11, FILE_T = 8, ERR_T = 9, NSTREAMS = 12 };
// Text of a stream: a sequence without repetitions in digits of its own, so what arrives can be told apart and placed.
static char digit(int s, int d) { return s == DIRECT ? (d ? char('K' + d) : char(0)) : char(128 + s * 10 + d); }
static int stream_of(unsigned char c) { if (c == 0 || (c > 'K' && c <= 'T')) return DIRECT; if (c >= 128 && c < 128 + 110) return (c - 128) / 10; return -1; }
static std::string text[NSTREAMS];
static std::string more(int s, int64_t n) {
	std::string r;
	while ((int64_t)r.size() < n) {
		uint64_t h = (text[s].size() + r.size() + 1) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
		r += digit(s, int(h % 10));
	}
	text[s] += r;
	return r;
}
struct Del { int64_t t, s, l, pos, len, depth; };
struct Grp { int64_t t, k, g, depth; };
static std::vector<Del> dels; static std::vector<Grp> grps;
static std::map<std::pair<int, int>, size_t> came;   // where to look first
static void deliver(int t, int l, const std::string & m, int64_t depth) {
	size_t o = 0;
	while (o < m.size()) {
		int s = stream_of((unsigned char)m[o]); size_t e = o;
		while (e < m.size() && stream_of((unsigned char)m[e]) == s) ++e;
		std::string c = m.substr(o, e - o);
		int64_t pos = -1;
		if (s >= 0) {
			size_t p = c.size() <= text[s].size() && text[s].compare(text[s].size() - c.size(), c.size(), c) == 0 ? text[s].size() - c.size() : text[s].find(c, came[{t, s}]);
			if (p == std::string::npos) p = text[s].find(c);
			if (p != std::string::npos) { pos = (int64_t)p; came[{t, s}] = p + c.size(); }
		}
		dels.push_back({t, s, l < 0 ? s : l, pos, (int64_t)c.size(), depth});
		o = e;
	}
	if (m.empty()) dels.push_back({t, -1, l, -1, 0, depth});
}
static int64_t group_no(const std::string & n) { return n.size() > 1 && n[0] == 'g' ? atoll(n.c_str() + 1) : -1; }
struct Target : public log_target {
	int t;
	explicit Target(int t) : t(t) {}
	void log(log_level l, const char * m, size_t n) override {
		deliver(t, l, std::string(m, n), -1);
	}
	void begin_group(const std::string & n) override { grps.push_back({t, 1, group_no(n), -1}); }
	void end_group() override { grps.push_back({t, -1, 0, -1}); }
};
struct Tail {
	std::string path; size_t at = 0; int t;
	// What was added since the last look.
	void look() {
		if (path.empty()) return;
		std::ifstream f(path, std::ios::binary); f.seekg((std::streamoff)at);
		std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		at += s.size();
		size_t o = 0;
		while (o < s.size()) {
			if (stream_of((unsigned char)s[o]) >= 0) {
				size_t e = o; while (e < s.size() && stream_of((unsigned char)s[e]) >= 0) ++e;
				deliver(t, -1, s.substr(o, e - o), -1); o = e; continue;
			}
			int64_t d = 0; while (o < s.size() && s[o] == '|') { ++d; ++o; }
			if (o < s.size() && s[o] == ' ') {
				++o; size_t e = o; while (e < s.size() && stream_of((unsigned char)s[e]) >= 0) ++e;
				// raw text of other levels may follow directly
				size_t f1 = e; if (o < e) { int k = stream_of((unsigned char)s[o]); f1 = o; while (f1 < e && stream_of((unsigned char)s[f1]) == k) ++f1; }
				deliver(t, -1, s.substr(o, f1 - o), d); o = f1; continue;
			}
			static const std::string in = "> Entering ", out = "x Leaving ";
			bool b = s.compare(o, in.size(), in) == 0, x = s.compare(o, out.size(), out) == 0;
			size_t nl = s.find('\n', o);
			if ((b || x) && nl != std::string::npos) {
				size_t k = o + (b ? in.size() : out.size());
				grps.push_back({t, b ? 1 : -1, group_no(s.substr(k, nl - k)), d}); o = nl + 1; continue;
			}
			dels.push_back({t, -3, -3, -1, (int64_t)(s.size() - o), d}); return;
		}
	}
};

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	setenv("HOME", a.dir.c_str(), 1);
	int64_t ops = a.num("ops", 60);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		tempname::set_default_path(a.dir);
		Tail err, file; err.path = a.dir + "/err"; err.t = ERR_T; file.t = FILE_T;
		{ int fd = ::open(err.path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, 2); ::close(fd); }
		std::vector<std::unique_ptr<Target>> targets; std::vector<bool> there(5, false); bool dflt = false;
		for (int k = 0; k < 5; ++k) targets.emplace_back(new Target(k));
		std::vector<std::function<void()>> open; int64_t groups = 0;
		std::vector<std::unique_ptr<scoped_log_enabler>> sw;
		Ev("new").num("t", t).emit();
		auto done = [&](Ev & e) {
			err.look(); file.look();
			std::string d = "[", g = "[";
			for (auto & x : dels) { if (d.size() > 1) d += ","; d += "[" + std::to_string(x.t) + "," + std::to_string(x.s) + "," + std::to_string(x.l) + "," + std::to_string(x.pos) + "," + std::to_string(x.len) + "," + std::to_string(x.depth) + "]"; }
			for (auto & x : grps) { if (g.size() > 1) g += ","; g += "[" + std::to_string(x.t) + "," + std::to_string(x.k) + "," + std::to_string(x.g) + "," + std::to_string(x.depth) + "]"; }
			e.raw("d", d + "]").raw("g", g + "]").emit();
			dels.clear(); grps.clear();
		};
		// mostly few levels, so that their streams fill up
		std::vector<int> levels{(int)r.below(11), (int)r.below(11), 5};
		auto stream = [&](int l) -> logstream & {
			switch (l) {
			case 0: return log_fatal(); case 1: return log_error(); case 2: return log_warning(); case 3: return log_info();
			case 4: return log_app_debug(); case 5: return log_debug(); case 6: return log_mem_debug(); case 7: return log_pipe_debug();
			default: return get_log_by_level((log_level)l);
			}
		};
		auto amount = [&]() -> int64_t {
			int k = (int)r.below(100);
			return k < 55 ? r.range(1, 12) : k < 75 ? r.range(100, 900) : k < 85 ? r.range(2040, 2052) : k < 90 ? r.range(4080, 4100) : r.range(1, 5000);
		};
		auto put = [&](std::ostream & o, const std::string & s) {
			switch (r.below(4)) {
			case 0: o << s; break;
			case 1: o.write(s.data(), (std::streamsize)s.size()); break;
			case 2: for (char c : s) o.put(c); break;
			default: { size_t p = 0; while (p < s.size()) { size_t n = std::min<size_t>(s.size() - p, (size_t)r.range(1, 3000)); o << s.substr(p, n); p += n; } }
			}
		};
		int sel = 3;
		for (int64_t i = 0; i < ops; ++i) {
			int l = r.chance(80) ? r.pick(levels) : (int)r.below(11);
			switch (r.weighted({30, 22, 6, 6, 4, 5, 7, 8, 3, 6, 8, 8})) {
			case 0: { int64_t n = amount(); std::string s = more(l, n); put(stream(l), s); Ev e("write"); e.num("l", l).num("n", n); done(e); break; }
			case 1: { if (r.chance(50)) stream(l).flush(); else stream(l) << std::flush; Ev e("flush"); e.num("l", l); done(e); break; }
			case 2: { int64_t n = amount(); int k = sel <= 7 ? sel : 3; std::string s = more(k, n); get_log() << s; Ev e("swrite"); e.num("n", n); done(e); break; }
			case 3: { get_log().flush(); Ev e("sflush"); done(e); break; }
			case 4: { sel = (int)r.below(11); if (r.chance(50)) get_log().set_level((log_level)sel); else get_log() << setlevel((log_level)sel); Ev e("select"); e.num("l", sel); done(e); break; }
			case 5: { int64_t n = r.range(1, 30); std::string s = more(DIRECT, n) + "LM"; log_to_targets((log_level)l, s.data(), (size_t)n); Ev e("hand"); e.num("l", l).num("n", n); done(e); break; }
			case 6: {
				if (!sw.empty() && r.chance(60)) { bool b = sw.back()->get_orig(); sw.pop_back(); Ev e("enable"); e.boolean("on", !b); done(e); }
				else { bool b = r.chance(50); sw.emplace_back(new scoped_log_enabler(b)); Ev e("enable"); e.boolean("on", b); done(e); }
				break;
			}
			case 7: {
				int k = (int)r.range(1, 4);
				if (there[k]) break;
				there[k] = true; if (r.chance(70)) add_log_target(targets[k].get()); else get_log().add_target(targets[k].get());
				Ev e("add"); e.seq("ts", std::vector<int>{k}); done(e); break;
			}
			case 8: {
				int k = (int)r.range(1, 4);
				there[k] = false; if (r.chance(70)) remove_log_target(targets[k].get()); else stream(l).remove_target(targets[k].get());
				Ev e("remove"); e.seq("ts", std::vector<int>{k}); done(e); break;
			}
			case 9: {
				if (!dflt) { init_default_log(); if (r.chance(20)) init_default_log(); dflt = true; file.path = log_name(); file.at = 0; Ev e("add"); e.seq("ts", std::vector<int>{FILE_T, ERR_T}); done(e); }
				else if (r.chance(30)) {
					finish_default_log(); if (r.chance(20)) finish_default_log(); dflt = false;
					Ev e("remove"); e.seq("ts", std::vector<int>{FILE_T, ERR_T}); done(e); file.path.clear();
				}
				break;
			}
			case 10: {
				if (open.size() > 6) break;
				int64_t g = ++groups; std::string n = "g" + std::to_string(g);
				switch (r.below(3)) {
				case 0: begin_log_group(n); open.push_back([] { end_log_group(); }); break;
				case 1: { auto p = std::make_shared<std::unique_ptr<log_group>>(new log_group(n)); open.push_back([p] { p->reset(); }); break; }
				default: {   // a part of a progress indicator shows its work as a group
					auto p = std::make_shared<progress_indicator_subindicator>();
					p->setup(nullptr, 10, n.c_str(), IMPORTANCE_MAJOR, log_group_mode::enabled);
					if (r.chance(30)) { auto q = std::make_shared<progress_indicator_subindicator>(std::move(*p)); p = q; }
					p->init((stream_size_type)r.below(5));
					if (r.chance(30)) { auto q = std::make_shared<progress_indicator_subindicator>(); *q = std::move(*p); p = q; }
					open.push_back([p] { p->done(); });
				}
				}
				Ev e("begin"); e.num("n", g); done(e); break;
			}
			default: {
				if (open.empty()) break;
				open.back()(); open.pop_back();
				Ev e("end"); done(e); break;
			}
			}
		}
		_exit(0);   // a log that is never finished must not matter
	});
}
