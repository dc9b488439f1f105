// Shared support for the conformance drivers: seeded randomness, NDJSON event log,
// item types carrying a checkable pattern, script reading, scratch directories.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <type_traits>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
#include <cerrno>
#include <sys/wait.h>
#include <csignal>
#include <tpie/tpie.h>
#include <tpie/exception.h>

namespace vd {

struct Rng {
	uint64_t s;
	// the seed is mixed: neighbouring seeds would otherwise give the same numbers one step apart
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { s = next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [0,n)
	int64_t below(int64_t n) { return n <= 0 ? 0 : int64_t(next() % uint64_t(n)); }
	int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
	bool chance(int pct) { return below(100) < pct; }
	template <typename T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
	// weighted choice: returns index
	size_t weighted(const std::vector<int> & w) {
		int64_t t = 0; for (int x : w) t += x;
		int64_t r = below(t);
		for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
		return 0;
	}
};

// One JSON object per line.
struct Log {
	int fd = -1;
	void open(const std::string & p, bool append = false) {
		fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_APPEND | (append ? 0 : O_TRUNC), 0644);
		if (fd < 0) { perror(p.c_str()); _exit(97); }
	}
	// When set, the events of this thread are collected instead.
	static std::vector<std::string> *& sink() { static thread_local std::vector<std::string> * p = nullptr; return p; }
	void line(const std::string & s) {
		if (sink()) { sink()->push_back(s); return; }
		std::string t = s + "\n";
		size_t o = 0;
		while (o < t.size()) {
			ssize_t w = ::write(fd, t.data() + o, t.size() - o);
			if (w < 0) { if (errno == EINTR) continue; _exit(95); }
			o += w;
		}
	}
};
inline Log & log() { static Log l; return l; }

struct Ev {
	std::string s;
	bool first = true;
	explicit Ev(const char * name) { s = "{"; str("e", name); }
	Ev & key(const char * k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; return *this; }
	Ev & str(const char * k, const std::string & v) {
		key(k); s += "\"";
		for (char c : v) { if (c == '"' || c == '\\') s += '\\'; if ((unsigned char)c < 32) c = ' '; s += c; }
		s += "\""; return *this;
	}
	Ev & num(const char * k, int64_t v) {
		// TLC integers are 32 bit: clamp, marking out-of-range values unmistakably.
		if (v > 2000000000) v = 2000000000; if (v < -2000000000) v = -2000000000;
		key(k); s += std::to_string(v); return *this;
	}
	Ev & boolean(const char * k, bool b) { key(k); s += b ? "true" : "false"; return *this; }
	template <typename C> Ev & seq(const char * k, const C & c) {
		key(k); s += "["; bool f1 = true;
		for (auto v : c) { if (!f1) s += ","; f1 = false; int64_t x = (int64_t)v; if (x > 2000000000) x = 2000000000; if (x < -2000000000) x = -2000000000; s += std::to_string(x); }
		s += "]"; return *this;
	}
	template <typename C> Ev & strs(const char * k, const C & c) {
		key(k); s += "["; bool f1 = true;
		for (const std::string & v : c) { if (!f1) s += ","; f1 = false; s += "\"" + v + "\""; }
		s += "]"; return *this;
	}
	Ev & raw(const char * k, const std::string & v) { key(k); s += v; return *this; }
	void emit() { s += "}"; log().line(s); }
};

// Item of N bytes carrying a small value and a pattern that depends on it.
template <size_t N> struct Item {
	unsigned char b[N];
};
template <size_t N> inline Item<N> enc(int64_t v) {
	Item<N> r;
	uint64_t h = uint64_t(v) * 0x9E3779B97F4A7C15ull + 77;
	for (size_t i = 0; i < N; ++i) { r.b[i] = (unsigned char)(h >> 56); h = h * 6364136223846793005ull + 1442695040888963407ull; }
	r.b[0] = (unsigned char)(v & 255);
	if (N > 1) r.b[1] = (unsigned char)((v >> 8) & 255);
	if (N > 2) r.b[2] = (unsigned char)((v >> 16) & 255);
	return r;
}
template <size_t N> inline int64_t dec(const Item<N> & x) {
	int64_t v = x.b[0];
	if (N > 1) v |= int64_t(x.b[1]) << 8;
	if (N > 2) v |= int64_t(x.b[2]) << 16;
	Item<N> y = enc<N>(v);
	if (memcmp(x.b, y.b, N) != 0) return -1;   // not an item we ever wrote
	return v;
}

inline std::vector<std::string> split(const std::string & l) {
	std::istringstream is(l); std::vector<std::string> r; std::string t;
	while (is >> t) r.push_back(t);
	return r;
}

inline std::string join(const std::vector<std::string> & v) {
	std::string s; for (auto & x : v) { if (!s.empty()) s += ' '; s += x; } return s;
}

// Recursively remove a directory that lies inside the scratch dir.
inline void rm_tree(const std::string & p) {
	DIR * d = opendir(p.c_str());
	if (d) {
		while (dirent * e = readdir(d)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") continue;
			std::string q = p + "/" + n;
			struct stat st;
			if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(q);
			else unlink(q.c_str());
		}
		closedir(d);
	}
	rmdir(p.c_str());
}

inline std::vector<std::string> list_dir(const std::string & p) {
	std::vector<std::string> r;
	DIR * d = opendir(p.c_str());
	if (!d) return r;
	while (dirent * e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		r.push_back(n);
	}
	closedir(d);
	std::sort(r.begin(), r.end());
	return r;
}

// Number of entries below p, recursively, not counting directories.
inline int count_files(const std::string & p) {
	int c = 0;
	for (auto & n : list_dir(p)) {
		struct stat st; std::string q = p + "/" + n;
		if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) c += count_files(q); else ++c;
	}
	return c;
}

struct Args {
	uint64_t seed = 1;
	int64_t from = 0, to = 1;
	std::string dir, out, script, mode;
	std::map<std::string, std::string> kv;
	int64_t num(const char * k, int64_t d) const { auto i = kv.find(k); return i == kv.end() ? d : atoll(i->second.c_str()); }
	std::string get(const char * k, const std::string & d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
};

inline Args parse(int argc, char ** argv) {
	Args a;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--from") a.from = atoll(v.c_str());
		else if (k == "--to") a.to = atoll(v.c_str());
		else if (k == "--dir") a.dir = v;
		else if (k == "--out") a.out = v;
		else if (k == "--script") a.script = v;
		else if (k == "--mode") a.mode = v;
		else a.kv[k.substr(2)] = v;
	}
	if (a.dir.empty() || a.out.empty()) { fprintf(stderr, "need --dir and --out\n"); _exit(98); }
	mkdir(a.dir.c_str(), 0755);
	log().open(a.out);
	return a;
}

// Seed of trace i.
inline uint64_t trace_seed(const Args & a, int64_t i) { return a.seed * 1000003ull + uint64_t(i); }

// Scripts: traces separated by lines "trace <n>".
inline std::vector<std::vector<std::string>> read_scripts(const std::string & p) {
	std::vector<std::vector<std::string>> r;
	std::ifstream f(p); std::string l;
	while (std::getline(f, l)) {
		if (l.compare(0, 5, "trace") == 0) { r.emplace_back(); continue; }
		if (r.empty() || l.empty()) continue;
		r.back().push_back(l);
	}
	return r;
}

// Called in the process of a trace before it begins (the scheduler of vsched.h starts here).
inline std::function<void(uint64_t)> & at_trace_start() { static std::function<void(uint64_t)> f; return f; }
// Set by vio.h: the directory whose files it watches.
inline std::function<void(const std::string &)> & at_scratch() { static std::function<void(const std::string &)> f; return f; }

// Run every trace in a process of its own. The child logs its events; a crash, a wrong exit or a hang becomes an event
// that no specification accepts.
inline int run_traces(const Args & a, const std::function<void(int64_t, Rng &, const std::vector<std::string> *)> & body) {
	std::vector<std::vector<std::string>> scripts;
	if (!a.script.empty()) scripts = read_scripts(a.script);
	int limit = (int)a.num("limit", 60), hangs = 0;
	for (int64_t i = a.from; i < a.to; ++i) {
		if (!a.script.empty() && i >= (int64_t)scripts.size()) break;
		pid_t p = fork();
		if (p < 0) { perror("fork"); return 96; }
		if (p == 0) {
			alarm(limit);
			Rng r(trace_seed(a, i));
			if (at_scratch()) at_scratch()(a.dir);
			if (at_trace_start() && a.num("sched", 1)) at_trace_start()(trace_seed(a, i) + 1000 * a.num("schedseed", 0));
			body(i, r, a.script.empty() ? nullptr : &scripts[i]);
			_exit(0);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (WIFSIGNALED(st)) {
			if (WTERMSIG(st) == SIGALRM) { Ev("hang").num("after_s", limit).emit(); if (++hangs == 2) return 0; }   // no point in waiting for all of them
			else Ev("crash").num("sig", WTERMSIG(st)).emit();
		} else if (WEXITSTATUS(st) != 0) Ev("crash").num("exit", WEXITSTATUS(st)).emit();
		rm_tree(a.dir);
		mkdir(a.dir.c_str(), 0755);
	}
	return 0;
}

} // namespace vd
