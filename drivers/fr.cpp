// Conformance driver for the database of recorded fractions (R04).
#include "vd.h"
#include <tpie/fractional_progress.h>
#include <tpie/progress_indicator_null.h>
using namespace vd;
using namespace tpie;

static std::vector<std::string> names;
// Records of a file: [name, fraction in 64ths, n]; what is not one of ours shows as name 0.
static std::string records(const std::string & p) {
	std::ifstream f(p, std::ios::binary); std::string l, s = "[";
	while (std::getline(f, l)) {
		static const std::string head = "tpie::update_fractions(\"";
		if (l.compare(0, head.size(), head) != 0) continue;
		std::string b = l.substr(head.size());
		size_t q = b.rfind("\", ");
		if (q == std::string::npos) continue;
		std::string n = b.substr(0, q); double fr = -1; long long k = -1; char tail[8] = "";
		if (sscanf(b.c_str() + q + 3, "%lf, %lld%7s", &fr, &k, tail) != 3 || std::string(tail) != ");") continue;
		size_t i = std::find(names.begin(), names.end(), n) - names.begin();
		if (s.size() > 1) s += ",";
		s += "[" + std::to_string(i < names.size() ? i + 1 : 0) + "," + std::to_string((long long)(fr * 64 + 0.5)) + "," + std::to_string(k) + "]";
	}
	return s + "]";
}

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	setenv("HOME", a.dir.c_str(), 1);
	int64_t ops = a.num("ops", 40);
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		bool capture = r.chance(40);
		auto start = [&] { if (capture) tpie_init(flags<subsystem>(MEMORY_MANAGER) | PROGRESS | CAPTURE_FRACTIONS); else tpie_init(flags<subsystem>(MEMORY_MANAGER) | PROGRESS); };
		auto stop = [&] { if (capture) tpie_finish(flags<subsystem>(MEMORY_MANAGER) | PROGRESS | CAPTURE_FRACTIONS); else tpie_finish(flags<subsystem>(MEMORY_MANAGER) | PROGRESS); };
		start();
		std::string fun = r.chance(15) ? std::string((size_t)r.range(200, 900), 'g') : r.chance(20) ? "operator()" : "go";
		const char * given = fun == "operator()" && r.chance(50) ? "operator ()" : fun.c_str();
		names.clear();
		// the last four are those of parts
		for (auto & x : {std::string("a"), std::string("f.cpp:go:x, y"), std::string("f.cpp:go:x\", z"), std::string(300, 'n'), std::string("")}) names.push_back(x);
		int plain = (int)names.size();
		for (auto & x : {"p", "q:1", "r s", "t, 5"}) names.push_back("f.cpp:" + fun + ":" + x);
		static const char * ids[] = {"p", "q:1", "r s", "t, 5"};
		std::string path[2] = {a.dir + "/db0", a.dir + "/db1"}, probe = a.dir + "/probe";
		Ev("new").num("t", t).emit();
		auto dump = [&] { save_fractions(probe, true); Ev e("dump"); e.raw("r", records(probe)).emit(); };
		for (int64_t o = 0; o < ops; ++o) {
			int p = (int)r.below(2);
			switch (r.weighted({40, 12, 15, 20, 5, capture ? 10 : 0, 6})) {
			case 0: { int x = (int)r.below(names.size()); int64_t f = r.below(65), n = r.pick(std::vector<int64_t>{0, 1, 2, 2, 3, 1000, 1999999999});
				update_fractions(names[x].c_str(), (float)f / 64, (stream_size_type)n); Ev e("update"); e.num("x", x + 1).num("f", f).num("n", n).emit(); break; }
			case 1: { load_fractions(path[p]); Ev e("load"); e.num("p", p + 1).emit(); break; }
			case 2: { bool force = r.chance(40); save_fractions(path[p], force); struct stat st;
				Ev e("save"); e.num("p", p + 1).boolean("force", force).boolean("there", stat(path[p].c_str(), &st) == 0).raw("r", records(path[p])).emit(); break; }
			case 3: dump(); break;
			case 4: { stop(); if (r.chance(30)) capture = !capture; start(); Ev("restart").emit(); break; }
			case 5: {
				std::vector<int64_t> xs, ns; bool idle = r.chance(30);
				{
					fractional_progress fp(nullptr); fp.id() << "run";
					std::vector<std::unique_ptr<fractional_subindicator>> parts;
					for (int j = 0; j < 4; ++j) if (r.chance(60)) {
						int64_t n = r.pick(std::vector<int64_t>{0, 1, 2, 3, 50}); xs.push_back(plain + j + 1); ns.push_back(n);
						if (r.chance(50)) parts.emplace_back(new fractional_subindicator(fp, ids[j], "some/dir\\f.cpp", given, (stream_size_type)n, nullptr));
						else { parts.emplace_back(new fractional_subindicator(fp)); parts.back()->setup(ids[j], "f.cpp", given, (stream_size_type)n); }
					}
					fp.init();
					for (auto & s : parts) { s->init(1); if (!idle) usleep((useconds_t)r.below(4000)); s->done(); }
					fp.done();
				}
				save_fractions(probe, true);
				Ev e("run"); e.seq("xs", xs).seq("ns", ns).raw("r", records(probe)).emit(); break;
			}
			default: {
				std::ofstream f(path[p], std::ios::binary | std::ios::app);
				f << r.pick(std::vector<std::string>{"// a comment\n", "tpie::update_fractions(\"a\", x, 5);\n", "tpie::update_fractions(\"a\");\n", "tpie::update_fractions(\"a\", 0.5, 99\n", "\n", "tpie::update_fractions(\"a, 0.5, 4000);\n", " tpie::update_fractions(\"a\", 0.5, 4000);\n"});
				struct stat st; (void)st;
				Ev e("junk"); e.num("p", p + 1).emit();
				break;
			}
			}
		}
		dump();
		stop();
	});
}
