// Conformance driver for temporary files (R02).
#include "vd.h"
#include <tpie/tempname.h>
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/serialization_stream.h>
#include <tpie/stats.h>
#include <optional>
#include <filesystem>
using namespace vd;
using namespace tpie;
namespace fs = std::filesystem;

struct W {
	Args & a; Rng & r;
	std::map<std::string, int> ids;          // path -> number
	std::vector<std::string> paths;
	std::optional<temp_file> slot[6];
	std::string base;
	int id(const std::string & p) { auto i = ids.find(p); if (i != ids.end()) return i->second; paths.push_back(p); return ids[p] = (int)paths.size(); }
	// what is on disk below the scratch directory
	void look(Ev & e) {
		std::vector<int64_t> known; int unknown = 0, dirs = 0;
		std::error_code c;
		for (auto i = fs::recursive_directory_iterator(base, c); i != fs::recursive_directory_iterator(); ++i) {
			if (fs::is_directory(i->path())) { if (i->path().filename().string().compare(0, 1, "D") != 0) ++dirs; continue; }
			if (i->path().filename() == "Dfile") continue;
			auto k = ids.find(i->path().string());
			if (k == ids.end()) ++unknown; else known.push_back(k->second);
		}
		std::sort(known.begin(), known.end());
		e.seq("disk", known).num("unknown", unknown).num("dirs", dirs).num("usage", get_temp_file_usage()).emit();
	}
};
template <typename S> static void items(S & s, int64_t n) { for (int64_t i = 0; i < n; ++i) s.write((uint64_t)i); }

int main(int argc, char ** argv) {
	Args a = parse(argc, argv);
	int64_t ops = a.num("ops", 40);
	a.dir = fs::absolute(a.dir).string();
	return run_traces(a, [&](int64_t t, Rng & r, const std::vector<std::string> *) {
		W w{a, r};
		w.base = a.dir + "/r" + std::to_string(t);
		fs::create_directory(w.base);
		for (const char * d : {"/D1", "/D2", "/Du"}) fs::create_directory(w.base + d);
		{ std::ofstream f(w.base + "/D2/Dfile"); f << "x"; }
		set_block_size(16384);
		std::string dir = "D1", bname = "TPIE", ext = "tpie";
		tempname::set_default_path(w.base + "/D1");
		tpie_init(ALL & ~DEFAULT_LOGGING);
		int64_t usage0 = get_temp_file_usage();
		Ev("new").num("t", t).num("usage", usage0).emit();
		auto name = [&](const std::string & p, Ev & e) {   // what a generated path looks like
			fs::path q(p);
			std::string f = q.filename().string();
			e.str("dir", fs::relative(q.parent_path().parent_path(), w.base).string()).str("wdir", dir);
			e.boolean("named", f.compare(0, bname.size() + 1, bname + "_") == 0 && q.extension().string() == "." + ext);
		};
		auto touch = [&](int s, bool gen) {   // the path of slot s
			std::string p = w.slot[s]->path();
			bool fresh = w.ids.find(p) == w.ids.end();
			Ev e("path"); e.num("s", s + 1).num("p", w.id(p)).boolean("fresh", fresh);
			name(p, e); w.look(e);
			return p;
		};
		std::vector<std::string> user; for (int i = 0; i < 4; ++i) user.push_back(w.base + "/Du/u" + std::to_string(i));
		for (auto & u : user) w.id(u);
		bool over = false;
		for (int64_t o = 0; o < ops && !over; ++o) {
			int s = (int)r.below(6), q = (int)r.below(6);
			bool has = (bool)w.slot[s];
			switch (r.weighted({14, 6, 12, 6, 20, 8, 4, 4, 4, 6, 4, 6, 3, 3})) {
			case 0: { w.slot[s].emplace(); Ev e("make"); e.num("s", s + 1); w.look(e); break; }
			case 1: { int u = (int)r.below(4); bool p = r.chance(40);
				if (has && r.chance(50)) w.slot[s]->set_path(user[u], p); else w.slot[s].emplace(user[u], p);
				Ev e("name"); e.num("s", s + 1).num("p", u + 1).boolean("persist", p); w.look(e); break; }
			case 2: if (has) { if (w.slot[q] && r.chance(50)) *w.slot[q] = *w.slot[s]; else { temp_file c(*w.slot[s]); w.slot[q].reset(); w.slot[q].emplace(c); } Ev e("copy"); e.num("s", s + 1).num("q", q + 1); w.look(e); } break;
			case 3: if (has && q != s) { w.slot[q].reset(); w.slot[q].emplace(std::move(*w.slot[s])); w.slot[s].reset(); Ev e("move"); e.num("s", s + 1).num("q", q + 1); w.look(e); } break;
			case 4: if (has) {   // something is stored in it
				std::string p = touch(s, true);
				int k = (int)r.below(5); int64_t n = r.pick(std::vector<int64_t>{0, 1, 100, 2048, 3000, 9000});
				int stage = 0;
				temp_file & f = *w.slot[s];
				try {
					switch (k) {
					case 0: case 1: { file_stream<uint64_t> x; x.open(f, r.chance(50) ? access_read_write : access_write, 0, access_sequential, k == 0 ? compression_none : compression_normal); x.truncate(0); items(x, n); if (r.chance(30)) { if (k == 0) { x.seek(n / 2); x.truncate(n / 2); } else { x.seek(0); auto p0 = x.get_position(); x.truncate(p0); } if (r.chance(50)) { x.seek(0, file_stream_base::end); items(x, n / 3); } } x.close(); break; }
					case 2: { uncompressed_stream<uint64_t> x; x.open(f, access_read_write, 0); x.truncate(0); items(x, n); if (r.chance(30)) x.truncate(n / 2); x.close(); break; }
					default: { serialization_writer x; x.open(f); for (int64_t i = 0; i < n; ++i) x.serialize(i); x.close(); break; }
					}
				} catch (const tpie::stream_exception &) { stage = 1; }   // held by another kind of stream before
				struct stat st; int64_t sz = ::stat(p.c_str(), &st) == 0 ? st.st_size : -1;
				Ev e("use"); e.num("s", s + 1).num("p", w.id(p)).num("size", sz).boolean("refused", stage == 1).boolean("reuse", k < 3); w.look(e);
				break; }
			case 5: w.slot[s].reset(); { Ev e("drop"); e.num("s", s + 1); w.look(e); } break;
			case 6: if (has) { bool p = r.chance(50); w.slot[s]->set_persistent(p); Ev e("persist"); e.num("s", s + 1).boolean("persist", p).boolean("is", w.slot[s]->is_persistent()); w.look(e); } break;
			case 7: if (has) { w.slot[s]->free(); Ev e("make"); e.num("s", s + 1); w.look(e); } break;
			case 8: if (!w.paths.empty()) { int k = (int)r.below(w.paths.size()); unlink(w.paths[k].c_str()); Ev e("lost"); e.num("p", k + 1); w.look(e); } break;
			case 9: {   // unnamed and named streams
				int64_t during = 0; std::string u = user[r.below(4)];
				if (r.chance(50)) {
					file_stream<uint64_t> x; x.open(); items(x, 3000);
					x.seek(0);
					for (auto & e : fs::recursive_directory_iterator(w.base)) if (fs::is_regular_file(e) && w.ids.find(e.path().string()) == w.ids.end() && e.path().filename() != "Dfile") ++during;
					x.close();
					Ev e("scratch"); e.num("during", during); w.look(e);
				} else {
					unlink(u.c_str());
					{ uncompressed_stream<uint64_t> x; x.open(u); items(x, 10); x.close(); }
					Ev e("store"); e.num("p", w.id(u)); w.look(e);
				}
				break; }
			case 10: {
				int k = (int)r.below(5);
				if (k == 0) { tempname::set_default_path(w.base + "/D1"); dir = "D1"; }
				else if (k == 1) { tempname::set_default_path(w.base + "/D2"); dir = "D2"; }
				else if (k == 2) { tempname::set_default_path(w.base + "/D1", "Dsub"); dir = "D1/Dsub"; }
				else if (k == 3) { tempname::set_default_path(w.base + "/D2", "Dfile"); dir = "D2"; }   // not a directory: the one above it
				else { tempname::set_default_path(w.base + "/D2", "Dfile/Dx"); dir = "D2"; }            // cannot be made: the one above it
				Ev e("dir"); e.str("d", dir).boolean("ok", tempname::get_default_path() == w.base + "/" + dir && tempname::get_actual_path() == w.base + "/" + dir); w.look(e);
				break; }
			case 11: if (has) touch(s, false); break;
			case 12: { bname = r.chance(50) ? "TPIE" : "base" + std::to_string(r.below(3)); tempname::set_default_base_name(bname); Ev e("same"); w.look(e); break; }
			case 13: {
				if (r.chance(50)) { int k = (int)r.below(3); ext = k ? "e" + std::to_string(k) : "tpie"; tempname::set_default_extension(k ? ext : ""); Ev e("same"); w.look(e); break; }
				if (r.chance(30)) {   // shut down, perhaps with handles left
					bool first = r.chance(60);
					if (first) { for (int i = 0; i < 6; ++i) w.slot[i].reset(); Ev e("dropall"); w.look(e); }
					tpie_finish(ALL & ~DEFAULT_LOGGING);
					{ Ev e("finish"); e.seq("user", std::vector<int>{1, 2, 3, 4}); w.look(e); }
					if (!first) { for (int i = 0; i < 6; ++i) w.slot[i].reset(); Ev e("dropall"); w.look(e); }
					tpie_init(ALL & ~DEFAULT_LOGGING);
				}
				break; }
			}
		}
		for (int i = 0; i < 6; ++i) { w.slot[i].reset(); Ev e("drop"); e.num("s", i + 1); w.look(e); }
		tpie_finish(ALL & ~DEFAULT_LOGGING);
		{ Ev e("finish"); e.seq("user", std::vector<int>{1, 2, 3, 4}); w.look(e); }
		rm_tree(w.base);
	});
}
