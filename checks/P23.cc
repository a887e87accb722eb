// P23: saved games keep everything through any sequence of saves and loads.
#include "common.hh"
#include "zenkit/Archive.hh"
#include "zenkit/SaveGame.hh"
#include "zenkit/World.hh"
#include "zenkit/vobs/VirtualObject.hh"
using namespace mcz;
using namespace zenkit;
namespace fs = std::filesystem;

namespace {
	size_t z(int i) {
		return static_cast<size_t>(i);
	}
	std::string q(std::string const& s) {
		return "'" + esc(s, 100) + "'";
	}

	// ---- contents, numbered ------------------------------------------------------------------------------------
	void fill_meta(SaveMetadata& m, int k) {
		m.title = mc::fmt("Title %d", k);
		m.time_day = k, m.time_hour = 10 + k, m.time_minute = 20 + k;
		m.save_date = mc::fmt("%d.1.2001 - 12:00", k);
		m.version_major = k, m.version_minor = 30, m.play_time_seconds = 1000 * k;
		m.version_point = k + 1, m.version_int = k + 2, m.version_app_name = mc::fmt("App %d", k);
	}
	void fill_state(SaveState& s, int k, bool g2) {
		s = SaveState {};
		s.day = k, s.hour = k + 1, s.minute = k + 2;
		for (int i = 0; i < (k + 1) % 3; ++i) s.missions.push_back({mc::fmt("mission %d %d", k, i), i + k, (i + k) % 2 == 0, i - k});
		for (int i = 0; i < (k + 2) % 3; ++i) s.infos.push_back({mc::fmt("INFO_%d_%d", k, i), (i + k) % 2 == 1});
		for (int i = 0; i < k % 4; ++i) {
			auto& y = s.symbols.emplace_back();
			y.name = mc::fmt("SYM_%d_%d", k, i);
			int n = g2 ? (k + i) % 3 : 1;
			for (int j = 0; j < n; ++j) y.values.push_back(k * 100 + i * 10 + j - 7);
		}
		for (int i = 0; i < (k + 1) % 4; ++i) {
			auto& t = s.log.emplace_back();
			t.description = mc::fmt("topic %d %d", k, i);
			t.section = (i + k) % 2 ? SaveTopicSection::NOTES : SaveTopicSection::MISSIONS;
			t.status = static_cast<SaveTopicStatus>((i + k) % 5);
			for (int j = 0; j < (i + k) % 3; ++j) t.entries.push_back(mc::fmt("entry %d %d %d", k, i, j));
		}
		if (k % 3) {
			s.cutscene_manager = std::make_shared<CutsceneManager>();
			for (int i = 0; i < k % 3; ++i) {
				auto p = std::make_shared<CutscenePoolItem>();
				p->name = mc::fmt("pool %d %d", k, i);
				p->run_behavior = static_cast<CutscenePoolItemRunBehavior>((k + i) % 3);
				p->run_behavior_value = i, p->times_played = k, p->deactivated = i % 2, p->flags = k + i;
				s.cutscene_manager->pool_items.push_back(p);
			}
		}
		for (int i = 0; i < 42; ++i)
			for (int j = 0; j < 42; ++j) s.guild_attitudes[i][j] = static_cast<uint8_t>(k * 31 + i * 42 + j);
	}
	Texture thumb(int k) {
		std::vector<uint8_t> px(4 * 4 * 4);
		for (size_t i = 0; i < px.size(); ++i) px[i] = static_cast<uint8_t>(i * 5 + z(k) * 40);
		return TextureBuilder(4, 4).add_mipmap(px, TextureFormat::R8G8B8A8).build(TextureFormat::R8G8B8A8);
	}
	std::shared_ptr<World> world(int id) {
		auto w = std::make_shared<World>();
		for (int i = 0; i <= id % 3; ++i) {
			auto v = std::make_shared<VirtualObject>();
			v->vob_name = mc::fmt("WORLD%d_%d", id, i);
			w->world_vobs.push_back(v);
		}
		w->way_net = std::make_shared<WayNet>();
		return w;
	}
	std::string world_id(World const* w) {
		if (!w) return "none";
		std::string s;
		for (auto& v : w->world_vobs) s += v ? v->vob_name + " " : "null ";
		return s;
	}

	using Dump = std::vector<std::pair<std::string, std::string>>;
	Dump dump_meta(SaveMetadata const& m, bool g2) {
		Dump d {{"title", q(m.title)}, {"world", q(m.world)}, {"day", std::to_string(m.time_day)}, {"hour", std::to_string(m.time_hour)}, {"minute", std::to_string(m.time_minute)}, {"date", q(m.save_date)}, {"major", std::to_string(m.version_major)}, {"minor", std::to_string(m.version_minor)}, {"playtime", std::to_string(m.play_time_seconds)}};
		if (g2) {
			d.emplace_back("point", std::to_string(m.version_point));
			d.emplace_back("int", std::to_string(m.version_int));
			d.emplace_back("app", q(m.version_app_name));
		}
		return d;
	}
	Dump dump_state(SaveState const& s) {
		Dump d {{"day", std::to_string(s.day)}, {"hour", std::to_string(s.hour)}, {"minute", std::to_string(s.minute)}};
		d.emplace_back("missions", std::to_string(s.missions.size()));
		for (auto& m : s.missions) d.emplace_back("mission", mc::fmt("%s %d %d %d", q(m.name).c_str(), m.id, m.available, m.status_index));
		d.emplace_back("infos", std::to_string(s.infos.size()));
		for (auto& m : s.infos) d.emplace_back("info", mc::fmt("%s %d", q(m.name).c_str(), m.told));
		d.emplace_back("symbols", std::to_string(s.symbols.size()));
		for (auto& y : s.symbols) {
			std::string v = q(y.name);
			for (auto x : y.values) v += mc::fmt(" %d", x);
			d.emplace_back("symbol", v);
		}
		d.emplace_back("topics", std::to_string(s.log.size()));
		for (auto& t : s.log) {
			std::string v = mc::fmt("%s %u %u", q(t.description).c_str(), static_cast<unsigned>(t.section), static_cast<unsigned>(t.status));
			for (auto& e : t.entries) v += " " + q(e);
			d.emplace_back("topic", v);
		}
		d.emplace_back("cutscenes", s.cutscene_manager ? std::to_string(s.cutscene_manager->pool_items.size()) : "null");
		if (s.cutscene_manager)
			for (auto& p : s.cutscene_manager->pool_items)
				d.emplace_back("cutscene", p ? mc::fmt("%s %u %d %d %d %d", q(p->name).c_str(), static_cast<unsigned>(p->run_behavior), p->run_behavior_value, p->times_played, p->deactivated, p->flags) : "null");
		d.emplace_back("guilds", mc::hex(s.guild_attitudes, sizeof s.guild_attitudes, sizeof s.guild_attitudes));
		return d;
	}
	std::string dump_thumb(std::optional<Texture> const& t) {
		if (!t) return "none";
		auto p = t->as_rgba8(0);
		return mc::fmt("%ux%u %d ", t->width(), t->height(), static_cast<int>(t->format())) + mc::hex(p.data(), p.size());
	}
	void same(Dump const& w, Dump const& g, char const* ctx) {
		for (size_t i = 0; i < std::max(w.size(), g.size()); ++i) {
			if (i >= w.size() || i >= g.size() || w[i] != g[i]) {
				auto& n = i < w.size() ? w[i].first : g[i].first;
				size_t a = 0;
				std::string x = i < w.size() ? w[i].second : "<nothing>", y = i < g.size() ? g[i].first + "=" + g[i].second : "<nothing>";
				if (x.size() > 300)
					while (a < x.size() && a < y.size() && x[a] == y[a]) ++a;
				mc::fail("field-" + n, mc::fmt("%s: %s should be %s, is %s", ctx, n.c_str(), x.substr(a, 200).c_str(), y.substr(a, 200).c_str()));
			}
		}
	}

	// ---- model ---------------------------------------------------------------------------------------------------
	struct Content {
		int meta = -1, state = -1, thumb = -1; // -1: untouched / none
		int cur = -1;                          // current world name
		auto tie() const { return std::tie(meta, state, thumb, cur); }
	};
	struct Slot {
		bool exists = false;
		Content c;
		int w[2] {-1, -1};
	};
	struct Obj {
		Content c;
		int base = -1; // slot it was last loaded from or saved to
	};
	struct Model {
		Slot s[2];
		Obj o[2];
		int act = 0, fresh = 0;
		std::string key() const {
			// version numbers are renamed in order of appearance; they matter only by (in)equality and shape (mod 12)
			std::map<int, int> ren;
			auto n = [&](int v) { return v < 0 ? std::string("-") : mc::fmt("%d", ren.try_emplace(v, static_cast<int>(ren.size())).first->second); };
			std::string k;
			auto c = [&](Content const& x) { k += n(x.meta) + n(x.state) + n(x.thumb < 0 ? -1 : x.thumb) + mc::fmt("%d", x.cur) + ","; };
			for (auto& x : s) {
				k += x.exists ? "S" : "s";
				if (x.exists) c(x.c), k += n(x.w[0]) + n(x.w[1]) + ";";
			}
			for (auto& x : o) c(x.c), k += mc::fmt("b%d;", x.base);
			return k + mc::fmt("a%d", act);
		}
	};
	enum Op { SAVE00, SAVE01, SAVE10, SAVE11, RESAVE0, RESAVE1, LOAD0, LOAD1, CHANGE, THUMB, NEW, DEL0, SWITCH, LOADBAD, NOP };
	char const* OPN[] = {"save(slot0,worldA)", "save(slot0,worldB)", "save(slot1,worldA)", "save(slot1,worldB)", "save(./slot0/,worldA)", "save(slot1/.,worldB)", "load(slot0)", "load(slot1)", "change", "toggle thumbnail", "new game object", "delete slot0", "switch object", "load(missing)"};
	char const* WN[] = {"WORLDA", "WORLDB"};

	/// model transition; returns whether the operation must fail
	bool step(Model& m, Op op) {
		auto& o = m.o[m.act];
		auto save = [&](int s, int w) {
			auto& t = m.s[s];
			if (o.base != s) {
				Slot n;
				if (o.base >= 0 && m.s[o.base].exists) n = m.s[o.base];
				t = n;
			}
			if (!t.exists) t.w[0] = t.w[1] = -1;
			o.c.cur = w;
			t.exists = true;
			t.c = o.c;
			t.w[w] = m.fresh++;
			o.base = s;
		};
		auto load = [&](int s) {
			if (!m.s[s].exists) return true;
			o.c = m.s[s].c;
			o.base = s;
			return false;
		};
		switch (op) {
		case SAVE00: save(0, 0); break;
		case SAVE01: save(0, 1); break;
		case SAVE10: save(1, 0); break;
		case SAVE11: save(1, 1); break;
		case RESAVE0: save(0, 0); break;
		case RESAVE1: save(1, 1); break;
		case LOAD0: return load(0);
		case LOAD1: return load(1);
		case CHANGE: o.c.meta = m.fresh++, o.c.state = m.fresh++; break;
		case THUMB: o.c.thumb = o.c.thumb < 0 ? m.fresh++ : -1; break;
		case NEW: o = Obj {}; break;
		case DEL0: m.s[0] = Slot {}; break;
		case SWITCH: m.act ^= 1; break;
		case LOADBAD: return true;
		default: break;
		}
		return false;
	}

	struct Sys {
		fs::path root;
		bool g2;
		Model m;
		std::optional<SaveGame> o[2];
		Sys(fs::path r, bool g) : root(std::move(r)), g2(g) {
			fs::remove_all(root);
			fs::create_directories(root);
			for (auto& x : o) reset(x);
		}
		~Sys() {
			std::error_code ec;
			fs::remove_all(root, ec);
		}
		void reset(std::optional<SaveGame>& x) {
			x.emplace(g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1);
			fill_meta(x->metadata, 0), fill_state(x->state, 0, g2);
			x->metadata.world = "NONE";
		}
		fs::path slot(int s) { return root / mc::fmt("slot%d", s); }
		void apply(Op op) {
			auto before = m;
			bool fails = step(m, op);
			auto& g = *o[before.act];
			auto save = [&](fs::path const& p, int w) {
				g.metadata.world = WN[w];
				auto wl = world(before.fresh);
				g.save(p, *wl, WN[w]);
			};
			bool threw = false;
			std::string why;
			try {
				switch (op) {
				case SAVE00: save(slot(0), 0); break;
				case SAVE01: save(slot(0), 1); break;
				case SAVE10: save(slot(1), 0); break;
				case SAVE11: save(slot(1), 1); break;
				case RESAVE0: save(root / "." / "slot0" / "", 0); break;
				case RESAVE1: save(root / "slot1" / ".", 1); break;
				case LOAD0: g.load(slot(0)); break;
				case LOAD1: g.load(slot(1)); break;
				case CHANGE: {
					auto w = g.metadata.world;
					fill_meta(g.metadata, before.fresh), fill_state(g.state, before.fresh + 1, g2);
					g.metadata.world = w;
					break;
				}
				case THUMB:
					if (g.thumbnail) g.thumbnail.reset();
					else g.thumbnail = thumb(before.fresh);
					break;
				case NEW: reset(o[before.act]); break;
				case DEL0: fs::remove_all(slot(0)); break;
				case LOADBAD: g.load(root / "missing"); break;
				default: break;
				}
			} catch (mc::Failure&) {
				throw;
			} catch (std::exception const& e) {
				threw = true;
				why = e.what();
			}
			if (threw && !fails) mc::fail("operation-failed", mc::fmt("%s fails: %s", OPN[op], why.c_str()));
			if (!threw && fails) mc::fail("missing-slot-accepted", mc::fmt("%s of a slot that does not exist succeeds", OPN[op]));
		}
		void check_content(SaveGame const& g, Content const& c, char const* ctx) {
			SaveMetadata wm {};
			fill_meta(wm, c.meta < 0 ? 0 : c.meta);
			wm.world = c.cur < 0 ? "NONE" : WN[c.cur];
			SaveState ws {};
			fill_state(ws, c.state < 0 ? 0 : c.state, g2);
			same(dump_meta(wm, g2), dump_meta(g.metadata, g2), mc::fmt("%s metadata", ctx).c_str());
			same(dump_state(ws), dump_state(g.state), mc::fmt("%s state", ctx).c_str());
			auto wt = c.thumb < 0 ? std::string("none") : dump_thumb(thumb(c.thumb)), gt = dump_thumb(g.thumbnail);
			if (wt != gt) mc::fail("thumbnail", mc::fmt("%s: thumbnail should be %s, is %s", ctx, wt.substr(0, 80).c_str(), gt.substr(0, 80).c_str()));
		}
		void check_worlds(SaveGame const& g, Slot const& s, char const* ctx) {
			for (int w = 0; w < 2; ++w)
				for (auto ext : {"", ".ZEN"}) {
					auto wl = g.load_world(std::string(WN[w]) + ext);
					auto want = s.w[w] < 0 ? std::string("none") : world_id(world(s.w[w]).get());
					if (world_id(wl.get()) != want) mc::fail("world", mc::fmt("%s: %s should be %s, is %s", ctx, WN[w], want.c_str(), world_id(wl.get()).c_str()));
				}
			if (s.c.cur >= 0) {
				auto wl = g.load_world();
				auto want = world_id(world(s.w[s.c.cur]).get());
				if (world_id(wl.get()) != want) mc::fail("current-world", mc::fmt("%s: current world should be %s, is %s", ctx, want.c_str(), world_id(wl.get()).c_str()));
			}
		}
		void verify() {
			for (int i = 0; i < 2; ++i) check_content(*o[i], m.o[i].c, mc::fmt("object %d", i).c_str());
			for (int i = 0; i < 2; ++i) {
				check(fs::exists(slot(i)) == m.s[i].exists, "slot-existence", mc::fmt("slot %d %s", i, m.s[i].exists ? "is missing" : "appeared"));
				if (!m.s[i].exists) continue;
				SaveGame g {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
				try {
					g.load(slot(i));
				} catch (mc::Failure&) {
					throw;
				} catch (std::exception const& e) {
					mc::fail("slot-unreadable", mc::fmt("slot %d cannot be loaded: %s", i, e.what()));
				}
				check_content(g, m.s[i].c, mc::fmt("slot %d", i).c_str());
				check_worlds(g, m.s[i], mc::fmt("slot %d", i).c_str());
			}
			for (int i = 0; i < 2; ++i)
				if (m.o[i].base >= 0 && m.s[m.o[i].base].exists) {
					auto s = m.s[m.o[i].base];
					s.c.cur = -1;
					check_worlds(*o[i], s, mc::fmt("object %d", i).c_str());
				}
			for (auto& e : fs::directory_iterator(root)) {
				auto n = e.path().filename().string();
				check(n == "slot0" || n == "slot1", "stray-file", "a file appeared beside the slots: " + n);
			}
		}
	};

	std::string hist(std::vector<int> const& v, bool g2) {
		std::string d = g2 ? "gothic 2:" : "gothic 1:";
		for (int k : v) d += std::string(" ") + OPN[k] + ";";
		return d;
	}
	void run_history(mc::Run& r, std::vector<int> const& v, bool g2) {
		Sys s {fs::path(r.scratch) / "save", g2};
		for (int k : v) {
			s.apply(static_cast<Op>(k));
			r.trans();
		}
		s.verify();
		r.state(mc::hash_str(s.m.key()));
		r.outcome(mc::hash_str(s.m.key()));
	}

	// ---- single-field round trips ------------------------------------------------------------------------------
	std::vector<std::string> const STR {"", "A", " ", " lead", "trail ", "a=b", "[% 0 0]", "string:", "[]", "\xe4\xf6\xfc", "\"quoted\"", "tab\tin", std::string(300, 'x'), "NEWWORLD\\NEWWORLD", "x{y}"};
	std::vector<int32_t> const INT {0, 1, -1, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, 1000000};

	void roundtrip(mc::Run& r, char const* family, bool g2, std::string const& what, std::function<void(SaveGame&)> const& f) {
		r.run_case(
		    family,
		    [&] {
			    auto root = fs::path(r.scratch) / "rt";
			    fs::remove_all(root);
			    fs::create_directories(root);
			    SaveGame g {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
			    fill_meta(g.metadata, 5), fill_state(g.state, 5, g2);
			    g.metadata.world = "W";
			    f(g);
			    auto w = world(1);
			    g.save(root / "s", *w, "W");
			    auto wm = dump_meta(g.metadata, g2);
			    auto ws = dump_state(g.state);
			    auto wt = dump_thumb(g.thumbnail);
			    SaveGame h {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
			    h.load(root / "s");
			    r.trans(2);
			    same(wm, dump_meta(h.metadata, g2), "metadata");
			    same(ws, dump_state(h.state), "state");
			    check(wt == dump_thumb(h.thumbnail), "thumbnail", "thumbnail differs");
			    auto lw = h.load_world("W");
			    check(world_id(lw.get()) == world_id(w.get()), "world", "world differs");
			    r.state(mc::hash_str(what));
			    fs::remove_all(root);
		    },
		    [&] { return mc::fmt("g%d ", g2 + 1) + what; });
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 20;

		for (int g2 = 0; g2 < 2; ++g2) {
			// 1. every history up to the depth bound
			for (int len = 0; len <= r.tier(3, 4); ++len)
				tuples(len, NOP, [&](std::vector<int> const& v) {
					r.run_case("histories", [&] { run_history(r, v, g2); }, [&] { return hist(v, g2); });
				});
			// 2. every transition out of every model state reachable within a larger depth (one representative history each)
			std::set<std::string> seen;
			std::vector<std::vector<int>> level {{}};
			seen.insert(Model {}.key());
			for (int depth = 0; depth < r.tier(5, 7); ++depth) {
				std::vector<std::vector<int>> next;
				for (auto& h : level)
					for (int k = 0; k < NOP; ++k) {
						auto v = h;
						v.push_back(k);
						if (depth >= r.tier(3, 4)) r.run_case("transitions", [&] { run_history(r, v, g2); }, [&] { return hist(v, g2); });
						Model m;
						for (int x : v) step(m, static_cast<Op>(x));
						if (seen.insert(m.key()).second) next.push_back(std::move(v));
					}
				level = std::move(next);
				if (r.quick() && depth >= 3 && level.size() > 400) level.resize(400);
				if (!r.quick() && depth >= 4 && level.size() > 4000) level.resize(4000);
			}

			// 3. fields and counts
			auto M = [&](std::string const& what, std::function<void(SaveGame&)> const& f) { roundtrip(r, "fields", g2, what, f); };
			for (auto& s : STR) {
				M("title " + q(s), [&](SaveGame& g) { g.metadata.title = s; });
				M("date " + q(s), [&](SaveGame& g) { g.metadata.save_date = s; });
				M("app " + q(s), [&](SaveGame& g) { g.metadata.version_app_name = s; });
				M("world " + q(s), [&](SaveGame& g) { g.metadata.world = s; });
				M("mission " + q(s), [&](SaveGame& g) { g.state.missions = {{s, 1, true, 2}, {"b", 1, true, 2}}; });
				M("info " + q(s), [&](SaveGame& g) { g.state.infos = {{s, true}, {"b", false}}; });
				M("symbol " + q(s), [&](SaveGame& g) { g.state.symbols = {{s, {1}}, {"b", {2}}}; });
				M("topic " + q(s), [&](SaveGame& g) { g.state.log = {{s, SaveTopicSection::NOTES, SaveTopicStatus::FAILURE, {"a", s}}, {"b", SaveTopicSection::MISSIONS, SaveTopicStatus::FREE, {}}}; });
				M("pool item " + q(s), [&](SaveGame& g) { g.state.cutscene_manager->pool_items[0]->name = s; });
			}
			for (auto v : INT) {
				auto n = std::to_string(v);
				M("day " + n, [&](SaveGame& g) { g.metadata.time_day = v; });
				M("hour " + n, [&](SaveGame& g) { g.metadata.time_hour = v; });
				M("minute " + n, [&](SaveGame& g) { g.metadata.time_minute = v; });
				M("major " + n, [&](SaveGame& g) { g.metadata.version_major = v; });
				M("minor " + n, [&](SaveGame& g) { g.metadata.version_minor = v; });
				M("playtime " + n, [&](SaveGame& g) { g.metadata.play_time_seconds = v; });
				M("point " + n, [&](SaveGame& g) { g.metadata.version_point = v; });
				M("int " + n, [&](SaveGame& g) { g.metadata.version_int = v; });
				M("state day " + n, [&](SaveGame& g) { g.state.day = v; });
				M("state hour " + n, [&](SaveGame& g) { g.state.hour = v; });
				M("state minute " + n, [&](SaveGame& g) { g.state.minute = v; });
				M("mission id " + n, [&](SaveGame& g) { g.state.missions = {{"m", v, true, 2}, {"b", 1, true, 2}}; });
				M("mission status " + n, [&](SaveGame& g) { g.state.missions = {{"m", 3, true, v}, {"b", 1, true, 2}}; });
				M("symbol value " + n, [&](SaveGame& g) { g.state.symbols = {{"m", {v}}, {"b", {1}}}; });
				M("pool values " + n, [&](SaveGame& g) {
					auto& p = *g.state.cutscene_manager->pool_items[0];
					p.run_behavior_value = v, p.times_played = v, p.deactivated = v, p.flags = v;
				});
				if (g2) M("symbol values " + n, [&](SaveGame& g) { g.state.symbols = {{"m", {1, v, 3}}, {"b", {}}, {"c", {v, v}}}; });
			}
			for (int s = 0; s < 2; ++s)
				for (int t = 0; t < 5; ++t) M(mc::fmt("topic section %d status %d", s, t), [&](SaveGame& g) { g.state.log = {{"t", static_cast<SaveTopicSection>(s), static_cast<SaveTopicStatus>(t), {"e"}}}; });
			for (int v = 0; v < 256; ++v) M(mc::fmt("guild attitude %d", v), [&](SaveGame& g) { memset(g.state.guild_attitudes, v, sizeof g.state.guild_attitudes), g.state.guild_attitudes[v % 42][v % 41] ^= 0xff; });
			for (int b = 0; b < 3; ++b) M(mc::fmt("run behaviour %d", b), [&](SaveGame& g) { g.state.cutscene_manager->pool_items[1]->run_behavior = static_cast<CutscenePoolItemRunBehavior>(b); });
			M("symbol without values", [&](SaveGame& g) { g.state.symbols = {{"m", {}}, {"b", {1}}}; if (!g2) g.state.symbols[0].values = {0}; });
			int const top = r.tier(3, 4);
			for (int a = 0; a < top; ++a)
				for (int b = 0; b < top; ++b)
					for (int c = 0; c < top; ++c)
						for (int d = 0; d < top; ++d)
							for (int e = -1; e < top - 1; ++e)
								roundtrip(r, "counts", g2, mc::fmt("%d missions %d infos %d symbols %d topics %d cutscenes", a, b, c, d, e), [&](SaveGame& g) {
									auto& s = g.state;
									s.missions.assign(z(a), {"m", 1, true, 2});
									s.infos.assign(z(b), {"i", true});
									s.symbols.assign(z(c), {"s", {4}});
									if (g2)
										for (size_t i = 0; i < s.symbols.size(); ++i) s.symbols[i].values.assign(i, 9);
									s.log.assign(z(d), {"t", SaveTopicSection::NOTES, SaveTopicStatus::OBSOLETE, {}});
									for (size_t i = 0; i < s.log.size(); ++i) s.log[i].entries.assign(i, "x");
									s.cutscene_manager = e < 0 ? nullptr : std::make_shared<CutsceneManager>();
									for (int i = 0; i < e; ++i) s.cutscene_manager->pool_items.push_back(i == 1 ? nullptr : std::make_shared<CutscenePoolItem>());
								});
			// worlds of every kind of name are found again, with and without their extension
			for (std::string const& n : {"W", "A.B", "A.B.C", "new world", "W.ZEN", "x.", "0", "\xe4", "SAVE", "WORLD.SAV"})
				r.run_case(
				    "world-names",
				    [&] {
					    auto root = fs::path(r.scratch) / "rt";
					    fs::remove_all(root);
					    fs::create_directories(root);
					    SaveGame g {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
					    fill_meta(g.metadata, 5), fill_state(g.state, 5, g2);
					    g.metadata.world = n;
					    auto w = world(1), w2 = world(2);
					    g.save(root / "s", *w2, "OTHER");
					    g.save(root / "s", *w, n);
					    for (int i = 0; i < 2; ++i) {
						    SaveGame h {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
						    if (i) h.load(root / "s");
						    auto& x = i ? h : g;
						    auto l = x.load_world(), l2 = x.load_world(n + ".ZEN"), l3 = x.load_world("OTHER.ZEN");
						    check(l != nullptr && l2 != nullptr && l3 != nullptr, "world-missing", "a saved world is not found");
						    check(world_id(l.get()) == world_id(w.get()) && world_id(l2.get()) == world_id(w.get()) && world_id(l3.get()) == world_id(w2.get()), "world", "another world was loaded");
						    check(x.load_world("NONE.ZEN") == nullptr, "world-unknown", "a world which was never saved was found");
						    r.trans(4);
					    }
					    fs::remove_all(root);
				    },
				    [&] { return mc::fmt("g%d world named '%s'", g2 + 1, n.c_str()); });
			// a slot in which some of the files can not be written: saving there must be reported
			for (int mask = 0; mask < 32; ++mask)
				for (int same = 0; same < 2; ++same)
					r.run_case(
					    "blocked",
					    [&] {
						    auto root = fs::path(r.scratch) / "rt";
						    fs::remove_all(root);
						    fs::create_directories(root);
						    SaveGame g {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
						    fill_meta(g.metadata, 5), fill_state(g.state, 5, g2);
						    g.metadata.world = "W";
						    g.thumbnail = std::nullopt;
						    auto w = world(1);
						    g.save(root / "s", *w, "W");
						    static char const* N[] = {"SAVEINFO.SAV", "THUMB.SAV", "SAVEHDR.SAV", "SAVEDAT.SAV", "W.SAV"};
						    for (int i = 0; i < 5; ++i)
							    if (mask >> i & 1) fs::remove(root / "s" / N[i]), fs::create_directories(root / "s" / N[i] / "x");
						    fill_meta(g.metadata, 6), fill_state(g.state, 6, g2);
						    g.metadata.world = "W";
						    auto w2 = world(2);
						    bool reported = false;
						    try {
							    g.save(same ? root / "s" : root / "t", *w2, "W"); // a new slot begins as a copy of the old one
						    } catch (std::exception const&) {
							    reported = true;
						    }
						    r.trans(2);
						    check(reported == (mask != 0), "blocked", reported ? "saving failed" : "a save which could not be written was not reported");
						    if (!mask) {
							    SaveGame h {g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1};
							    h.load(same ? root / "s" : root / "t");
							    ::same(dump_meta(g.metadata, g2), dump_meta(h.metadata, g2), "metadata"), ::same(dump_state(g.state), dump_state(h.state), "state");
						    }
						    fs::remove_all(root);
						    r.outcome(reported ? "reported" : "saved");
					    },
					    [&] { return mc::fmt("g%d: save into a %s slot, files blocked by directories: %02x", g2 + 1, same ? "used" : "new", mask); });
			// a symbol without a value (the first game stores exactly one)
			if (!g2)
				r.run_case(
				    "empty-symbol",
				    [&] {
					    auto root = fs::path(r.scratch) / "rt";
					    fs::remove_all(root);
					    fs::create_directories(root);
					    SaveGame g {GameVersion::GOTHIC_1};
					    fill_meta(g.metadata, 5), fill_state(g.state, 5, false);
					    g.state.symbols = {{"m", {}}, {"b", {1}}};
					    auto w = world(1);
					    g.save(root / "s", *w, "W");
					    SaveGame h {GameVersion::GOTHIC_1};
					    h.load(root / "s");
					    r.trans(2);
					    check(h.state.symbols.size() == 2 && h.state.symbols[0].name == "m" && h.state.symbols[1].name == "b" && h.state.symbols[1].values == std::vector<int32_t> {1}, "symbols", "symbols differ");
					    fs::remove_all(root);
				    },
				    [&] { return std::string("a symbol without a value"); });
		}
	}
} // namespace
MC_MAIN(explore)
