// P21: operations on independent objects do not disturb each other, however two threads are interleaved.
// config: tsan
// Two real threads run one operation each under a controlled scheduler: exactly one of them runs at any time, and every access to a
// stream, log message, script callback or thread-unsafe function of the C library is a scheduling point. The scheduler hands over
// without creating a happens-before edge the race detector could see, so an unsynchronised access to anything shared is reported in
// every schedule in which both accesses happen, while the enumeration decides whether a result depends on the schedule.
#include "corpus.hh"
#include "zenkit/Logger.hh"
#include "zenkit/Vfs.hh"

#include <clocale>
#include <ctime>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <thread>

// ---- the scheduler --------------------------------------------------------------------------------------------------------------
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))
namespace {
	struct Sched {
		int turn = 0;           // who may run; -1: both, because one of them waits for something the other holds
		uint32_t points[2] {};  // scheduling points passed
		uint32_t leave[2] {};   // hand over at this point (once)
		int done[2] {};
		uint32_t handed = 0, freed = 0;
	};
	Sched S;
	thread_local int me = -1;

	UNSEEN void fwait(int* p, int v, long ms) {
		timespec ts {ms / 1000, (ms % 1000) * 1000000};
		syscall(SYS_futex, p, FUTEX_WAIT, v, &ts, nullptr, 0);
	}
	UNSEEN void fwake(int* p) {
		syscall(SYS_futex, p, FUTEX_WAKE, 2, nullptr, nullptr, 0);
	}
	UNSEEN void give(int to) {
		__atomic_store_n(&S.turn, to, __ATOMIC_SEQ_CST);
		fwake(&S.turn);
	}
	UNSEEN void await_turn(int id) {
		// whoever is running may be blocked by a lock this thread holds: after a while without progress both go on freely
		uint32_t seen = ~0u;
		int idle = 0;
		for (;;) {
			int t = __atomic_load_n(&S.turn, __ATOMIC_SEQ_CST);
			if (t == id || t == -1) return;
			fwait(&S.turn, t, 10);
			uint32_t p = __atomic_load_n(&S.points[1 - id], __ATOMIC_SEQ_CST);
			if (p != seen)
				seen = p, idle = 0;
			else if (++idle > 40) {
				++S.freed;
				give(-1);
			}
		}
	}
	UNSEEN void point() {
		int id = me;
		if (id < 0) return;
		uint32_t p = __atomic_fetch_add(&S.points[id], 1u, __ATOMIC_SEQ_CST);
		if (p != S.leave[id] || __atomic_load_n(&S.done[1 - id], __ATOMIC_SEQ_CST)) return;
		if (__atomic_load_n(&S.turn, __ATOMIC_SEQ_CST) == -1) return;
		++S.handed;
		give(1 - id);
		await_turn(id);
	}
	UNSEEN void finish(int id) {
		__atomic_store_n(&S.done[id], 1, __ATOMIC_SEQ_CST);
		if (__atomic_load_n(&S.turn, __ATOMIC_SEQ_CST) != -1) give(1 - id);
	}
	UNSEEN void reset(uint32_t a, uint32_t b) {
		S = Sched {};
		S.leave[0] = a, S.leave[1] = b;
	}
} // namespace

// ---- the functions of the C library which keep their state in one place for all threads ------------------------------------------
extern "C" char* strtok(char* s, char const* delim) noexcept {
	static char* next = nullptr;
	point();
	return strtok_r(s, delim, &next);
}
static tm g_tm;
extern "C" tm* localtime(time_t const* t) noexcept {
	tm x {};
	localtime_r(t, &x);
	g_tm = x;
	point();
	return &g_tm;
}
extern "C" tm* gmtime(time_t const* t) noexcept {
	tm x {};
	gmtime_r(t, &x);
	g_tm = x;
	point();
	return &g_tm;
}
extern "C" char* asctime(tm const* t) noexcept {
	static char buf[64];
	char x[64];
	asctime_r(t, x);
	strcpy(buf, x);
	point();
	return buf;
}

namespace {
	// ---- streams with scheduling points ---------------------------------------------------------------------------------------
	struct PRead final : Read {
		std::unique_ptr<Read> in;
		explicit PRead(std::string const& s) : in(rd(s)) {}
		bool inside = false; // of a line which is being read character by character
		size_t read(void* b, size_t n) noexcept override {
			if (n != 1 || !inside) point();
			auto got = in->read(b, n);
			char c = got == 1 ? *static_cast<char*>(b) : '\0';
			inside = n == 1 && c != '\0' && c != '\n';
			return got;
		}
		void seek(ssize_t o, Whence w) noexcept override {
			in->seek(o, w);
		}
		size_t tell() const noexcept override {
			return in->tell();
		}
		bool eof() const noexcept override {
			return in->eof();
		}
	};
	struct PWrite final : Write {
		Bytes bytes;
		std::unique_ptr<Write> out = Write::to(&bytes);
		size_t write(void const* b, size_t n) noexcept override {
			point();
			return out->write(b, n);
		}
		void seek(ssize_t o, Whence w) noexcept override {
			out->seek(o, w);
		}
		size_t tell() const noexcept override {
			return out->tell();
		}
		/// what was written, but for the date
		std::string str() const {
			auto s = to_str(bytes);
			for (size_t p = 0; (p = s.find("\ndate ", p)) != std::string::npos; ++p) {
				auto e = s.find('\n', p + 1);
				if (e == std::string::npos) break;
				s.replace(p + 6, e - p - 6, std::string(e - p - 6, 'd'));
			}
			return s;
		}
	};
	thread_local std::string* g_log = nullptr;

	using Op = std::function<std::string(int who)>;
	struct Named {
		std::string name;
		Op op;
	};
	std::vector<Named> ops;

	template <typename T, typename Save>
	Op load_save(std::string data, Save save) {
		return [data, save](int) {
			PRead in {data};
			T t {};
			if constexpr (std::is_same_v<T, Mesh>)
				t.load(&in, false);
			else
				t.load(&in);
			PWrite out;
			save(t, &out);
			return out.str();
		};
	}
	std::string data_of(char const* name) {
		for (auto& a : assets)
			if (a.name == name) return a.data;
		fprintf(stderr, "no asset %s\n", name);
		_exit(2);
	}
	/// reads an archived object and writes it again in the same format
	Op archive_op(std::string const& asset, Cfg c) {
		return [data = data_of(asset.c_str()), c](int) {
			PRead in {data};
			auto ar = ReadArchive::from(&in);
			auto o = ar->read_object(c.g);
			PWrite out;
			auto w = c.save ? WriteArchive::to_save(&out, c.f) : WriteArchive::to(&out, c.f);
			w->write_object(o, c.g);
			w->write_header();
			return ar->get_header().user + out.str();
		};
	}

	void make_ops(mc::Run& r) {
		auto G1 = GameVersion::GOTHIC_1, G2 = GameVersion::GOTHIC_2;
		ops.push_back({"log", [](int who) {
			               for (int i = 0; i < 4; ++i) {
				               Logger::log(LogLevel::INFO, who ? "second" : "first", "message %d of thread %d: %s", i, who, std::string(z(5 + 20 * who), who ? 'b' : 'a').c_str());
				               point();
			               }
			               return std::string();
		               }});
		ops.push_back({"mesh", load_save<Mesh>(data_of("mesh G1"), [=](Mesh& m, Write* w) { m.save(w, G1); })});
		ops.push_back({"multi-resolution mesh", load_save<MultiResolutionMesh>(data_of("multi-resolution mesh G2"), [=](auto& m, Write* w) { m.save(w, G2); })});
		ops.push_back({"soft-skin mesh", load_save<SoftSkinMesh>(data_of("soft-skin mesh G1"), [=](auto& m, Write* w) { m.save(w, G1); })});
		ops.push_back({"model", load_save<Model>(data_of("model G2"), [=](auto& m, Write* w) { m.save(w, G2); })});
		ops.push_back({"font", load_save<Font>(data_of("font"), [=](auto& m, Write* w) { m.save(w); })});
		for (char const* t : {"texture format 8 8x2/2", "texture format 10 8x2/2", "texture format 12 4x4/1"})
			ops.push_back({t, [d = data_of(t)](int) {
				               PRead in {d};
				               Texture x;
				               x.load(&in);
				               PWrite out;
				               x.save(&out);
				               for (auto b : x.as_rgba8(0)) out.bytes.push_back(static_cast<std::byte>(b));
				               return to_str(out.bytes);
			               }});
		ops.push_back({"animation", [d = data_of("animation")](int) {
			               PRead in {d};
			               ModelAnimation a;
			               a.load(&in);
			               std::string o = a.name + a.next + a.source_script + mc::fmt("%zu %zu %u", a.samples.size(), a.events.size(), a.checksum);
			               for (auto& s : a.samples) o += mc::fmt(" %a %a %a", s.position.x, s.rotation.w, s.rotation.x);
			               for (auto& e : a.events) o += e.tag;
			               return o;
		               }});
		ops.push_back({"morph mesh", [d = data_of("morph mesh G1")](int) {
			               PRead in {d};
			               MorphMesh a;
			               a.load(&in);
			               std::string o = a.name;
			               for (auto& x : a.animations) {
				               o += mc::fmt("%s %zu", x.name.c_str(), x.samples.size());
				               for (auto& s : x.samples) o += mc::fmt(" %a %a", s.x, s.z);
			               }
			               for (auto& s : a.morph_positions) o += mc::fmt(" %a %a", s.x, s.z);
			               return o;
		               }});
		for (char const* t : {"model script text", "model script compiled"})
			ops.push_back({t, [d = data_of(t)](int) {
				               PRead in {d};
				               ModelScript a;
				               a.load(&in);
				               std::string o = a.skeleton.name;
				               for (auto& x : a.animations) {
					               o += mc::fmt("|%s %s %d %f %d %zu %zu", x.name.c_str(), x.next.c_str(), x.layer, x.fps, x.last_frame, x.events.size(), x.sfx.size());
					               for (auto& e : x.events) {
						               o += e.item + e.slot;
						               for (auto f : e.frames) o += mc::fmt(" %d", f);
					               }
				               }
				               for (auto& x : a.aliases) o += x.name + x.alias;
				               for (auto& x : a.combinations) o += x.name + x.model;
				               return o;
			               }});
		for (int f = 0; f < 3; ++f) {
			Cfg c {f == 1 ? G2 : G1, static_cast<ArchiveFormat>(f), false, true}, s {f == 1 ? G1 : G2, static_cast<ArchiveFormat>(f), true, true};
			for (auto t : {"VItem", "VLight", "CutsceneLibrary", "VTriggerList"}) ops.push_back({mc::fmt("%s %s", t, c.str().c_str()), archive_op(mc::fmt("%s %s", t, c.str().c_str()), c)});
			ops.push_back({"VNpc " + s.str(), archive_op("VNpc " + s.str(), s)});
		}
		for (auto c : {Cfg {G1, ArchiveFormat::BINSAFE, false, true}, Cfg {G2, ArchiveFormat::BINARY, true, true}}) {
			ops.push_back({"world " + c.str(), archive_op("world " + c.str(), c)});
		}
		ops.push_back({"world of an unknown game", [d = data_of("world G2 BINSAFE")](int) {
			               PRead in {d};
			               World w;
			               auto v = w.load(&in);
			               return mc::fmt("%d %zu %zu %zu", static_cast<int>(v), w.world_vobs.size(), w.world_mesh.vertices.size(), w.world_bsp_tree.nodes.size());
		               }});
		auto dir = fs::path(r.scratch);
		ops.push_back({"saved game", [dir](int who) {
			               auto d = dir / mc::fmt("s%d", who);
			               SaveGame g {GameVersion::GOTHIC_1};
			               g.metadata.title = mc::fmt("title %d", who);
			               g.state.infos = {{"A", true}};
			               g.state.cutscene_manager = std::make_shared<CutsceneManager>();
			               World w;
			               w.way_net = std::make_shared<WayNet>();
			               g.save(d, w, "W");
			               SaveGame h {GameVersion::GOTHIC_1};
			               h.load(d);
			               auto x = h.load_world("W");
			               return mc::fmt("%s %zu %d", h.metadata.title.c_str(), h.state.infos.size(), x != nullptr);
		               }});
		ops.push_back({"virtual file system", [](int who) {
			               Vfs v;
			               auto& d = v.mkdir("DIR/SUB");
			               std::string text(z(10 + who), who ? 'q' : 'p');
			               d.create(VfsNode::file(who ? "B" : "A", VfsFileDescriptor {reinterpret_cast<std::byte const*>(text.data()), text.size(), false}));
			               point();
			               PWrite out;
			               v.save(&out, GameVersion::GOTHIC_2, 1000000000 + who * 86400);
			               Vfs w;
			               PRead in {to_str(out.bytes)};
			               w.mount_disk(&in, VfsOverwriteBehavior::ALL);
			               auto* n = w.find(who ? "b" : "a");
			               std::string o = n ? n->name() + std::to_string(n->time()) : std::string("none");
			               if (n) {
				               auto f = n->open_read();
				               o += f->read_string(text.size());
			               }
			               return o + to_str(out.bytes);
		               }});
		ops.push_back({"script", [d = data_of("script")](int) {
			               PRead in {d};
			               DaedalusScript s;
			               s.load(&in);
			               std::string o = mc::fmt("%u", s.size());
			               for (auto& y : s.symbols()) o += mc::fmt("|%s %u %d", y.name().c_str(), y.index(), static_cast<int>(y.type()));
			               return o;
		               }});
		ops.push_back({"script machine", [](int who) {
			               static mcd::Env const env;
			               using namespace mcd;
			               // X := X + F1(E_SUB(X, Y)); ST := E_CAT(KS, ST); three times over
			               std::vector<Ins> code;
			               for (int i = 0; i < 3; ++i)
				               for (auto x : {Ins {PUSHV, X}, Ins {PUSHV, Y}, Ins {BE, E_SUB}, Ins {BL, env.addr(F1)}, Ins {PUSHV, X}, Ins {ADDMOVI}, Ins {PUSHV, KS}, Ins {PUSHV, ST}, Ins {BE, E_CAT}, Ins {PUSHV, ST}, Ins {MOVS}})
					               code.push_back(x);
			               code.push_back({PUSHV, X});
			               code.push_back({RSR});
			               Real m {env, env.with(code)};
			               m.vm.register_external("E_SUB", [who](int32_t a, int32_t b) {
				               point();
				               return a - b + who;
			               });
			               m.vm.register_external("E_CAT", [who](std::string_view a, std::string_view b) {
				               point();
				               return std::string(a) + (who ? "+" : "-") + std::string(b);
			               });
			               m.vm.find_symbol_by_name("Y")->set_int(100 * who);
			               std::string o;
			               for (int i = 0; i < 2; ++i) {
				               o += mc::fmt(" %d", m.vm.call_function<int32_t>("MAIN"));
				               point();
				               m.o[0]->a = who + i;
				               o += mc::fmt(" %d", m.vm.find_symbol_by_name("C.A")->get_int(0, m.o[0].get()));
			               }
			               o += m.vm.find_symbol_by_name("ST")->get_string();
			               try {
				               (void) m.vm.call_function<int32_t>("NOT THERE");
			               } catch (std::exception const& e) { o += e.what(); }
			               return o;
		               }});
	}

	// ---- running ----------------------------------------------------------------------------------------------------------------
	struct Result {
		std::string value, log;
	};
	void body(int id, Op const& op, Result& res) {
		me = id;
		g_log = &res.log;
		await_turn(id);
		try {
			res.value = op(id);
		} catch (std::exception const& e) {
			res.value = std::string("error: ") + e.what();
		}
		finish(id);
		me = -1;
	}
	/// runs both under the schedule "the first to point a, the second to point b, then each to its end"
	std::array<Result, 2> run_pair(Op const& x, Op const& y, uint32_t a, uint32_t b) {
		std::array<Result, 2> res;
		reset(a, b);
		{
			std::thread t0 {[&] { body(0, x, res[0]); }};
			std::thread t1 {[&] { body(1, y, res[1]); }};
			t0.join();
			t1.join();
		}
		return res;
	}

	std::string diff(std::string const& a, std::string const& b) {
		size_t i = 0;
		while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
		auto cut = [&](std::string const& s) { return esc(s.substr(i > 20 ? i - 20 : 0, 60)); };
		return mc::fmt("at %zu: alone ...%s..., together ...%s...", i, cut(a).c_str(), cut(b).c_str());
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 30;
		fs::create_directories(r.scratch);
		geometry(r);
		textures();
		animations();
		model_scripts();
		scripts();
		objects();
		worlds();
		Logger::set(LogLevel::DEBUG, [](LogLevel, char const* name, char const* message) {
			point();
			if (g_log) *g_log += std::string(name) + ": " + message + "\n";
		});
		make_ops(r);
		// each operation alone, as the first and as the second thread
		struct Alone {
			Result res[2];
			uint32_t points[2];
		};
		std::vector<Alone> alone(ops.size());
		Op const nothing = [](int) { return std::string(); };
		for (size_t i = 0; i < ops.size(); ++i) {
			for (int who = 0; who < 2; ++who) {
				auto res = who ? run_pair(nothing, ops[i].op, ~0u, ~0u) : run_pair(ops[i].op, nothing, ~0u, ~0u);
				alone[i].res[who] = res[z(who)];
				alone[i].points[who] = S.points[who];
			}
			if (getenv("MC_SHOW")) fprintf(stderr, "%-40s %u points, result %s\n", ops[i].name.c_str(), alone[i].points[0], esc(alone[i].res[0].value.substr(0, 60)).c_str());
			r.state(mc::hash_str(alone[i].res[0].value));
		}
		auto judge = [&](size_t i, size_t j, uint32_t a, uint32_t b) {
			auto res = run_pair(ops[i].op, ops[j].op, a, b);
			r.trans(1 + S.handed);
			r.counters["handovers"] += S.handed;
			r.counters["schedules with a blocked thread"] += S.freed != 0;
			size_t const k[2] {i, j};
			for (int who = 0; who < 2; ++who) {
				auto& w = alone[k[who]].res[who];
				auto& g = res[z(who)];
				if (g.value != w.value) mc::fail("result", mc::fmt("%s got another result, ", ops[k[who]].name.c_str()) + diff(w.value, g.value));
				if (g.log != w.log) mc::fail("messages", mc::fmt("%s logged other messages, ", ops[k[who]].name.c_str()) + diff(w.log, g.log));
			}
			r.outcome(mc::hash_str(res[0].value + res[1].value));
		};
		for (size_t i = 0; i < ops.size(); ++i)
			for (size_t j = 0; j < ops.size(); ++j) {
				uint32_t n = alone[i].points[0], m = alone[j].points[1];
				auto desc = [&](uint32_t a, uint32_t b) { return mc::fmt("%s until point %u of %u, %s until point %u of %u", ops[i].name.c_str(), a, n, ops[j].name.c_str(), std::min(b, m), m); };
				// one preemption: everywhere (thinned for long operations)
				uint32_t s1 = std::max(1u, n / static_cast<uint32_t>(r.tier(24, 400)));
				for (uint32_t a = 0; a < n; a += s1) r.run_case("one-preemption", [&] { judge(i, j, a, ~0u); }, [&] { return desc(a, m); });
				// two preemptions: on a grid
				uint32_t g = static_cast<uint32_t>(r.tier(3, 12));
				uint32_t sa = std::max(1u, (n + g - 1) / g), sb = std::max(1u, (m + g - 1) / g);
				for (uint32_t a = 0; a < n; a += sa)
					for (uint32_t b = 0; b < m; b += sb) r.run_case("two-preemptions", [&] { judge(i, j, a, b); }, [&] { return desc(a, b); });
			}
	}
} // namespace
MC_MAIN(explore)
