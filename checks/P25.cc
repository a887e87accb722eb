// P25: whatever was acquired by an operation is released with the objects involved, at whatever point the operation ends.
#define MC_LIMIT_ALLOC 64
#include "corpus.hh"
#include "vfsmodel.hh"
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {
	struct Held {
		size_t bytes = 0, files = 0, maps = 0;
	};
	std::string g_scratch;
	size_t open_files() {
		size_t n = 0;
		DIR* d = opendir("/proc/self/fd");
		if (!d) return 0;
		while (readdir(d)) ++n;
		closedir(d);
		return n;
	}
	/// mappings of files below the scratch directory
	size_t mappings() {
		static char buf[1 << 16];
		static char line[8192];
		size_t n = 0, len = 0;
		FILE* f = fopen("/proc/self/maps", "r");
		if (!f) return 0;
		setvbuf(f, buf, _IOFBF, sizeof buf);
		while (fgets(line, sizeof line, f))
			if (strstr(line, g_scratch.c_str())) ++n;
		fclose(f);
		(void) len;
		return n;
	}
	Held held(bool files) {
		Held h;
		if (files) h.files = open_files(), h.maps = mappings();
		h.bytes = __sanitizer_get_current_allocated_bytes();
		return h;
	}

	/// runs f over and over: what the process holds afterwards may not grow with every run (one-time caches are fine)
	void settles(mc::Run& r, std::function<void()> const& f, bool files, int rounds = 4) {
		Held prev;
		for (int i = 0; i < rounds; ++i) {
			f();
			r.trans();
			Held now = held(files);
			if (i > 0 && now.bytes <= prev.bytes && now.files <= prev.files && now.maps <= prev.maps) return;
			if (i == rounds - 1) {
				check(now.files <= prev.files, "file-handle", mc::fmt("%zu file handles stay open after each run", now.files - prev.files));
				check(now.maps <= prev.maps, "mapping", mc::fmt("%zu file mappings stay after each run", now.maps - prev.maps));
				check(now.bytes <= prev.bytes, "memory", mc::fmt("%zu bytes stay allocated after each run", now.bytes - prev.bytes));
			}
			prev = now;
		}
	}
	template <typename F>
	bool guarded(F&& f) {
		try {
			f();
			return true;
		} catch (mc::Failure const&) {
			throw;
		} catch (std::exception const&) { return false; }
	}

	void loads(mc::Run& r) {
		for (auto& a : assets) {
			bool files = a.name.find("saved game") != std::string::npos;
			auto go = [&](std::string const& data) {
				bool ok = false;
				settles(r, [&] { ok = guarded([&] { a.load(data); }); }, files);
				++r.counters[ok ? "accepted" : "rejected"];
				r.outcome(mc::fmt("%s %d", a.name.c_str(), ok));
			};
			r.state(mc::hash_str(a.data));
			r.run_case("intact", [&] { go(a.data); }, [&] { return a.name; });
			size_t step = !r.quick() ? 1 : a.depth == FULL ? (a.text ? 2 : 1) : a.quick ? 16 : 40;
			for (size_t cut = 0; cut < a.data.size(); ++cut)
				if (cut % step == a.data.size() % step)
					r.run_case("truncated", [&] { go(a.data.substr(0, cut)); }, [&] { return mc::fmt("%s cut to %zu of %zu bytes", a.name.c_str(), cut, a.data.size()); });
			// absurd sizes, in files which hold no references between objects
			if (a.text || a.name.find("archive") != std::string::npos || a.data.compare(0, 4, "ZenG") == 0 || (r.quick() && (a.depth == NARROW || !a.quick))) continue;
			for (size_t o = 0; o + 4 <= a.data.size(); ++o)
				for (auto v : {"\xff\xff\xff\xff", "\xff\xff\xff\x7f"})
					r.run_case(
					    "altered",
					    [&] {
						    auto x = a.data;
						    x.replace(o, 4, v, 4);
						    go(x);
					    },
					    [&] { return mc::fmt("%s: word at %zu := %s", a.name.c_str(), o, esc(std::string(v, 4)).c_str()); });
		}
	}

	/// every kind of source and sink over files which exist, are empty, missing or directories
	void files(mc::Run& r) {
		auto dir = fs::path(r.scratch) / "files";
		uint32_t dos = dos_time(2002, 2, 2, 2, 2, 2);
		auto tree = mdir("/") + (mdir("d") + mfile("x", "abc", 0)) + mfile("g", "", 0) + mfile("h", std::string(5000, 'q'), 0);
		auto img = disk_image(tree, dos).s;
		auto zip = disk_image(tree, dos, 1, true, 64).s;
		static char const* NAMES[] = {"good", "empty", "missing", "directory", "image", "zipped", "short"};
		auto prepare = [&] {
			fs::remove_all(dir);
			fs::create_directories(dir / "directory" / "sub");
			write_file(dir / "good", "line one\nline two\n");
			write_file(dir / "empty", "");
			write_file(dir / "image", img);
			write_file(dir / "zipped", zip);
			write_file(dir / "short", img.substr(0, 296 + 80));
			write_file(dir / "directory" / "inner", "inner");
			write_file(dir / "directory" / "sub" / "deep", img);
		};
		using Step = std::pair<char const*, std::function<void(fs::path const&)>>;
		std::vector<Step> steps {
		    {"Read::from(path)",
		     [](fs::path const& p) {
			     auto s = Read::from(p);
			     (void) s->read_line(true);
			     (void) s->eof();
		     }},
		    {"Mmap moved",
		     [](fs::path const& p) {
			     Mmap a {p};
			     Mmap b {std::move(a)};
			     std::vector<Mmap> v;
			     v.push_back(std::move(b));
			     v.emplace_back(p);
			     v.emplace_back(p);
		     }},
		    {"Read::from(FILE)",
		     [](fs::path const& p) {
			     auto* f = fopen(p.c_str(), "rb");
			     if (!f) return;
			     auto s = Read::from(f);
			     (void) s->read_line(true);
			     s.reset();
			     fclose(f);
		     }},
		    {"Read::from(istream)",
		     [](fs::path const& p) {
			     std::ifstream f {p, std::ios::binary};
			     auto s = Read::from(&f);
			     (void) s->read_string(5);
		     }},
		    {"mount_disk(path)",
		     [](fs::path const& p) {
			     Vfs v;
			     v.mount_disk(p);
			     if (auto* n = v.find("h")) (void) n->open_read()->read_string(100);
		     }},
		    {"mount_disk(stream)",
		     [](fs::path const& p) {
			     Vfs v;
			     auto s = Read::from(p);
			     v.mount_disk(s.get());
			     if (auto* n = v.find("h")) (void) n->open_read()->read_string(100);
		     }},
		    {"mount_host",
		     [](fs::path const& p) {
			     Vfs v;
			     v.mount_host(p, "/");
			     Vfs w {std::move(v)};
			     (void) w.find("inner");
		     }},
		    {"mount then fail",
		     [](fs::path const& p) {
			     Vfs v;
			     v.mount_disk(p, VfsOverwriteBehavior::ALL);
			     v.mount_disk(p, VfsOverwriteBehavior::NONE);
			     v.mount_disk(p / "nothing here");
		     }},
		    {"save over",
		     [](fs::path const& p) {
			     Vfs v;
			     v.mount_disk(p);
			     Bytes b;
			     auto w = Write::to(&b);
			     v.save(w.get(), GameVersion::GOTHIC_2, 1000000000);
		     }},
		    {"Write::to(path)",
		     [](fs::path const& p) {
			     auto w = Write::to(p.parent_path() / ("out-" + p.filename().string()) / "x");
			     w->write_uint(1);
			     auto u = Write::to(p.parent_path() / ("out-" + p.filename().string()));
			     u->write_uint(1);
		     }},
		    {"archive reader kept",
		     [](fs::path const& p) {
			     auto s = Read::from(p);
			     auto a = ReadArchive::from(s.get());
			     (void) a->read_object(GameVersion::GOTHIC_1);
		     }},
		};
		for (auto& [what, step] : steps)
			for (auto n : NAMES)
				for (auto& [then, other] : steps)
					r.run_case(
					    "files",
					    [&] {
						    prepare();
						    settles(r, [&] { r.trans(), guarded([&] { step(dir / n); }), guarded([&] { other(dir / n); }); }, true);
						    r.outcome(mc::fmt("%s %s", what, n));
						    fs::remove_all(dir);
					    },
					    [&] { return mc::fmt("%s, then %s of %s", what, then, n); });
		// images cut anywhere
		for (auto& [name, s] : {std::pair<char const*, std::string&> {"plain", img}, {"compressed", zip}})
			for (size_t cut = 0; cut <= s.size(); cut += cut < 900 ? 1 : 61)
				r.run_case(
				    "image",
				    [&] {
					    fs::create_directories(dir);
					    write_file(dir / "cut", s.substr(0, cut));
					    settles(
					        r,
					        [&] {
						        Vfs v;
						        guarded([&] { v.mount_disk(dir / "cut"); });
						        for (auto f : {"x", "g", "h"})
							        if (auto* n = v.find(f); n && n->type() == VfsNodeType::FILE) {
								        auto rdr = n->open_read();
								        char b[64];
								        while (rdr->read(b, sizeof b) > 0) {}
							        }
					        },
					        true);
					    fs::remove_all(dir);
				    },
				    [&] { return mc::fmt("%s image cut to %zu", name, cut); });
	}

	/// files whose memory the tree owns: every history of copies, assignments, insertions and removals
	void owned(mc::Run& r) {
		static char const* OPS[] = {"a = new", "b = new", "a = b", "b = a", "a = a", "create x from a", "create x from b", "create d/y from a", "create d", "remove x", "remove d",
		                            "copy tree", "drop copy", "move tree", "a = view", "mount file b over x", "read all"};
		constexpr int N = static_cast<int>(std::size(OPS));
		auto fresh = [](std::string const& s) {
			auto* m = new std::byte[s.size()];
			memcpy(m, s.data(), s.size());
			return VfsFileDescriptor {m, s.size(), true};
		};
		static std::string const FIXED = "borrowed";
		auto see = [](VfsNode const* n, std::string const& want, char const* where) {
			check(n != nullptr, "gone", mc::fmt("%s is missing", where));
			auto rdr = n->open_read();
			auto got = rdr->read_string(want.size() + 4 > 64 ? 64 : want.size());
			check(got == want, "content", mc::fmt("%s reads [%s] want [%s]", where, got.c_str(), want.c_str()));
		};
		auto play = [&](std::vector<int> const& t) {
			int serial = 0;
			auto text = [&] { return std::string(static_cast<size_t>(serial % 3) * 7, static_cast<char>('a' + serial)); };
			std::string ma = "first", mb = "";
			VfsFileDescriptor a = fresh(ma), b = fresh(mb);
			Vfs v;
			std::map<std::string, std::string> m; // path -> content
			bool d = false;
			std::unique_ptr<Vfs> moved;
			Vfs* cur = &v;
			struct Copy {
				VfsNode n;
				std::map<std::string, std::string> m;
			};
			std::vector<Copy> copies;
			auto clash = [&](VfsNode* p, char const* n) { if (p->child(n)) p->remove(n); };
			for (int o : t) {
				r.trans();
				auto* root = const_cast<VfsNode*>(&cur->root());
				switch (o) {
				case 0: ++serial, ma = text(), a = fresh(ma); break;
				case 1: ++serial, mb = text(), b = fresh(mb); break;
				case 2: a = b, ma = mb; break;
				case 3: b = a, mb = ma; break;
				case 4: { auto& self = a; a = self; break; }
				case 5: clash(root, "x"), (void) root->create(VfsNode::file("x", a)), m["x"] = ma; break;
				case 6: clash(root, "x"), (void) root->create(VfsNode::file("x", b, 5)), m["x"] = mb; break;
				case 7:
					if (!d) break;
					clash(root->child("d"), "y"), (void) root->child("d")->create(VfsNode::file("y", a)), m["d/y"] = ma;
					break;
				case 8:
					if (!d) (void) root->create(VfsNode::directory("d")), d = true;
					break;
				case 9: check(root->remove("x") == (m.erase("x") > 0), "remove", "removing x"); break;
				case 10: check(root->remove("d") == d, "remove", "removing d"), m.erase("d/y"), d = false; break;
				case 11: copies.push_back({*root, m}); break;
				case 12: if (!copies.empty()) copies.erase(copies.begin()); break;
				case 13: {
					auto n = std::make_unique<Vfs>(std::move(*cur));
					moved = std::move(n), cur = moved.get();
					break;
				}
				case 14: a = VfsFileDescriptor {reinterpret_cast<std::byte const*>(FIXED.data()), FIXED.size(), false}, ma = FIXED; break;
				case 15: {
					auto dir = VfsNode::directory("/");
					(void) dir.create(VfsNode::file("x", b, 7));
					cur->mount(std::move(*dir.child("x")), "/", VfsOverwriteBehavior::ALL);
					m["x"] = mb;
					break;
				}
				case 16: break;
				}
				for (auto& [k, c] : m) {
					auto* n = k == "x" ? cur->root().child("x") : cur->root().child("d") ? cur->root().child("d")->child("y") : nullptr;
					see(n, c, k.c_str());
				}
				for (auto& c : copies)
					for (auto& [k, w] : c.m) see(k == "x" ? c.n.child("x") : c.n.child("d")->child("y"), w, "in a copy");
				check(a.size == ma.size() && memcmp(a.memory, ma.data(), ma.size()) == 0, "content", "descriptor a changed");
				check(b.size == mb.size() && memcmp(b.memory, mb.data(), mb.size()) == 0, "content", "descriptor b changed");
			}
		};
		for (int len = 1; len <= r.tier(4, 5); ++len)
			tuples(static_cast<size_t>(len), N, [&](std::vector<int> const& t) {
				r.run_case(
				    "owned",
				    [&] {
					    settles(r, [&] { play(t); }, false);
					    r.outcome(mc::fmt("owned %d", t.back()));
				    },
				    [&] {
					    std::string s;
					    for (int o : t) s += std::string(s.empty() ? "" : "; ") + OPS[o];
					    return s;
				    });
			});
	}

	/// what a living machine holds does not grow with calls, however they end, and goes away with it
	void machines(mc::Run& r) {
		using namespace mcd;
		Env env;
		struct Op {
			char const* name;
			std::function<void(DaedalusVm&)> f;
		};
		std::vector<Op> ops {
		    {"call", [](DaedalusVm& v) { (void) v.call_function<int32_t>("F1", 3); }},
		    {"string", [](DaedalusVm& v) { (void) v.call_function<std::string>("FSTR"); }},
		    {"ignored", [](DaedalusVm& v) { v.call_function("LEAK"); }},
		    {"no result", [](DaedalusVm& v) { (void) v.call_function<int32_t>("NORET"); }},
		    {"wrong type", [](DaedalusVm& v) { (void) v.call_function<float>("F1", 3); }},
		    {"wrong argument", [](DaedalusVm& v) { (void) v.call_function<int32_t>("SUB2", 3, std::string_view {"a string which does not fit inside itself"}); }},
		    {"missing", [](DaedalusVm& v) { v.call_function("NOTHING"); }},
		    {"main", [](DaedalusVm& v) { (void) v.call_function<int32_t>("MAIN"); }},
		    {"instance", [](DaedalusVm& v) { (void) v.init_instance<Obj>("I0"); }},
		    {"other instance", [](DaedalusVm& v) { (void) v.init_instance<Obj>("I1"); }},
		    {"foreign instance", [](DaedalusVm& v) { (void) v.init_instance<Obj>("J0"); }},
		    {"opaque", [](DaedalusVm& v) { (void) v.init_opaque_instance(v.find_symbol_by_name("J0")); }},
		    {"value", [](DaedalusVm& v) { v.find_symbol_by_name("ST")->set_string("a string which does not fit inside itself"); }},
		    {"context", [](DaedalusVm& v) { v.find_symbol_by_name("SELF")->set_instance(v.find_symbol_by_name("I0")->get_instance()); }},
		    {"push", [](DaedalusVm& v) { v.push_string("a string which does not fit inside itself"), (void) v.pop_string(); }},
		    {"push reference", [](DaedalusVm& v) { v.push_reference(v.find_symbol_by_name("SA"), 1), (void) v.pop_reference(); }},
		    {"push instance", [](DaedalusVm& v) { v.push_instance(v.find_symbol_by_name("I0")->get_instance()), (void) v.pop_instance(); }},
		    {"push, pop int", [](DaedalusVm& v) { v.push_string("a string which does not fit inside itself"), (void) v.pop_int(); }},
		    {"push, pop float", [](DaedalusVm& v) { v.push_string("a string which does not fit inside itself"), (void) v.pop_float(); }},
		    {"push, pop instance", [](DaedalusVm& v) { v.push_string("a string which does not fit inside itself"), (void) v.pop_instance(); }},
		    {"unsafe call", [](DaedalusVm& v) { v.unsafe_call(v.find_symbol_by_name("VOIDX")); }},
		};
		// what MAIN does
		std::vector<std::pair<char const*, std::vector<Ins>>> mains {
		    {"plain", {{PUSHI, 4}, {RSR}}},
		    {"concatenate", {{PUSHV, ST}, {PUSHV, KS}, {BE, E_CAT}, {PUSHV, ST}, {MOVS}, {PUSHI, 1}, {RSR}}},
		    {"host failure", {{PUSHV, KS}, {PUSHI, 1}, {BE, E_FAIL}, {RSR}}},
		    {"host failure with string", {{PUSHV, KS}, {BE, E_FAILS}, {PUSHV, ST}, {MOVS}, {PUSHI, 1}, {RSR}}},
		    {"deep failure", {{PUSHV, KS}, {PUSHI, 5}, {PUSHI, 0}, {DIV}, {RSR}}},
		    {"member of nothing", {{PUSHI, 5}, {PUSHV, C_A}, {MOVI}, {PUSHI, 1}, {RSR}}},
		    {"instances", {{PUSHVI, I0}, {PUSHVI, G}, {MOVVI}, {GMOVI, G}, {PUSHI, 5}, {PUSHV, C_A}, {MOVI}, {PUSHI, 1}, {RSR}}},
		    {"overflow", {{PUSHVI, I0}, {PUSHV, KS}, {B, env.main}}},
		    {"string overflow", {{PUSHV, KS}, {PUSHV, KS}, {BE, E_CAT}, {B, env.main}}},
		    {"string as number", {{PUSHV, KS}, {PUSHV, KS}, {BE, E_CAT}, {PUSHI, 1}, {ADD}, {RSR}}},
		    {"string as condition", {{PUSHV, KS}, {PUSHV, KS}, {BE, E_CAT}, {BZ, env.main}, {RSR}}},
		    {"string into variable", {{PUSHV, KS}, {PUSHV, KS}, {BE, E_CAT}, {PUSHV, X}, {MOVI}, {RSR}}},
		    {"string into instance", {{PUSHV, KS}, {PUSHV, KS}, {BE, E_CAT}, {PUSHVI, G}, {MOVVI}, {RSR}}},
		    {"string as target", {{PUSHI, 1}, {PUSHV, KS}, {PUSHV, KS}, {BE, E_CAT}, {MOVI}, {RSR}}},
		    {"leftovers", {{PUSHV, KS}, {PUSHVI, I0}, {PUSHV, ST}, {PUSHI, 1}, {PUSHI, 2}, {RSR}}},
		};
		auto machine = [&](std::vector<Ins> const& body, int handler) {
			DaedalusScript s;
			auto b = env.file(env.with(body));
			auto rr = rd(b);
			s.load(rr.get());
			auto v = std::make_unique<DaedalusVm>(std::move(s));
			v->register_member("C.A", &Obj::a);
			v->register_external("E_CAT", [](std::string_view a, std::string_view b) { return (std::string(a) + std::string(b)).substr(0, 60); });
			v->register_external("E_FAIL", []() -> int32_t { throw DaedalusVmException {"no"}; });
			v->register_external("E_FAILS", [](std::string_view) -> std::string { throw DaedalusVmException {"a reason which is rather long, longer than anything"}; });
			if (handler)
				v->register_exception_handler([handler](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) {
					return handler == 1 ? DaedalusVmExceptionStrategy::CONTINUE : handler == 2 ? DaedalusVmExceptionStrategy::RETURN : DaedalusVmExceptionStrategy::FAIL;
				});
			return v;
		};
		int len = r.tier(2, 3);
		for (auto& [mn, body] : mains)
			for (int handler = 0; handler < 4; ++handler) {
				if (handler == 1 && std::string_view(mn).find("overflow") != std::string_view::npos) continue; // never ends
				tuples(static_cast<size_t>(len), static_cast<int>(ops.size()), [&](std::vector<int> const& t) {
					auto play = [&](DaedalusVm& v) {
						for (int o : t) guarded([&] { ops[z(o)].f(v); });
					};
					auto show = [&] {
						std::string s = mc::fmt("main '%s', handler %d:", mn, handler);
						for (int o : t) s += std::string(" ") + ops[z(o)].name;
						return s;
					};
					r.run_case(
					    "machine",
					    [&] {
						    settles(
						        r,
						        [&] {
							        auto v = machine(body, handler);
							        play(*v);
						        },
						        false);
						    auto v = machine(body, handler);
						    settles(r, [&] { play(*v); }, false, 64); // its string pool keeps what fits
					    },
					    show);
				});
			}
	}

	/// saving, and giving up in the middle of it
	void saving(mc::Run& r) {
		for (bool g2 : {false, true})
			for (int f = 0; f < 3; ++f)
				for (int k = 0; k < 4; ++k)
					r.run_case(
					    "saving",
					    [&] {
						    auto fmt = static_cast<ArchiveFormat>(f);
						    Cfg c {gv(g2), fmt, true, true};
						    auto dir = fs::path(r.scratch) / "saving";
						    fs::create_directories(dir);
						    auto w = world(c);
						    settles(
						        r,
						        [&] {
							        guarded([&] {
								        if (k == 0) {
									        Bytes b;
									        auto o = Write::to(&b);
									        auto a = WriteArchive::to(o.get(), fmt);
									        a->write_object(w, c.g);
									        a->write_header();
								        } else if (k == 1) { // to a file
									        auto o = Write::to(dir / "w.zen");
									        auto a = WriteArchive::to(o.get(), fmt);
									        a->write_object(w, c.g);
									        a->write_header();
								        } else if (k == 2) { // saving something impossible ends in the middle
									        Bytes b;
									        auto o = Write::to(&b);
									        auto a = WriteArchive::to(o.get(), fmt);
									        a->write_object(w, c.g);
									        throw std::runtime_error {"given up"};
								        } else {
									        SaveGame sg {c.g};
									        sg.save(dir, *w, "WORLD");
									        sg.save(dir, *w, "OTHER");
									        SaveGame x {c.g};
									        x.load(dir);
									        x.load(dir);
									        (void) x.load_world("WORLD");
									        (void) x.load_world("MISSING");
								        }
							        });
						        },
						        true);
						    fs::remove_all(dir);
					    },
					    [&] { return mc::fmt("world G%d, format %d, way %d", g2 + 1, f, k); });
	}

	void explore(mc::Run& r) {
		quiet_log();
		g_scratch = fs::absolute(r.scratch).string();
		r.case_cpu_s = 5;
		geometry(r);
		textures();
		animations();
		model_scripts();
		scripts();
		objects();
		entries();
		worlds();
		saves(r);
		loads(r);
		files(r);
		owned(r);
		machines(r);
		saving(r);
	}
} // namespace
MC_MAIN(explore)
