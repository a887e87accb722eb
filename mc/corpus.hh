// A corpus of small assets of every kind, made with the library's own writers or byte by byte, and their loaders.
#pragma once
#include "daemodel.hh"
#include "geomodel.hh"
#include "vobmodel.hh"
#include "zenkit/ModelAnimation.hh"
#include "zenkit/ModelScript.hh"
#include "zenkit/MorphMesh.hh"
#include "zenkit/SaveGame.hh"

#include <fstream>
#include <set>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace mcz;
using mcd::Sym;
namespace fs = std::filesystem;

namespace {
	size_t z(int i) {
		return static_cast<size_t>(i);
	}
	GameVersion gv(bool g2) {
		return g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	}
	using Load = std::function<void(std::string const&)>;
	/// NARROW assets are many and alike, so only the boundary values most likely to matter are tried on them
	enum Depth { FULL, NARROW };
	struct Asset {
		std::string name, data;
		Load load;
		bool text = false;
		Depth depth = FULL;
		bool quick = true; // altered in the quick tier as well
	};
	std::vector<Asset> assets;

	template <typename T>
	T load_plain(std::string const& s) {
		T t {};
		auto r = rd(s);
		t.load(r.get());
		return t;
	}
	/// builds an asset's bytes with the library's own writer
	void add(std::string name, std::function<void(Write*)> const& save, Load load, bool text = false, Depth depth = FULL, bool quick = true) {
		Bytes b;
		try {
			auto w = Write::to(&b);
			save(w.get());
		} catch (std::exception const&) {
			return; // what the writers do is the subject of other properties
		}
		assets.push_back({std::move(name), to_str(b), std::move(load), text, depth, quick});
	}
	void chunk(Out& o, uint32_t id, Out const& c) {
		o.u16(id).u32(static_cast<uint32_t>(c.s.size())).str(c.s);
	}

	// ---- the corpus ---------------------------------------------------------------------------------------------
	std::string texture(uint32_t f, uint32_t w, uint32_t h, uint32_t mips) {
		Out o;
		o.str("ZTEX").u32(0).u32(f).u32(w).u32(h).u32(mips).u32(w).u32(h).u32(0x11223344u);
		if (f == 9)
			for (uint32_t i = 0; i < 1024; ++i) o.u8(i * 7);
		size_t n = 0;
		for (uint32_t m = 0; m < mips; ++m) {
			uint32_t a = std::max(1u, w >> m), b = std::max(1u, h >> m);
			n += f == 0xA ? std::max(1u, a / 4) * std::max(1u, b / 4) * 8 : f > 0xA ? std::max(1u, a / 4) * std::max(1u, b / 4) * 16 : f <= 3 ? a * b * 4 : f <= 5 ? a * b * 3 : f == 9 ? a * b : a * b * 2;
		}
		for (size_t i = 0; i < n; ++i) o.u8(static_cast<uint32_t>(i * 37));
		return o.s;
	}
	OrientedBoundingBox obb(int n) {
		OrientedBoundingBox b {};
		b.children.resize(z(n));
		for (auto& c : b.children) c.children.resize(1);
		return b;
	}
	Mesh mesh(bool g2, bool lights, size_t polys = 3) {
		Mesh m;
		m.obb = obb(2);
		m.materials.resize(2), m.vertices.resize(4), m.features.resize(4);
		if (lights) {
			auto t = std::make_shared<Texture>(load_plain<Texture>(texture(8, 4, 4, 1)));
			m.lightmaps.push_back(LightMap {t, {}, {}});
			m.lightmaps.push_back(LightMap {t, {}, {}});
		}
		for (size_t n = 0; n < polys; ++n) {
			auto& p = m.geometry.emplace_back();
			p.index_count = 3 + n % 3;
			p.index_offset = m.polygon_vertex_indices.size();
			m.polygon_vertex_indices.resize(p.index_offset + p.index_count);
			m.polygon_feature_indices.resize(p.index_offset + p.index_count);
		}
		mcg::gfill(m, g2, 3);
		for (size_t i = 0; i < m.polygon_vertex_indices.size(); ++i) m.polygon_vertex_indices[i] = static_cast<uint32_t>(i % 4), m.polygon_feature_indices[i] = static_cast<uint32_t>(i % 4);
		for (auto& p : m.geometry) p.material = 1, p.lightmap = lights ? 1 : -1;
		return m;
	}
	MultiResolutionMesh mrm(bool g2, int subs) {
		MultiResolutionMesh m;
		m.positions.resize(2), m.normals.resize(2);
		for (int i = 0; i < subs; ++i) {
			SubMesh s {};
			s.triangles.resize(2), s.wedges.resize(3), s.colors.resize(1), s.triangle_plane_indices.resize(2), s.triangle_planes.resize(1), s.triangle_edges.resize(1), s.edges.resize(2), s.edge_scores.resize(1), s.wedge_map.resize(3);
			m.sub_meshes.push_back(s);
		}
		m.obbox = obb(1);
		mcg::gfill(m, g2, 4);
		return m;
	}
	SoftSkinMesh skin(bool g2) {
		SoftSkinMesh s;
		s.mesh = mrm(g2, 1);
		s.weights.resize(2);
		s.weights[0].resize(2), s.weights[1].resize(1);
		s.wedge_normals.resize(2);
		s.nodes.resize(2);
		s.bboxes = {obb(1), obb(0)};
		mcg::gfill(s, g2, 5);
		return s;
	}
	ModelMesh model_mesh(bool g2) {
		ModelMesh m;
		m.checksum = 0;
		m.meshes.push_back(skin(g2));
		m.attachments["ONE"] = mrm(g2, 1);
		m.attachments["TWO"] = mrm(g2, 0);
		mcg::gfill(m, g2, 6);
		return m;
	}
	ModelHierarchy hierarchy() {
		ModelHierarchy h {};
		h.nodes.resize(3);
		mcg::gfill(h, true, 7);
		return h;
	}

	void geometry(mc::Run& r) {
		for (bool g2 : {false, true}) {
			auto v = gv(g2);
			std::string n = g2 ? " G2" : " G1";
			for (bool l : {false, true})
				add(
				    (l ? "mesh with lightmaps" : "mesh") + n, [=](Write* w) { mesh(g2, l).save(w, v); },
				    [](std::string const& s) {
					    for (bool wide : {false, true}) {
						    Mesh m;
						    auto in = rd(s);
						    m.load(in.get(), wide);
					    }
					    Mesh m;
					    auto in = rd(s);
					    m.load(in.get(), {0, 2, 2, 1}, false);
				    },
				    false, FULL, g2 || !l);
			add("multi-resolution mesh" + n, [=](Write* w) { mrm(g2, 2).save(w, v); }, [](std::string const& s) { load_plain<MultiResolutionMesh>(s); });
			add("soft-skin mesh" + n, [=](Write* w) { skin(g2).save(w, v); }, [](std::string const& s) { load_plain<SoftSkinMesh>(s); });
			add("model mesh" + n, [=](Write* w) { model_mesh(g2).save(w, v); }, [](std::string const& s) { load_plain<ModelMesh>(s); }, false, FULL, g2);
			add(
			    "model" + n,
			    [=](Write* w) {
				    Model m;
				    m.hierarchy = hierarchy();
				    m.mesh = model_mesh(g2);
				    m.save(w, v);
			    },
			    [](std::string const& s) { load_plain<Model>(s); }, false, FULL, false);
			for (int k = 0; k < 2; ++k)
				add(
				    mc::fmt("material %d", k) + n,
				    [=](Write* w) {
					    Material m;
					    mcg::gfill(m, g2, 9);
					    auto ar = WriteArchive::to(w, k ? ArchiveFormat::BINSAFE : ArchiveFormat::BINARY);
					    ar->write_string("", m.name);
					    ar->write_object("%", &m, v);
					    ar->write_header();
				    },
				    [](std::string const& s) {
					    Material m;
					    auto in = rd(s);
					    auto ar = ReadArchive::from(in.get());
					    m.load(*ar);
				    });
		}
		add("hierarchy", [](Write* w) { hierarchy().save(w); }, [](std::string const& s) { load_plain<ModelHierarchy>(s); });
		add(
		    "font",
		    [](Write* w) {
			    Font f;
			    f.glyphs.resize(5);
			    mcg::gfill(f, true, 1);
			    f.save(w);
		    },
		    [](std::string const& s) { load_plain<Font>(s); });
		// the sample files
		auto repo = fs::path(getenv("MC_REPO") ? getenv("MC_REPO") : "/repo") / "tests" / "samples";
		auto sample = [&](char const* p, Load l, bool quick) {
			std::ifstream in {repo / p, std::ios::binary};
			std::stringstream ss;
			ss << in.rdbuf();
			if (ss.str().size() > 10) assets.push_back({std::string("sample ") + p, ss.str(), std::move(l), false, NARROW, quick});
		};
		sample("mesh0.mrm", [](std::string const& s) { load_plain<MultiResolutionMesh>(s); }, false);
		sample("secretdoor.mdm", [](std::string const& s) { load_plain<ModelMesh>(s); }, false);
		sample("hierarchy0.mdh", [](std::string const& s) { load_plain<ModelHierarchy>(s); }, true);
		sample("morph0.mmb", [](std::string const& s) { load_plain<MorphMesh>(s); }, false);
		sample("G1/HUMANS-S_FISTRUN.MAN", [](std::string const& s) { load_plain<ModelAnimation>(s); }, false);
		(void) r;
	}

	void textures() {
		for (uint32_t f = 0; f <= 14; ++f)
			for (auto [w, h, m] : {std::array<uint32_t, 3> {4, 4, 1}, {8, 2, 2}})
				assets.push_back({mc::fmt("texture format %u %ux%u/%u", f, w, h, m), texture(f, w, h, m), [](std::string const& s) {
					                  auto t = load_plain<Texture>(s);
					                  if (t.width() > 4096 || t.height() > 4096) return;
					                  for (uint32_t l = 0; l < std::min(t.mipmaps(), 20u); ++l) {
						                  (void) t.mipmap_width(l), (void) t.mipmap_height(l);
						                  (void) t.data(l).size();
						                  try {
							                  (void) t.as_rgba8(l);
						                  } catch (mc::Failure const&) {
							                  throw;
						                  } catch (std::exception const&) {}
					                  }
				                  },
				                  false, f == 9 ? NARROW : FULL, m == 1 || f == 10});
	}

	uint32_t fb(float f) {
		uint32_t u;
		memcpy(&u, &f, 4);
		return u;
	}
	void date(Out& o) {
		o.u32(2002).u16(8).u16(28).u16(12).u16(50).u16(52).u16(0);
	}
	void animations() {
		{
			Out f, h, s, e, m;
			chunk(f, 0xa000, {});
			h.u16(12).line("S_RUN").u32(1).u32(2).u32(2).u32(fb(10)).u32(fb(25)).u32(fb(-9)).u32(fb(0.01f));
			for (int i = 0; i < 6; ++i) h.f32(static_cast<float>(i));
			chunk(f, 0xa020, h.line("S_NEXT"));
			date(s);
			chunk(f, 0xa010, s.line("A.ASC").line("ANI ()"));
			e.u32(2);
			for (uint32_t k = 0; k < 2; ++k) {
				e.u32(k).u32(k).line("TAG");
				for (int i = 0; i < 4; ++i) e.line("c");
				for (int i = 0; i < 5; ++i) e.f32(1);
			}
			chunk(f, 0xa030, e);
			m.u32(0x12345678).u32(0).u32(1);
			for (uint32_t i = 0; i < 4 * 6; ++i) m.u16(i * 1000);
			chunk(f, 0xa090, m);
			assets.push_back({"animation", f.s, [](std::string const& d) { load_plain<ModelAnimation>(d); }});
		}
		for (bool g2 : {false, true}) {
			Out f, p, s, a;
			chunk(f, 0xe000, {});
			chunk(f, 0xe020, Out().u32(3).line("BOW"));
			Bytes b;
			{
				auto w = Write::to(&b);
				mrm(g2, 1).save(w.get(), gv(g2));
			}
			chunk(f, 0xb100, Out().str(to_str(b).substr(6)));
			for (uint32_t i = 0; i < 6; ++i) p.f32(static_cast<float>(i));
			chunk(f, 0xb1ff, p);
			s.u16(1);
			date(s);
			chunk(f, 0xe010, s.line("SRC.ASC"));
			a.u16(2);
			for (uint32_t k = 0; k < 2; ++k) {
				a.line("ANI").f32(1).f32(2).f32(3).u32(1).f32(4).u8(1).u32(2).u32(k + 1).u32(0).u32(1);
				for (uint32_t i = 0; i < 2 * (k + 1) * 3; ++i) a.f32(1);
			}
			chunk(f, 0xe030, a);
			assets.push_back({g2 ? "morph mesh G2" : "morph mesh G1", f.s, [](std::string const& d) { load_plain<MorphMesh>(d); }});
		}
	}

	void model_scripts() {
		Load l = [](std::string const& d) { load_plain<ModelScript>(d); };
		char const* text = "Model (\"M\")\n{\nmeshAndTree (\"tree.asc\" DONT_USE_MESH)\nregisterMesh (\"mesh.asm\")\naniEnum\n{\n"
		                   "ani (\"a\" 1 \"n\" 0.1 0.2 MI \"a.asc\" F 0 10 FPS:10 CVS:0.3)\n{\n*eventTag (3 \"DEF_HIT_END\" \"1 2\")\n*eventTag(0 \"DEF_SWAPMESH\" \"x\" \"y\")\n*eventSFX (1 \"snd\" R:100 EMPTY_SLOT)\n*eventSFXGrnd (2 \"g\")\n*eventPFX(3 4 \"pf\" \"pos\" ATTACH)\n*eventPFXStop(4 5)\n*eventMMStartAni(5 \"mm\" \"nd\")\n*eventCamTremor(6 1 2 3 4)\n}\n"
		                   "aniBlend (\"b\" \"n\" 0.1 0.2)\naniAlias (\"al\" 2 \"n\" 0 0 M. \"a\" R)\naniComb (\"c\" 1 \"n\" 0 0 M \"m\" 9)\naniDisable (\"d\")\nmodelTag (\"DEF_HIT_LIMB\" \"bone\")\n}\n}\n";
		assets.push_back({"model script text", text, l, true});
		Out f;
		chunk(f, 0xF000, Out().u32(1).line("\\"));
		Out src;
		date(src);
		chunk(f, 0xF100, src.line("A.MDS"));
		chunk(f, 0xF200, {});
		chunk(f, 0xF300, Out().u32(1).line("tree"));
		chunk(f, 0xF400, Out().line("mesh"));
		chunk(f, 0xF500, {});
		chunk(f, 0xF520, Out().line("a").u32(1).line("n").f32(0).f32(0).line("M").line("m").line("R").u32(0).u32(1).f32(25).f32(0).f32(1));
		chunk(f, 0xF5A0, Out().u32(8));
		chunk(f, 0xF5A3, Out().u32(3).line("DEF_HIT_END").line("1 2").line("").line("").line(""));
		chunk(f, 0xF5A3, Out().u32(3).line("DEF_FIGHTMODE").line("FIST").line("").line("").line(""));
		chunk(f, 0xF5A1, Out().u32(1).line("s").f32(1).u32(0));
		chunk(f, 0xF5A2, Out().u32(1).line("s").f32(1).u32(0));
		chunk(f, 0xF5A4, Out().u32(1).u32(2).line("p").line("q").u32(1));
		chunk(f, 0xF5A5, Out().u32(1).u32(2));
		chunk(f, 0xF5AF, {});
		chunk(f, 0xF530, Out().line("al").u32(1).line("n").f32(0).f32(0).line("M").line("a").line("F"));
		chunk(f, 0xF540, Out().line("b").line("n").f32(1).f32(2));
		chunk(f, 0xF570, Out().line("c").u32(1).line("n").f32(0).f32(0).line("M").line("m").u32(2));
		chunk(f, 0xF580, Out().line("d"));
		chunk(f, 0xF590, Out().u32(0).line("DEF_HIT_LIMB").line("bone"));
		chunk(f, 0xF5FF, {});
		chunk(f, 0xF2FF, {});
		chunk(f, 0xFFFF, {});
		assets.push_back({"model script compiled", f.s, l});
	}

	void use_script(std::string const& d) {
		auto s = load_plain<DaedalusScript>(d);
		size_t n = s.symbols().size();
		if (n > 2000) return;
		for (uint32_t yi = 0; yi < n; ++yi) {
			auto& y = *s.find_symbol_by_index(yi);
			(void) s.find_symbol_by_index(y.index());
			(void) s.find_symbol_by_name(y.name());
			(void) s.find_symbol_by_address(y.address());
			for (auto& p : s.find_parameters_for_function(&y)) (void) p.name().size();
			for (auto& p : s.find_locals_for_function(&y)) (void) p.name().size();
			s.enumerate_instances_by_class_name(y.name(), [](DaedalusSymbol& i) { (void) i.name().size(); });
			// values: any answer or an error
			for (uint16_t k = 0; k < 3; ++k)
				for (int t = 0; t < 4; ++t)
					try {
						if (t == 0) (void) y.get_int(k);
						if (t == 1) (void) y.get_float(k);
						if (t == 2) (void) y.get_string(k).size();
						if (t == 3) (void) y.get_instance();
					} catch (mc::Failure const&) {
						throw;
					} catch (std::exception const&) {}
		}
		(void) s.find_symbol_by_name("NOT THERE");
		auto size = std::min(s.size(), 200u);
		for (uint32_t a = 0; a < size; ++a)
			try {
				(void) s.instruction_at(a).size;
			} catch (mc::Failure const&) {
				throw;
			} catch (std::exception const&) {}
	}
	void scripts() {
		using namespace mcd;
		std::vector<Sym> y;
		auto sym = [&](std::string n, uint32_t t, uint32_t c, uint32_t f, int32_t addr = -1, int32_t parent = -1) -> Sym& {
			Sym s;
			s.name = std::move(n), s.type = t, s.count = c, s.flags = f, s.addr = addr, s.parent = parent;
			y.push_back(s);
			return y.back();
		};
		sym("C_X", T_CLASS, 2, 0, 0).vary = 8;
		sym("C_X.A", T_INT, 1, F_MEMBER, -1, 0);
		sym("C_X.B", T_INT, 1, F_MEMBER, -1, 0).vary = 4;
		sym("PROTO", T_PROTO, 0, 0, 0, 0);
		sym("INST", T_INST, 0, F_CONST, 1, 3);
		auto& f = sym("FN", T_FUNC, 2, F_RETURN | F_CONST, 2);
		f.vary = T_INT;
		sym("FN.P", T_INT, 1, 0);
		sym("FN.Q", T_STRING, 1, 0).strs = {"text"};
		sym("FN.L", T_FLOAT, 2, 0).floats = {1, 2};
		sym("EXT", T_FUNC, 1, F_EXTERNAL | F_CONST, 0);
		sym("EXT.PAR0", T_INT, 1, 0);
		sym("ARR", T_INT, 3, F_CONST).ints = {1, 2, 3};
		sym("\xff" "5", T_STRING, 1, 0).strs = {""};
		Out c;
		c.u8(RSR).u8(RSR).u8(PUSHI).u32(5).u8(PUSHV).u32(6).u8(ADD).u8(B).u32(3).u8(BL).u32(2).u8(PUSHVV).u32(11).u8(1).u8(RSR);
		assets.push_back({"script", encode(y, c.s), use_script});
	}

	// ---- archives -----------------------------------------------------------------------------------------------
	template <typename T>
	std::shared_ptr<T> make(Cfg const& c, int base) {
		auto o = std::make_shared<T>();
		Vis v;
		v.mode = Vis::FILL;
		v.cfg = c;
		v.base = base;
		v.depth = 1;
		visit_any(v, *o);
		return o;
	}
	Load archive_loader(Cfg c) {
		return [c](std::string const& s) {
			auto in = rd(s);
			auto ar = ReadArchive::from(in.get());
			// as a reader of unknown archives would
			for (int i = 0; i < 3 && !in->eof(); ++i) (void) ar->read_object(c.g);
		};
	}
	std::vector<Cfg> configs(bool saves) {
		std::vector<Cfg> v;
		for (auto g : {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2})
			for (auto f : {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}) v.push_back({g, f, saves, true});
		return v;
	}
	void objects() {
		for (bool save : {false, true})
			for (auto& c : configs(save)) {
				int k = 0;
#define X(T)                                                                                                           \
	if (++k; !save || T::TYPE == ObjectType::oCNpc || T::TYPE == ObjectType::zCMover || T::TYPE == ObjectType::oCMobContainer) \
		add(                                                                                                           \
		    mc::fmt("%s %s", #T, c.str().c_str()),                                                                     \
		    [&](Write* w) {                                                                                            \
			    auto ar = c.save ? WriteArchive::to_save(w, c.f) : WriteArchive::to(w, c.f);                           \
			    ar->write_object(make<T>(c, k), c.g);                                                                  \
			    ar->write_header();                                                                                    \
		    },                                                                                                         \
		    archive_loader(c), c.f == ArchiveFormat::ASCII, NARROW,                                                    \
		    T::TYPE == ObjectType::oCNpc || T::TYPE == ObjectType::oCMobContainer || T::TYPE == ObjectType::zCMover || T::TYPE == ObjectType::zCCSLib || T::TYPE == ObjectType::oCCSPlayer || T::TYPE == ObjectType::zCCSCamera || T::TYPE == ObjectType::zCVobLight || T::TYPE == ObjectType::zCEventManager || T::TYPE == ObjectType::zCTriggerList || T::TYPE == ObjectType::zCCSCutsceneContext || T::TYPE == ObjectType::oCAIVobMove);
				MCZ_OBJECTS(X)
#undef X
			}
		for (auto& c : configs(false)) {
			auto cc = c;
			add(
			    "cutscene library by name " + c.str(),
			    [&](Write* w) {
				    auto ar = WriteArchive::to(w, c.f);
				    ar->write_object(make<CutsceneLibrary>(c, 2), c.g);
				    ar->write_header();
			    },
			    [cc](std::string const& s) {
				    auto in = rd(s);
				    auto ar = ReadArchive::from(in.get());
				    auto lib = ar->read_object<CutsceneLibrary>(cc.g);
				    if (lib)
					    for (auto n : {"BLOCK0", "A", "ZZZZ", ""}) (void) lib->block_by_name(n);
			    },
			    c.f == ArchiveFormat::ASCII, NARROW);
		}
	}

	/// archives of bare entries of every type, read one by one, and world objects stored with their fields spelt out
	void entries() {
		for (auto f : {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}) {
			add(
			    mc::fmt("entries %s", FMT[static_cast<int>(f)]),
			    [=](Write* w) {
				    auto ar = WriteArchive::to(w, f);
				    Bytes raw(24, std::byte {0x5a});
				    float fl[6] {1, 2, 3, 4, 5, 6};
				    ar->write_object_begin("o", "c", 3);
				    ar->write_string("s", "text"), ar->write_int("i", -5), ar->write_float("f", 1.5f), ar->write_byte("b", 200), ar->write_word("w", 60000), ar->write_enum("e", 3), ar->write_bool("t", true);
				    ar->write_color("c", Color {1, 2, 3, 4}), ar->write_vec3("v", {1, 2, 3}), ar->write_vec2("u", {1, 2}), ar->write_bbox("x", {{1, 2, 3}, {4, 5, 6}}), ar->write_mat3x3("m", Mat3::identity());
				    ar->write_raw("r", raw), ar->write_raw_float("g", fl, 6), ar->write_object_end(), ar->write_string("z", ""), ar->write_header();
			    },
			    [](std::string const& s) {
				    // in order; and every kind of entry at every position
				    for (int k = -1; k < 14; ++k) {
					    auto in = rd(s);
					    auto ar = ReadArchive::from(in.get());
					    ArchiveObject o;
					    (void) ar->read_object_begin(o);
					    for (int i = 0; i < 15; ++i)
						    try {
							    switch (k < 0 ? i : i == k ? (k * 5 + 11) % 13 : i) {
							    case 0: (void) ar->read_string(); break;
							    case 1: (void) ar->read_int(); break;
							    case 2: (void) ar->read_float(); break;
							    case 3: (void) ar->read_byte(); break;
							    case 4: (void) ar->read_word(); break;
							    case 5: (void) ar->read_enum(); break;
							    case 6: (void) ar->read_bool(); break;
							    case 7: (void) ar->read_color(); break;
							    case 8: (void) ar->read_vec3(); break;
							    case 9: (void) ar->read_vec2(); break;
							    case 10: (void) ar->read_bbox(); break;
							    case 11: (void) ar->read_mat3x3(); break;
							    case 12:
							    case 13: {
								    auto x = ar->read_raw(24);
								    if (x)
									    for (int j = 0; j < 6; ++j) (void) x->read_float();
								    break;
							    }
							    default:
								    (void) ar->read_object_end();
								    (void) ar->read_string();
							    }
						    } catch (mc::Failure const&) {
							    throw;
						    } catch (std::exception const&) {
							    if (i >= k) break;
						    }
					    ar->skip_object(true);
				    }
			    },
			    f == ArchiveFormat::ASCII);
			for (bool g2 : {false, true}) {
				Cfg c {gv(g2), f, false, false};
				VirtualObject::enable_packed_save(false);
#define X(T)                                                                                       \
	add(                                                                                           \
	    mc::fmt("%s %s", #T, c.str().c_str()),                                                     \
	    [&](Write* w) {                                                                            \
		    auto ar = WriteArchive::to(w, c.f);                                                    \
		    ar->write_object(make<T>(c, 2), c.g);                                                  \
		    ar->write_header();                                                                    \
	    },                                                                                         \
	    archive_loader(c), c.f == ArchiveFormat::ASCII, NARROW, T::TYPE == ObjectType::oCItem);
				X(VItem)
				X(VLight)
				X(VNpc)
				X(VMover)
#undef X
				VirtualObject::enable_packed_save(true);
			}
		}
	}

	std::shared_ptr<World> world(Cfg const& c) {
		auto w = std::make_shared<World>();
		auto a = make<VLevel>(c, 1);
		auto b = make<VItem>(c, 2);
		auto d = make<VZoneFarPlane>(c, 3);
		a->children = {b};
		w->world_vobs = {a, d};
		w->way_net = std::make_shared<WayNet>();
		for (int i = 0; i < 3; ++i) {
			auto p = make<WayPoint>(c, i);
			p->name = mc::fmt("WP%d", i);
			p->free_point = i == 2;
			w->way_net->points.push_back(p);
		}
		w->way_net->edges.emplace_back(w->way_net->points[0], w->way_net->points[1]);
		w->world_mesh = mesh(c.g2(), false, 2);
		auto& t = w->world_bsp_tree;
		t.mode = BspTreeType::OUTDOOR;
		for (int i = 0; i < 3; ++i) {
			BspNode n {};
			n.parent_index = i ? 0 : -1, n.front_index = i ? -1 : 1, n.back_index = i ? -1 : 2;
			n.polygon_index = static_cast<uint32_t>(i ? i - 1 : 0), n.polygon_count = i ? 1 : 0;
			t.nodes.push_back(n);
			if (i) t.leaf_node_indices.push_back(z(i)), t.polygon_indices.push_back(static_cast<uint32_t>(i - 1)), t.leaf_polygons.push_back(static_cast<uint32_t>(i - 1)), t.light_points.push_back(Vec3 {1, 2, 3});
		}
		BspSector s;
		s.name = "sec", s.node_indices = {1}, s.portal_polygon_indices = {0};
		t.sectors.push_back(s);
		t.portal_polygon_indices = {1};
		if (c.save) {
			w->npcs = {make<VNpc>(c, 4)};
			w->npc_spawns.push_back({make<VNpc>(c, 5), {1, 2, 3}, 0.5f});
			w->player = make<CutscenePlayer>(c, 6);
			w->sky_controller = make<SkyController>(c, 7);
		}
		return w;
	}
	void worlds() {
		for (bool save : {false, true})
			for (auto& c : configs(save)) {
				auto cc = c;
				add(
				    "world " + c.str(),
				    [&](Write* wr) {
					    auto ar = c.save ? WriteArchive::to_save(wr, c.f) : WriteArchive::to(wr, c.f);
					    ar->write_object(world(c), c.g);
					    ar->write_header();
				    },
				    [cc](std::string const& s) {
					    {
						    World w;
						    auto in = rd(s);
						    try {
							    w.load(in.get(), cc.g);
						    } catch (mc::Failure const&) {
							    throw;
						    } catch (std::exception const&) {}
					    }
					    World w;
					    auto in = rd(s);
					    (void) w.load(in.get());
				    },
				    c.f == ArchiveFormat::ASCII && c.save, NARROW, c.g2() && (c.f == ArchiveFormat::BINSAFE) == save);
			}
	}

	void write_file(fs::path const& p, std::string const& s) {
		std::ofstream o {p, std::ios::binary};
		o << s;
	}
	std::string read_file(fs::path const& p) {
		std::ifstream in {p, std::ios::binary};
		std::stringstream ss;
		ss << in.rdbuf();
		return ss.str();
	}
	void saves(mc::Run& r) {
		for (bool g2 : {false, true}) {
			auto dir = fs::path(r.scratch) / (g2 ? "g2" : "g1");
			Cfg c {gv(g2), ArchiveFormat::BINARY, true, true};
			try {
				SaveGame sg {gv(g2)};
				sg.metadata.title = "title", sg.metadata.world = "WORLD", sg.metadata.save_date = "date";
				sg.state.infos = {{"INFO1", true}, {"INFO2", false}};
				sg.state.missions = {{"M", 1, true, 2}};
				sg.state.log = {{"topic", static_cast<SaveTopicSection>(0), static_cast<SaveTopicStatus>(1), {"e1", "e2"}}};
				sg.state.symbols = {{"S", {1}}, {"T", {2}}};
				sg.state.cutscene_manager = std::make_shared<CutsceneManager>();
				auto it = std::make_shared<CutscenePoolItem>();
				it->name = "pool";
				sg.state.cutscene_manager->pool_items = {it};
				sg.thumbnail = load_plain<Texture>(texture(8, 4, 4, 1));
				auto w = world(c);
				w->npcs.clear(), w->npc_spawns.clear();
				sg.save(dir, *w, "WORLD");
			} catch (std::exception const&) { continue; }
			for (auto f : {"SAVEINFO.SAV", "SAVEDAT.SAV", "THUMB.SAV"}) {
				auto p = dir / f;
				assets.push_back({mc::fmt("saved game G%d %s", g2 + 1, f), read_file(p), [p, dir, g2, orig = read_file(p)](std::string const& s) {
					                  write_file(p, s);
					                  SaveGame x {gv(g2)};
					                  try {
						                  x.load(dir);
					                  } catch (...) {
						                  write_file(p, orig);
						                  throw;
					                  }
					                  write_file(p, orig);
				                  },
				                  f[0] == 'S', NARROW});
			}
		}
	}
} // namespace
