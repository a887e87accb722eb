// Field-level model of the geometry assets: element counts, stored fields per game version, value domains and a
// canonical dump used to compare an asset with its reloaded counterpart.
#pragma once
#include "common.hh"
#include "zenkit/Font.hh"
#include "zenkit/Material.hh"
#include "zenkit/Mesh.hh"
#include "zenkit/Model.hh"
#include "zenkit/ModelHierarchy.hh"
#include "zenkit/ModelMesh.hh"
#include "zenkit/MultiResolutionMesh.hh"
#include "zenkit/SoftSkinMesh.hh"
#include "zenkit/Texture.hh"
#include <cfloat>
#include <map>

namespace mcg {
	using namespace zenkit;
	using namespace mcz;

	inline uint32_t bits(float f) {
		uint32_t u;
		memcpy(&u, &f, 4);
		return u;
	}

	struct Geo {
		enum Mode { COUNT, FILL, SET, DUMP } mode = DUMP;
		bool g2 = true;
		int target = -1, value = 0;
		uint32_t seed = 0;
		int cur = 0;
		struct Info {
			std::string name;
			int n;
		};
		std::vector<Info> info;
		std::vector<std::pair<std::string, std::string>> out;
		std::string path;

		uint32_t rnd() {
			uint32_t x = seed * 2654435761u + static_cast<uint32_t>(cur) * 40503u + 12345u;
			x ^= x >> 15;
			x *= 2246822519u;
			x ^= x >> 13;
			return x;
		}
		template <typename T, typename S>
		void any(char const* n, int dom, S&& show, T&& set, std::function<void()> const& fill) {
			if (mode == COUNT) info.push_back({path + n, dom});
			if (mode == FILL) fill();
			if (mode == SET && cur == target) set(value);
			if (mode == DUMP) out.emplace_back(path + n, show());
			++cur;
		}
		/// integer stored in `bits` bits (signed if `sg`)
		template <typename T>
		void num(char const* n, T& v, int nbits, bool sg) {
			int64_t lo = sg ? -(int64_t {1} << (nbits - 1)) : 0, hi = sg ? (int64_t {1} << (nbits - 1)) - 1 : (int64_t {1} << nbits) - 1;
			int64_t const D[] = {lo, lo + 1, hi, hi - 1, hi / 2, hi / 2 + 1, 10, 13};
			any<std::function<void(int)>>(
			    n, 8, [&] { return std::to_string(static_cast<int64_t>(v)); },
			    [&](int i) { v = static_cast<T>(std::min(hi, std::max(lo, D[i]))); },
			    [&] { v = static_cast<T>(lo + static_cast<int64_t>(rnd() % (static_cast<uint64_t>(hi - lo) + 1))); });
		}
		void u8(char const* n, uint8_t& v) { num(n, v, 8, false); }
		void u16(char const* n, uint16_t& v) { num(n, v, 16, false); }
		void i16(char const* n, int16_t& v) { num(n, v, 16, true); }
		void u32(char const* n, uint32_t& v) { num(n, v, 32, false); }
		void i32(char const* n, int32_t& v) { num(n, v, 32, true); }
		template <typename T>
		void en(char const* n, T& v, std::vector<int> const& vals) {
			any<std::function<void(int)>>(
			    n, static_cast<int>(vals.size()), [&] { return std::to_string(static_cast<int64_t>(v)); }, [&](int i) { v = static_cast<T>(vals[static_cast<size_t>(i)]); },
			    [&] { v = static_cast<T>(vals[rnd() % vals.size()]); });
		}
		void b(char const* n, bool& v) {
			any<std::function<void(int)>>(
			    n, 2, [&] { return std::to_string(v); }, [&](int i) { v = i; }, [&] { v = (rnd() >> 7) & 1; });
		}
		/// finite = passes through a text form
		void f(char const* n, float& v, bool finite = false) {
			static float const D[] = {0.0f, -0.0f, 1.5f, -2.25f, 1.0f / 3.0f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-42f, 16777217.0f, INFINITY, -INFINITY, NAN};
			any<std::function<void(int)>>(
			    n, finite ? 10 : 13, [&] { return mc::fmt("%.9g/%08x", static_cast<double>(v), bits(v)); }, [&](int i) { v = D[i]; },
			    [&] { v = static_cast<float>(static_cast<int32_t>(rnd() % 200001) - 100000) / 64.0f; });
		}
		void v2(char const* n, Vec2& v, bool finite = false) {
			f((std::string(n) + ".x").c_str(), v.x, finite), f((std::string(n) + ".y").c_str(), v.y, finite);
		}
		void v3(char const* n, Vec3& v) {
			f((std::string(n) + ".x").c_str(), v.x), f((std::string(n) + ".y").c_str(), v.y), f((std::string(n) + ".z").c_str(), v.z);
		}
		void s(char const* n, std::string& v) {
			static std::string const D[] = {"", "A", "two words", " lead", "trail ", "a\tb", "\xfc\xdf\xe4", std::string(300, 'x'), "[% x 0 0]", "1"};
			any<std::function<void(int)>>(
			    n, 10, [&] { return esc(v, 400); }, [&](int i) { v = D[i]; }, [&] { v = mc::fmt("S%x", rnd() & 0xffff); });
		}
		void count(char const* n, size_t c) {
			if (mode == DUMP) out.emplace_back(path + n + "#", std::to_string(c));
		}
		template <typename T, typename F>
		void vec(char const* n, std::vector<T>& v, F&& each) {
			count(n, v.size());
			auto keep = path;
			for (size_t i = 0; i < v.size(); ++i) {
				path = keep + n + mc::fmt("[%zu].", i);
				each(v[i]);
			}
			path = keep;
		}
		template <typename F>
		void in(std::string const& n, F&& fn) {
			auto keep = path;
			path = keep + n + ".";
			fn();
			path = keep;
		}
	};

	inline void visit(Geo& g, AxisAlignedBoundingBox& b) {
		g.v3("min", b.min), g.v3("max", b.max);
	}
	inline void visit(Geo& g, OrientedBoundingBox& b) {
		g.v3("center", b.center);
		for (auto& a : b.axes)
			g.v3("axis", a);
		g.v3("half", b.half_width);
		g.vec("children", b.children, [&](auto& c) { visit(g, c); });
	}
	inline void visit(Geo& g, Date& d) {
		g.u32("year", d.year), g.u16("month", d.month), g.u16("day", d.day), g.u16("hour", d.hour), g.u16("minute", d.minute), g.u16("second", d.second);
	}
	inline void visit(Geo& g, Material& m) {
		g.s("name", m.name);
		g.en("group", m.group, {0, 1, 2, 3, 4, 5, 6, 255});
		g.u8("color.r", m.color.r), g.u8("color.g", m.color.g), g.u8("color.b", m.color.b), g.u8("color.a", m.color.a);
		g.f("smooth_angle", m.smooth_angle);
		g.s("texture", m.texture);
		g.v2("texture_scale", m.texture_scale, true);
		g.f("texture_anim_fps", m.texture_anim_fps);
		g.en("texture_anim_map_mode", m.texture_anim_map_mode, {0, 1});
		g.v2("texture_anim_map_dir", m.texture_anim_map_dir, true);
		g.b("disable_collision", m.disable_collision), g.b("disable_lightmap", m.disable_lightmap), g.b("dont_collapse", m.dont_collapse);
		g.s("detail_object", m.detail_object);
		if (g.g2) {
			g.f("detail_object_scale", m.detail_object_scale);
			g.b("force_occluder", m.force_occluder), g.b("environment_mapping", m.environment_mapping);
			g.f("environment_mapping_strength", m.environment_mapping_strength);
			g.en("wave_mode", m.wave_mode, {0, 1, 2, 3, 4, 5, 6, 7});
			g.en("wave_speed", m.wave_speed, {0, 1, 2, 3});
			g.f("wave_max_amplitude", m.wave_max_amplitude), g.f("wave_grid_size", m.wave_grid_size);
			g.b("ignore_sun", m.ignore_sun);
			g.en("alpha_func", m.alpha_func, {0, 1, 2, 3, 4, 5, 6});
		} else if (g.mode == Geo::DUMP) {
			// not stored in the first game's files: always the default there
			g.out.emplace_back(g.path + "alpha_func", m.alpha_func == AlphaFunction::DEFAULT || m.alpha_func == AlphaFunction::NONE ? "default" : std::to_string(static_cast<int>(m.alpha_func)));
		}
		g.v2("default_mapping", m.default_mapping);
	}
	inline void visit_tex(Geo& g, Texture& t) {
		if (g.mode != Geo::DUMP) return;
		std::string d = mc::fmt("fmt %d %ux%u mips %u ref %ux%u avg %08x", static_cast<int>(t.format()), t.width(), t.height(), t.mipmaps(), t.ref_width(), t.ref_height(), t.average_color());
		for (uint32_t i = 0; i < t.mipmaps(); ++i)
			d += " " + mc::hex(t.data(i).data(), t.data(i).size(), 4096);
		g.out.emplace_back(g.path + "texture", d);
	}
	inline void visit(Geo& g, Mesh& m) {
		visit(g, m.date);
		g.s("name", m.name);
		g.in("bbox", [&] { visit(g, m.bbox); });
		g.in("obb", [&] { visit(g, m.obb); });
		g.vec("materials", m.materials, [&](auto& x) { visit(g, x); });
		g.vec("vertices", m.vertices, [&](auto& x) { g.v3("v", x); });
		g.vec("features", m.features, [&](auto& x) { g.v2("texture", x.texture), g.u32("light", x.light), g.v3("normal", x.normal); });
		std::map<Texture*, int> ids;
		g.vec("lightmaps", m.lightmaps, [&](auto& x) {
			g.v3("normal0", x.normals[0]), g.v3("normal1", x.normals[1]), g.v3("origin", x.origin);
			auto it = ids.try_emplace(x.image.get(), static_cast<int>(ids.size()));
			if (g.mode == Geo::DUMP) g.out.emplace_back(g.path + "image-identity", std::to_string(it.first->second));
			visit_tex(g, *x.image);
		});
		g.vec("geometry", m.geometry, [&](auto& x) {
			g.num("material", x.material, 16, false), g.num("lightmap", x.lightmap, 16, true);
			auto bit = [&](char const* n, int width, auto get, auto set) {
				uint32_t v = get();
				g.num(n, v, width, false);
				if (g.mode != Geo::DUMP) set(v);
			};
#define BIT(F, W) bit(#F, W, [&] { return static_cast<uint32_t>(x.flags.F); }, [&](uint32_t v) { x.flags.F = v & ((1 << W) - 1); })
			BIT(is_portal, 2);
			BIT(is_occluder, 1);
			BIT(is_sector, 1);
			BIT(is_outdoor, 1);
			BIT(is_ghost_occluder, 1);
			if (g.g2) {
				BIT(should_relight, 1);
				BIT(is_dynamically_lit, 1);
			} else {
				BIT(is_lod, 1);
				BIT(normal_axis, 2);
			}
#undef BIT
			int16_t sec = x.flags.sector_index;
			g.i16("sector_index", sec);
			if (g.mode != Geo::DUMP) x.flags.sector_index = sec;
			g.count("index_count", x.index_count);
			g.count("index_offset", x.index_offset);
			g.f("plane_distance", x.plane_distance), g.v3("plane_normal", x.plane_normal);
		});
		g.vec("polygon_vertex_indices", m.polygon_vertex_indices, [&](auto& x) { g.num("i", x, g.g2 ? 32 : 16, false); });
		g.vec("polygon_feature_indices", m.polygon_feature_indices, [&](auto& x) { g.u32("i", x); });
	}
	inline void visit(Geo& g, SubMesh& m) {
		g.in("mat", [&] { visit(g, m.mat); });
		g.vec("triangles", m.triangles, [&](auto& x) {
			for (auto& w : x.wedges)
				g.u16("w", w);
		});
		g.vec("wedges", m.wedges, [&](auto& x) { g.v3("normal", x.normal), g.v2("texture", x.texture), g.u16("index", x.index); });
		g.vec("colors", m.colors, [&](auto& x) { g.f("c", x); });
		g.vec("triangle_plane_indices", m.triangle_plane_indices, [&](auto& x) { g.u16("i", x); });
		g.vec("triangle_planes", m.triangle_planes, [&](auto& x) { g.f("distance", x.distance), g.v3("normal", x.normal); });
		g.vec("triangle_edges", m.triangle_edges, [&](auto& x) {
			for (auto& w : x.edges)
				g.u16("e", w);
		});
		g.vec("edges", m.edges, [&](auto& x) {
			for (auto& w : x.edges)
				g.u16("e", w);
		});
		g.vec("edge_scores", m.edge_scores, [&](auto& x) { g.f("s", x); });
		g.vec("wedge_map", m.wedge_map, [&](auto& x) { g.u16("i", x); });
	}
	inline void visit(Geo& g, MultiResolutionMesh& m) {
		g.vec("positions", m.positions, [&](auto& x) { g.v3("v", x); });
		g.vec("normals", m.normals, [&](auto& x) { g.v3("v", x); });
		g.vec("sub_meshes", m.sub_meshes, [&](auto& x) { visit(g, x); });
		// `materials` mirrors the sub-meshes' materials
		if (g.mode == Geo::DUMP)
			g.vec("materials", m.materials, [&](auto& x) { visit(g, x); });
		else {
			m.materials.clear();
			for (auto& x : m.sub_meshes)
				m.materials.push_back(x.mat);
		}
		if (g.g2) g.en("alpha_test", m.alpha_test, {0, 1});
		g.in("bbox", [&] { visit(g, m.bbox); });
		g.in("obbox", [&] { visit(g, m.obbox); });
	}
	inline void visit(Geo& g, SoftSkinMesh& m) {
		g.in("mesh", [&] { visit(g, m.mesh); });
		g.vec("bboxes", m.bboxes, [&](auto& x) { visit(g, x); });
		g.vec("wedge_normals", m.wedge_normals, [&](auto& x) { g.v3("normal", x.normal), g.u32("index", x.index); });
		g.vec("weights", m.weights, [&](auto& x) { g.vec("w", x, [&](auto& y) { g.f("weight", y.weight), g.v3("position", y.position), g.u8("node_index", y.node_index); }); });
		g.vec("nodes", m.nodes, [&](auto& x) { g.i32("n", x); });
	}
	inline void visit(Geo& g, ModelMesh& m) {
		g.vec("meshes", m.meshes, [&](auto& x) { visit(g, x); });
		g.count("attachments", m.attachments.size());
		std::map<std::string, MultiResolutionMesh*> sorted;
		for (auto& [k, v] : m.attachments)
			sorted[k] = &v;
		for (auto& [k, v] : sorted)
			g.in("attachments(" + esc(k, 400) + ")", [&] { visit(g, *v); });
		g.u32("checksum", m.checksum);
	}
	inline void visit(Geo& g, ModelHierarchy& m) {
		g.vec("nodes", m.nodes, [&](auto& x) {
			g.i16("parent_index", x.parent_index), g.s("name", x.name);
			for (unsigned c = 0; c < 4; ++c)
				for (unsigned r = 0; r < 4; ++r)
					g.f(mc::fmt("m%u%u", c, r).c_str(), x.transform[c][r]);
		});
		g.in("bbox", [&] { visit(g, m.bbox); });
		g.in("collision_bbox", [&] { visit(g, m.collision_bbox); });
		g.v3("root_translation", m.root_translation);
		g.u32("checksum", m.checksum);
		g.in("date", [&] { visit(g, m.source_date); });
		g.s("source_path", m.source_path);
	}
	inline void visit(Geo& g, Model& m) {
		g.in("hierarchy", [&] { visit(g, m.hierarchy); });
		g.in("mesh", [&] { visit(g, m.mesh); });
	}
	inline void visit(Geo& g, Font& f) {
		g.s("name", f.name), g.u32("height", f.height);
		g.vec("glyphs", f.glyphs, [&](auto& x) { g.u8("width", x.width), g.v2("uv0", x.uv[0]), g.v2("uv1", x.uv[1]); });
	}

	template <typename T>
	std::vector<std::pair<std::string, std::string>> gdump(T& o, bool g2) {
		Geo g;
		g.mode = Geo::DUMP;
		g.g2 = g2;
		visit(g, o);
		return std::move(g.out);
	}
	template <typename T>
	void gfill(T& o, bool g2, uint32_t seed) {
		Geo g;
		g.mode = Geo::FILL;
		g.g2 = g2;
		g.seed = seed;
		visit(g, o);
	}
	template <typename T>
	void gset(T& o, bool g2, int target, int value) {
		Geo g;
		g.mode = Geo::SET;
		g.g2 = g2;
		g.target = target;
		g.value = value;
		visit(g, o);
	}
	template <typename T>
	std::vector<Geo::Info> ginfo(T& o, bool g2) {
		Geo g;
		g.mode = Geo::COUNT;
		g.g2 = g2;
		visit(g, o);
		return std::move(g.info);
	}
	inline void gsame(std::vector<std::pair<std::string, std::string>> const& a, std::vector<std::pair<std::string, std::string>> const& b, char const* ctx) {
		for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
			if (i >= a.size() || i >= b.size()) {
				auto& x = i < a.size() ? a[i] : b[i];
				mc::fail("lost-field", mc::fmt("%s: %s only %s", ctx, x.first.c_str(), i < a.size() ? "written" : "read"));
			}
			if (a[i] != b[i]) {
				std::string sig = a[i].first;
				for (auto& c : sig)
					if (c >= '0' && c <= '9') c = 'N';
				auto p = sig.find("attachments(");
				if (p != std::string::npos) sig.erase(0, sig.find(')', p) == std::string::npos ? 0 : sig.find(')', p));
				mc::fail("field:" + sig, mc::fmt("%s: wrote %s=%s, read %s=%s", ctx, a[i].first.c_str(), a[i].second.substr(0, 200).c_str(), b[i].first.c_str(), b[i].second.substr(0, 200).c_str()));
			}
		}
	}
} // namespace mcg
