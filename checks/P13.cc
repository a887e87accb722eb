// P13: geometry assets are read back equal after being written for either game version.
#include "geomodel.hh"
#include "zenkit/Archive.hh"
using namespace mcg;
namespace fs = std::filesystem;

namespace {
	GameVersion gv(bool g2) {
		return g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	}

	// ---- save / load pairs --------------------------------------------------------------------------------------
	void do_save(Mesh& m, Write* w, bool g2) { m.save(w, gv(g2)); }
	void do_load(Mesh& m, Read* r, bool) { m.load(r, false); }
	void do_save(MultiResolutionMesh& m, Write* w, bool g2) { m.save(w, gv(g2)); }
	void do_load(MultiResolutionMesh& m, Read* r, bool) { m.load(r); }
	void do_save(SoftSkinMesh& m, Write* w, bool g2) { m.save(w, gv(g2)); }
	void do_load(SoftSkinMesh& m, Read* r, bool) { m.load(r); }
	void do_save(ModelMesh& m, Write* w, bool g2) { m.save(w, gv(g2)); }
	void do_load(ModelMesh& m, Read* r, bool) { m.load(r); }
	void do_save(Model& m, Write* w, bool g2) { m.save(w, gv(g2)); }
	void do_load(Model& m, Read* r, bool) { m.load(r); }
	void do_save(ModelHierarchy& m, Write* w, bool) { m.save(w); }
	void do_load(ModelHierarchy& m, Read* r, bool) { m.load(r); }
	void do_save(Font& m, Write* w, bool) { m.save(w); }
	void do_load(Font& m, Read* r, bool) { m.load(r); }
	void do_save(Material& m, Write* w, bool g2) {
		auto ar = WriteArchive::to(w, ArchiveFormat::BINARY);
		ar->write_string("", m.name);
		ar->write_object("%", &m, gv(g2));
		ar->write_header();
	}
	void do_load(Material& m, Read* r, bool) {
		auto ar = ReadArchive::from(r);
		m.load(*ar);
	}

	enum Sink { VECTOR, OFFSET, STREAM, SINKS };
	char const* SINK[] = {"vector", "vector at offset 5", "stream"};

	constexpr uint32_t SENTINEL = 0xC0FFEE11;
	template <typename T>
	Bytes saved(T& o, bool g2, Sink k) {
		Bytes b;
		if (k == STREAM) {
			std::stringstream ss;
			auto w = Write::to(&ss);
			do_save(o, w.get(), g2);
			w->write_uint(SENTINEL);
			return to_bytes(ss.str());
		}
		auto w = Write::to(&b);
		if (k == OFFSET) w->write("12345", 5);
		do_save(o, w.get(), g2);
		w->write_uint(SENTINEL);
		return b;
	}

	template <typename T>
	void load_check(T& into, Bytes const& b, bool g2, Sink k, std::vector<std::pair<std::string, std::string>> const& want, char const* ctx) {
		auto r = Read::from(&b);
		if (k == OFFSET) r->seek(5, Whence::BEG);
		do_load(into, r.get(), g2);
		gsame(want, gdump(into, g2), ctx);
		auto pos = r->tell();
		check(r->read_uint() == SENTINEL, "tail", mc::fmt("%s: loading stopped at %zu of %zu bytes", ctx, pos, b.size() - 4));
	}

	template <typename T>
	void round(mc::Run& r, T& o, bool g2, Sink k, bool twice) {
		auto want = gdump(o, g2);
		Bytes b = saved(o, g2, k);
		r.trans(2);
		r.state(mc::hash_bytes(b.data(), b.size()));
		T got {};
		load_check(got, b, g2, k, want, "load");
		r.outcome(want.size());
		if (twice) {
			Bytes b2 = saved(got, g2, k);
			check(b2.size() == b.size(), "resave-size", mc::fmt("saving the loaded asset again gives %zu bytes instead of %zu", b2.size(), b.size()));
			// into the object that holds the asset already
			load_check(got, b2, g2, k, want, "reload");
			r.trans(2);
		}
	}

	// ---- shapes -------------------------------------------------------------------------------------------------
	size_t z(int i) {
		return static_cast<size_t>(i);
	}
	Texture make_tex(int k) {
		Out o;
		uint32_t fmts[] = {8, 2, 0xA, 9}; // R5G6B5, R8G8B8A8?, DXT1, P8 : raw ids as stored
		uint32_t const f = fmts[z(k) % 4];
		uint32_t const w = k % 2 ? 4 : 8, h = 4;
		o.str("ZTEX").u32(0).u32(f).u32(w).u32(h).u32(1).u32(w * 2).u32(h * 2).u32(0x11223344u + static_cast<uint32_t>(k));
		if (f == 9)
			for (uint32_t i = 0; i < 1024; ++i)
				o.u8(i * 7);
		for (uint32_t i = 0; i < w * h * 4; ++i)
			o.u8(i + static_cast<uint32_t>(k) * 31);
		Texture t;
		auto in = rd(o.s);
		t.load(in.get());
		return t;
	}
	/// children: 0 none, 1 one, 2 two, 3 nested
	OrientedBoundingBox obb_shape(int c) {
		OrientedBoundingBox b {};
		if (c == 3) {
			b.children.resize(2);
			b.children[0].children.resize(1);
			b.children[1].children.resize(2);
			b.children[1].children[0].children.resize(1);
		} else
			b.children.resize(z(c));
		return b;
	}
	void add_poly(Mesh& m, size_t n) {
		auto& p = m.geometry.emplace_back();
		p.index_count = n;
		p.index_offset = m.polygon_vertex_indices.size();
		m.polygon_vertex_indices.resize(p.index_offset + n);
		m.polygon_feature_indices.resize(p.index_offset + n);
	}
	Mesh mesh_shape(int child, int mats, int verts, int feats, int lm, std::vector<int> const& polys) {
		Mesh m;
		m.obb = obb_shape(child);
		m.materials.resize(z(mats)), m.vertices.resize(z(verts)), m.features.resize(z(feats));
		std::vector<std::vector<int>> const LM = {{}, {0}, {0, 0}, {0, 1}, {0, 1, 0}, {2, 1, 2, 3}};
		std::vector<std::shared_ptr<Texture>> tx(4);
		for (int i : LM[z(lm)]) {
			if (!tx[z(i)]) tx[z(i)] = std::make_shared<Texture>(make_tex(i));
			m.lightmaps.push_back(LightMap {tx[z(i)], {}, {}});
		}
		for (int p : polys)
			add_poly(m, z(p));
		return m;
	}
	/// dims: 0 positions, 1 normals, 2.. triangles wedges colors tpi tp te edges scores wedge_map
	SubMesh sub_shape(std::vector<int> const& d, size_t o) {
		SubMesh s {};
		s.triangles.resize(z(d[o])), s.wedges.resize(z(d[o + 1])), s.colors.resize(z(d[o + 2])), s.triangle_plane_indices.resize(z(d[o + 3]));
		s.triangle_planes.resize(z(d[o + 4])), s.triangle_edges.resize(z(d[o + 5])), s.edges.resize(z(d[o + 6])), s.edge_scores.resize(z(d[o + 7])), s.wedge_map.resize(z(d[o + 8]));
		return s;
	}
	MultiResolutionMesh mrm_shape(int pos, int norm, std::vector<std::vector<int>> const& subs, int child) {
		MultiResolutionMesh m;
		m.positions.resize(z(pos)), m.normals.resize(z(norm));
		for (auto& s : subs)
			m.sub_meshes.push_back(sub_shape(s, 0));
		m.obbox = obb_shape(child);
		return m;
	}
	SoftSkinMesh skin_shape(std::vector<int> const& weights, int normals, std::vector<int> const& boxes, int subs) {
		SoftSkinMesh s;
		s.mesh = mrm_shape(static_cast<int>(weights.size()), 1, std::vector<std::vector<int>>(z(subs), {1, 1, 0, 1, 1, 0, 1, 0, 1}), 0);
		for (int w : weights)
			s.weights.emplace_back().resize(z(w));
		s.wedge_normals.resize(z(normals));
		s.nodes.resize(boxes.size());
		for (int b : boxes)
			s.bboxes.push_back(obb_shape(b));
		return s;
	}
	ModelMesh model_mesh_shape(int meshes, std::vector<std::string> const& names, int variant) {
		ModelMesh m;
		m.checksum = 0;
		for (int i = 0; i < meshes; ++i)
			m.meshes.push_back(skin_shape(i % 2 ? std::vector<int> {1, 0, 2} : std::vector<int> {2}, i, i % 2 ? std::vector<int> {1} : std::vector<int> {}, variant % 2 + i));
		int k = variant;
		for (auto& n : names) {
			std::vector<std::vector<int>> subs;
			for (int j = 0; j < k % 3; ++j)
				subs.push_back({1, j, 1, 1, j + 1, 0, 1, 2, 1});
			m.attachments[n] = mrm_shape(k % 4, 2, subs, k % 3);
			++k;
		}
		return m;
	}
	ModelHierarchy hier_shape(int nodes) {
		ModelHierarchy h {};
		h.checksum = 0;
		h.source_date = {};
		h.nodes.resize(z(nodes));
		return h;
	}
	Font font_shape(int glyphs) {
		Font f;
		f.glyphs.resize(z(glyphs));
		return f;
	}

	// ---- families -----------------------------------------------------------------------------------------------
	template <typename Mk>
	void shape_case(mc::Run& r, char const* type, Mk const& mk, std::string const& d, bool sinks = true) {
		for (bool g2 : {false, true})
			for (int k = 0; k < (sinks ? SINKS : 1); ++k)
				for (uint32_t seed : {1u, 2u})
					r.run_case(
					    "shapes",
					    [&] {
						    auto o = mk();
						    gfill(o, g2, seed);
						    round(r, o, g2, static_cast<Sink>(k), k == VECTOR);
					    },
					    [&] { return mc::fmt("%s %s %s, fill %u, %s", type, d.c_str(), g2 ? "G2" : "G1", seed, SINK[k]); });
	}
	template <typename Mk>
	void field_cases(mc::Run& r, char const* type, Mk const& mk, bool pairs = false) {
		for (bool g2 : {false, true}) {
			auto proto = mk();
			auto info = ginfo(proto, g2);
			r.counters["fields"] += info.size();
			for (size_t f = 0; f < info.size(); ++f)
				for (int v = 0; v < info[f].n; ++v)
					for (int fill : {0, 3})
						r.run_case(
						    "fields",
						    [&] {
							    auto o = mk();
							    if (fill) gfill(o, g2, static_cast<uint32_t>(fill));
							    gset(o, g2, static_cast<int>(f), v);
							    round(r, o, g2, VECTOR, false);
						    },
						    [&] { return mc::fmt("%s %s %s=value %d over fill %d", type, g2 ? "G2" : "G1", info[f].name.c_str(), v, fill); });
			if (!pairs) continue;
			for (size_t f = 0; f < info.size(); ++f)
				for (size_t h = f + 1; h < info.size(); ++h) {
					if (r.quick() && h - f > 4) break;
					for (int a : {0, info[f].n - 1})
						for (int b : {0, info[h].n - 1})
							r.run_case(
							    "field-pairs",
							    [&] {
								    auto o = mk();
								    gset(o, g2, static_cast<int>(f), a);
								    gset(o, g2, static_cast<int>(h), b);
								    round(r, o, g2, VECTOR, false);
							    },
							    [&] { return mc::fmt("%s %s %s=value %d, %s=value %d", type, g2 ? "G2" : "G1", info[f].name.c_str(), a, info[h].name.c_str(), b); });
				}
		}
	}

	std::string tos(std::vector<int> const& v) {
		std::string s = "(";
		for (int i : v)
			s += std::to_string(i) + " ";
		return s + ")";
	}

	/// loading into an object which holds another asset
	template <typename A>
	void reuse_cases(mc::Run& r, char const* type, std::vector<std::function<A()>> const& mks) {
		for (size_t i = 0; i < mks.size(); ++i)
			for (size_t j = 0; j < mks.size(); ++j)
				for (int gg = 0; gg < 4; ++gg)
					r.run_case(
					    "reuse",
					    [&] {
						    bool g1st = gg & 1, g2nd = gg & 2;
						    auto a = mks[i](), b = mks[j]();
						    gfill(a, g1st, 5);
						    gfill(b, g2nd, 6);
						    Bytes ba = saved(a, g1st, VECTOR), bb = saved(b, g2nd, VECTOR);
						    A got {};
						    load_check(got, ba, g1st, VECTOR, gdump(a, g1st), "first");
						    load_check(got, bb, g2nd, VECTOR, gdump(b, g2nd), "second");
						    r.trans(4);
						    r.state(mc::hash_bytes(bb.data(), bb.size(), mc::hash_bytes(ba.data(), ba.size())));
					    },
					    [&] { return mc::fmt("%s shape %zu then shape %zu, games %d", type, i, j, gg); });
	}

	template <typename T>
	void sample(mc::Run& r, fs::path const& p) {
		for (bool g2 : {false, true})
			r.run_case(
			    "samples",
			    [&] {
				    T o {};
				    auto in = Read::from(p);
				    do_load(o, in.get(), g2);
				    if (!g2) {
					    // fields a Gothic 1 file cannot store
				    }
				    round(r, o, g2, VECTOR, true);
			    },
			    [&] { return p.filename().string() + (g2 ? " G2" : " G1"); });
	}

	// ---- triangulation ------------------------------------------------------------------------------------------
	void triangulation(mc::Run& r) {
		std::vector<int> const N = {0, 1, 2, 3, 4, 5, 7};
		// flags: bit0-1 portal, 2 ghost, 3 outdoor
		int const np = r.tier(2, 3);
		tuples(np, static_cast<int>(N.size()), [&](std::vector<int> const& t) {
			for (int flags = 0; flags < (1 << (2 * np)); ++flags)
				for (uint32_t leaf = 0; leaf < (1u << np); ++leaf)
					for (bool g2 : {false, true})
						r.run_case(
						    "triangulation",
						    [&] {
							    Mesh m;
							    for (int i : t)
								    add_poly(m, z(N[z(i)]));
							    gfill(m, g2, 9);
							    for (size_t i = 0; i < m.geometry.size(); ++i) {
								    auto& f = m.geometry[i].flags;
								    int k = (flags >> (2 * i)) & 3;
								    f.is_portal = k == 1 ? 2 : 0;
								    f.is_ghost_occluder = k == 2;
								    f.is_outdoor = k == 3;
								    f.is_sector = 1;
							    }
							    Bytes b = saved(m, g2, VECTOR);
							    std::vector<uint32_t> leaves;
							    for (uint32_t i = 0; i < static_cast<uint32_t>(np); ++i)
								    if (leaf & (1u << i)) leaves.push_back(i);
							    if (leaves.size() > 1) leaves.insert(leaves.begin() + 1, leaves[1]); // polygons may be listed by several leaves
							    auto in = Read::from(&b);
							    Mesh got;
							    got.load(in.get(), leaves, false);
							    r.trans(2);
							    PolygonList want;
							    for (uint32_t i = 0; i < static_cast<uint32_t>(np); ++i) {
								    if (!(leaf & (1u << i)) || ((flags >> (2 * i)) & 3)) continue;
								    auto& p = m.geometry[i];
								    for (size_t c = 1; c + 1 < p.index_count; ++c) {
									    for (size_t x : {size_t {0}, c, c + 1}) {
										    want.vertex_indices.push_back(m.polygon_vertex_indices[p.index_offset + x]);
										    want.feature_indices.push_back(m.polygon_feature_indices[p.index_offset + x]);
									    }
									    want.material_indices.push_back(p.material);
									    want.lightmap_indices.push_back(p.lightmap);
								    }
							    }
							    auto& g = got.polygons;
							    check(g.vertex_indices == want.vertex_indices && g.feature_indices == want.feature_indices, "triangle-indices", mc::fmt("%zu triangle corners instead of %zu (or different ones)", g.vertex_indices.size(), want.vertex_indices.size()));
							    check(g.material_indices == want.material_indices && g.lightmap_indices == want.lightmap_indices && g.flags.size() == want.material_indices.size(), "triangle-attributes", "triangle materials, lightmaps or flags differ");
							    for (auto& f : g.flags)
								    check(f.is_sector && !f.is_portal, "triangle-flags", "triangle flags differ from its polygon's");
							    r.outcome(want.vertex_indices.size());
						    },
						    [&] { return mc::fmt("polygon sizes %s flags %x leaves %x %s", tos(t).c_str(), flags, leaf, g2 ? "G2" : "G1"); });
		});
	}

	// ---- bounding boxes -----------------------------------------------------------------------------------------
	void boxes(mc::Run& r) {
		// all signed axis permutations (exact arithmetic) x centres x half widths
		int perm[3] = {0, 1, 2};
		std::vector<float> const C = {0, -10, 7}, H = {0, 1, 2.5f};
		do {
			for (int sg = 0; sg < 8; ++sg)
				tuples(3, 3, [&](std::vector<int> const& c) {
					tuples(3, 3, [&](std::vector<int> const& h) {
						r.run_case(
						    "as-bbox",
						    [&] {
							    OrientedBoundingBox b {};
							    float hw[3] {};
							    for (int i = 0; i < 3; ++i) {
								    float v[3] = {0, 0, 0};
								    v[perm[i]] = sg & (1 << i) ? -1.f : 1.f;
								    b.axes[i] = {v[0], v[1], v[2]};
								    hw[perm[i]] = H[z(h[z(i)])];
							    }
							    b.center = {C[z(c[0])], C[z(c[1])], C[z(c[2])]};
							    b.half_width = {H[z(h[0])], H[z(h[1])], H[z(h[2])]};
							    auto a = b.as_bbox();
							    r.trans(1);
							    for (unsigned i = 0; i < 3; ++i)
								    check(a.min[i] == b.center[i] - hw[i] && a.max[i] == b.center[i] + hw[i], "as-bbox", mc::fmt("axis %u: [%g, %g] instead of [%g, %g]", i, static_cast<double>(a.min[i]), static_cast<double>(a.max[i]), static_cast<double>(b.center[i] - hw[i]), static_cast<double>(b.center[i] + hw[i])));
						    },
						    [&] { return mc::fmt("axes %d%d%d signs %d centre %s half %s", perm[0], perm[1], perm[2], sg, tos(c).c_str(), tos(h).c_str()); });
					});
				});
		} while (std::next_permutation(perm, perm + 3));
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 20;
		int const top = r.tier(3, 4);

		// materials
		shape_case(r, "Material", [] { return Material {}; }, "");
		field_cases(r, "Material", [] { return Material {}; }, true);

		// fonts
		for (int n : {0, 1, 2, 3, 255, 256, 257})
			shape_case(r, "Font", [&] { return font_shape(n); }, std::to_string(n));
		field_cases(r, "Font", [] { return font_shape(2); }, true);

		// hierarchies
		for (int n : {0, 1, 2, 3, 300})
			shape_case(r, "ModelHierarchy", [&] { return hier_shape(n); }, std::to_string(n));
		field_cases(r, "ModelHierarchy", [] { return hier_shape(2); });
		shape_case(r, "ModelHierarchy", [&] { return hier_shape(65535); }, "65535", false);

		// static meshes
		std::vector<std::vector<int>> const POLYS = {{}, {0}, {3}, {4, 0, 3}, {3, 3}, {255}, {3, 5, 1, 2}};
		tuples(4, top, [&](std::vector<int> const& t) {
			for (int lm = 0; lm < 6; ++lm)
				for (size_t p = 0; p < POLYS.size(); ++p) {
					if (r.quick() && (t[1] + t[2] + t[3] > 3) && lm > 1) continue;
					shape_case(
					    r, "Mesh", [&] { return mesh_shape(t[0], t[1], t[2], t[3], lm, POLYS[p]); }, mc::fmt("%s lightmaps %d polygons %zu", tos(t).c_str(), lm, p), lm == 4);
				}
		});
		field_cases(r, "Mesh", [] { return mesh_shape(1, 1, 2, 2, 3, {3, 2}); });
		// all polygon flag combinations of both games
		for (bool g2 : {false, true})
			for (int fl = 0; fl < 1024; ++fl)
				r.run_case(
				    "polygon-flags",
				    [&] {
					    Mesh m = mesh_shape(0, 0, 0, 0, 0, {3, 3});
					    for (size_t i = 0; i < 2; ++i) {
						    auto& f = m.geometry[i].flags;
						    int x = i ? fl ^ 0x155 : fl;
						    f = {};
						    f.is_portal = x & 3, f.is_occluder = (x >> 2) & 1, f.is_sector = (x >> 3) & 1, f.is_outdoor = (x >> 4) & 1, f.is_ghost_occluder = (x >> 5) & 1;
						    if (g2)
							    f.should_relight = (x >> 6) & 1, f.is_dynamically_lit = (x >> 7) & 1;
						    else
							    f.is_lod = (x >> 6) & 1, f.normal_axis = (x >> 7) & 3;
						    f.sector_index = static_cast<int16_t>(x * 37 - 20000);
					    }
					    round(r, m, g2, VECTOR, true);
				    },
				    [&] { return mc::fmt("polygon flags %x %s", fl, g2 ? "G2" : "G1"); });
		triangulation(r);
		for (int n : {300, 70000})
			shape_case(
			    r, "Mesh", [&] { return mesh_shape(0, n > 1000 ? 1 : n, n, n, 0, {3}); }, mc::fmt("%d elements", n), false);

		// multi-resolution meshes: {0,1}^9 sub-mesh sections, each section 0..3 alone, several sub-meshes
		tuples(9, 2, [&](std::vector<int> const& d) {
			for (int subs : {1, 2})
				shape_case(
				    r, "MultiResolutionMesh", [&] { return mrm_shape(2, 1, std::vector<std::vector<int>>(z(subs), d), 0); }, mc::fmt("%d x %s", subs, tos(d).c_str()), subs == 2 && r.tier(false, true));
		});
		for (size_t i = 0; i < 9; ++i)
			for (int n : {2, 3, 4, 300})
				for (size_t j = 0; j < 9; ++j) {
					if (i == j) continue;
					std::vector<int> d(9, 1), e(9, 0);
					d[i] = n, e[j] = n;
					shape_case(
					    r, "MultiResolutionMesh", [&] { return mrm_shape(1, 2, {d, e}, 1); }, mc::fmt("section %zu and %zu = %d", i, j, n), false);
				}
		for (int p : {0, 1, 2, 3, 65536, 70000})
			for (int n : {0, 1, 2})
				for (int c = 0; c < 4; ++c)
					for (int s : {0, 1, 3}) {
						if (p > 1000 && (n || c || s == 3)) continue;
						shape_case(
						    r, "MultiResolutionMesh", [&] { return mrm_shape(p, n, std::vector<std::vector<int>>(z(s), {1, 2, 1, 1, 2, 1, 2, 1, 1}), c); }, mc::fmt("%d positions %d normals %d sub-meshes children %d", p, n, s, c), p < 1000);
					}
		shape_case(
		    r, "MultiResolutionMesh", [&] { return mrm_shape(1, 1, std::vector<std::vector<int>>(255, {1, 1, 0, 0, 0, 0, 0, 0, 0}), 0); }, "255 sub-meshes", false);
		field_cases(r, "MultiResolutionMesh", [] { return mrm_shape(2, 2, {{1, 1, 1, 1, 1, 1, 1, 1, 1}, {2, 0, 1, 0, 2, 0, 1, 0, 2}}, 1); });

		// soft-skin meshes
		for (int verts = 0; verts <= 3; ++verts)
			tuples(verts, 4, [&](std::vector<int> const& w) {
				for (int n : {0, 1, 2})
					for (int boxes = 0; boxes <= 2; ++boxes)
						tuples(boxes, 3, [&](std::vector<int> const& bx) {
							shape_case(
							    r, "SoftSkinMesh", [&] { return skin_shape(w, n, bx, n % 3); }, mc::fmt("weights %s normals %d boxes %s", tos(w).c_str(), n, tos(bx).c_str()), verts == 2);
						});
			});
		field_cases(r, "SoftSkinMesh", [] { return skin_shape({1, 0, 2}, 2, {0, 1}, 1); });

		// model meshes and models
		std::vector<std::string> const NAMES = {"BIP01 HEAD", "ZS_RIGHTHAND", "a", "long " + std::string(200, 'n')};
		for (int meshes = 0; meshes <= top; ++meshes)
			for (uint32_t sub = 0; sub < 16; ++sub)
				for (int variant = 0; variant < r.tier(3, 6); ++variant) {
					std::vector<std::string> names;
					for (size_t i = 0; i < 4; ++i)
						if (sub & (1u << i)) names.push_back(NAMES[i]);
					shape_case(
					    r, "ModelMesh", [&] { return model_mesh_shape(meshes, names, variant); }, mc::fmt("%d meshes, attachments %x variant %d", meshes, sub, variant), variant == 0);
					for (int nodes : {0, 2})
						shape_case(
						    r, "Model",
						    [&] {
							    Model m;
							    m.hierarchy = hier_shape(nodes);
							    m.mesh = model_mesh_shape(meshes, names, variant);
							    return m;
						    },
						    mc::fmt("%d nodes, %d meshes, attachments %x variant %d", nodes, meshes, sub, variant), false);
				}
		for (int n : {20, 300})
			shape_case(
			    r, "ModelMesh",
			    [&] {
				    std::vector<std::string> names;
				    for (int i = 0; i < n; ++i)
					    names.push_back(mc::fmt("NODE %d", i));
				    return model_mesh_shape(1, names, 1);
			    },
			    mc::fmt("%d attachments", n), false);
		field_cases(r, "ModelMesh", [&] { return model_mesh_shape(1, {"A"}, 1); });

		reuse_cases<Mesh>(r, "Mesh", {[] { return mesh_shape(0, 0, 0, 0, 0, {}); }, [] { return mesh_shape(1, 1, 2, 1, 1, {3}); }, [] { return mesh_shape(2, 2, 1, 3, 3, {4, 3, 5}); }});
		reuse_cases<MultiResolutionMesh>(r, "MultiResolutionMesh", {[] { return mrm_shape(0, 0, {}, 0); }, [] { return mrm_shape(2, 1, {{1, 1, 1, 1, 1, 1, 1, 1, 1}}, 1); }, [] { return mrm_shape(1, 3, {{2, 0, 1, 0, 2, 0, 1, 0, 2}, {0, 0, 0, 0, 0, 0, 0, 0, 0}}, 2); }});
		reuse_cases<SoftSkinMesh>(r, "SoftSkinMesh", {[] { return skin_shape({}, 0, {}, 0); }, [] { return skin_shape({2, 1}, 1, {1}, 1); }, [] { return skin_shape({0, 1, 3}, 2, {0, 2}, 2); }});
		reuse_cases<ModelMesh>(r, "ModelMesh", {[] { return model_mesh_shape(0, {}, 0); }, [] { return model_mesh_shape(1, {"A"}, 1); }, [] { return model_mesh_shape(2, {"B", "C"}, 2); }});
		reuse_cases<ModelHierarchy>(r, "ModelHierarchy", {[] { return hier_shape(0); }, [] { return hier_shape(1); }, [] { return hier_shape(3); }});
		reuse_cases<Font>(r, "Font", {[] { return font_shape(0); }, [] { return font_shape(1); }, [] { return font_shape(3); }});

		fs::path const S = std::string(std::getenv("MC_REPO") ? std::getenv("MC_REPO") : "/repo") + "/tests/samples";
		sample<MultiResolutionMesh>(r, S / "mesh0.mrm");
		sample<ModelMesh>(r, S / "secretdoor.mdm");
		sample<ModelMesh>(r, S / "smoke_waterpipe.mdm");
		sample<ModelHierarchy>(r, S / "hierarchy0.mdh");
		sample<Font>(r, S / "G1" / "FONT_OLD_10_WHITE_HI.FNT");
		sample<Font>(r, S / "G2" / "FONT_OLD_10_WHITE_HI.FNT");

		boxes(r);
	}
} // namespace
MC_MAIN(explore)
