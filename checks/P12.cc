// P12: worlds (object tree, way network, geometry, spatial tree, game state) survive saving and loading.
#include "geomodel.hh"
#include "vobmodel.hh"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace mcz;
using mcg::Geo;

namespace {
	using Dump = std::vector<std::pair<std::string, std::string>>;
	size_t z(int i) {
		return static_cast<size_t>(i);
	}

	template <typename T>
	std::shared_ptr<T> make(Cfg const& c, int base) {
		auto o = std::make_shared<T>();
		Vis v;
		v.mode = Vis::FILL;
		v.cfg = c;
		v.base = base;
		v.depth = 1;
		visit_any(v, *o);
		return o;
	}
	/// weak references of an object to its controller's subject lead back into the tree
	template <typename P>
	P link(P v) {
		v->vob_name = "LINK" + v->vob_name.substr(0, 8);
		auto npc = std::dynamic_pointer_cast<VNpc>(v);
		if (auto a = std::dynamic_pointer_cast<AiMove>(v->ai)) {
			a->vob = v;
			a->owner = npc;
		}
		if (auto a = std::dynamic_pointer_cast<AiHuman>(v->ai)) a->npc = npc;
		return v;
	}
	std::shared_ptr<VirtualObject> make_vob_(Cfg const& c, int k);
	std::shared_ptr<VirtualObject> make_vob(Cfg const& c, int k) {
		return link(make_vob_(c, k));
	}
	std::shared_ptr<VirtualObject> make_vob_(Cfg const& c, int k) {
		switch (k % 10) {
		case 0: return make<VirtualObject>(c, k);
		case 1: return make<VItem>(c, k);
		case 2: return make<VLight>(c, k);
		case 3: return make<VTriggerList>(c, k);
		case 4: return make<VZoneMusic>(c, k);
		case 5: return make<VMover>(c, k);
		case 6: return make<VContainer>(c, k);
		case 7: return make<VLevel>(c, k);
		case 8: return make<VSoundDaytime>(c, k);
		default: return make<VNpc>(c, k);
		}
	}

	// ---- comparison ---------------------------------------------------------------------------------------------
	struct Ids {
		std::map<Object const*, int> m;
		std::string of(Object const* o) {
			if (!o) return "null";
			return std::to_string(m.try_emplace(o, static_cast<int>(m.size())).first->second);
		}
	};
	void add(Dump& d, std::string n, std::string v) {
		d.emplace_back(std::move(n), std::move(v));
	}
	using Objs = std::vector<std::pair<std::string, std::vector<Val>>>;

	void tree(Dump& d, Objs& o, Ids& ids, std::vector<std::shared_ptr<VirtualObject>> const& v, std::string const& path, Cfg const& c) {
		add(d, path + "#", std::to_string(v.size()));
		for (size_t i = 0; i < v.size(); ++i) {
			auto p = path + mc::fmt("/%zu", i);
			add(d, p + " identity", ids.of(v[i].get()));
			if (!v[i]) continue;
			o.emplace_back(p, dump(*v[i], c));
			tree(d, o, ids, v[i]->children, p, c);
		}
	}
	void obj(Dump& d, Objs& o, Ids& ids, std::string const& n, Object const* p, Cfg const& c) {
		bool fresh = p && !ids.m.count(p);
		add(d, n + " identity", ids.of(p));
		if (fresh) o.emplace_back(n, dump(*p, c));
	}
	void waynet(Dump& d, Objs& o, WayNet const* n, Cfg const& c) {
		add(d, "waynet", n ? "yes" : "null");
		if (!n) return;
		// canonical order: free points in order, then the others by first use in an edge
		Ids ids;
		std::vector<WayPoint const*> order;
		for (auto& p : n->points)
			if (p->free_point) order.push_back(p.get()), ids.of(p.get());
		for (auto& [a, b] : n->edges)
			for (auto* p : {a.get(), b.get()})
				if (p && !ids.m.count(p)) order.push_back(p), ids.of(p);
		for (auto& p : n->points)
			if (!ids.m.count(p.get())) order.push_back(p.get()), ids.of(p.get());
		std::map<Object const*, int> listed;
		for (auto& p : n->points)
			++listed[p.get()];
		add(d, "waynet points#", std::to_string(n->points.size()));
		for (auto* p : order) {
			add(d, "point " + ids.of(p), mc::fmt("listed %d times, free %d", listed[p], p->free_point));
			o.emplace_back("waypoint " + ids.of(p), dump(*p, c));
		}
		add(d, "edges#", std::to_string(n->edges.size()));
		for (auto& [a, b] : n->edges)
			add(d, "edge", ids.of(a.get()) + "-" + ids.of(b.get()));
	}
	std::string fs(float f) {
		return mc::fmt("%.9g/%08x", static_cast<double>(f), mcg::bits(f));
	}
	void bsp(Dump& d, BspTree const& t, bool g2) {
		add(d, "bsp mode", std::to_string(static_cast<uint32_t>(t.mode)));
		auto list = [&](char const* n, auto const& v) {
			std::string s;
			for (auto x : v)
				s += std::to_string(x) + " ";
			add(d, n, s);
		};
		list("bsp polygon_indices", t.polygon_indices);
		list("bsp leaf_polygons", t.leaf_polygons);
		list("bsp portals", t.portal_polygon_indices);
		list("bsp leaves", t.leaf_node_indices);
		add(d, "bsp nodes#", std::to_string(t.nodes.size()));
		for (auto& n : t.nodes) {
			add(d, "bsp node links", mc::fmt("parent %d front %d back %d polygons %u+%u", n.parent_index, n.front_index, n.back_index, n.polygon_index, n.polygon_count));
			add(d, "bsp node box", fs(n.bbox.min.x) + fs(n.bbox.min.y) + fs(n.bbox.min.z) + fs(n.bbox.max.x) + fs(n.bbox.max.y) + fs(n.bbox.max.z));
			if (!n.is_leaf()) {
				add(d, "bsp node plane", fs(n.plane.x) + fs(n.plane.y) + fs(n.plane.z) + fs(n.plane.w));
				if (!g2) add(d, "bsp node lod", std::to_string(n.lod));
			}
		}
		add(d, "bsp lights#", std::to_string(t.light_points.size()));
		for (auto& l : t.light_points)
			add(d, "bsp light", fs(l.x) + fs(l.y) + fs(l.z));
		add(d, "bsp sectors#", std::to_string(t.sectors.size()));
		for (auto& s : t.sectors) {
			add(d, "bsp sector name", esc(s.name));
			list("bsp sector nodes", s.node_indices);
			list("bsp sector portals", s.portal_polygon_indices);
		}
	}
	std::pair<Dump, Objs> wdump(World& w, Cfg const& c) {
		Dump d;
		Objs o;
		Ids ids;
		tree(d, o, ids, w.world_vobs, "vobs", c);
		waynet(d, o, w.way_net.get(), c);
		if (!c.save) {
			bsp(d, w.world_bsp_tree, c.g2());
			auto m = mcg::gdump(w.world_mesh, c.g2());
			d.insert(d.end(), m.begin(), m.end());
		} else {
			obj(d, o, ids, "player", w.player.get(), c);
			obj(d, o, ids, "sky", w.sky_controller.get(), c);
			add(d, "npcs#", std::to_string(w.npcs.size()));
			for (auto& n : w.npcs)
				obj(d, o, ids, "npc", n.get(), c);
			add(d, "spawns#", std::to_string(w.npc_spawns.size()));
			for (auto& s : w.npc_spawns) {
				obj(d, o, ids, "spawn npc", s.npc.get(), c);
				o.emplace_back("spawn", std::vector<Val> {});
				for (float f : {s.position.x, s.position.y, s.position.z, s.timer}) {
					Val v;
					v.name = "spawn value";
					v.flt = true;
					v.f = f;
					o.back().second.push_back(v);
				}
			}
			add(d, "spawn enabled", std::to_string(w.npc_spawn_enabled));
			if (c.g2()) add(d, "spawn flags", std::to_string(w.npc_spawn_flags));
		}
		return {d, o};
	}
	void same_world(std::pair<Dump, Objs> const& want, std::pair<Dump, Objs> const& got, Cfg const& c, char const* ctx) {
		mcg::gsame(want.first, got.first, ctx);
		check(want.second.size() == got.second.size(), "objects", mc::fmt("%s: %zu objects instead of %zu", ctx, got.second.size(), want.second.size()));
		for (size_t i = 0; i < want.second.size(); ++i)
			same_dump(want.second[i].second, got.second[i].second, c, (std::string(ctx) + " " + want.second[i].first).c_str());
	}

	Bytes save(std::shared_ptr<World> const& w, Cfg const& c) {
		Bytes out;
		auto wr = Write::to(&out);
		auto ar = c.save ? WriteArchive::to_save(wr.get(), c.f) : WriteArchive::to(wr.get(), c.f);
		ar->write_object(w, c.g);
		ar->write_header();
		return out;
	}
	void loads(mc::Run& r, Bytes const& b, std::pair<Dump, Objs> const& want, Cfg const& c, World* into = nullptr) {
		{
			World got;
			auto& t = into ? *into : got;
			auto in = Read::from(&b);
			t.load(in.get(), c.g);
			same_world(want, wdump(t, c), c, "load");
			r.trans(1);
		}
		if (!c.save) {
			World got;
			auto& t = into ? *into : got;
			auto in = Read::from(&b);
			auto v = t.load(in.get());
			check(v == c.g, "auto-version", mc::fmt("world of game %d detected as %d", c.g2() + 1, v == GameVersion::GOTHIC_2 ? 2 : 1));
			same_world(want, wdump(t, c), c, "auto-load");
			r.trans(1);
		} else {
			auto in = Read::from(&b);
			auto ar = ReadArchive::from(in.get());
			auto got = ar->read_object<World>(c.g);
			check(got != nullptr, "object-load", "world is not readable as an object");
			same_world(want, wdump(*got, c), c, "object-load");
			r.trans(1);
		}
	}
	void round(mc::Run& r, std::shared_ptr<World> const& w, Cfg const& c, bool twice = false) {
		auto want = wdump(*w, c);
		Bytes b = save(w, c);
		r.state(mc::hash_bytes(b.data(), b.size()));
		r.trans(1);
		loads(r, b, want, c);
		r.outcome(want.first.size() * 1000 + want.second.size());
		if (twice) {
			auto again = std::make_shared<World>();
			auto in = Read::from(&b);
			again->load(in.get(), c.g);
			Bytes b2 = save(again, c);
			loads(r, b2, want, c, again.get());
		}
	}

	std::shared_ptr<World> blank() {
		auto w = std::make_shared<World>();
		w->world_bsp_tree.mode = BspTreeType::INDOOR;
		w->way_net = std::make_shared<WayNet>();
		return w;
	}

	// ---- enumerations -------------------------------------------------------------------------------------------
	/// ordered forests with n nodes as parent vectors in preorder (-1 = root)
	void forests(int n, std::function<void(std::vector<int> const&)> const& f) {
		std::vector<int> par;
		std::function<void()> rec = [&] {
			if (static_cast<int>(par.size()) == n) {
				f(par);
				return;
			}
			// the next node in preorder hangs below any node of the rightmost path or is a root
			par.push_back(-1);
			rec();
			par.pop_back();
			for (int p = static_cast<int>(par.size()) - 1; p >= 0; p = par[z(p)]) {
				par.push_back(p);
				rec();
				par.pop_back();
			}
		};
		rec();
	}
	/// binary trees with n nodes; visitor gets nodes (preorder) with front/back/parent
	struct BN {
		int front = -1, back = -1, parent = -1;
	};
	void bsp_shapes(int n, std::function<void(std::vector<BN> const&)> const& f) {
		std::function<void(int, int, std::vector<BN>, std::function<void(std::vector<BN>)> const&)> gen = [&](int k, int parent, std::vector<BN> base, std::function<void(std::vector<BN>)> const& done) {
			int self = static_cast<int>(base.size());
			base.push_back({-1, -1, parent});
			if (k == 1) return done(base);
			for (int l = 0; l < k; ++l) {
				int rr = k - 1 - l;
				auto left = [&](auto cont) {
					if (l == 0) return cont(base);
					auto b = base;
					b[z(self)].front = static_cast<int>(b.size());
					gen(l, self, b, cont);
				};
				left([&](std::vector<BN> b) {
					if (rr == 0) return done(b);
					b[z(self)].back = static_cast<int>(b.size());
					gen(rr, self, b, done);
				});
			}
		};
		if (n == 0) return f({});
		gen(n, -1, {}, [&](std::vector<BN> b) { f(b); });
	}
	BspTree make_bsp(std::vector<BN> const& t, int sectors, bool lights, int mode, int polys) {
		BspTree b {};
		b.mode = static_cast<BspTreeType>(mode);
		uint32_t next = 0;
		for (size_t i = 0; i < t.size(); ++i) {
			BspNode n {};
			float f = static_cast<float>(i);
			n.parent_index = t[i].parent, n.front_index = t[i].front, n.back_index = t[i].back;
			n.bbox = {Vec3 {f, -f, 1.25f}, Vec3 {f + 10, 3, -0.5f}};
			uint32_t cnt = polys ? static_cast<uint32_t>((i * 2 + z(polys)) % 3) : 0;
			n.polygon_index = next, n.polygon_count = cnt;
			next += cnt;
			if (!n.is_leaf()) n.plane = Vec4 {f, 1, -2, 0.125f}, n.lod = static_cast<uint8_t>(i * 100 + 1);
			b.nodes.push_back(n);
			if (n.is_leaf()) b.leaf_node_indices.push_back(i);
		}
		for (uint32_t i = 0; i < next; ++i)
			b.polygon_indices.push_back((next - i) * 3 % 7);
		for (auto l : b.leaf_node_indices)
			for (uint32_t i = 0; i < b.nodes[l].polygon_count; ++i)
				b.leaf_polygons.push_back(b.polygon_indices[b.nodes[l].polygon_index + i]);
		std::sort(b.leaf_polygons.begin(), b.leaf_polygons.end());
		if (lights)
			for (auto l : b.leaf_node_indices)
				b.light_points.push_back(Vec3 {static_cast<float>(l), 2, -1});
		for (int s = 0; s < sectors; ++s) {
			BspSector x;
			x.name = s == 1 ? "" : "sector " + std::to_string(s);
			for (int i = 0; i < s; ++i)
				x.node_indices.push_back(static_cast<uint32_t>(i));
			for (int i = 0; i < 2 - s; ++i)
				x.portal_polygon_indices.push_back(0xfffffff0u + static_cast<uint32_t>(i));
			b.sectors.push_back(x);
			b.portal_polygon_indices.push_back(static_cast<uint32_t>(s) + 5);
		}
		return b;
	}
	Mesh make_mesh(int k, bool g2, size_t polys) {
		Mesh m;
		m.materials.resize(z(k % 3)), m.vertices.resize(z(k)), m.features.resize(z(k + 1));
		for (size_t i = 0; i < polys; ++i) {
			auto& p = m.geometry.emplace_back();
			p.index_count = 3 + i % 2;
			p.index_offset = m.polygon_vertex_indices.size();
			m.polygon_vertex_indices.resize(p.index_offset + p.index_count);
			m.polygon_feature_indices.resize(p.index_offset + p.index_count);
		}
		mcg::gfill(m, g2, static_cast<uint32_t>(k) + 1);
		return m;
	}

	std::vector<Cfg> configs(bool saves, bool plain = true) {
		std::vector<Cfg> v;
		for (auto g : {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2})
			for (auto f : {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII})
				for (bool s : {false, true})
					if (s ? saves : plain) v.push_back({g, f, s, true});
		return v;
	}

	std::shared_ptr<WayPoint> point(Cfg const& c, int i, bool free) {
		auto p = make<WayPoint>(c, i * 3 + 1);
		p->name = mc::fmt("WP_%d", i);
		p->free_point = free;
		return p;
	}

	std::string tos(std::vector<int> const& v) {
		std::string s = "(";
		for (int i : v)
			s += std::to_string(i) + " ";
		return s + ")";
	}

	void vob_trees(mc::Run& r) {
		for (int n = 0; n <= r.tier(4, 6); ++n)
			forests(n, [&](std::vector<int> const& par) {
				for (auto& c : configs(true))
					for (int rot = 0; rot < (n <= 2 ? 10 : 3); ++rot)
						r.run_case(
						    "vob-trees",
						    [&] {
							    auto w = blank();
							    std::vector<std::shared_ptr<VirtualObject>> v;
							    for (size_t i = 0; i < par.size(); ++i) {
								    v.push_back(make_vob(c, static_cast<int>(i) * 3 + rot));
								    (par[i] < 0 ? w->world_vobs : v[z(par[i])]->children).push_back(v[i]);
							    }
							    round(r, w, c, n <= 3 && rot == 0);
						    },
						    [&] { return mc::fmt("%s forest %s rotation %d", c.str().c_str(), tos(par).c_str(), rot); });
			});
		// wide and deep trees
		for (auto& c : configs(true))
			for (int n : {64, 300})
				for (bool deep : {false, true})
					r.run_case(
					    "vob-trees-large",
					    [&] {
						    auto w = blank();
						    auto* at = &w->world_vobs;
						    for (int i = 0; i < n; ++i) {
							    auto v = std::make_shared<VirtualObject>();
							    v->vob_name = std::to_string(i);
							    at->push_back(v);
							    if (deep) at = &v->children;
						    }
						    round(r, w, c);
					    },
					    [&] { return mc::fmt("%s %d objects %s", c.str().c_str(), n, deep ? "deep" : "wide"); });
	}

	void put_mesh(WriteArchive& ar, World const& w, Cfg const& c) {
		ar.write_object_begin("MeshAndBsp", "", 0);
		auto* raw = ar.get_stream();
		raw->write_uint(c.g2() ? 0x4090000 : 0x2090000);
		// the geometry payload is produced by the library itself (its format is checked elsewhere)
		Bytes body;
		{
			auto bw = Write::to(&body);
			w.world_mesh.save(bw.get(), c.g);
			w.world_bsp_tree.save(bw.get(), c.g);
		}
		raw->write_uint(static_cast<uint32_t>(body.size()));
		raw->write(body.data(), body.size());
		ar.write_object_end();
	}
	void put_tail(WriteArchive& ar, World const& w, Cfg const& c) {
		ar.write_object_begin("WayNet", "", 0);
		ar.write_object(w.way_net, c.g);
		ar.write_object_end();
		ar.write_object_begin("EndMarker", "", 0);
		ar.write_object_end();
	}
	void put_vobs(WriteArchive& ar, World const& w, Cfg const& c) {
		ar.write_object_begin("VobTree", "", 0);
		ar.write_int("childs0", static_cast<int>(w.world_vobs.size()));
		for (auto& v : w.world_vobs)
			save_vob_tree(ar, c.g, v);
		ar.write_object_end();
	}

	/// one object of the tree is of a class the library does not know: it and its children are left out
	void unknown_objects(mc::Run& r) {
		for (int n = 1; n <= r.tier(4, 5); ++n)
			forests(n, [&](std::vector<int> const& par) {
				for (int bad = 0; bad < n; ++bad)
					for (auto& c : configs(false))
						r.run_case(
						    "unknown-objects",
						    [&] {
							    auto w = blank();
							    std::vector<std::shared_ptr<VirtualObject>> v;
							    std::vector<bool> gone(par.size(), false);
							    for (size_t i = 0; i < par.size(); ++i) {
								    v.push_back(make_vob(c, static_cast<int>(i)));
								    gone[i] = static_cast<int>(i) == bad || (par[i] >= 0 && gone[z(par[i])]);
								    if (!gone[i]) (par[i] < 0 ? w->world_vobs : v[z(par[i])]->children).push_back(v[i]);
							    }
							    auto want = wdump(*w, c);
							    Bytes out;
							    auto wr = Write::to(&out);
							    auto ar = WriteArchive::to(wr.get(), c.f);
							    ar->write_object_begin("%", "oCWorld:zCWorld", 64513);
							    put_mesh(*ar, *w, c);
							    ar->write_object_begin("VobTree", "", 0);
							    auto kids = [&](int p) {
								    std::vector<size_t> k;
								    for (size_t i = 0; i < par.size(); ++i)
									    if (par[i] == p) k.push_back(i);
								    return k;
							    };
							    int cnt = 0;
							    ar->write_int("childs0", static_cast<int>(kids(-1).size()));
							    std::function<void(size_t)> put = [&](size_t i) {
								    if (static_cast<int>(i) == bad) {
									    ar->write_object_begin("%", "zCVobOfTheFuture:zCVob", 7);
									    ar->write_int("some", 1);
									    ar->write_string("thing", "value");
									    ar->write_object_begin("inner", "zCOther", 3);
									    ar->write_float("x", 1.5f);
									    ar->write_object_end();
									    ar->write_object_end();
								    } else {
									    auto k = v[i]->children;
									    v[i]->children.clear();
									    ar->write_object(v[i], c.g);
									    v[i]->children = k;
								    }
								    auto k = kids(static_cast<int>(i));
								    ar->write_int("childs" + std::to_string(cnt++), static_cast<int>(k.size()));
								    for (auto j : k)
									    put(j);
							    };
							    for (auto i : kids(-1))
								    put(i);
							    ar->write_object_end();
							    put_tail(*ar, *w, c);
							    ar->write_object_end();
							    ar->write_header();
							    r.state(mc::hash_bytes(out.data(), out.size()));
							    // the loaded indices of objects behind the unknown one are unaffected: contents must be equal
							    loads(r, out, want, c);
						    },
						    [&] { return mc::fmt("%s forest %s unknown %d", c.str().c_str(), tos(par).c_str(), bad); });
			});
	}
	/// sections in any order, with unknown sections between them
	void sections(mc::Run& r) {
		// 0 mesh, 1 vobs, 2 waynet, 3 unknown section
		std::vector<std::vector<int>> orders;
		std::vector<int> p = {0, 1, 2, 3};
		do {
			orders.push_back(p);
		} while (std::next_permutation(p.begin(), p.end()));
		orders.push_back({0, 1, 2}), orders.push_back({3, 0, 3, 1, 3, 2, 3}), orders.push_back({0}), orders.push_back({3, 1, 0});
		for (auto& o : orders)
			for (auto& c : configs(false))
				for (int fill : {0, 1})
					r.run_case(
					    "sections",
					    [&] {
						    auto w = blank();
						    if (fill) {
							    w->world_vobs.push_back(make_vob(c, 5));
							    w->world_vobs[0]->children.push_back(make_vob(c, 1));
							    w->way_net->points.push_back(point(c, 0, true));
							    w->world_mesh = make_mesh(2, c.g2(), 3);
							    w->world_bsp_tree = make_bsp({{1, 2, -1}, {-1, -1, 0}, {-1, -1, 0}}, 1, true, 1, 1);
						    } else
							    w->world_mesh.obb = {};
						    Bytes out;
						    auto wr = Write::to(&out);
						    auto ar = WriteArchive::to(wr.get(), c.f);
						    ar->write_object_begin("%", "oCWorld:zCWorld", 64513);
						    bool has[3] = {};
						    for (int s : o) {
							    if (s < 3) has[s] = true;
							    if (s == 0) put_mesh(*ar, *w, c);
							    if (s == 1) put_vobs(*ar, *w, c);
							    if (s == 2) {
								    ar->write_object_begin("WayNet", "", 0);
								    ar->write_object(w->way_net, c.g);
								    ar->write_object_end();
							    }
							    if (s == 3) {
								    ar->write_object_begin("Extra", "", 0);
								    ar->write_int("a", 3);
								    ar->write_object_begin("deep", "zCFoo", 3);
								    ar->write_string("x", "[]");
								    ar->write_object_end();
								    ar->write_object_end();
							    }
						    }
						    ar->write_object_begin("EndMarker", "", 0);
						    ar->write_object_end();
						    ar->write_object_end();
						    ar->write_header();
						    if (!has[1]) w->world_vobs.clear();
						    if (!has[2]) w->way_net = nullptr;
						    r.state(mc::hash_bytes(out.data(), out.size()));
						    loads(r, out, wdump(*w, c), c);
					    },
					    [&] { return mc::fmt("%s sections %s fill %d", c.str().c_str(), tos(o).c_str(), fill); });
	}

	void waynets(mc::Run& r) {
		for (int np = 0; np <= 3; ++np)
			for (int free = 0; free < (1 << np); ++free)
				for (int ne = 0; ne <= r.tier(2, 3); ++ne) {
					if (np == 0 && ne) continue;
					tuples(2 * ne, np, [&](std::vector<int> const& e) {
						// a point that is neither free nor on an edge is not part of a network
						for (int i = 0; i < np; ++i)
							if (!(free & (1 << i)) && std::find(e.begin(), e.end(), i) == e.end()) return;
						for (auto& c : configs(true)) {
							if (c.save && c.f != ArchiveFormat::BINSAFE && r.quick()) continue;
							r.run_case(
							    "waynets",
							    [&] {
								    auto w = blank();
								    std::vector<std::shared_ptr<WayPoint>> p;
								    for (int i = 0; i < np; ++i)
									    p.push_back(point(c, i, free & (1 << i)));
								    w->way_net->points = p;
								    for (int i = 0; i < ne; ++i)
									    w->way_net->edges.emplace_back(p[z(e[z(2 * i)])], p[z(e[z(2 * i + 1)])]);
								    round(r, w, c, true);
							    },
							    [&] { return mc::fmt("%s %d points free %x edges %s", c.str().c_str(), np, free, tos(e).c_str()); });
						}
					});
				}
		for (auto& c : configs(true)) {
			r.run_case(
			    "waynets",
			    [&] {
				    auto w = blank();
				    w->way_net = nullptr;
				    round(r, w, c);
			    },
			    [&] { return c.str() + " no network"; });
			r.run_case(
			    "waynets-large",
			    [&] {
				    auto w = blank();
				    for (int i = 0; i < 200; ++i)
					    w->way_net->points.push_back(point(c, i, i % 3 == 0));
				    for (size_t i = 0; i < 200; ++i)
					    w->way_net->edges.emplace_back(w->way_net->points[i], w->way_net->points[(i * 7 + 1) % 200]);
				    round(r, w, c);
			    },
			    [&] { return c.str() + " 200 points"; });
		}
	}

	void bsps(mc::Run& r) {
		for (int n = 0; n <= r.tier(5, 7); ++n)
			bsp_shapes(n, [&](std::vector<BN> const& t) {
				for (auto& c : configs(false)) {
					if (c.f != ArchiveFormat::BINARY && n > 3) continue;
					for (int var = 0; var < (n <= 4 ? 18 : 3); ++var)
						r.run_case(
						    "bsp-trees",
						    [&] {
							    auto w = blank();
							    w->world_bsp_tree = make_bsp(t, var % 3, (var / 3) % 2, (var / 3) % 2, var / 6);
							    w->world_mesh = make_mesh(var % 2, c.g2(), 8);
							    round(r, w, c, n <= 3);
						    },
						    [&] { return mc::fmt("%s bsp with %zu nodes variant %d", c.str().c_str(), t.size(), var); });
				}
			});
		for (auto& c : configs(false))
			for (int k = 0; k < 6; ++k)
				for (size_t polys : {0, 1, 5})
					r.run_case(
					    "world-mesh",
					    [&] {
						    auto w = blank();
						    w->world_mesh = make_mesh(k, c.g2(), polys);
						    w->world_bsp_tree = make_bsp({{-1, -1, -1}}, 0, true, 1, 1);
						    w->world_vobs.push_back(make_vob(c, k));
						    round(r, w, c, true);
					    },
					    [&] { return mc::fmt("%s mesh %d with %zu polygons", c.str().c_str(), k, polys); });
	}

	void states(mc::Run& r) {
		// per NPC slot: which object (0: new, 1: first NPC in the tree, 2: null)
		for (auto& c : configs(true, false))
			for (int nn = 0; nn <= 2; ++nn)
				tuples(nn, 3, [&](std::vector<int> const& npc) {
					for (int ns = 0; ns <= 2; ++ns)
						tuples(ns, 3, [&](std::vector<int> const& sp) {
							for (int ps = 0; ps < 4; ++ps) {
								if (r.quick() && nn == 2 && ns == 2 && ps != 3) continue;
								r.run_case(
								    "game-state",
								    [&] {
									    keepalive().clear();
									    auto w = blank();
									    auto hero = link(make<VNpc>(c, 4));
									    w->world_vobs.push_back(make_vob(c, 0));
									    w->world_vobs[0]->children.push_back(hero);
									    for (int k : npc)
										    w->npcs.push_back(k == 0 ? link(make<VNpc>(c, 9)) : k == 1 ? hero : nullptr);
									    for (int k : sp)
										    w->npc_spawns.push_back({k == 0 ? (w->npcs.empty() ? link(make<VNpc>(c, 7)) : w->npcs[0]) : k == 1 ? hero : nullptr, Vec3 {1.5f, -2, static_cast<float>(k)}, 3.25f});
									    w->npc_spawn_enabled = (nn + ns) & 1;
									    w->npc_spawn_flags = nn ? 0x7ffffff3 - ns : -ns;
									    if (ps & 1) w->player = make<CutscenePlayer>(c, 2);
									    if (ps & 2) w->sky_controller = make<SkyController>(c, 3);
									    round(r, w, c, true);
								    },
								    [&] { return mc::fmt("%s npcs %s spawns %s player/sky %d", c.str().c_str(), tos(npc).c_str(), tos(sp).c_str(), ps); });
							}
						});
				});
		// every stored scalar of the game state
		for (auto& c : configs(true, false))
			for (int e : {0, 1})
				for (int f : {0, 1, 2, 3, 255, 256, -1, INT32_MAX, INT32_MIN})
					r.run_case(
					    "spawn-flags",
					    [&] {
						    auto w = blank();
						    w->npc_spawn_enabled = e;
						    w->npc_spawn_flags = f;
						    round(r, w, c);
					    },
					    [&] { return mc::fmt("%s enabled %d flags %d", c.str().c_str(), e, f); });
	}

	/// the cutscenes of the cutscene player
	void playlists(mc::Run& r) {
		for (auto& c : configs(true, false))
			for (size_t n : {1, 2})
				r.run_case(
				    "playlists",
				    [&] {
					    auto w = blank();
					    w->player = make<CutscenePlayer>(c, 2);
					    std::vector<std::shared_ptr<CutsceneContext>> ctx;
					    for (size_t i = 0; i < n; ++i) {
						    ctx.push_back(make<CutsceneContext>(c, 5));
						    ctx[i]->name = mc::fmt("CTX%zu", i);
						    w->player->playlists.push_back(ctx[i]);
					    }
					    Bytes b = save(w, c);
					    r.state(mc::hash_bytes(b.data(), b.size()));
					    r.trans(2);
					    World got;
					    {
						    auto in = Read::from(&b);
						    got.load(in.get(), c.g);
					    }
					    check(got.player != nullptr && got.player->playlists.size() == n, "playlist-count", mc::fmt("%zu cutscenes instead of %zu", got.player ? got.player->playlists.size() : 0, n));
					    for (size_t i = 0; i < n; ++i) {
						    auto x = got.player->playlists[i].lock();
						    check(x != nullptr, "playlist-expired", "a cutscene of the player is gone after loading the world");
						    same_dump(dump(*ctx[i], c), dump(*x, c), c, "playlist");
					    }
				    },
				    [&] { return mc::fmt("%s %zu cutscenes", c.str().c_str(), n); });
	}

	/// one world object loaded twice from different files
	void reuse(mc::Run& r) {
		for (auto& c : configs(false))
			for (int i = 0; i < 4; ++i)
				for (int j = 0; j < 4; ++j)
					r.run_case(
					    "reuse",
					    [&] {
						    auto mk = [&](int k) {
							    auto w = blank();
							    for (int x = 0; x < k; ++x)
								    w->world_vobs.push_back(make_vob(c, x + k)), w->way_net->points.push_back(point(c, x, true));
							    w->world_mesh = make_mesh(k, c.g2(), z(k));
							    std::vector<BN> t;
							    if (k == 1) t = {{-1, -1, -1}};
							    if (k >= 2) t = {{1, 2, -1}, {-1, -1, 0}, {-1, -1, 0}};
							    w->world_bsp_tree = make_bsp(t, k % 3, k != 3, 1, k % 2);
							    return w;
						    };
						    auto a = mk(i), b = mk(j);
						    // a tree without light points leaves out that section
						    if (j == 3 || j == 0) b->world_bsp_tree.light_points.clear();
						    Bytes ba = save(a, c), bb = save(b, c);
						    World got;
						    auto ra = Read::from(&ba);
						    got.load(ra.get(), c.g);
						    auto want = wdump(*b, c);
						    r.state(mc::hash_bytes(bb.data(), bb.size(), static_cast<uint64_t>(i)));
						    loads(r, bb, want, c, &got);
					    },
					    [&] { return mc::fmt("%s world %d then world %d", c.str().c_str(), i, j); });
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 20;
		VirtualObject::enable_packed_save(true);
		weak_refs() = false;
		vob_trees(r);
		unknown_objects(r);
		sections(r);
		waynets(r);
		bsps(r);
		states(r);
		playlists(r);
		reuse(r);
	}
} // namespace
MC_MAIN(explore)
