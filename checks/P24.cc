// P24: model animations and morph meshes decode sample-exactly.
#include "common.hh"
#include "geomodel.hh"
#include "zenkit/ModelAnimation.hh"
#include "zenkit/MorphMesh.hh"

#include <fstream>
using namespace mcz;
using namespace zenkit;

namespace {
	size_t z(int i) {
		return static_cast<size_t>(i);
	}
	uint32_t bits(float f) {
		uint32_t u;
		memcpy(&u, &f, 4);
		return u;
	}
	float fbits(uint32_t u) {
		float f;
		memcpy(&f, &u, 4);
		return f;
	}
	void chunk(Out& o, uint32_t id, Out const& c) {
		o.u16(id).u32(static_cast<uint32_t>(c.s.size())).str(c.s);
	}
	std::string q(std::string const& s) {
		return "'" + esc(s, 120) + "'";
	}
	struct D {
		uint32_t y, mo, d, h, mi, s;
	};
	void put(Out& o, D const& d) {
		o.u32(d.y).u16(d.mo).u16(d.d).u16(d.h).u16(d.mi).u16(d.s).u16(0xbeef);
	}
	bool same(Date const& a, D const& b) {
		return a.year == b.y && a.month == b.mo && a.day == b.d && a.hour == b.h && a.minute == b.mi && a.second == b.s;
	}

	// ---- reference model -------------------------------------------------------------------------------------------
	struct Smp {
		uint16_t r[3], p[3];
	};
	struct Ev {
		uint32_t type, frame;
		std::string tag, c[4];
		uint32_t v[4];
		uint32_t prob;
	};
	struct Ani {
		std::string name = "S_RUN", next = "S_NEXT", path = "\\_WORK\\A.ASC", script = "\t\tANI (\"S_RUN\" 1)";
		uint32_t layer = 1, frames = 0, nodes = 0;
		uint32_t fps = bits(10), fps_src = bits(25), pmin = bits(-9.01f), scale = bits(0.00149f);
		uint32_t bbox[6] {bits(-1), bits(-2), bits(-3), bits(4), bits(5), bits(6)};
		D date {2002, 8, 28, 12, 50, 52};
		uint32_t checksum = 0xC63488C2;
		std::vector<uint32_t> idx;
		std::vector<Smp> smp;
		std::vector<Ev> ev;
		bool has_ev = false;
	};
	struct Piece {
		uint32_t id;
		Out c;
	};
	std::vector<Piece> pieces(Ani const& a) {
		std::vector<Piece> v;
		v.push_back({0xa000, {}});
		Out h;
		h.u16(12).line(a.name).u32(a.layer).u32(a.frames).u32(a.nodes).u32(a.fps).u32(a.fps_src).u32(a.pmin).u32(a.scale);
		for (auto b : a.bbox) h.u32(b);
		h.line(a.next);
		v.push_back({0xa020, h});
		Out s;
		put(s, a.date);
		s.line(a.path).line(a.script);
		v.push_back({0xa010, s});
		if (a.has_ev) {
			Out e;
			e.u32(static_cast<uint32_t>(a.ev.size()));
			for (auto& x : a.ev) {
				e.u32(x.type).u32(x.frame).line(x.tag);
				for (auto& c : x.c) e.line(c);
				for (auto f : x.v) e.u32(f);
				e.u32(x.prob);
			}
			v.push_back({0xa030, e});
		}
		Out m;
		m.u32(a.checksum);
		for (auto i : a.idx) m.u32(i);
		for (auto& x : a.smp) {
			for (auto c : x.r) m.u16(c);
			for (auto c : x.p) m.u16(c);
		}
		v.push_back({0xa090, m});
		return v;
	}
	std::string encode(Ani const& a) {
		Out o;
		for (auto& p : pieces(a)) chunk(o, p.id, p.c);
		return o.s;
	}
	bool near(double want, float got, double tol) {
		if (std::isnan(want)) return std::isnan(got);
		if (std::isinf(want)) return static_cast<double>(got) == want;
		return std::fabs(want - static_cast<double>(got)) <= tol;
	}
	void check_sample(Smp const& s, AnimationSample const& g, float scale, float min, size_t i) {
		// the documented decoding, in double precision: component = (raw - 32767) * 2.1 / 65535, w completes the unit quaternion
		double v[3], len = 0;
		for (int k = 0; k < 3; ++k) {
			v[k] = (static_cast<double>(s.r[k]) - 32767.0) * 2.1 / 65535.0;
			len += v[k] * v[k];
		}
		float const got[3] = {g.rotation.x, g.rotation.y, g.rotation.z};
		double norm = len > 1.0 ? std::sqrt(len) : 1.0;
		for (int k = 0; k < 3; ++k)
			if (!near(v[k] / norm, got[k], 2e-6)) mc::fail("rotation", mc::fmt("sample %zu: raw rotation (%u %u %u) component %d decodes to %.9g, not %.9g", i, s.r[0], s.r[1], s.r[2], k, static_cast<double>(got[k]), v[k] / norm));
		double w = static_cast<double>(g.rotation.w), ww = len > 1.0 ? 0.0 : 1.0 - len;
		if (!(w >= 0) || std::fabs(w * w - ww) > 3e-6) mc::fail("rotation-w", mc::fmt("sample %zu: raw rotation (%u %u %u) has w %.9g, not %.9g", i, s.r[0], s.r[1], s.r[2], w, std::sqrt(ww)));
		float const gp[3] = {g.position.x, g.position.y, g.position.z};
		for (int k = 0; k < 3; ++k) {
			double want = static_cast<double>(s.p[k]) * static_cast<double>(scale) + static_cast<double>(min);
			double tol = 4e-7 * (std::fabs(static_cast<double>(s.p[k]) * static_cast<double>(scale)) + std::fabs(static_cast<double>(min))) + 1e-37;
			if (!near(want, gp[k], tol)) mc::fail("position", mc::fmt("sample %zu: raw position %u (scale %g minimum %g) component %d decodes to %.9g, not %.9g", i, s.p[k], static_cast<double>(scale), static_cast<double>(min), k, static_cast<double>(gp[k]), want));
		}
	}
	void check_ani(Ani const& a, ModelAnimation const& m) {
		auto eqs = [&](char const* n, std::string const& w, std::string const& g) {
			if (w != g) mc::fail(mc::fmt("field-%s", n), mc::fmt("%s is %s, not %s", n, q(g).c_str(), q(w).c_str()));
		};
		auto equ = [&](char const* n, uint64_t w, uint64_t g) {
			if (w != g) mc::fail(mc::fmt("field-%s", n), mc::fmt("%s is %llx, not %llx", n, static_cast<unsigned long long>(g), static_cast<unsigned long long>(w)));
		};
		eqs("name", a.name, m.name);
		eqs("next", a.next, m.next);
		eqs("source_path", a.path, m.source_path);
		eqs("source_script", a.script, m.source_script);
		check(same(m.source_date, a.date), "field-source_date", "source date differs");
		equ("layer", a.layer, m.layer);
		equ("frame_count", a.frames, m.frame_count);
		equ("node_count", a.nodes, m.node_count);
		equ("fps", a.fps, bits(m.fps));
		equ("fps_source", a.fps_src, bits(m.fps_source));
		equ("sample_position_min", a.pmin, bits(m.sample_position_min));
		equ("sample_position_scale", a.scale, bits(m.sample_position_scale));
		float const bb[6] = {m.bbox.min.x, m.bbox.min.y, m.bbox.min.z, m.bbox.max.x, m.bbox.max.y, m.bbox.max.z};
		for (size_t i = 0; i < 6; ++i) equ("bbox", a.bbox[i], bits(bb[i]));
		equ("checksum", a.checksum, m.checksum);
		equ("node_indices", a.idx.size(), m.node_indices.size());
		for (size_t i = 0; i < a.idx.size(); ++i) equ("node_index", a.idx[i], m.node_indices[i]);
		equ("events", a.ev.size(), m.events.size());
		for (size_t i = 0; i < a.ev.size(); ++i) {
			equ("event-type", a.ev[i].type, static_cast<uint32_t>(m.events[i].type));
			equ("event-frame", a.ev[i].frame, m.events[i].frame);
			eqs("event-tag", a.ev[i].tag, m.events[i].tag);
			for (size_t k = 0; k < 4; ++k) {
				eqs("event-content", a.ev[i].c[k], m.events[i].content[k]);
				equ("event-value", a.ev[i].v[k], bits(m.events[i].values[k]));
			}
			equ("event-probability", a.ev[i].prob, bits(m.events[i].probability));
		}
		equ("samples", a.smp.size(), m.samples.size());
		for (size_t i = 0; i < a.smp.size(); ++i) check_sample(a.smp[i], m.samples[i], fbits(a.scale), fbits(a.pmin), i);
	}
	void load_check(mc::Run& r, Ani const& a, int source = 0) {
		auto bytes = encode(a);
		ModelAnimation m;
		if (source) {
			std::istringstream in {bytes};
			auto rr = Read::from(&in);
			m.load(rr.get());
		} else {
			auto rr = rd(bytes);
			m.load(rr.get());
		}
		r.trans(1 + a.smp.size());
		r.state(mc::hash_str(bytes));
		check_ani(a, m);
		r.outcome(mc::fmt("%zu samples %zu events", a.smp.size(), a.ev.size()));
	}
	uint32_t mix(uint32_t x) {
		x ^= x >> 16;
		x *= 0x7feb352du;
		x ^= x >> 15;
		x *= 0x846ca68bu;
		return x ^ x >> 16;
	}
	Ani shaped(uint32_t nodes, uint32_t frames, uint32_t seed) {
		Ani a;
		a.nodes = nodes, a.frames = frames;
		for (uint32_t i = 0; i < nodes; ++i) a.idx.push_back(mix(seed + i) % 77);
		for (uint32_t i = 0; i < nodes * frames; ++i) {
			Smp s {};
			for (uint32_t k = 0; k < 3; ++k) s.r[k] = static_cast<uint16_t>(mix(seed * 31 + i * 7 + k)), s.p[k] = static_cast<uint16_t>(mix(seed * 17 + i * 5 + k));
			a.smp.push_back(s);
		}
		return a;
	}
	Ev event(uint32_t type, uint32_t seed) {
		Ev e {};
		e.type = type, e.frame = seed + 3;
		e.tag = mc::fmt("TAG%u", seed);
		for (uint32_t k = 0; k < 4; ++k) e.c[k] = mc::fmt("content %u %u", seed, k), e.v[k] = bits(static_cast<float>(seed * 10 + k) + 0.5f);
		e.prob = bits(0.75f);
		return e;
	}

	// ---- morph meshes ------------------------------------------------------------------------------------------------
	struct MAni {
		std::string name = "S_NORMAL";
		uint32_t in = bits(0.01f), out = bits(-0.01f), dur = bits(-1000), layer = 1, speed = bits(0.025f), flags = 2;
		uint32_t frames = 1;
		std::vector<uint32_t> verts;
		std::vector<std::array<uint32_t, 3>> smp;
	};
	struct Mor {
		std::string name = "ITRWSMALLBOW";
		MultiResolutionMesh mesh;
		std::vector<std::array<uint32_t, 3>> pos;
		std::vector<std::pair<D, std::string>> src;
		std::vector<MAni> ani;
	};
	std::string mesh_section(MultiResolutionMesh const& m, bool g2) {
		std::vector<std::byte> buf;
		auto w = Write::to(&buf);
		m.save(w.get(), g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1);
		auto s = to_str(buf);
		auto u = [&](size_t i) { return static_cast<uint32_t>(static_cast<unsigned char>(s[i])); };
		uint32_t len = u(2) | u(3) << 8 | u(4) << 16 | u(5) << 24;
		return s.substr(6, len);
	}
	std::vector<Piece> pieces(Mor const& m, bool g2) {
		std::vector<Piece> v;
		v.push_back({0xe000, {}});
		v.push_back({0xe020, Out().u32(3).line(m.name)});
		v.push_back({0xb100, Out().str(mesh_section(m.mesh, g2))});
		Out p;
		for (auto& x : m.pos)
			for (auto f : x) p.u32(f);
		v.push_back({0xb1ff, p});
		Out s;
		s.u16(static_cast<uint32_t>(m.src.size()));
		for (auto& x : m.src) {
			put(s, x.first);
			s.line(x.second);
		}
		v.push_back({0xe010, s});
		Out a;
		a.u16(static_cast<uint32_t>(m.ani.size()));
		for (auto& x : m.ani) {
			a.line(x.name).u32(x.in).u32(x.out).u32(x.dur).u32(x.layer).u32(x.speed).u8(x.flags).u32(static_cast<uint32_t>(x.verts.size())).u32(x.frames);
			for (auto i : x.verts) a.u32(i);
			for (auto& t : x.smp)
				for (auto f : t) a.u32(f);
		}
		v.push_back({0xe030, a});
		return v;
	}
	std::string encode(Mor const& m, bool g2) {
		Out o;
		for (auto& p : pieces(m, g2)) chunk(o, p.id, p.c);
		return o.s;
	}
	void v3(char const* n, std::array<uint32_t, 3> const& w, Vec3 const& g) {
		if (w[0] != bits(g.x) || w[1] != bits(g.y) || w[2] != bits(g.z)) mc::fail(n, mc::fmt("%s: (%08x %08x %08x) decodes to (%08x %08x %08x)", n, w[0], w[1], w[2], bits(g.x), bits(g.y), bits(g.z)));
	}
	void check_morph(Mor const& m, MorphMesh& g, bool g2) {
		check(m.name == g.name, "morph-name", "name " + q(g.name) + " instead of " + q(m.name));
		auto mm = m.mesh;
		mcg::gsame(mcg::gdump(mm, g2), mcg::gdump(g.mesh, g2), "mesh");
		check(m.pos.size() == g.morph_positions.size(), "morph-positions", mc::fmt("%zu morph positions instead of %zu", g.morph_positions.size(), m.pos.size()));
		for (size_t i = 0; i < m.pos.size(); ++i) v3("morph-position", m.pos[i], g.morph_positions[i]);
		check(m.src.size() == g.sources.size(), "morph-sources", mc::fmt("%zu sources instead of %zu", g.sources.size(), m.src.size()));
		for (size_t i = 0; i < m.src.size(); ++i) {
			check(m.src[i].second == g.sources[i].file_name, "morph-source-name", mc::fmt("source %zu is %s, not %s", i, q(g.sources[i].file_name).c_str(), q(m.src[i].second).c_str()));
			check(same(g.sources[i].file_date, m.src[i].first), "morph-source-date", mc::fmt("the date of source %zu differs", i));
		}
		check(m.ani.size() == g.animations.size(), "morph-animations", mc::fmt("%zu animations instead of %zu", g.animations.size(), m.ani.size()));
		for (size_t i = 0; i < m.ani.size(); ++i) {
			auto& a = m.ani[i];
			auto& b = g.animations[i];
			check(a.name == b.name, "ani-name", "animation " + q(b.name) + " instead of " + q(a.name));
			check(a.in == bits(b.blend_in) && a.out == bits(b.blend_out) && a.dur == bits(b.duration) && a.speed == bits(b.speed), "ani-float", mc::fmt("blending, duration or speed of animation %zu differ", i));
			check(a.layer == static_cast<uint32_t>(b.layer), "ani-layer", mc::fmt("animation %zu layer %d", i, b.layer));
			check(a.flags == b.flags, "ani-flags", mc::fmt("animation %zu flags %d", i, b.flags));
			check(a.frames == b.frame_count, "ani-frames", mc::fmt("animation %zu frames %u", i, b.frame_count));
			check(a.verts == b.vertices, "ani-vertices", mc::fmt("animation %zu vertex indices differ", i));
			check(a.smp.size() == b.samples.size(), "ani-samples", mc::fmt("animation %zu has %zu samples, not %zu", i, b.samples.size(), a.smp.size()));
			for (size_t k = 0; k < a.smp.size(); ++k) v3("ani-sample", a.smp[k], b.samples[k]);
		}
	}
	MultiResolutionMesh small_mesh(int pos, int subs, bool g2, uint32_t seed) {
		MultiResolutionMesh m;
		m.positions.resize(z(pos));
		m.normals.resize(z(pos > 1 ? 1 : 0));
		for (int s = 0; s < subs; ++s) {
			auto& sm = m.sub_meshes.emplace_back();
			sm.triangles.resize(z(s + 1));
			sm.wedges.resize(z(s + 2));
			sm.wedge_map.resize(z(s));
		}
		mcg::gfill(m, g2, seed);
		return m;
	}
	MAni mani(int verts, int frames, uint32_t seed) {
		MAni a;
		a.name = mc::fmt("ANI_%u", seed);
		a.frames = static_cast<uint32_t>(frames);
		for (int i = 0; i < verts; ++i) a.verts.push_back(mix(seed + static_cast<uint32_t>(i)));
		for (int i = 0; i < verts * frames; ++i) {
			auto k = static_cast<uint32_t>(i) * 3 + seed;
			a.smp.push_back({bits(static_cast<float>(mix(k)) * 1e-3f), bits(static_cast<float>(mix(k + 1)) * -1e-3f), bits(static_cast<float>(k))});
		}
		return a;
	}
	Mor morph(int pos, int subs, int nsrc, std::vector<std::pair<int, int>> const& anis, bool g2, uint32_t seed) {
		Mor m;
		m.mesh = small_mesh(pos, subs, g2, seed);
		for (int i = 0; i < pos; ++i) m.pos.push_back({bits(static_cast<float>(i) + 0.5f), bits(-1.f - static_cast<float>(seed)), mix(seed + static_cast<uint32_t>(i)) & 0x3fffffffu});
		for (int i = 0; i < nsrc; ++i) m.src.push_back({{2000u + static_cast<uint32_t>(i), 5, 8, 9, 13, 58}, mc::fmt("SRC%d.ASC", i)});
		uint32_t k = seed;
		for (auto& [v, f] : anis) m.ani.push_back(mani(v, f, ++k));
		return m;
	}
	void load_check(mc::Run& r, Mor const& m, bool g2, int source = 0) {
		auto bytes = encode(m, g2);
		MorphMesh g;
		if (source) {
			std::istringstream in {bytes};
			auto rr = Read::from(&in);
			g.load(rr.get());
		} else {
			auto rr = rd(bytes);
			g.load(rr.get());
		}
		r.trans();
		r.state(mc::hash_str(bytes));
		check_morph(m, g, g2);
		r.outcome(mc::fmt("morph %zu %zu %zu", m.pos.size(), m.src.size(), m.ani.size()));
	}

	// ---- independent decoding of the sample files --------------------------------------------------------------------
	struct Cur {
		std::string const& s;
		size_t o = 0;
		uint32_t u(int n) {
			uint32_t v = 0;
			for (int i = 0; i < n; ++i) v |= static_cast<uint32_t>(static_cast<unsigned char>(s.at(o++))) << (8 * i);
			return v;
		}
		std::string line() {
			auto e = s.find('\n', o);
			auto t = s.substr(o, e - o);
			o = e + 1;
			return t;
		}
	};
	Ani decode(std::string const& f) {
		Ani a;
		Cur c {f};
		auto date = [&] {
			D d {c.u(4), c.u(2), c.u(2), c.u(2), c.u(2), c.u(2)};
			c.u(2);
			return d;
		};
		while (c.o + 6 <= f.size()) {
			auto id = c.u(2), len = c.u(4);
			auto end = c.o + len;
			if (id == 0xa020) {
				c.u(2);
				a.name = c.line();
				a.layer = c.u(4), a.frames = c.u(4), a.nodes = c.u(4), a.fps = c.u(4), a.fps_src = c.u(4), a.pmin = c.u(4), a.scale = c.u(4);
				for (auto& b : a.bbox) b = c.u(4);
				a.next = c.line();
			}
			if (id == 0xa010) a.date = date(), a.path = c.line(), a.script = c.line();
			if (id == 0xa090) {
				a.checksum = c.u(4);
				for (uint32_t i = 0; i < a.nodes; ++i) a.idx.push_back(c.u(4));
				for (uint32_t i = 0; i < a.nodes * a.frames; ++i) {
					Smp s {};
					for (auto& x : s.r) x = static_cast<uint16_t>(c.u(2));
					for (auto& x : s.p) x = static_cast<uint16_t>(c.u(2));
					a.smp.push_back(s);
				}
			}
			c.o = end;
		}
		return a;
	}

	void explore(mc::Run& r) {
		quiet_log();

		// 1. every 16-bit value of every rotation and position component, in several surroundings
		std::vector<std::array<uint16_t, 2>> around {{32767, 32767}, {0, 65535}, {32767, 60000}, {20000, 45000}, {32768, 1000}, {10, 13}};
		std::vector<std::pair<float, float>> ranges {{0.00149f, -9.01f}, {1, 0}, {0.015625f, -512}, {0, 5}, {-0.5f, 100}, {1e-6f, 1e6f}};
		int const block = 512;
		for (int comp = 0; comp < 3; ++comp)
			for (size_t s = 0; s < around.size(); ++s)
				for (int v0 = 0; v0 < 65536; v0 += block)
					r.run_case(
					    "quantised",
					    [&] {
						    Ani a;
						    a.nodes = 1, a.frames = static_cast<uint32_t>(block), a.idx = {5};
						    a.scale = bits(ranges[s].first), a.pmin = bits(ranges[s].second);
						    for (int v = v0; v < v0 + block; ++v) {
							    Smp x {};
							    for (int k = 0, j = 0; k < 3; ++k) {
								    x.r[k] = k == comp ? static_cast<uint16_t>(v) : around[s][z(j)];
								    x.p[k] = k == comp ? static_cast<uint16_t>(v) : around[s][z(j)];
								    if (k != comp) ++j;
							    }
							    a.smp.push_back(x);
						    }
						    load_check(r, a);
					    },
					    [&] { return mc::fmt("component %d values %d..%d surrounding %zu", comp, v0, v0 + block - 1, s); });
		// the surface of the unit sphere, where the missing component changes from real to clamped
		int const step = r.tier(1024, 256);
		for (int x = 0; x < 65536; x += step)
			r.run_case(
			    "sphere",
			    [&] {
				    Ani a;
				    a.nodes = 1, a.idx = {0};
				    for (int y = 0; y < 65536; y += step) {
					    double vx = (x - 32767) * 2.1 / 65535, vy = (y - 32767) * 2.1 / 65535, rest = 1 - vx * vx - vy * vy;
					    int mid = rest > 0 ? static_cast<int>(std::sqrt(rest) * 65535 / 2.1) : 0;
					    for (int d = -2; d <= 2; ++d)
						    for (int sg : {-1, 1}) {
							    int zc = 32767 + sg * mid + d;
							    if (zc < 0 || zc > 65535) continue;
							    Smp s {};
							    s.r[0] = static_cast<uint16_t>(x), s.r[1] = static_cast<uint16_t>(y), s.r[2] = static_cast<uint16_t>(zc);
							    a.smp.push_back(s);
						    }
				    }
				    a.frames = static_cast<uint32_t>(a.smp.size());
				    load_check(r, a);
			    },
			    [&] { return mc::fmt("unit sphere at x=%d", x); });

		// 2. shapes
		for (uint32_t n = 0; n <= static_cast<uint32_t>(r.tier(6, 12)); ++n)
			for (uint32_t f = 0; f <= static_cast<uint32_t>(r.tier(6, 12)); ++f)
				for (int src = 0; src < 2; ++src)
					for (uint32_t seed = 0; seed < static_cast<uint32_t>(r.tier(3, 12)); ++seed)
						r.run_case("shape", [&] { load_check(r, shaped(n, f, seed), src); }, [&] { return mc::fmt("%u nodes %u frames seed %u source %d", n, f, seed, src); });
		for (uint32_t n : {1u, 255u, 256u, 257u, 65535u, 65536u, 70000u})
			for (int sw = 0; sw < 2; ++sw)
				r.run_case("large", [&] { load_check(r, sw ? shaped(1, n, 5) : shaped(n, 1, 6)); }, [&] { return mc::fmt("%u %s", n, sw ? "frames" : "nodes"); });

		// 3. header and source fields
		std::vector<uint32_t> const U {0, 1, 9, 10, 13, 32, 255, 256, 0x0a0a0a0a, 0x0d0a0d0a, 0x20202020, 0x7fffffff, 0x80000000, 0xffffffff};
		std::vector<uint32_t> const FL {0, 0x80000000, bits(1), bits(-1), bits(0.1f), 0x0a0a0a0a, 0x20200d0a, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x7f7fffff};
		std::vector<std::string> const ST {"", "A", " ", " lead", "trail ", "\tTAB", "S_RUN", std::string(300, 'x'), "\xe4\xf6", "a\"b"};
		auto ani_case = [&](std::string const& what, std::function<void(Ani&)> const& f) {
			r.run_case(
			    "fields",
			    [&] {
				    for (int ev = 0; ev < 2; ++ev) {
					    auto a = shaped(2, 2, 9);
					    if (ev) a.has_ev = true, a.ev = {event(1, 1), event(6, 2)};
					    f(a);
					    load_check(r, a);
				    }
			    },
			    [&] { return what; });
		};
		for (size_t i = 0; i < U.size(); ++i) {
			auto v = U[i];
			ani_case(mc::fmt("layer %x", v), [&](Ani& a) { a.layer = v; });
			ani_case(mc::fmt("checksum %x", v), [&](Ani& a) { a.checksum = v; });
			for (size_t k = 0; k < 2; ++k) ani_case(mc::fmt("node index %zu %x", k, v), [&](Ani& a) { a.idx[k] = v; });
			ani_case(mc::fmt("year %x", v), [&](Ani& a) { a.date.y = v; });
			ani_case(mc::fmt("date %x", v), [&](Ani& a) { a.date = {v, v & 0xffff, v >> 8 & 0xffff, v & 0xffff, v & 0xffff, v & 0xffff}; });
			for (int e = 0; e < 2; ++e) {
				ani_case(mc::fmt("event %d frame %x", e, v), [&](Ani& a) { if (a.has_ev) a.ev[z(e)].frame = v; });
			}
		}
		for (auto v : FL) {
			ani_case(mc::fmt("fps %x", v), [&](Ani& a) { a.fps = v; });
			ani_case(mc::fmt("fps source %x", v), [&](Ani& a) { a.fps_src = v; });
			if (std::isfinite(fbits(v)) && std::fabs(fbits(v)) < 1e30f) {
				ani_case(mc::fmt("minimum %x", v), [&](Ani& a) { a.pmin = v; });
				ani_case(mc::fmt("scale %x", v), [&](Ani& a) { a.scale = v; });
			}
			for (size_t k = 0; k < 6; ++k) ani_case(mc::fmt("bbox %zu %x", k, v), [&](Ani& a) { a.bbox[k] = v; });
			for (size_t e = 0; e < 2; ++e) {
				for (size_t k = 0; k < 4; ++k) ani_case(mc::fmt("event %zu value %zu %x", e, k, v), [&](Ani& a) { if (a.has_ev) a.ev[e].v[k] = v; });
				ani_case(mc::fmt("event %zu probability %x", e, v), [&](Ani& a) { if (a.has_ev) a.ev[e].prob = v; });
			}
		}
		for (auto& s : ST) {
			ani_case("name " + q(s), [&](Ani& a) { a.name = s; });
			ani_case("next " + q(s), [&](Ani& a) { a.next = s; });
			ani_case("path " + q(s), [&](Ani& a) { a.path = s; });
			ani_case("script " + q(s), [&](Ani& a) { a.script = s; });
			for (size_t e = 0; e < 2; ++e) {
				ani_case(mc::fmt("event %zu tag ", e) + q(s), [&](Ani& a) { if (a.has_ev) a.ev[e].tag = s; });
				for (size_t k = 0; k < 4; ++k) ani_case(mc::fmt("event %zu content %zu ", e, k) + q(s), [&](Ani& a) { if (a.has_ev) a.ev[e].c[k] = s; });
			}
		}
		// which of the strings of an event are empty
		for (int mask = 0; mask < 32; ++mask)
			for (int ev = 0; ev < 3; ++ev)
				r.run_case(
				    "event-strings",
				    [&] {
					    Ani a = shaped(1, 1, 3);
					    a.has_ev = true;
					    for (uint32_t i = 0; i < 3; ++i) a.ev.push_back(event(i, i));
					    auto& e = a.ev[z(ev)];
					    if (mask & 1) e.tag = "";
					    for (size_t k = 0; k < 4; ++k)
						    if (mask >> (k + 1) & 1) e.c[k] = "";
					    load_check(r, a);
				    },
				    [&] { return mc::fmt("event %d empty strings %x", ev, mask); });
		for (int len = 0; len <= 3; ++len)
			tuples(len, 13, [&](std::vector<int> const& v) {
				r.run_case(
				    "events",
				    [&] {
					    Ani a = shaped(1, 2, 4);
					    a.has_ev = true;
					    for (size_t i = 0; i < v.size(); ++i) a.ev.push_back(event(static_cast<uint32_t>(v[i]), static_cast<uint32_t>(i)));
					    load_check(r, a);
				    },
				    [&] {
					    std::string d = "events";
					    for (int k : v) d += mc::fmt(" %d", k);
					    return d;
				    });
			});

		// 4. chunk order (the header before the samples), unknown chunks, reuse
		{
			Ani a = shaped(2, 3, 8);
			a.has_ev = true, a.ev = {event(2, 2)};
			auto ps = pieces(a);
			std::vector<size_t> ord(ps.size());
			for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
			do {
				size_t h = 0, s = 0;
				for (size_t i = 0; i < ord.size(); ++i) {
					if (ps[ord[i]].id == 0xa020) h = i;
					if (ps[ord[i]].id == 0xa090) s = i;
				}
				if (h > s) continue;
				r.run_case(
				    "chunk-order",
				    [&] {
					    for (int unk = -1; unk < static_cast<int>(ord.size()); ++unk) {
						    Out o;
						    for (size_t i = 0; i < ord.size(); ++i) {
							    if (static_cast<int>(i) == unk) chunk(o, 0xa0f0, Out().str("unknown\n"));
							    chunk(o, ps[ord[i]].id, ps[ord[i]].c);
						    }
						    auto rr = rd(o.s);
						    ModelAnimation m;
						    m.load(rr.get());
						    r.trans();
						    check_ani(a, m);
					    }
				    },
				    [&] {
					    std::string d = "order";
					    for (auto i : ord) d += mc::fmt(" %04x", ps[i].id);
					    return d;
				    });
			} while (std::next_permutation(ord.begin(), ord.end()));
			std::vector<Ani> pool {shaped(0, 0, 1), shaped(2, 2, 2), a, shaped(3, 1, 3)};
			tuples(3, static_cast<int>(pool.size()), [&](std::vector<int> const& v) {
				r.run_case(
				    "reuse",
				    [&] {
					    ModelAnimation m;
					    for (int k : v) {
						    auto rr = rd(encode(pool[z(k)]));
						    m.load(rr.get());
						    r.trans();
						    check_ani(pool[z(k)], m);
					    }
				    },
				    [&] { return mc::fmt("loads %d %d %d into one object", v[0], v[1], v[2]); });
			});
		}

		// 5. morph meshes: shapes
		for (int g2 = 0; g2 < 2; ++g2)
			for (int pos = 0; pos <= 3; ++pos)
				for (int subs = 0; subs <= 2; ++subs)
					for (int src = 0; src <= 3; ++src)
						for (int na = 0; na <= r.tier(2, 3); ++na)
							tuples(na, 3, [&](std::vector<int> const& vs) {
								tuples(na, 3, [&](std::vector<int> const& fs) {
									r.run_case(
									    "morph-shape",
									    [&] {
										    std::vector<std::pair<int, int>> an;
										    for (size_t i = 0; i < vs.size(); ++i) an.emplace_back(vs[i], fs[i]);
										    load_check(r, morph(pos, subs, src, an, g2, 3), g2, (pos + subs) % 2);
									    },
									    [&] {
										    std::string d = mc::fmt("g%d %d positions %d sub-meshes %d sources", g2 + 1, pos, subs, src);
										    for (size_t i = 0; i < vs.size(); ++i) d += mc::fmt(" ani %dx%d", vs[i], fs[i]);
										    return d;
									    });
								});
							});
		for (int n : {255, 256, 65535, 65536, 70000})
			for (int w = 0; w < 4; ++w)
				r.run_case(
				    "morph-large",
				    [&] {
					    if (w == 0) load_check(r, morph(2, 1, 1, {{n, 1}}, true, 3), true);
					    if (w == 1) load_check(r, morph(2, 1, 1, {{1, n}}, true, 3), true);
					    if (w == 2 && n <= 65535) load_check(r, morph(n, 1, 1, {{1, 1}}, true, 3), true);
					    if (w == 3 && n <= 65535) load_check(r, morph(1, 0, n, {}, true, 3), true);
				    },
				    [&] { return mc::fmt("large %d kind %d", n, w); });
		auto mor_case = [&](std::string const& what, std::function<void(Mor&)> const& f) {
			r.run_case(
			    "morph-fields",
			    [&] {
				    auto m = morph(2, 1, 3, {{2, 2}, {1, 1}}, true, 5);
				    f(m);
				    load_check(r, m, true);
			    },
			    [&] { return what; });
		};
		for (auto v : U) {
			for (size_t i = 0; i < 2; ++i) {
				mor_case(mc::fmt("ani %zu layer %x", i, v), [&](Mor& m) { m.ani[i].layer = v; });
				mor_case(mc::fmt("ani %zu flags %x", i, v), [&](Mor& m) { m.ani[i].flags = v & 0xff; });
				mor_case(mc::fmt("ani %zu vertex %x", i, v), [&](Mor& m) { m.ani[i].verts[0] = v; });
			}
			for (size_t i = 0; i < 3; ++i) {
				mor_case(mc::fmt("source %zu year %x", i, v), [&](Mor& m) { m.src[i].first.y = v; });
				mor_case(mc::fmt("source %zu date %x", i, v), [&](Mor& m) { m.src[i].first = {v, v & 0xffff, v >> 8 & 0xffff, v & 0xffff, v & 0xffff, v & 0xffff}; });
			}
		}
		for (auto v : FL)
			for (size_t i = 0; i < 2; ++i) {
				mor_case(mc::fmt("ani %zu in %x", i, v), [&](Mor& m) { m.ani[i].in = v; });
				mor_case(mc::fmt("ani %zu out %x", i, v), [&](Mor& m) { m.ani[i].out = v; });
				mor_case(mc::fmt("ani %zu duration %x", i, v), [&](Mor& m) { m.ani[i].dur = v; });
				mor_case(mc::fmt("ani %zu speed %x", i, v), [&](Mor& m) { m.ani[i].speed = v; });
				for (size_t k = 0; k < 3; ++k) {
					mor_case(mc::fmt("ani %zu sample %x", i, v), [&](Mor& m) { m.ani[i].smp[0][k] = v; });
					mor_case(mc::fmt("position %zu %x", i, v), [&](Mor& m) { m.pos[i][k] = v; });
				}
			}
		for (auto& s : ST) {
			mor_case("name " + q(s), [&](Mor& m) { m.name = s; });
			for (size_t i = 0; i < 3; ++i) mor_case(mc::fmt("source %zu ", i) + q(s), [&](Mor& m) { m.src[i].second = s; });
			for (size_t i = 0; i < 2; ++i) mor_case(mc::fmt("ani %zu ", i) + q(s), [&](Mor& m) { m.ani[i].name = s; });
		}
		{
			auto m = morph(3, 1, 2, {{2, 2}, {1, 1}}, true, 6);
			auto ps = pieces(m, true);
			std::vector<size_t> ord(ps.size());
			for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
			do {
				size_t h = 0, s = 0;
				for (size_t i = 0; i < ord.size(); ++i) {
					if (ps[ord[i]].id == 0xb100) h = i;
					if (ps[ord[i]].id == 0xb1ff) s = i;
				}
				if (h > s) continue;
				r.run_case(
				    "morph-chunk-order",
				    [&] {
					    for (int unk = -1; unk < static_cast<int>(ord.size()); unk += 2) {
						    Out o;
						    for (size_t i = 0; i < ord.size(); ++i) {
							    if (static_cast<int>(i) == unk) chunk(o, 0xe0f0, Out().str("unknown\n"));
							    chunk(o, ps[ord[i]].id, ps[ord[i]].c);
						    }
						    auto rr = rd(o.s);
						    MorphMesh g;
						    g.load(rr.get());
						    r.trans();
						    check_morph(m, g, true);
					    }
				    },
				    [&] {
					    std::string d = "order";
					    for (auto i : ord) d += mc::fmt(" %04x", ps[i].id);
					    return d;
				    });
			} while (std::next_permutation(ord.begin(), ord.end()));
			std::vector<Mor> pool {morph(0, 0, 0, {}, true, 1), morph(2, 1, 1, {{1, 2}}, true, 2), m, morph(1, 2, 3, {{0, 0}, {3, 1}}, true, 3)};
			tuples(3, static_cast<int>(pool.size()), [&](std::vector<int> const& v) {
				r.run_case(
				    "morph-reuse",
				    [&] {
					    MorphMesh g;
					    for (int k : v) {
						    auto rr = rd(encode(pool[z(k)], true));
						    g.load(rr.get());
						    r.trans();
						    check_morph(pool[z(k)], g, true);
					    }
				    },
				    [&] { return mc::fmt("loads %d %d %d into one object", v[0], v[1], v[2]); });
			});
		}

		// 6. the sample animations, decoded independently
		std::string const S = std::string(std::getenv("MC_REPO") ? std::getenv("MC_REPO") : "/repo") + "/tests/samples/";
		for (auto f : {"G1/HUMANS-S_FISTRUN.MAN", "G2/HUMANS-S_FISTRUN.MAN"}) {
			std::ifstream in(S + f, std::ios::binary);
			std::string bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
			if (bytes.empty()) continue;
			r.run_case(
			    "samples",
			    [&] {
				    auto a = decode(bytes);
				    auto rr = rd(bytes);
				    ModelAnimation m;
				    m.load(rr.get());
				    r.trans();
				    check_ani(a, m);
				    check(encode(a).size() == bytes.size(), "sample-encoding", "the reference encoder does not reproduce the sample's size");
			    },
			    [&] { return std::string(f); });
		}
	}
} // namespace
MC_MAIN(explore)
