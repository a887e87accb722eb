// P14: textures decode, convert, save and export exactly.
#include "common.hh"
#include "zenkit/Texture.hh"
#include "zenkit/addon/texcvt.hh"
using namespace mcz;
using namespace zenkit;

namespace {
	using F = TextureFormat;
	char const* NAME[] = {"B8G8R8A8", "R8G8B8A8", "A8B8G8R8", "A8R8G8B8", "B8G8R8", "R8G8B8", "A4R4G4B4", "A1R5G5B5", "R5G6B5", "P8", "DXT1", "DXT2", "DXT3", "DXT4", "DXT5"};
	using U8 = std::vector<uint8_t>;
	size_t z(int i) {
		return static_cast<size_t>(i);
	}

	/// bytes per pixel, 0: block compressed
	int bpp(F f) {
		switch (f) {
		case F::B8G8R8A8: case F::R8G8B8A8: case F::A8B8G8R8: case F::A8R8G8B8: return 4;
		case F::B8G8R8: case F::R8G8B8: return 3;
		case F::A4R4G4B4: case F::A1R5G5B5: case F::R5G6B5: return 2;
		case F::P8: return 1;
		default: return 0;
		}
	}
	bool decodable(F f) {
		return f != F::A1R5G5B5 && f != F::DXT2 && f != F::DXT4;
	}
	bool encodable(F f) {
		return f != F::A1R5G5B5 && f != F::DXT2 && f != F::DXT4 && f != F::A4R4G4B4 && f != F::P8;
	}
	uint32_t dim(uint32_t v, uint32_t level) {
		uint32_t d = v ? v : 1;
		while (level--)
			d = d > 1 ? d / 2 : 1;
		return d;
	}
	size_t level_size(F f, uint32_t w, uint32_t h, uint32_t level) {
		size_t x = dim(w, level), y = dim(h, level);
		if (bpp(f)) return x * y * z(bpp(f));
		return ((x + 3) / 4) * ((y + 3) / 4) * (f == F::DXT1 ? 8 : 16);
	}

	struct Px {
		int r, g, b, a;
	};
	// ---- reference decoder --------------------------------------------------------------------------------------
	Px px32(U8 const& d, size_t i, F f) {
		auto at = [&](size_t k) { return static_cast<int>(d[i + k]); };
		switch (f) {
		case F::B8G8R8A8: return {at(2), at(1), at(0), at(3)};
		case F::R8G8B8A8: return {at(0), at(1), at(2), at(3)};
		case F::A8B8G8R8: return {at(3), at(2), at(1), at(0)};
		case F::A8R8G8B8: return {at(1), at(2), at(3), at(0)};
		case F::B8G8R8: return {at(2), at(1), at(0), 255};
		case F::R8G8B8: return {at(0), at(1), at(2), 255};
		case F::A4R4G4B4: {
			int v = at(0) | at(1) << 8;
			return {((v >> 8) & 15) * 17, ((v >> 4) & 15) * 17, (v & 15) * 17, (v >> 12) * 17};
		}
		default: return {};
		}
	}
	void dxt_colors(uint8_t const* p, bool one, Px out[4]) {
		int c[2] = {p[0] | p[1] << 8, p[2] | p[3] << 8};
		for (int i = 0; i < 2; ++i) {
			int r = c[i] >> 11, g = (c[i] >> 5) & 63, b = c[i] & 31;
			out[i] = {r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2, 255};
		}
		auto mix = [&](int x, int y, int n) { return Px {(x * out[0].r + y * out[1].r) / n, (x * out[0].g + y * out[1].g) / n, (x * out[0].b + y * out[1].b) / n, 255}; };
		if (one && c[0] <= c[1]) {
			out[2] = mix(1, 1, 2);
			out[3] = {0, 0, 0, 0};
		} else {
			out[2] = mix(2, 1, 3);
			out[3] = mix(1, 2, 3);
		}
	}
	Px dxt(uint8_t const* blk, F f, uint32_t x, uint32_t y) {
		uint8_t const* col = f == F::DXT1 ? blk : blk + 8;
		Px c[4];
		dxt_colors(col, f == F::DXT1, c);
		Px p = c[(col[4 + y] >> (2 * x)) & 3];
		uint32_t k = y * 4 + x;
		if (f == F::DXT3) p.a = ((blk[k / 2] >> (k % 2 * 4)) & 15) * 17;
		if (f == F::DXT5) {
			int a0 = blk[0], a1 = blk[1];
			uint64_t bits = 0;
			for (int i = 0; i < 6; ++i)
				bits |= static_cast<uint64_t>(blk[2 + i]) << (8 * i);
			int code = (bits >> (3 * k)) & 7;
			if (code == 0)
				p.a = a0;
			else if (code == 1)
				p.a = a1;
			else if (a0 > a1)
				p.a = ((8 - code) * a0 + (code - 1) * a1) / 7;
			else if (code < 6)
				p.a = ((6 - code) * a0 + (code - 1) * a1) / 5;
			else
				p.a = code == 6 ? 0 : 255;
		}
		return p;
	}
	bool near(int a, int b, int tol) {
		return a - b <= tol && b - a <= tol;
	}
	/// checks a decoded level against the stored bytes
	void check_level(U8 const& data, U8 const& rgba, F f, uint32_t w, uint32_t h, ColorARGB const* pal, char const* ctx) {
		check(rgba.size() == size_t {w} * h * 4, "rgba-size", mc::fmt("%s %s %ux%u: %zu RGBA bytes", ctx, NAME[z(static_cast<int>(f))], w, h, rgba.size()));
		for (uint32_t y = 0; y < h; ++y)
			for (uint32_t x = 0; x < w; ++x) {
				size_t i = size_t {y} * w + x;
				Px want {}, got {rgba[i * 4], rgba[i * 4 + 1], rgba[i * 4 + 2], rgba[i * 4 + 3]};
				int tol = 0;
				bool ok;
				if (f == F::P8) {
					auto& e = pal[data[i]];
					want = {e.r, e.g, e.b, e.a};
				} else if (f == F::R5G6B5) {
					int v = data[i * 2] | data[i * 2 + 1] << 8;
					int q[3] = {v >> 11, (v >> 5) & 63, v & 31}, m[3] = {31, 63, 31}, g[3] = {got.r, got.g, got.b};
					want = {q[0] * 255 / 31, q[1] * 255 / 63, q[2] * 255 / 31, 255};
					ok = got.a == 255;
					for (int k = 0; k < 3; ++k) {
						// any rounding of v * 255 / max
						ok = ok && std::abs(g[k] * m[k] - q[k] * 255) < m[k];
						if (q[k] == 0 || q[k] == m[k]) ok = ok && g[k] == (q[k] ? 255 : 0);
					}
					if (!ok) mc::fail("decode-R5G6B5", mc::fmt("%s: stored %04x decodes to (%d %d %d %d), not (%d %d %d %d)", ctx, v, got.r, got.g, got.b, got.a, want.r, want.g, want.b, want.a));
					continue;
				} else if (bpp(f))
					want = px32(data, i * z(bpp(f)), f);
				else {
					size_t blk = (size_t {y} / 4) * ((size_t {w} + 3) / 4) + x / 4;
					want = dxt(data.data() + blk * (f == F::DXT1 ? 8 : 16), f, x % 4, y % 4);
					tol = 1;
				}
				ok = near(want.r, got.r, tol) && near(want.g, got.g, tol) && near(want.b, got.b, tol) && near(want.a, got.a, tol);
				if (!ok)
					mc::fail(mc::fmt("decode-%s", NAME[z(static_cast<int>(f))]), mc::fmt("%s: %ux%u pixel (%u,%u) decodes to (%d %d %d %d), not (%d %d %d %d)", ctx, w, h, x, y, got.r, got.g, got.b, got.a, want.r, want.g, want.b, want.a));
			}
	}

	// ---- independent ZTEX writer --------------------------------------------------------------------------------
	struct Tex {
		F f = F::R8G8B8A8;
		uint32_t w = 1, h = 1, rw = 1, rh = 1, avg = 0;
		std::vector<U8> levels; // largest first
		std::vector<uint8_t> pal;
		uint32_t stored_mips = 0; // as written in the header
		std::string bytes() const {
			Out o;
			o.str("ZTEX").u32(0).u32(static_cast<uint32_t>(f)).u32(w).u32(h).u32(stored_mips).u32(rw).u32(rh).u32(avg);
			for (auto b : pal)
				o.u8(b);
			for (size_t l = levels.size(); l-- > 0;)
				for (auto b : levels[l])
					o.u8(b);
			return o.s;
		}
	};
	uint8_t noise(size_t i, uint32_t seed) {
		uint32_t x = static_cast<uint32_t>(i) * 2654435761u + seed * 40503u + 77;
		x ^= x >> 13;
		x *= 2246822519u;
		return static_cast<uint8_t>(x >> 17);
	}
	Tex make(F f, uint32_t w, uint32_t h, uint32_t mips, uint32_t seed) {
		Tex t;
		t.f = f, t.w = w, t.h = h, t.rw = w + seed, t.rh = h * 2 + seed, t.avg = 0x01020304u * (seed + 1), t.stored_mips = mips;
		for (uint32_t l = 0; l < mips; ++l) {
			U8 d(level_size(f, w, h, l));
			for (size_t i = 0; i < d.size(); ++i)
				d[i] = noise(i, seed * 100 + l);
			t.levels.push_back(d);
		}
		if (f == F::P8)
			for (size_t i = 0; i < 1024; ++i)
				t.pal.push_back(noise(i, seed + 9));
		return t;
	}
	Texture load(std::string const& s) {
		Texture t;
		auto in = rd(s + "TAIL");
		t.load(in.get());
		check(in->tell() == s.size(), "load-extent", mc::fmt("loading consumed %zu of %zu bytes", in->tell(), s.size()));
		return t;
	}
	void same_tex(Tex const& m, Texture const& t, char const* ctx) {
		uint32_t mips = static_cast<uint32_t>(m.levels.size());
		check(t.format() == m.f && t.width() == m.w && t.height() == m.h && t.mipmaps() == mips && t.ref_width() == m.rw && t.ref_height() == m.rh && t.average_color() == m.avg, "attributes",
		      mc::fmt("%s: %d %ux%u mips %u ref %ux%u avg %08x instead of %d %ux%u mips %u ref %ux%u avg %08x", ctx, static_cast<int>(t.format()), t.width(), t.height(), t.mipmaps(), t.ref_width(), t.ref_height(), t.average_color(), static_cast<int>(m.f), m.w, m.h, mips, m.rw, m.rh, m.avg));
		for (uint32_t l = 0; l < mips; ++l) {
			check(t.mipmap_width(l) == dim(m.w, l) && t.mipmap_height(l) == dim(m.h, l), "mip-dim", mc::fmt("%s: level %u of %ux%u is %ux%u", ctx, l, m.w, m.h, t.mipmap_width(l), t.mipmap_height(l)));
			check(t.data(l) == m.levels[l], "mip-data", mc::fmt("%s: level %u of %s %ux%u holds other data", ctx, l, NAME[z(static_cast<int>(m.f))], m.w, m.h));
		}
		if (m.f == F::P8)
			for (size_t i = 0; i < 256; ++i) {
				auto& p = t.palette()[i];
				check(p.b == m.pal[i * 4] && p.g == m.pal[i * 4 + 1] && p.r == m.pal[i * 4 + 2] && p.a == m.pal[i * 4 + 3], "palette", mc::fmt("%s: palette entry %zu differs", ctx, i));
			}
	}
	void decode_all(mc::Run& r, Texture const& t, char const* ctx) {
		for (uint32_t l = 0; l < t.mipmaps(); ++l) {
			if (!decodable(t.format())) {
				try {
					(void) t.as_rgba8(l);
				} catch (zenkit::Error const&) {
					continue;
				}
				mc::fail("decode-unsupported", mc::fmt("%s: decoding %s neither works nor fails", ctx, NAME[z(static_cast<int>(t.format()))]));
			}
			check_level(t.data(l), t.as_rgba8(l), t.format(), dim(t.width(), l), dim(t.height(), l), t.palette(), ctx);
			r.trans(1);
		}
		bool threw = false;
		try {
			(void) t.as_rgba8(t.mipmaps());
		} catch (std::exception const&) {
			threw = true;
		}
		check(threw, "missing-level", "decoding a level behind the last one is not an error");
	}

	uint32_t rd32(std::vector<std::byte> const& b, size_t off) {
		uint32_t v = 0;
		for (size_t i = 0; i < 4; ++i)
			v |= static_cast<uint32_t>(b[off + i]) << (8 * i);
		return v;
	}
	void check_dds(Texture const& t) {
		auto b = to_dds(t);
		auto n = NAME[z(static_cast<int>(t.format()))];
		size_t head = 4 + 124, pal = t.format() == F::P8 ? 1024 : 0, total = head + pal;
		for (uint32_t l = 0; l < t.mipmaps(); ++l)
			total += t.data(l).size();
		check(b.size() == total, "dds-size", mc::fmt("DDS of %s has %zu bytes, not %zu", n, b.size(), total));
		check(memcmp(b.data(), "DDS ", 4) == 0 && rd32(b, 4) == 124, "dds-magic", "DDS signature");
		check(rd32(b, 12) == t.height() && rd32(b, 16) == t.width(), "dds-dim", mc::fmt("DDS says %ux%u", rd32(b, 16), rd32(b, 12)));
		uint32_t flags = rd32(b, 8), mips = flags & 0x20000 ? rd32(b, 28) : 1;
		check(mips == t.mipmaps(), "dds-mips", mc::fmt("DDS declares %u levels of %u", mips, t.mipmaps()));
		check((flags & 0x1007) == 0x1007, "dds-flags", mc::fmt("DDS flags %x", flags));
		check(rd32(b, 76) == 32 && (rd32(b, 108) & 0x1000), "dds-header", "DDS pixel format size or texture flag");
		if (t.mipmaps() > 1) check((rd32(b, 108) & 0x400008) == 0x400008, "dds-caps", "DDS of several levels lacks the mipmap capability");
		// levels, largest first
		size_t off = head;
		if (pal) {
			for (size_t i = 0; i < 256; ++i) {
				auto& p = t.palette()[i];
				uint8_t want[4] = {p.b, p.g, p.r, p.a};
				check(memcmp(&b[off + i * 4], want, 4) == 0, "dds-palette", "DDS palette differs");
			}
			off += pal;
		}
		for (uint32_t l = 0; l < t.mipmaps(); ++l) {
			check(memcmp(&b[off], t.data(l).data(), t.data(l).size()) == 0, "dds-data", mc::fmt("DDS level %u of %s differs", l, n));
			off += t.data(l).size();
		}
		uint32_t pf = rd32(b, 80), fourcc = rd32(b, 84), bits = rd32(b, 88), m[4] = {rd32(b, 92), rd32(b, 96), rd32(b, 100), rd32(b, 104)};
		int const bp = bpp(t.format());
		// row pitch / size of the first level
		uint32_t pitch = rd32(b, 20);
		if (bp)
			check((flags & 8) && pitch == t.width() * static_cast<uint32_t>(bp), "dds-pitch", mc::fmt("DDS pitch of %s width %u is %u", n, t.width(), pitch));
		else
			check((flags & 0x80000) && pitch == t.data(0).size(), "dds-pitch", mc::fmt("DDS size of %s is %u", n, pitch));
		if (!bp) {
			std::string cc = {static_cast<char>(fourcc), static_cast<char>(fourcc >> 8), static_cast<char>(fourcc >> 16), static_cast<char>(fourcc >> 24)};
			check((pf & 4) && cc == n, "dds-fourcc", mc::fmt("DDS of %s says '%s'", n, esc(cc).c_str()));
		} else if (t.format() == F::P8) {
			check(pf & 0x20, "dds-p8", "DDS of a palette texture is not marked as indexed");
		} else {
			check((pf & 0x40) && bits == static_cast<uint32_t>(bp) * 8, "dds-bits", mc::fmt("DDS of %s has %u bits per pixel", n, bits));
			// masks of the little endian pixel value, as the decoder reads it
			uint32_t want[4], rev[4];
			auto put = [&](uint32_t R, uint32_t G, uint32_t B, uint32_t A) { want[0] = R, want[1] = G, want[2] = B, want[3] = A; };
			switch (t.format()) {
			case F::B8G8R8A8: put(0xff0000, 0xff00, 0xff, 0xff000000); break;
			case F::R8G8B8A8: put(0xff, 0xff00, 0xff0000, 0xff000000); break;
			case F::A8B8G8R8: put(0xff000000, 0xff0000, 0xff00, 0xff); break;
			case F::A8R8G8B8: put(0xff00, 0xff0000, 0xff000000, 0xff); break;
			case F::B8G8R8: put(0xff0000, 0xff00, 0xff, 0); break;
			case F::R8G8B8: put(0xff, 0xff00, 0xff0000, 0); break;
			case F::A4R4G4B4: put(0xf00, 0xf0, 0xf, 0xf000); break;
			case F::A1R5G5B5: put(0x7c00, 0x3e0, 0x1f, 0x8000); break;
			default: put(0xf800, 0x7e0, 0x1f, 0); break;
			}
			for (int i = 0; i < 4; ++i)
				rev[i] = __builtin_bswap32(want[i]) >> (bp == 3 ? 8 : 0);
			bool alpha = want[3] != 0;
			check(((pf & 1) != 0) == alpha, "dds-alpha", mc::fmt("DDS of %s %s alpha", n, pf & 1 ? "has" : "lacks"));
			if (memcmp(m, want, sizeof m) == 0) return;
			bool reversed = bp >= 3 && memcmp(m, rev, sizeof m) == 0;
			mc::fail(mc::fmt("%s-%s", reversed ? "dds-reversed" : "dds-masks", n), mc::fmt("DDS masks of %s are %08x %08x %08x %08x, but the decoder reads %08x %08x %08x %08x", n, m[0], m[1], m[2], m[3], want[0], want[1], want[2], want[3]));
		}
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 30;
		std::vector<uint32_t> const DIM = r.quick() ? std::vector<uint32_t> {1, 2, 3, 4, 5, 8, 12, 16} : std::vector<uint32_t> {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32};

		// every format x size x level count: load, save, reload, decode
		for (int f = 0; f < 15; ++f)
			for (auto w : DIM)
				for (auto h : DIM)
					for (uint32_t mips = 1; mips <= 7; ++mips) {
						uint32_t need = 1;
						while ((std::max(w, h) >> need) > 0)
							++need;
						if (mips > need + 1) continue;
						auto fm = static_cast<F>(f);
						auto d = [&] { return mc::fmt("%s %ux%u with %u levels", NAME[f], w, h, mips); };
						r.run_case(
						    "load-save",
						    [&] {
							    Tex m = make(fm, w, h, mips, static_cast<uint32_t>(f) + mips);
							    auto s = m.bytes();
							    r.state(mc::hash_str(s));
							    Texture t = load(s);
							    same_tex(m, t, "loaded");
							    Bytes b;
							    auto wr = Write::to(&b);
							    t.save(wr.get());
							    check(to_str(b) == s, "save-bytes", "saving a loaded texture gives other bytes");
							    Texture u = load(to_str(b));
							    same_tex(m, u, "reloaded");
							    // into an object which holds another texture
							    Tex o = make(F::P8, 4, 2, 2, 3);
							    auto in = rd(o.bytes());
							    u.load(in.get());
							    same_tex(o, u, "reused");
							    r.trans(4);
							    r.outcome(s.size());
						    },
						    d);
						r.run_case(
						    "decode",
						    [&] {
							    Tex m = make(fm, w, h, mips, static_cast<uint32_t>(f) * 3 + mips);
							    auto s = m.bytes();
							    r.state(mc::hash_str(s));
							    decode_all(r, load(s), "decode");
						    },
						    d);
						r.run_case(
						    mc::fmt("dds").c_str(),
						    [&] {
							    Tex m = make(fm, w, h, mips, static_cast<uint32_t>(f) * 5 + mips);
							    r.trans(1);
							    check_dds(load(m.bytes()));
						    },
						    d);
					}
		// header without level count means one level
		for (int f = 0; f < 15; ++f)
			r.run_case(
			    "load-save",
			    [&] {
				    Tex m = make(static_cast<F>(f), 4, 4, 1, 2);
				    m.stored_mips = 0;
				    same_tex(m, load(m.bytes()), "no level count");
			    },
			    [&] { return mc::fmt("%s without level count", NAME[f]); });

		// every combination of stored, reference and average attributes
		for (int f = 0; f < 15; ++f)
			for (uint32_t rw : {0u, 1u, 4u, 8u, 16u, 0x10000u, 0xffffffffu})
				for (uint32_t rh : {0u, 1u, 4u, 8u, 16u, 0x10000u, 0xffffffffu})
					for (uint32_t avg : {0u, 4u, 0xff000000u, 0xffffffffu, 0x01020304u})
						r.run_case(
						    "attributes",
						    [&] {
							    Tex m = make(static_cast<F>(f), 4, 8, 2, 2);
							    m.rw = rw, m.rh = rh, m.avg = avg;
							    auto s = m.bytes();
							    Texture t = load(s);
							    same_tex(m, t, "loaded");
							    Bytes b;
							    auto wr = Write::to(&b);
							    t.save(wr.get());
							    check(to_str(b) == s, "save-bytes", "saving a loaded texture gives other bytes");
							    same_tex(m, load(to_str(b)), "reloaded");
							    r.trans(3);
							    r.state(mc::hash_str(s));
						    },
						    [&] { return mc::fmt("%s 4x8 with reference size %ux%u and average colour %08x", NAME[f], rw, rh, avg); });

		// every bit pattern of the 16-bit formats; every channel value of the others
		for (auto f : {F::A4R4G4B4, F::R5G6B5})
			r.run_case(
			    "all-pixels",
			    [&] {
				    Tex m = make(f, 256, 256, 1, 0);
				    for (size_t i = 0; i < 65536; ++i)
					    m.levels[0][i * 2] = static_cast<uint8_t>(i), m.levels[0][i * 2 + 1] = static_cast<uint8_t>(i >> 8);
				    r.trans(65536);
				    decode_all(r, load(m.bytes()), "all values");
			    },
			    [&] { return mc::fmt("all 65536 values of %s", NAME[z(static_cast<int>(f))]); });
		for (int f = 0; f < 6; ++f)
			for (int ch = 0; ch < bpp(static_cast<F>(f)); ++ch)
				r.run_case(
				    "all-pixels",
				    [&] {
					    auto fm = static_cast<F>(f);
					    Tex m = make(fm, 16, 16, 1, 1);
					    for (size_t i = 0; i < 256; ++i)
						    m.levels[0][i * z(bpp(fm)) + z(ch)] = static_cast<uint8_t>(i);
					    r.trans(256);
					    decode_all(r, load(m.bytes()), "all values");
				    },
				    [&] { return mc::fmt("all values of byte %d of %s", ch, NAME[f]); });
		for (uint32_t seed = 0; seed < 4; ++seed)
			r.run_case(
			    "all-pixels",
			    [&] {
				    Tex m = make(F::P8, 16, 16, 1, seed);
				    for (size_t i = 0; i < 256; ++i)
					    m.levels[0][i] = static_cast<uint8_t>(i);
				    r.trans(256);
				    decode_all(r, load(m.bytes()), "all indices");
			    },
			    [&] { return mc::fmt("all palette indices, palette %u", seed); });
		// block formats: every first endpoint x several second endpoints; every alpha endpoint pair
		for (uint32_t hi = 0; hi < 256; hi += r.tier(4u, 1u))
			for (auto f : {F::DXT1, F::DXT3, F::DXT5})
				r.run_case(
				    "all-blocks",
				    [&] {
					    Tex m = make(f, 64, 64, 1, hi); // 16 x 16 blocks
					    size_t bs = f == F::DXT1 ? 8 : 16;
					    for (size_t i = 0; i < 256; ++i) {
						    auto* p = &m.levels[0][i * bs];
						    if (f == F::DXT5) p[0] = static_cast<uint8_t>(hi), p[1] = static_cast<uint8_t>(i);
						    if (f != F::DXT1) p += 8;
						    p[0] = static_cast<uint8_t>(i), p[1] = static_cast<uint8_t>(hi);
						    uint32_t const other[] = {0, 0xffff, hi << 8 | static_cast<uint32_t>(i), 0x7bef, static_cast<uint32_t>(i) << 8 | hi};
						    uint32_t o = other[(i + hi) % 5];
						    p[2] = static_cast<uint8_t>(o), p[3] = static_cast<uint8_t>(o >> 8);
					    }
					    r.trans(256 * 16);
					    decode_all(r, load(m.bytes()), "blocks");
				    },
				    [&] { return mc::fmt("%s blocks with endpoint %02x..", NAME[z(static_cast<int>(f))], hi); });

		// building: every source format x target format x size x level count
		for (int f = 0; f < 15; ++f)
			for (int g = 0; g < 15; ++g)
				for (auto w : DIM)
					for (auto h : DIM) {
						bool slow = !bpp(static_cast<F>(g)) && f != g;
						if (slow && (w > 8 || h > 8 || (r.quick() && w != h))) continue;
						if (r.quick() && w != h && (w > 5 || h > 5)) continue;
						for (uint32_t mips : {1u, 2u, 4u}) {
							if (mips > 1 && (std::max(w, h) >> (mips - 1)) == 0) continue;
							r.run_case(
							    "build",
							    [&] {
								    auto from = static_cast<F>(f), to = static_cast<F>(g);
								    Tex m = make(from, w, h, mips, static_cast<uint32_t>(f + g));
								    TextureBuilder b(w, h);
								    for (auto& l : m.levels)
									    b.add_mipmap(l, from);
								    bool supported = to != F::P8 && (f == g || (decodable(from) && from != F::P8 && encodable(to)));
								    Texture t;
								    try {
									    t = b.build(to);
								    } catch (zenkit::Error const& e) {
									    check(!supported, "build-fails", mc::fmt("building %s from %s: %s", NAME[g], NAME[f], e.what()));
									    r.outcome("unsupported");
									    return;
								    }
								    check(supported, "build-unsupported", mc::fmt("building %s from %s does not fail", NAME[g], NAME[f]));
								    r.trans(1);
								    check(t.format() == to && t.width() == w && t.height() == h && t.mipmaps() == mips && t.ref_width() == w && t.ref_height() == h, "build-attributes", "attributes of the built texture");
								    for (uint32_t l = 0; l < mips; ++l) {
									    check(t.data(l).size() == level_size(to, w, h, l), "build-level-size", mc::fmt("level %u has %zu bytes", l, t.data(l).size()));
									    if (f == g) {
										    check(t.data(l) == m.levels[l], "build-copy", mc::fmt("level %u of a texture built without conversion differs", l));
										    continue;
									    }
									    auto src = load(m.bytes()).as_rgba8(l);
									    auto dst = t.as_rgba8(l);
									    check(dst.size() == src.size(), "build-rgba-size", "decoded size of the built texture");
									    for (size_t i = 0; i < src.size(); i += 4) {
										    bool ok = true;
										    for (size_t k = 0; k < 4; ++k) {
											    int a = src[i + k], c = dst[i + k];
											    if (bpp(to) == 4)
												    ok = ok && a == c;
											    else if (bpp(to) == 3)
												    ok = ok && (k == 3 ? c == 255 : a == c);
											    else if (to == F::R5G6B5)
												    // nearest value (up to half a step, plus the rounding of the decoder)
												    ok = ok && (k == 3 ? c == 255 : std::abs(a - c) <= (k == 1 ? 2 + 1 : 4 + 1));
										    }
										    if (!ok)
											    mc::fail(mc::fmt("build-%s", NAME[g]), mc::fmt("level %u pixel %zu: (%d %d %d %d) became (%d %d %d %d)", l, i / 4, src[i], src[i + 1], src[i + 2], src[i + 3], dst[i], dst[i + 1], dst[i + 2], dst[i + 3]));
									    }
								    }
								    Bytes out;
								    auto wr = Write::to(&out);
								    t.save(wr.get());
								    Texture u = load(to_str(out));
								    for (uint32_t l = 0; l < mips; ++l)
									    check(u.data(l) == t.data(l), "build-save", "a built texture is saved differently");
								    r.state(mc::hash_bytes(out.data(), out.size()));
							    },
							    [&] { return mc::fmt("%s to %s %ux%u with %u levels", NAME[f], NAME[g], w, h, mips); });
						}
					}
		// solid colours survive block compression closely
		for (auto f : {F::DXT1, F::DXT3, F::DXT5})
			tuples(4, 3, [&](std::vector<int> const& c) {
				r.run_case(
				    "build-solid",
				    [&] {
					    int const V[] = {0, 127, 255};
					    Px p {V[c[0]], V[c[1]], V[c[2]], f == F::DXT1 ? 255 : V[c[3]]};
					    U8 d;
					    for (int i = 0; i < 8 * 5; ++i)
						    for (int v : {p.r, p.g, p.b, p.a})
							    d.push_back(static_cast<uint8_t>(v));
					    auto t = TextureBuilder(8, 5).add_mipmap(d, F::R8G8B8A8).build(f);
					    auto o = t.as_rgba8(0);
					    check(o.size() == d.size(), "solid-size", "size");
					    for (size_t i = 0; i < d.size(); ++i) {
						    // squish weights colours by alpha only on request, so all channels stay close
						    check(near(o[i], d[i], i % 4 == 3 ? 9 : 9), "solid", mc::fmt("%s: channel %zu %d became %d", NAME[z(static_cast<int>(f))], i % 4, d[i], o[i]));
					    }
					    r.trans(1);
				    },
				    [&] { return mc::fmt("%s solid colour %d%d%d%d", NAME[z(static_cast<int>(f))], c[0], c[1], c[2], c[3]); });
			});
		// every 16-bit colour is its own nearest colour; every channel value maps to the nearest level
		r.run_case(
		    "r5g6b5-identity",
		    [&] {
			    Tex m = make(F::R5G6B5, 256, 256, 1, 0);
			    for (size_t i = 0; i < 65536; ++i)
				    m.levels[0][i * 2] = static_cast<uint8_t>(i), m.levels[0][i * 2 + 1] = static_cast<uint8_t>(i >> 8);
			    auto rgba = load(m.bytes()).as_rgba8(0);
			    auto t = TextureBuilder(256, 256).add_mipmap(rgba, F::R8G8B8A8).build(F::R5G6B5);
			    r.trans(65536);
			    for (size_t i = 0; i < 65536; ++i) {
				    auto v = static_cast<size_t>(t.data(0)[i * 2] | t.data(0)[i * 2 + 1] << 8);
				    check(v == i, "r5g6b5-identity", mc::fmt("R5G6B5 colour %04zx becomes %04zx after decoding and encoding", i, v));
			    }
		    },
		    [&] { return std::string("all 65536 R5G6B5 colours decoded and encoded"); });
		for (int ch = 0; ch < 3; ++ch)
			r.run_case(
			    "r5g6b5-nearest",
			    [&] {
				    U8 d;
				    for (int i = 0; i < 256; ++i)
					    for (int k = 0; k < 4; ++k)
						    d.push_back(k == ch ? static_cast<uint8_t>(i) : k == 3 ? 255 : 0);
				    auto t = TextureBuilder(16, 16).add_mipmap(d, F::R8G8B8A8).build(F::R5G6B5);
				    r.trans(256);
				    int m = ch == 1 ? 63 : 31, sh = ch == 0 ? 11 : ch == 1 ? 5 : 0;
				    for (int i = 0; i < 256; ++i) {
					    int v = t.data(0)[z(i) * 2] | t.data(0)[z(i) * 2 + 1] << 8;
					    int q = (v >> sh) & m;
					    check((v & ~(m << sh)) == 0 && std::abs(q * 510 - i * 2 * m) <= 255, "r5g6b5-nearest", mc::fmt("channel %d value %d becomes %04x", ch, i, v));
				    }
			    },
			    [&] { return mc::fmt("all values of channel %d", ch); });
		// a level of the wrong size is refused
		for (int f = 0; f < 15; ++f)
			for (uint32_t level = 0; level < 4; ++level)
				for (int delta : {-1, 1})
					r.run_case(
					    "wrong-size",
					    [&] {
						    auto fm = static_cast<F>(f);
						    TextureBuilder b(8, 4);
						    for (uint32_t l = 0; l < level; ++l)
							    b.add_mipmap(U8(level_size(fm, 8, 4, l)), fm);
						    bool threw = false;
						    try {
							    b.add_mipmap(U8(level_size(fm, 8, 4, level) + z(delta)), fm);
						    } catch (zenkit::Error const&) {
							    threw = true;
						    }
						    check(threw, "wrong-size", "a level of the wrong size is accepted");
						    r.trans(1);
						    b.add_mipmap(U8(level_size(fm, 8, 4, level)), fm);
					    },
					    [&] { return mc::fmt("%s level %u %+d bytes", NAME[f], level, delta); });
	}
} // namespace
MC_MAIN(explore)
