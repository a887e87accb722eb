// P01: every input source of the same bytes behaves like a byte array with a cursor.
// config: asan bare
#ifndef _ZK_WITH_MMAP
	#define MC_LIMIT_ALLOC 256 // absurd sizes end in bad_alloc, as they do without the sanitizer
#endif
#include "common.hh"
#include <cassert>
#include <fstream>
#include <zlib.h>
using namespace zenkit;
using namespace mcz;

namespace {
	// ---- reference model -------------------------------------------------------------------------------------------
	struct Model {
		std::string const& d;
		size_t pos = 0;
		size_t read(char* buf, size_t n) {
			size_t k = std::min(n, d.size() - pos);
			memcpy(buf, d.data() + pos, k);
			pos += k;
			return k;
		}
		bool eof() const {
			return pos >= d.size();
		}
		uint64_t num(int n) {
			unsigned char b[8] {};
			read(reinterpret_cast<char*>(b), static_cast<size_t>(n));
			uint64_t v = 0;
			for (int i = n - 1; i >= 0; --i)
				v = v << 8 | b[i];
			return v;
		}
		std::string line(std::string const& ign) {
			std::string r;
			bool nul = false;
			for (;;) {
				if (pos >= d.size()) return r;
				char c = d[pos++];
				if (c == '\0') {
					nul = true;
					break;
				}
				if (c == '\r' || c == '\n') break;
				r += c;
			}
			if (nul || ign.empty()) return r;
			while (pos < d.size() && d[pos] != '\0' && ign.find(d[pos]) != std::string::npos)
				++pos;
			// A NUL that is the very last byte also terminates (and is consumed by) the skip.
			if (pos + 1 == d.size() && d[pos] == '\0' && pos > 0) ++pos;
			return r;
		}
	};
	// the consumed trailing NUL only happens when at least the line terminator was consumed before end: handled by flow

	struct Op {
		enum K { RAW, CHAR, BYTE, UBYTE, SHORT, USHORT, INT, UINT, FLOAT, STR, LINE0, LINE1, IGN, VEC2, VEC3, MAT3, MAT4, SEEK } k;
		long a = 0;
		int w = 0; // SEEK: whence; a = offset (END: relative to end)
		std::string s() const {
			static char const* n[] = {"read", "char", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "string", "line", "line-ws", "line-ignore", "vec2", "vec3", "mat3", "mat4", "seek"};
			if (k == SEEK) return mc::fmt("seek(%ld,%s)", a, w == 0 ? "BEG" : w == 1 ? "CUR" : "END");
			if (k == RAW || k == STR) return mc::fmt("%s(%ld)", n[k], a);
			return n[k];
		}
	};

	std::string run_op(Read* r, Op const& o) {
		auto num = [](auto v) {
			uint64_t x = 0;
			memcpy(&x, &v, sizeof v);
			return mc::fmt("%zx", static_cast<size_t>(x));
		};
		auto fl = [](float const* f, int n) { return mc::hex(f, sizeof(float) * static_cast<size_t>(n), 999); };
		switch (o.k) {
		case Op::RAW: {
			std::string b(static_cast<size_t>(o.a), '\x5a');
			size_t n = r->read(b.data(), b.size());
			return mc::fmt("%zu:", n) + b;
		}
		case Op::CHAR: return num(r->read_char());
		case Op::BYTE: return num(r->read_byte());
		case Op::UBYTE: return num(r->read_ubyte());
		case Op::SHORT: return num(r->read_short());
		case Op::USHORT: return num(r->read_ushort());
		case Op::INT: return num(r->read_int());
		case Op::UINT: return num(r->read_uint());
		case Op::FLOAT: return num(r->read_float());
		case Op::STR: return r->read_string(static_cast<size_t>(o.a));
		case Op::LINE0: return r->read_line(false);
		case Op::LINE1: return r->read_line(true);
		case Op::IGN: return r->read_line_then_ignore("\n ");
		case Op::VEC2: { auto v = r->read_vec2(); float f[2] = {v.x, v.y}; return fl(f, 2); }
		case Op::VEC3: { auto v = r->read_vec3(); float f[3] = {v.x, v.y, v.z}; return fl(f, 3); }
		case Op::MAT3: { auto v = r->read_mat3(); return fl(v.pointer(), 9); }
		case Op::MAT4: { auto v = r->read_mat4(); return fl(v.pointer(), 16); }
		case Op::SEEK: r->seek(o.a, static_cast<Whence>(o.w)); return "";
		}
		return "";
	}

	std::string model_op(Model& m, Op const& o) {
		auto num = [](uint64_t v) { return mc::fmt("%zx", static_cast<size_t>(v)); };
		auto raw = [&](size_t n) { std::string b(n, '\0'); m.read(b.data(), n); return b; };
		auto tr = [&](int n) {
			std::string b = raw(static_cast<size_t>(4 * n * n)), t = b;
			for (int i = 0; i < n; ++i)
				for (int j = 0; j < n; ++j)
					memcpy(&t[static_cast<size_t>(4 * (i * n + j))], &b[static_cast<size_t>(4 * (j * n + i))], 4);
			return mc::hex(t.data(), t.size(), 999);
		};
		switch (o.k) {
		case Op::RAW: {
			std::string b(static_cast<size_t>(o.a), '\x5a');
			size_t n = m.read(b.data(), b.size());
			return mc::fmt("%zu:", n) + b;
		}
		case Op::CHAR: case Op::BYTE: case Op::UBYTE: return num(m.num(1));
		case Op::SHORT: case Op::USHORT: return num(m.num(2));
		case Op::INT: case Op::UINT: case Op::FLOAT: return num(m.num(4));
		case Op::STR: return raw(static_cast<size_t>(o.a));
		case Op::LINE0: return m.line("");
		case Op::LINE1: return m.line(" \t\r\n\v\f");
		case Op::IGN: return m.line("\n ");
		case Op::VEC2: { auto s = raw(8); return mc::hex(s.data(), 8, 99); }
		case Op::VEC3: { auto s = raw(12); return mc::hex(s.data(), 12, 99); }
		case Op::MAT3: return tr(3);
		case Op::MAT4: return tr(4);
		case Op::SEEK: {
			long b = o.w == 0 ? 0 : o.w == 1 ? static_cast<long>(m.pos) : static_cast<long>(m.d.size());
			m.pos = static_cast<size_t>(b + o.a);
			return "";
		}
		}
		return "";
	}

	bool seek_ok(Model const& m, Op const& o) {
		if (o.k != Op::SEEK) return true;
		long b = o.w == 0 ? 0 : o.w == 1 ? static_cast<long>(m.pos) : static_cast<long>(m.d.size());
		return b + o.a >= 0 && b + o.a <= static_cast<long>(m.d.size());
	}

	std::string zip(std::string const& d, uint32_t bs) {
		Out o;
		uint32_t n = static_cast<uint32_t>((d.size() + bs - 1) / bs);
		o.u32(static_cast<uint32_t>(d.size())).u32(bs).u32(n);
		for (uint32_t i = 0; i < n; ++i) {
			std::string src = d.substr(i * bs, bs);
			uLongf cl = compressBound(src.size());
			std::string c(cl, '\0');
			compress(reinterpret_cast<Bytef*>(c.data()), &cl, reinterpret_cast<Bytef const*>(src.data()), src.size());
			o.u32(static_cast<uint32_t>(src.size())).u32(static_cast<uint32_t>(cl)).u32(bs).str(std::string_view(c.data(), cl));
		}
		return o.s;
	}

	struct Source {
		std::string name;
		std::unique_ptr<Read> r;
		FILE* f = nullptr;
		std::unique_ptr<std::istream> is;
		Source() = default;
		Source(Source&& o) noexcept : name(std::move(o.name)), r(std::move(o.r)), f(o.f), is(std::move(o.is)) {
			o.f = nullptr;
		}
		~Source() {
			r.reset();
			if (f) fclose(f);
		}
	};

	struct Content {
		std::string d;
		Bytes b;
		std::unique_ptr<std::byte[]> exact; // exactly sized heap block: ASan guards both sides
		std::string path;
		std::vector<std::pair<uint32_t, std::string>> zips;
	};

	std::vector<Source> open_all(Content& c, bool files) {
		std::vector<Source> v;
		auto add = [&](std::string n, std::unique_ptr<Read> r) -> Source& {
			Source s;
			s.name = n;
			s.r = std::move(r);
			v.push_back(std::move(s));
			return v.back();
		};
		add("memory", Read::from(c.exact.get(), c.d.size()));
		add("vector*", Read::from(&c.b));
		add("vector", Read::from(Bytes(c.b)));
		{
			auto is = std::make_unique<std::istringstream>(c.d);
			auto& s = add("istringstream", Read::from(is.get()));
			s.is = std::move(is);
		}
#ifdef _ZK_WITH_ZIPPED_VDF
		for (auto& [bs, z] : c.zips) {
			auto r = Read::from_zipped(Read::from(to_bytes(z)));
			if (!r) mc::fail("zip-rejected", "valid zipped stream rejected");
			add(mc::fmt("zipped/%u", bs), std::move(r));
		}
#endif
		if (files) {
			FILE* f = fopen(c.path.c_str(), "rb");
			auto& s = add("FILE", Read::from(f));
			s.f = f;
			auto is = std::make_unique<std::ifstream>(c.path, std::ios::binary);
			auto& t = add("ifstream", Read::from(is.get()));
			t.is = std::move(is);
			add("path", Read::from(std::filesystem::path(c.path)));
		}
		return v;
	}

	Content make(mc::Run& r, std::string d, std::vector<uint32_t> bss, bool files, int id) {
		Content c;
		c.d = std::move(d);
		c.b = to_bytes(c.d);
		c.exact = std::make_unique<std::byte[]>(c.d.size());
		memcpy(c.exact.get(), c.d.data(), c.d.size());
		if (files) {
			c.path = r.scratch + mc::fmt("/c%d.bin", id);
			std::ofstream(c.path, std::ios::binary) << c.d;
		}
		if (!c.d.empty())
			for (auto bs : bss)
				c.zips.emplace_back(bs, zip(c.d, bs));
		return c;
	}

	void seqs(mc::Run& r, char const* fam, Content& c, std::vector<Op> const& ops, int depth, bool files) {
		tuples(depth, static_cast<int>(ops.size()), [&](std::vector<int> const& t) {
			r.run_case(
			    fam,
			    [&] {
				    auto srcs = open_all(c, files);
				    Model m {c.d};
				    std::string oc;
				    for (int i : t) {
					    Op const& o = ops[static_cast<size_t>(i)];
					    if (!seek_ok(m, o)) break; // out-of-range seek: outside the property's domain
					    auto want = model_op(m, o);
					    bool weof = m.eof();
					    for (auto& s : srcs) {
						    auto got = run_op(s.r.get(), o);
						    r.trans();
						    check(got == want, "value", s.name + ": " + o.s() + " gave [" + esc(got) + "] want [" + esc(want) + "]");
						    size_t p = s.r->tell();
						    check(p == m.pos, "position", mc::fmt("%s: after %s tell=%zu want %zu", s.name.c_str(), o.s().c_str(), p, m.pos));
						    check(s.r->eof() == weof, "eof", mc::fmt("%s: after %s eof=%d want %d (pos %zu of %zu)", s.name.c_str(), o.s().c_str(), s.r->eof(), weof, p, c.d.size()));
						    check(s.r->tell() == m.pos, "position-after-eof", s.name + ": tell changed by eof()");
					    }
					    oc += want + mc::fmt("@%zu;", m.pos);
					    r.state(mc::hash_str(mc::fmt("%zu", m.pos), mc::hash_str(c.d)));
				    }
				    r.outcome(oc + c.d);
			    },
			    [&] {
				    std::string s = "content(" + std::to_string(c.d.size()) + ")=" + esc(c.d, 40) + " ops:";
				    for (int i : t)
					    s += " " + ops[static_cast<size_t>(i)].s();
				    return s;
			    });
		});
	}

	void explore(mc::Run& r) {
		quiet_log();
		std::filesystem::create_directories(r.scratch);
		int id = 0;
		// 1. binary contents, all typed reads and seeks
		std::vector<Op> bin;
		for (long n : {0, 1, 3, 8}) bin.push_back({Op::RAW, n});
		for (auto k : {Op::CHAR, Op::BYTE, Op::UBYTE, Op::SHORT, Op::USHORT, Op::INT, Op::UINT, Op::FLOAT, Op::VEC2, Op::VEC3, Op::MAT3, Op::MAT4}) bin.push_back({k});
		for (long n : {0, 2, 7}) bin.push_back({Op::STR, n});
		for (long o : {0, 1, 5, 12}) bin.push_back({Op::SEEK, o, 0});
		for (long o : {-4, -1, 0, 2}) bin.push_back({Op::SEEK, o, 1});
		for (long o : {-7, -1, 0}) bin.push_back({Op::SEEK, o, 2});
		for (size_t len : {0, 1, 2, 4, 7, 12, 67}) {
			std::string d;
			for (size_t i = 0; i < len; ++i)
				d += static_cast<char>(i * 37 + 129 - (i % 5 == 2 ? 129 : 0));
			auto c = make(r, d, {1, 3, 5, 16}, true, id++);
			seqs(r, "typed", c, bin, r.tier(2, 3), true);
			if (r.quick() && (len == 7 || len == 67)) seqs(r, "typed-deep", c, bin, 3, len == 7);
		}
		// 1b. floats/integers: all interesting bit patterns
		for (uint32_t v : {0u, 1u, 0x7fu, 0x80u, 0xffu, 0x100u, 0x7fffu, 0x8000u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 0x00000001u, 0x00800000u, 0x12345678u}) {
			Out o;
			o.u32(v).u32(~v);
			auto c = make(r, o.s, {4, 3}, true, id++);
			std::vector<Op> nums;
			for (auto k : {Op::BYTE, Op::UBYTE, Op::SHORT, Op::USHORT, Op::INT, Op::UINT, Op::FLOAT}) nums.push_back({k});
			seqs(r, "numbers", c, nums, 2, true);
		}
		// 2. lines: every content over a terminator-heavy alphabet
		std::vector<Op> lines {{Op::LINE0}, {Op::LINE1}, {Op::IGN}, {Op::CHAR}, {Op::SEEK, -1, 1}, {Op::SEEK, 0, 2}};
		char const al[] = {'a', '\n', ' ', '\0', '\r', '\xff'};
		for (int len = 0; len <= r.tier(4, 6); ++len)
			tuples(len, len <= 3 ? 6 : (len == 4 ? 5 : 4), [&](std::vector<int> const& t) {
				std::string d;
				for (int i : t) d += al[i];
				bool files = len <= 3;
				auto c = make(r, d, {2}, files, 100000);
				seqs(r, "lines", c, lines, len <= 3 ? 3 : 2, files);
			});
		// 2a. every byte next to a line break
		for (int b = 0; b < 256; ++b) {
			char ch = static_cast<char>(b);
			std::string d {'x', ch, 'y', '\n', ch, ch, 'z', '\r', '\n', ch};
			auto c = make(r, d, {4}, true, id++);
			seqs(r, "line-bytes", c, lines, 3, true);
		}
		// 2b. long lines (internal buffers)
		for (size_t n : {255, 256, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 300000}) {
			std::string d(n, 'q');
			d += "\r\n\n  next\n";
			auto c = make(r, d, {4096, 100}, true, id++);
			seqs(r, "long-lines", c, {{Op::LINE0}, {Op::LINE1}, {Op::IGN}, {Op::UINT}}, 3, true);
		}
		// 2c. paths which cannot be opened as a source are reported
		for (std::string p : {r.scratch + "/missing.bin", r.scratch, r.scratch + "/"})
			r.run_case(
			    "unopenable",
			    [&] {
				    try {
					    auto s = Read::from(std::filesystem::path(p));
					    char b[8] {};
					    size_t n = s->read(b, 8);
					    mc::fail("opened", mc::fmt("%s opened as a source and delivered %zu bytes", p.c_str(), n));
				    } catch (mc::Failure const&) {
					    throw;
				    } catch (std::exception const&) { r.outcome("rejected"); }
			    },
			    [&] { return "Read::from(" + p + ")"; });
		// 3. large content: block and stdio buffer boundaries
		{
			std::string d;
			uint32_t x = 1;
			for (int i = 0; i < 20011; ++i) {
				x = x * 1664525u + 1013904223u;
				d += static_cast<char>(x >> 24);
			}
			auto c = make(r, d, {8192, 1000}, true, id++);
			std::vector<Op> big;
			for (long p : {0, 4094, 8190, 8192, 16383, 20010, 20011}) big.push_back({Op::SEEK, p, 0});
			for (long p : {-4096, 8192}) big.push_back({Op::SEEK, p, 1});
			big.push_back({Op::SEEK, -8200, 2});
			for (long n : {1, 4, 4096, 8192, 12000}) big.push_back({Op::RAW, n});
			big.push_back({Op::INT});
			big.push_back({Op::MAT4});
			seqs(r, "large", c, big, r.tier(3, 4), true);
		}
		// 4. long histories over a small content: look-ahead and block caches depend on what happened before
		{
			auto c = make(r, std::string("ab\r\n \0c\xffz", 9), {2, 4}, true, id++);
			std::vector<Op> h {{Op::RAW, 1}, {Op::RAW, 3}, {Op::LINE1}, {Op::USHORT}, {Op::SEEK, 0, 0}, {Op::SEEK, -1, 1}, {Op::SEEK, 0, 2}, {Op::SEEK, 2, 1}};
			seqs(r, "history", c, h, r.tier(5, 6), r.quick());
		}
		// 5. positions that do not fit into 16 bits
		{
			std::string d;
			uint32_t x = 7;
			for (int i = 0; i < 140003; ++i) {
				x = x * 1664525u + 1013904223u;
				d += static_cast<char>(x >> 24);
			}
			auto c = make(r, d, {8192, 65536}, true, id++);
			std::vector<Op> big;
			for (long p : {0, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 139000, 140003}) big.push_back({Op::SEEK, p, 0});
			for (long p : {-65536, -65535, -1, 65535, 65536, 70000}) big.push_back({Op::SEEK, p, 1});
			for (long p : {-140003, -65537, -65536, -1, 0}) big.push_back({Op::SEEK, p, 2});
			for (long n : {1, 65535, 65536, 70000, 140003}) big.push_back({Op::RAW, n});
			big.push_back({Op::UINT});
			big.push_back({Op::STR, 65537});
			seqs(r, "wide", c, big, 2, true);
		}
		// 6. positions that do not fit into 31 or 32 bits: sparse files
		{
			std::string path = r.scratch + "/sparse.bin";
			uint64_t const size = (1ull << 32) + 4096;
			bool made = false;
			uint64_t const marks[] = {0, 65536, (1ull << 31) - 2, (1ull << 31) + 9, (1ull << 32) - 2, (1ull << 32) + 100, size - 4};
			auto create = [&] {
				if (made) return;
				made = true;
				std::ofstream f(path, std::ios::binary | std::ios::trunc);
				f.seekp(static_cast<std::streamoff>(size - 1));
				f.put('\0');
				for (size_t i = 0; i < std::size(marks); ++i) {
					f.seekp(static_cast<std::streamoff>(marks[i]));
					uint32_t v = 0xA0B0C000u + static_cast<uint32_t>(i);
					f.write(reinterpret_cast<char const*>(&v), 4);
				}
			};
			for (size_t a = 0; a < std::size(marks); ++a)
				for (size_t b = 0; b < std::size(marks); ++b)
					for (int w = 0; w < 3; ++w)
#ifdef _ZK_WITH_MMAP
						for (int k = 0; k < 3; ++k)
#else
						for (int k = 0; k < 2; ++k) // without memory mapping a path is read as a whole
#endif
							r.run_case(
							    "sparse",
							    [&] {
								    create();
								    Source s;
								    if (k == 0) {
									    s.f = fopen(path.c_str(), "rb");
									    s.r = Read::from(s.f);
								    } else if (k == 1) {
									    s.is = std::make_unique<std::ifstream>(path, std::ios::binary);
									    s.r = Read::from(s.is.get());
								    } else
									    s.r = Read::from(std::filesystem::path(path));
								    auto look = [&](size_t i, uint64_t at) {
									    check(s.r->tell() == at, "position", mc::fmt("tell=%zu want %llu", s.r->tell(), static_cast<unsigned long long>(at)));
									    check(!s.r->eof(), "eof", "end of input reported before it");
									    uint32_t v = s.r->read_uint();
									    check(v == 0xA0B0C000u + i, "value", mc::fmt("read %x at mark %zu", v, i));
									    check(s.r->tell() == at + 4, "position", mc::fmt("tell=%zu want %llu", s.r->tell(), static_cast<unsigned long long>(at + 4)));
									    r.trans(2);
								    };
								    s.r->seek(static_cast<ssize_t>(marks[a]), Whence::BEG);
								    look(a, marks[a]);
								    ssize_t base = w == 0 ? 0 : w == 1 ? static_cast<ssize_t>(marks[a] + 4) : static_cast<ssize_t>(size);
								    s.r->seek(static_cast<ssize_t>(marks[b]) - base, static_cast<Whence>(w));
								    look(b, marks[b]);
								    r.outcome(mc::fmt("%zu %zu", a, b));
							    },
							    [&] { return mc::fmt("source %d of a 4 GiB sparse file: mark %zu then mark %zu, whence %d", k, a, b, w); });
			if (made) std::filesystem::remove(path);
		}
	}
} // namespace
MC_MAIN(explore)
