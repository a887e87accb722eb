// P02: every output sink behaves like a byte array with a cursor.
#include "common.hh"
#include <fstream>
using namespace zenkit;
using namespace mcz;

namespace {
	struct Op {
		enum K { RAW, CHAR, BYTE, UBYTE, SHORT, USHORT, INT, UINT, FLOAT, STR, STR0, LINE, VEC2, VEC3, MAT3, MAT4, SEEK } k;
		long a = 0;
		int w = 0;
		std::string s() const {
			static char const* n[] = {"raw", "char", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "string", "string0", "line", "vec2", "vec3", "mat3", "mat4", "seek"};
			if (k == SEEK) return mc::fmt("seek(%ld,%s)", a, w == 0 ? "BEG" : w == 1 ? "CUR" : "END");
			return mc::fmt("%s(%ld)", n[k], a);
		}
	};

	std::string pat(long n) {
		std::string s;
		if (n >= 1 << 20) { // a string containing the byte n - 2^20
			char b = static_cast<char>(n);
			return std::string {b, 'x', b, b, 'y', b};
		}
		for (long i = 0; i < n; ++i)
			s += static_cast<char>(1 + (i * 7 + n) % 251);
		return s;
	}
	float fl(long a, int i) {
		uint32_t v = static_cast<uint32_t>(a) * 0x9E3779B1u + static_cast<uint32_t>(i) * 0x01010101u;
		v &= 0x7f7fffffu;
		float f;
		memcpy(&f, &v, 4);
		return f;
	}

	/// bytes the model says the operation emits
	std::string enc(Op const& o) {
		Out b;
		uint32_t v = static_cast<uint32_t>(o.a);
		switch (o.k) {
		case Op::RAW: case Op::STR: b.str(pat(o.a)); break;
		case Op::STR0: b.str0(pat(o.a)); break;
		case Op::LINE: b.line(pat(o.a)); break;
		case Op::CHAR: case Op::BYTE: case Op::UBYTE: b.u8(v); break;
		case Op::SHORT: case Op::USHORT: b.u16(v); break;
		case Op::INT: case Op::UINT: case Op::FLOAT: b.u32(v); break;
		case Op::VEC2: b.f32(fl(o.a, 0)).f32(fl(o.a, 1)); break;
		case Op::VEC3: b.f32(fl(o.a, 0)).f32(fl(o.a, 1)).f32(fl(o.a, 2)); break;
		case Op::MAT3: for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) b.f32(fl(o.a, j * 3 + i)); break;
		case Op::MAT4: for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) b.f32(fl(o.a, j * 4 + i)); break;
		case Op::SEEK: break;
		}
		return b.s;
	}

	void act(Write* w, Op const& o, size_t expect_written) {
		switch (o.k) {
		case Op::RAW: {
			auto p = pat(o.a);
			std::unique_ptr<char[]> e(new char[p.size()]);
			memcpy(e.get(), p.data(), p.size());
			size_t n = w->write(e.get(), p.size());
			check(n == expect_written, "count", mc::fmt("write(%zu) returned %zu want %zu", p.size(), n, expect_written));
			break;
		}
		case Op::CHAR: w->write_char(static_cast<char>(o.a)); break;
		case Op::BYTE: w->write_byte(static_cast<int8_t>(o.a)); break;
		case Op::UBYTE: w->write_ubyte(static_cast<uint8_t>(o.a)); break;
		case Op::SHORT: w->write_short(static_cast<int16_t>(o.a)); break;
		case Op::USHORT: w->write_ushort(static_cast<uint16_t>(o.a)); break;
		case Op::INT: w->write_int(static_cast<int32_t>(o.a)); break;
		case Op::UINT: w->write_uint(static_cast<uint32_t>(o.a)); break;
		case Op::FLOAT: {
			uint32_t v = static_cast<uint32_t>(o.a);
			float f;
			memcpy(&f, &v, 4);
			w->write_float(f);
			break;
		}
		case Op::STR: w->write_string(pat(o.a)); break;
		case Op::STR0: w->write_string0(pat(o.a)); break;
		case Op::LINE: w->write_line(pat(o.a)); break;
		case Op::VEC2: w->write_vec2(Vec2 {fl(o.a, 0), fl(o.a, 1)}); break;
		case Op::VEC3: w->write_vec3(Vec3 {fl(o.a, 0), fl(o.a, 1), fl(o.a, 2)}); break;
		case Op::MAT3: { Mat3 m {}; for (int i = 0; i < 9; ++i) m.pointer()[i] = fl(o.a, i); w->write_mat3(m); break; }
		case Op::MAT4: { Mat4 m {}; for (int i = 0; i < 16; ++i) m.pointer()[i] = fl(o.a, i); w->write_mat4(m); break; }
		case Op::SEEK: w->seek(o.a, static_cast<Whence>(o.w)); break;
		}
	}

	/// re-read through the library: the value written must come back
	void reread(Read* r, Op const& o) {
		auto fbits = [](float f) { uint32_t v; memcpy(&v, &f, 4); return v; };
		bool ok = true;
		switch (o.k) {
		case Op::CHAR: ok = r->read_char() == static_cast<char>(o.a); break;
		case Op::BYTE: ok = r->read_byte() == static_cast<int8_t>(o.a); break;
		case Op::UBYTE: ok = r->read_ubyte() == static_cast<uint8_t>(o.a); break;
		case Op::SHORT: ok = r->read_short() == static_cast<int16_t>(o.a); break;
		case Op::USHORT: ok = r->read_ushort() == static_cast<uint16_t>(o.a); break;
		case Op::INT: ok = r->read_int() == static_cast<int32_t>(o.a); break;
		case Op::UINT: ok = r->read_uint() == static_cast<uint32_t>(o.a); break;
		case Op::FLOAT: ok = fbits(r->read_float()) == static_cast<uint32_t>(o.a); break;
		case Op::STR: case Op::RAW: ok = r->read_string(pat(o.a).size()) == pat(o.a); break;
		case Op::VEC2: { auto v = r->read_vec2(); ok = v.x == fl(o.a, 0) && v.y == fl(o.a, 1); break; }
		case Op::VEC3: { auto v = r->read_vec3(); ok = v.x == fl(o.a, 0) && v.y == fl(o.a, 1) && v.z == fl(o.a, 2); break; }
		case Op::MAT3: { auto m = r->read_mat3(); for (int i = 0; i < 9; ++i) ok &= m.pointer()[i] == fl(o.a, i); break; }
		case Op::MAT4: { auto m = r->read_mat4(); for (int i = 0; i < 16; ++i) ok &= m.pointer()[i] == fl(o.a, i); break; }
		default: break;
		}
		check(ok, "reread", "value of " + o.s() + " did not come back");
	}

	std::string slurp(std::string const& p) {
		std::ifstream f(p, std::ios::binary);
		std::stringstream s;
		s << f.rdbuf();
		return s.str();
	}

	void growing(mc::Run& r, char const* fam, std::vector<Op> const& ops, std::vector<int> const& t, size_t pre, bool files) {
		r.run_case(
		    fam,
		    [&] {
			    std::string init = pat(static_cast<long>(pre));
			    Bytes vec = to_bytes(init);
			    std::ostringstream oss(init);
			    std::string fp = r.scratch + "/f.bin", pp = r.scratch + "/p.bin", op = r.scratch + "/o.bin";
			    FILE* f = nullptr;
			    std::ofstream of;
			    std::unique_ptr<Write> wv = Write::to(&vec), ws = Write::to(&oss), wf, wp, wo;
			    struct S {
				    char const* n;
				    Write* w;
			    };
			    std::vector<S> sinks {{"vector", wv.get()}, {"ostringstream", ws.get()}};
			    if (files && pre == 0) {
				    f = fopen(fp.c_str(), "wb+");
				    wf = Write::to(f);
				    wp = Write::to(std::filesystem::path(pp));
				    of.open(op, std::ios::binary | std::ios::trunc);
				    wo = Write::to(&of);
				    sinks.push_back({"FILE", wf.get()});
				    sinks.push_back({"path", wp.get()});
				    sinks.push_back({"ofstream", wo.get()});
			    }
			    std::string data = init;
			    size_t pos = 0;
			    bool gap = false;
			    std::vector<std::pair<size_t, Op>> placed;
			    for (int i : t) {
				    Op const& o = ops[static_cast<size_t>(i)];
				    if (o.k == Op::SEEK) {
					    long b = o.w == 0 ? 0 : o.w == 1 ? static_cast<long>(pos) : static_cast<long>(data.size());
					    if (b + o.a < 0) break; // out of domain
					    pos = static_cast<size_t>(b + o.a);
					    if (pos > data.size()) gap = true; // string streams cannot seek past their end
				    } else {
					    auto e = enc(o);
					    if (e.empty() && pos > data.size()) break; // writing nothing behind the end: outside the domain
					    if (pos + e.size() > data.size()) data.resize(pos + e.size(), '\0');
					    data.replace(pos, e.size(), e);
					    std::erase_if(placed, [&](auto& p) { return p.first < pos + e.size() && pos < p.first + enc(p.second).size(); });
					    placed.emplace_back(pos, o);
					    pos += e.size();
				    }
				    for (auto& s : sinks) {
					    if (gap && s.w == ws.get()) continue;
					    act(s.w, o, o.k == Op::RAW ? static_cast<size_t>(o.a) : 0);
					    r.trans();
					    check(s.w->tell() == pos, "position", mc::fmt("%s: after %s tell=%zu want %zu", s.n, o.s().c_str(), s.w->tell(), pos));
				    }
				    r.state(mc::hash_str(data, pos + 1));
			    }
			    wf.reset(), wp.reset(), wo.reset();
			    if (f) fclose(f);
			    of.close();
			    // a seek behind the end without a later write does not extend any sink
			    auto cmp = [&](char const* n, std::string const& got) {
				    check(got == data, "bytes", mc::fmt("%s: got %zu bytes [%s] want %zu bytes [%s]", n, got.size(), mc::hex(got.data(), got.size()).c_str(), data.size(), mc::hex(data.data(), data.size()).c_str()));
			    };
			    cmp("vector", to_str(vec));
			    if (!gap) cmp("ostringstream", oss.str());
			    if (files && pre == 0) cmp("FILE", slurp(fp)), cmp("path", slurp(pp)), cmp("ofstream", slurp(op));
			    auto rdr = rd(data);
			    for (auto& [p, o] : placed) {
				    rdr->seek(static_cast<ssize_t>(p), Whence::BEG);
				    reread(rdr.get(), o);
			    }
			    r.outcome(data);
		    },
		    [&] {
			    std::string s = mc::fmt("initial bytes: %zu, ops:", pre);
			    for (int i : t)
				    s += " " + ops[static_cast<size_t>(i)].s();
			    return s;
		    });
	}

	void fixed(mc::Run& r, std::vector<Op> const& ops, std::vector<int> const& t, size_t size) {
		r.run_case(
		    "fixed",
		    [&] {
			    std::unique_ptr<std::byte[]> buf(new std::byte[size]); // exact size: ASan guards the borders
			    std::string data(size, '\x33');
			    memset(buf.get(), 0x33, size);
			    auto w = Write::to(buf.get(), size);
			    size_t pos = 0;
			    for (int i : t) {
				    Op const& o = ops[static_cast<size_t>(i)];
				    size_t n = 0;
				    if (o.k == Op::SEEK) {
					    long b = o.w == 0 ? 0 : o.w == 1 ? static_cast<long>(pos) : static_cast<long>(size);
					    if (b + o.a < 0 || b + o.a > static_cast<long>(size)) break;
					    pos = static_cast<size_t>(b + o.a);
				    } else {
					    auto e = enc(o);
					    n = std::min(e.size(), size - pos);
					    data.replace(pos, n, e.substr(0, n));
					    pos += n;
				    }
				    act(w.get(), o, n);
				    r.trans();
				    check(w->tell() == pos, "position", mc::fmt("after %s tell=%zu want %zu", o.s().c_str(), w->tell(), pos));
				    check(memcmp(buf.get(), data.data(), size) == 0, "bytes", mc::fmt("after %s: got [%s] want [%s]", o.s().c_str(), mc::hex(buf.get(), size).c_str(), mc::hex(data.data(), size).c_str()));
				    r.state(mc::hash_str(data, pos + 1));
			    }
			    r.outcome(data);
		    },
		    [&] {
			    std::string s = mc::fmt("fixed buffer of %zu bytes, ops:", size);
			    for (int i : t)
				    s += " " + ops[static_cast<size_t>(i)].s();
			    return s;
		    });
	}

	/// a destination which has room for a limited number of bytes only
	struct Limited : std::streambuf {
		explicit Limited(size_t room) : room(room) {}
		std::streamsize xsputn(char const* s, std::streamsize n) override {
			auto k = std::min(static_cast<size_t>(n), room - got.size());
			got.append(s, k);
			return static_cast<std::streamsize>(k);
		}
		int_type overflow(int_type c) override {
			if (got.size() == room || c == traits_type::eof()) return traits_type::eof();
			got += static_cast<char>(c);
			return c;
		}
		size_t room;
		std::string got;
	};

	void full(mc::Run& r, std::vector<Op> const& ops, std::vector<int> const& t, size_t room) {
		r.run_case(
		    "full",
		    [&] {
			    Limited a(room), b(room);
			    std::ostream os(&a);
			    cookie_io_functions_t io {};
			    io.write = [](void* c, char const* s, size_t n) -> ssize_t { return static_cast<Limited*>(c)->xsputn(s, static_cast<std::streamsize>(n)); };
			    FILE* f = fopencookie(&b, "w", io);
			    setvbuf(f, nullptr, _IONBF, 0);
			    auto ws = Write::to(&os), wf = Write::to(f);
			    std::string want;
			    bool failed = false;
			    for (int i : t) {
				    Op const& o = ops[static_cast<size_t>(i)];
				    auto e = enc(o);
				    want += e;
				    failed |= want.size() > room;
				    if (o.k != Op::RAW) {
					    act(ws.get(), o, 0);
					    act(wf.get(), o, 0);
					    r.trans();
					    continue;
				    }
				    auto before = b.got.size();
				    auto ns = ws->write(e.data(), e.size()), nf = wf->write(e.data(), e.size());
				    r.trans();
				    if (failed) {
					    check(e.empty() ? ns == 0 : ns < e.size(), "full-stream", mc::fmt("a stream with room for %zu bytes accepted %s at the end of %zu bytes", room, o.s().c_str(), want.size()));
				    } else {
					    check(ns == e.size(), "count", mc::fmt("stream: %s returned %zu", o.s().c_str(), ns));
				    }
				    check(nf == b.got.size() - before, "full-file", mc::fmt("a file with room for %zu bytes: %s returned %zu, stored %zu", room, o.s().c_str(), nf, b.got.size() - before));
			    }
			    wf.reset();
			    fclose(f);
			    check(a.got == want.substr(0, a.got.size()) && (failed || a.got.size() == want.size()), "full-bytes", "the stream holds bytes that were not written in this order");
			    r.outcome(a.got);
		    },
		    [&] {
			    std::string s = mc::fmt("destination with room for %zu bytes, ops:", room);
			    for (int i : t)
				    s += " " + ops[static_cast<size_t>(i)].s();
			    return s;
		    });
	}

	/// a file which can not be opened must be reported and not swallow the data written to it
	void unopenable(mc::Run& r) {
		auto d = r.scratch + "/un";
		struct P {
			char const* n;
			std::string p;
			bool ok;
		};
		std::vector<P> ps {
		    {"new file", d + "/new.bin", true},
		    {"existing file", d + "/file", true},
		    {"missing directory", d + "/no/x.bin", false},
		    {"two missing directories", d + "/no/no/x.bin", false},
		    {"directory", d + "/dir", false},
		    {"directory with separator", d + "/dir/", false},
		    {"below a file", d + "/file/x.bin", false},
		    {"long name", d + "/" + std::string(300, 'x'), false},
		    {"name of 255", d + "/" + std::string(255, 'x'), true},
		    {"long path", d + std::string(5000, '/') + "x", false},
		    {"dangling link into nowhere", d + "/lost", false},
		    {"dangling link", d + "/link", true},
		    {"link to itself", d + "/self", false},
		    {"empty path", "", false},
		};
		namespace fs = std::filesystem;
		for (auto& p : ps)
			for (long n : {0, 1, 9, 5000, 70000})
				r.run_case(
				    "unopenable",
				    [&] {
					    fs::remove_all(d);
					    fs::create_directories(d + "/dir");
					    std::ofstream(d + "/file") << "kept";
					    std::ofstream(d + "/dir/kept") << "kept";
					    fs::create_symlink(d + "/no/there", d + "/lost");
					    fs::create_symlink(d + "/target", d + "/link");
					    fs::create_symlink(d + "/self", d + "/self");
					    bool reported = false;
					    try {
						    auto w = Write::to(fs::path(p.p));
						    r.trans();
						    w->write_string(pat(n));
					    } catch (std::exception const&) {
						    reported = true;
					    }
					    if (p.ok) {
						    check(!reported, "open", "a file which can be opened was refused");
						    check(slurp(p.p) == pat(n), "bytes", "the file does not hold what was written");
					    } else {
						    check(reported, "unopenable", "writing to a file which can not be opened was not reported");
					    }
					    if (p.p != d + "/file") check(slurp(d + "/file") == "kept", "neighbour", "another file was changed");
					    check(slurp(d + "/dir/kept") == "kept", "neighbour", "another file was changed");
					    fs::remove_all(d);
					    r.outcome(reported ? "reported" : "opened");
				    },
				    [&] { return mc::fmt("%ld bytes to %s (%s)", n, p.n, p.p.substr(0, 80).c_str()); });
	}

	void explore(mc::Run& r) {
		quiet_log();
		std::filesystem::create_directories(r.scratch);
		unopenable(r);
		{
			std::vector<Op> ops;
			for (long n : {0, 1, 3, 9, 40}) ops.push_back({Op::RAW, n});
			ops.push_back({Op::UBYTE, 200}), ops.push_back({Op::INT, -2}), ops.push_back({Op::STR0, 3}), ops.push_back({Op::LINE, 2}), ops.push_back({Op::MAT3, 3});
			for (size_t room = 0; room <= 44; ++room)
				for (int d = 1; d <= r.tier(3, 4); ++d)
					tuples(d, static_cast<int>(ops.size()), [&](auto const& t) { full(r, ops, t, room); });
		}
		std::vector<Op> all;
		for (long n : {0, 1, 3, 9}) all.push_back({Op::RAW, n});
		all.push_back({Op::CHAR, 'x'});
		all.push_back({Op::BYTE, -2});
		all.push_back({Op::UBYTE, 254});
		all.push_back({Op::SHORT, -300});
		all.push_back({Op::USHORT, 0xfedc});
		all.push_back({Op::INT, -70000});
		all.push_back({Op::UINT, static_cast<long>(0xfedcba98u)});
		all.push_back({Op::FLOAT, 0x40490fdb});
		for (long n : {0, 5}) all.push_back({Op::STR, n}), all.push_back({Op::STR0, n}), all.push_back({Op::LINE, n});
		all.push_back({Op::VEC2, 1}), all.push_back({Op::VEC3, 2}), all.push_back({Op::MAT3, 3}), all.push_back({Op::MAT4, 4});
		for (long o : {0, 2, 11}) all.push_back({Op::SEEK, o, 0});
		for (long o : {-3, 1}) all.push_back({Op::SEEK, o, 1});
		for (long o : {-2, 0, 4}) all.push_back({Op::SEEK, o, 2});
		// strings with any byte in them
		for (long b = 0; b < 256; ++b) {
			std::vector<Op> bytes {{Op::STR, (1 << 20) + b}, {Op::STR0, (1 << 20) + b}, {Op::LINE, (1 << 20) + b}, {Op::CHAR, b}, {Op::UBYTE, b}, {Op::USHORT, b << 8 | 1}};
			tuples(2, 6, [&](auto const& t) { growing(r, "bytes", bytes, t, 0, b % 32 == 10); });
		}
		int n = static_cast<int>(all.size());
		for (int d = 1; d <= r.tier(3, 4); ++d)
			tuples(d, n, [&](auto const& t) { growing(r, "growing", all, t, 0, d <= 2); });
		tuples(2, n, [&](auto const& t) { growing(r, "prefilled", all, t, 5, false); });
		// growth across the internal capacity steps
		std::vector<Op> big;
		for (long k : {1, 1000, 1023, 1024, 1025, 5000}) big.push_back({Op::RAW, k});
		big.push_back({Op::UINT, 0x11223344});
		big.push_back({Op::SEEK, 0, 0}), big.push_back({Op::SEEK, 1022, 0}), big.push_back({Op::SEEK, 3000, 1}), big.push_back({Op::SEEK, -1, 2});
		for (int d = 1; d <= r.tier(4, 5); ++d)
			tuples(d, static_cast<int>(big.size()), [&](auto const& t) { growing(r, "large", big, t, 0, d <= 3); });
		std::vector<Op> wide;
		for (long k : {1, 65535, 65536, 70000}) wide.push_back({Op::RAW, k});
		wide.push_back({Op::LINE, 66000});
		wide.push_back({Op::UINT, 0x11223344});
		for (long o : {0, 65534, 65536, 131070}) wide.push_back({Op::SEEK, o, 0});
		wide.push_back({Op::SEEK, 65530, 1}), wide.push_back({Op::SEEK, -65537, 2});
		for (int d = 1; d <= r.tier(3, 4); ++d)
			tuples(d, static_cast<int>(wide.size()), [&](auto const& t) { growing(r, "wide", wide, t, 0, d <= 2); });
		// long histories of few operations
		std::vector<Op> h;
		for (long k : {1, 4}) h.push_back({Op::RAW, k});
		h.push_back({Op::USHORT, 0x1234}), h.push_back({Op::STR0, 2});
		h.push_back({Op::SEEK, 0, 0}), h.push_back({Op::SEEK, -2, 1}), h.push_back({Op::SEEK, 0, 2}), h.push_back({Op::SEEK, 1, 2});
		tuples(r.tier(5, 6), static_cast<int>(h.size()), [&](auto const& t) { growing(r, "history", h, t, 0, r.quick()); });
		// every numeric boundary value
		std::vector<Op> nums;
		for (uint32_t v : {0u, 1u, 0x7fu, 0x80u, 0xffu, 0x100u, 0x7fffu, 0x8000u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x7f800000u, 0x7fc00001u, 0x00000001u, 0x12345678u})
			for (auto k : {Op::CHAR, Op::BYTE, Op::UBYTE, Op::SHORT, Op::USHORT, Op::INT, Op::UINT, Op::FLOAT}) nums.push_back({k, static_cast<long>(v)});
		tuples(2, static_cast<int>(nums.size()), [&](auto const& t) { growing(r, "numbers", nums, t, 0, false); });
		// fixed buffers of every small size
		std::vector<Op> fx;
		for (long k : {0, 1, 3, 7, 9}) fx.push_back({Op::RAW, k});
		fx.push_back({Op::UBYTE, 200}), fx.push_back({Op::USHORT, 0xabcd}), fx.push_back({Op::INT, -2}), fx.push_back({Op::STR0, 3}), fx.push_back({Op::LINE, 2});
		fx.push_back({Op::VEC3, 2}), fx.push_back({Op::MAT3, 3});
		for (long o : {0, 3}) fx.push_back({Op::SEEK, o, 0});
		for (long o : {-2, 1}) fx.push_back({Op::SEEK, o, 1});
		for (long o : {-1, 0}) fx.push_back({Op::SEEK, o, 2});
		for (size_t size : {0, 1, 2, 3, 4, 7, 8, 13, 40})
			for (int d = 1; d <= r.tier(3, 4); ++d)
				tuples(d, static_cast<int>(fx.size()), [&](auto const& t) { fixed(r, fx, t, size); });
	}
} // namespace
MC_MAIN(explore)
