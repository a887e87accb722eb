// P08: every typed entry sequence written to an archive is read back unchanged, in all three formats.
#include "armodel.hh"
#include <cfloat>
#include <climits>
using namespace mcz;

namespace {
	std::string every_byte() {
		std::string s;
		for (int i = 0; i < 256; ++i)
			s += static_cast<char>(i);
		return s;
	}

	std::vector<std::vector<Item>> values() {
		std::vector<std::vector<Item>> v(N_ENTRY);
		auto S = [&](Kind k, std::string s, int64_t i = 0) { v[k].push_back({k, std::move(s), i}); };
		auto I = [&](Kind k, int64_t i) { v[k].push_back({k, "", i}); };
		auto F = [&](Kind k, std::vector<float> f) { v[k].push_back({k, "", 0, std::move(f)}); };
		for (auto s : {"", "a", "[]", "[x y 0 0]", "k=v:w", " lead", "trail ", "tab\tin", "\xA7", "%", "END", "string:", "=", ":"})
			S(STR, s);
		S(STR, std::string(300, 'q'));
		for (int64_t i : {0ll, 1ll, -1ll, 9ll, 10ll, -10ll, 2147483647ll, -2147483648ll, -1000000000ll, -999999999ll, 0x0a0d0a0dll, 0x5d5b02ll})
			I(INT, i);
		for (float f : {0.f, 1.f, -1.f, 0.5f, 1e-3f, 123456.789f, FLT_MAX, -FLT_MAX, 16777217.f, 3.1415926f, FLT_MIN})
			F(FLT, {f});
		for (int64_t i : {0, 1, 9, 10, 13, 127, 128, 255})
			I(BYTE, i);
		for (int64_t i : {0, 1, 10, 255, 256, 32767, 32768, 65535})
			I(WORD, i);
		for (int64_t i : {0ll, 1ll, 10ll, 255ll, 256ll, 65536ll, 4294967295ll})
			I(ENUM, i);
		I(BOOL, 0);
		I(BOOL, 1);
		for (int64_t i : {0ll, 0x04030201ll, 0xffffffffll, 0xff000000ll, 0x000000ffll, 0x0a0a0a0all})
			I(COLOR, i);
		F(VEC3, {0, 0, 0});
		F(VEC3, {1, 2, 3});
		F(VEC3, {-1.5f, FLT_MAX, -FLT_MAX});
		F(VEC3, {-FLT_MAX, -FLT_MAX, -FLT_MAX});
		F(VEC2, {0, 0});
		F(VEC2, {-4.25f, 1e6f});
		F(BBOX, {1, 2, 3, 4, 5, 6});
		F(BBOX, {-FLT_MAX, -1, -2, FLT_MAX, 7, 8});
		F(MAT3, {1, 2, 3, 4, 5, 6, 7, 8, 9});
		F(MAT3, {-1.f, 1e-9f, 0, FLT_MAX, 0.1f, 1e20f, -0.f, 5e-5f, 1.17f});
		S(RAW, "");
		S(RAW, "x", 1);
		S(RAW, std::string("\x0f\xf0\x00\x10\x01", 5));
		S(RAW, every_byte(), 1);
		S(RAW, "[]");
		S(RAW, std::string("\x12\x00\x00\x00\x00\x01", 6));
		return v;
	}

	/// the written bytes themselves: number of objects and the name of every entry, found without the library
	void layout(Bytes const& b, std::vector<Item> const& seq, ArchiveFormat f) {
		std::string d(reinterpret_cast<char const*>(b.data()), b.size());
		size_t objects = 0;
		for (auto& i : seq) objects += i.k == BEGIN && !i.s.empty() && i.s != "%";
		size_t p = d.find("\nEND\n");
		check(p != d.npos, "layout", "no end of header");
		p += 5;
		if (f != ArchiveFormat::BINSAFE) {
			check(d.compare(p, 8, "objects ") == 0, "layout", "no object count");
			size_t n = strtoul(d.c_str() + p + 8, nullptr, 10);
			check(n == objects, "object-count", mc::fmt("%s header counts %zu objects, %zu were written", FMT[static_cast<int>(f)], n, objects));
			if (f == ArchiveFormat::BINARY) return;
			p = d.find("\nEND\n", p);
			check(p != d.npos, "layout", "no end of the second header");
			p += 5;
			auto line = [&] {
				for (;;) {
					check(p < d.size(), "layout", "lines are missing");
					auto e = d.find('\n', p);
					if (e == d.npos) e = d.size();
					auto l = d.substr(p, e - p);
					p = e + 1;
					auto q = l.find_first_not_of('\t');
					if (q == l.npos) continue;
					return l.substr(q);
				}
			};
			for (auto& i : seq) {
				auto l = line();
				if (i.k == NIL || i.k == REF) line();
				if (i.k < N_ENTRY) check(l.compare(0, i.name.size() + 1, i.name + "=") == 0, "entry-name", "entry '" + esc(i.name) + "' is stored as '" + esc(l) + "'");
			}
			return;
		}
		auto u = [&](size_t at, size_t n) {
			check(at + n <= d.size(), "layout", "the archive is too short");
			uint64_t v = 0;
			for (size_t i = 0; i < n; ++i) v |= static_cast<uint64_t>(static_cast<uint8_t>(d[at + i])) << (8 * i);
			return v;
		};
		check(u(p + 4, 4) == objects, "object-count", mc::fmt("BINSAFE header counts %zu objects, %zu were written", static_cast<size_t>(u(p + 4, 4)), objects));
		size_t t = u(p + 8, 4), body_end = t;
		std::map<size_t, std::string> keys;
		size_t n = u(t, 4);
		t += 4;
		for (size_t i = 0; i < n; ++i) {
			size_t len = u(t, 2), ix = u(t + 2, 2);
			u(t + 8, len);
			check(keys.emplace(ix, d.substr(t + 8, len)).second, "entry-name", "two keys have the same number");
			t += 8 + len;
		}
		check(t == d.size(), "layout", mc::fmt("the key table ends at %zu of %zu", t, d.size()));
		p += 12;
		static size_t const SIZE[] = {0, 0, 4, 4, 1, 2, 4, 12, 4, 0, 0, 0, 0, 0, 0, 0, 0, 4, 4};
		auto text = [&] {
			check(u(p, 1) == 1, "layout", "object border expected");
			p += 3 + u(p + 1, 2);
		};
		for (auto& i : seq) {
			if (i.k >= N_ENTRY) {
				text();
				if (i.k == NIL || i.k == REF) text();
				continue;
			}
			check(u(p, 1) == 0x12, "layout", "entry expected");
			auto k = keys.find(u(p + 1, 4));
			check(k != keys.end() && k->second == i.name, "entry-name", "entry '" + esc(i.name) + "' is stored as '" + (k == keys.end() ? "?" : esc(k->second)) + "'");
			size_t ty = u(p + 5, 1);
			p += 6;
			if (ty == 1 || ty == 9 || ty == 16) p += 2 + u(p, 2);
			else check(ty < std::size(SIZE) && SIZE[ty], "layout", "unknown type"), p += SIZE[ty];
		}
		check(p == body_end, "layout", mc::fmt("entries end at %zu, the key table is said to start at %zu", p, body_end));
	}

	void round(mc::Run& r, std::vector<Item> const& seq, ArchiveFormat f, bool save, bool probe) {
		for (auto& it : seq)
			if (!in_domain(it, f)) return;
		Bytes b = write_items(seq, f, save);
		r.trans(seq.size() * 2);
		r.outcome(mc::hash_bytes(b.data() + std::min<size_t>(b.size(), 100), b.size() - std::min<size_t>(b.size(), 100)));
		auto rd = Read::from(b);
		auto a = ReadArchive::from(rd.get());
		check(a->is_save_game() == save && a->get_header().format == f, "header", mc::fmt("header says save=%d format=%d want %d %d", a->is_save_game(), static_cast<int>(a->get_header().format), save, static_cast<int>(f)));
		Checker c {*a, f, probe};
		for (size_t i = 0; i < seq.size(); ++i)
			c.item(seq[i]);
		layout(b, seq, f);
	}

	void all_formats(mc::Run& r, char const* fam, std::vector<Item> const& seq, bool both_saves = false) {
		for (int f = 0; f < 3; ++f)
			for (int save = 0; save < (both_saves ? 2 : 1); ++save)
				r.run_case(
				    fam, [&] { round(r, seq, static_cast<ArchiveFormat>(f), save != 0, true); },
				    [&] { return mc::fmt("%s save=%d: %s", FMT[f], save, show(seq).c_str()); });
	}

	Item begin(std::string name, std::string cls, int ver) {
		return {BEGIN, std::move(cls), ver, {}, std::move(name)};
	}
	Item const END_ {END, ""};

	std::string hexed(std::string const& s) {
		std::string o;
		for (unsigned char c : s) o += mc::fmt("%02x", c);
		return o;
	}
	std::string f32(std::initializer_list<float> v) {
		Out o;
		for (float x : v) o.f32(x);
		return o.s;
	}

	/// archives as other writers produce them: other spellings of the same values, more than is needed in an entry,
	/// keys in any order, headers without the optional lines
	void foreign(mc::Run& r) {
		struct F {
			std::string text;         // what follows 'name=' in text archives ("" if not expressible)
			int type;                 // type byte and value for bin-safe archives
			std::string value;
			std::string plain;        // value in plain binary archives
			Item want;
			bool sized = false;       // has a length in bin-safe archives
		};
		auto u32 = [](uint32_t v) {
			Out o;
			o.u32(v);
			return o.s;
		};
		std::string mat, pose;
		for (int i = 0; i < 9; ++i) mat += f32({static_cast<float>(i) + 0.5f});
		std::vector<float> mf;
		for (int c = 0; c < 3; ++c)
			for (int q = 0; q < 3; ++q) mf.push_back(static_cast<float>(q * 3 + c) + 0.5f);
		std::vector<F> list;
		for (int v : {0, 1, 2, 16, 127, 128, 254, 255}) list.push_back({mc::fmt("bool:%d", v), 6, u32(static_cast<uint32_t>(v)), std::string(1, static_cast<char>(v)), {BOOL, "", v != 0}});
		list.push_back({"bool:256", 6, u32(256), "", {BOOL, "", 1}});
		list.push_back({"", 6, u32(0xffffffff), "", {BOOL, "", 1}});
		list.push_back({"int:+17", 2, u32(17), u32(17), {INT, "", 17}});
		list.push_back({"int:00017", 2, u32(17), u32(17), {INT, "", 17}});
		list.push_back({"int: 17", 2, u32(17), u32(17), {INT, "", 17}});
		list.push_back({"int:17   ", 2, u32(17), u32(17), {INT, "", 17}});
		list.push_back({"float:-2.5e+002", 3, f32({-250}), f32({-250}), {FLT, "", 0, {-250}}});
		list.push_back({"float:12", 3, f32({12}), f32({12}), {FLT, "", 0, {12}}});
		list.push_back({"float:.5", 3, f32({0.5f}), f32({0.5f}), {FLT, "", 0, {0.5f}}});
		list.push_back({"vec3:1 2.25 -3e2", 7, f32({1, 2.25f, -300}), f32({1, 2.25f, -300}), {VEC3, "", 0, {1, 2.25f, -300}}});
		list.push_back({"vec3:  1   2.25  -300 ", 7, f32({1, 2.25f, -300}), f32({1, 2.25f, -300}), {VEC3, "", 0, {1, 2.25f, -300}}});
		list.push_back({"color:1 2 3 255", 8, std::string("\x03\x02\x01\xff", 4), std::string("\x03\x02\x01\xff", 4), {COLOR, "", 0xff030201ll}});
		list.push_back({"color:200 0 128 0 ", 8, std::string("\x80\x00\xc8\x00", 4), std::string("\x80\x00\xc8\x00", 4), {COLOR, "", 0x008000c8ll}});
		for (size_t extra : {0, 1, 2, 3, 4, 6, 8, 40, 300}) { // in bytes
			std::string more(extra, '\x41'), fm;
			for (size_t i = 0; i < extra / 4; ++i) fm += " 12.5";
			list.push_back({"rawFloat:7.5 -8" + fm, 16, f32({7.5f, -8}) + more, extra ? "" : f32({7.5f, -8}), {VEC2, "", 0, {7.5f, -8}}, true});
			list.push_back({"rawFloat:1 2 3 4 5 6" + fm, 16, f32({1, 2, 3, 4, 5, 6}) + more, extra ? "" : f32({1, 2, 3, 4, 5, 6}), {BBOX, "", 0, {1, 2, 3, 4, 5, 6}}, true});
			list.push_back({"raw:" + hexed(mat + more), 9, mat + more, extra ? "" : mat, {MAT3, "", 0, mf}, true});
		}
		{
			std::string upper = hexed(mat);
			for (auto& c : upper) c = static_cast<char>(toupper(c));
			list.push_back({"raw:" + upper, 9, mat, mat, {MAT3, "", 0, mf}, true});
		}
		for (auto t : {"=", ":", "a=b:c", "string:x", "[]", "[a b 1 2]", " x", "x ", "\t", ""}) list.push_back({std::string("string:") + t, 1, t, std::string(t) + '\0', {STR, t}, true});
		auto entry_bs = [&](F const& e, uint32_t key) {
			Out o;
			o.u8(0x12);
			o.u32(key);
			o.u8(static_cast<uint8_t>(e.type));
			if (e.sized) o.u16(static_cast<uint16_t>(e.value.size()));
			o.str(e.value);
			return o.s;
		};
		static char const* HEADS[] = {"date 1.1.2001 00:00:00\nuser me\n", "", "user me\n", "date 1.1.2001 00:00:00\n", "date 31.12.1999 23:59:59\nuser some one else\n", "date \nuser \n"};
		F mark {"int:4711", 2, u32(4711), u32(4711), {INT, "", 4711}};
		for (size_t h = 0; h < std::size(HEADS); ++h)
			for (size_t i = 0; i < list.size(); ++i)
				for (int f = 0; f < 3; ++f)
					for (int v = 0; v < 3; ++v) { // text: indentation; bin-safe: order of the keys
						auto& e = list[i];
						if (f == 0 && (e.plain.empty() || v)) continue;
						if (f == 2 && e.text.empty()) continue;
						r.run_case(
						    "foreign",
						    [&] {
							    static char const* N[] = {"zCArchiverBinary\nBINARY", "zCArchiverBinSafe\nBIN_SAFE", "zCArchiverGeneric\nASCII"};
							    std::string head = std::string("ZenGin Archive\nver 1\n") + N[f] + "\nsaveGame " + (h % 2 ? "1" : "0") + "\n" + HEADS[h] + "END\n", d;
							    if (f == 0) d = head + "objects 1        \nEND\n\n" + mark.plain + e.plain + mark.plain;
							    else if (f == 2) {
								    std::string in(static_cast<size_t>(v), '\t');
								    d = head + "objects 1        \nEND\n\n" + in + "mark=" + mark.text + "\n" + in + "value" + std::string(v == 2 ? " " : "") + "=" + e.text + "\n" + in + "mark=" + mark.text + "\n";
							    } else {
								    std::string body = entry_bs(mark, 0) + entry_bs(e, 1) + entry_bs(mark, 0);
								    Out o;
								    o.str(head);
								    o.u32(2);
								    o.u32(1);
								    o.u32(static_cast<uint32_t>(head.size() + 12 + body.size()));
								    o.str(body);
								    std::vector<std::pair<uint16_t, std::string>> keys {{0, "mark"}, {1, "value"}, {2, "unused"}};
								    std::rotate(keys.begin(), keys.begin() + v, keys.end());
								    o.u32(3);
								    for (auto& [ix, key] : keys) o.u16(static_cast<uint16_t>(key.size())), o.u16(ix), o.u32(static_cast<uint32_t>(v) * 7), o.str(key);
								    d = o.s;
							    }
							    auto in = rd(d);
							    auto ar = ReadArchive::from(in.get());
							    auto& hd = ar->get_header();
							    check(hd.version == 1 && hd.save == (h % 2 != 0) && static_cast<int>(hd.format) == f, "header", "header fields");
							    static char const* U[] = {"me", "", "me", "", "some one else", ""};
							    static char const* D[] = {"1.1.2001 00:00:00", "", "", "1.1.2001 00:00:00", "31.12.1999 23:59:59", ""};
							    check(hd.user == U[h] && hd.date == D[h], "header", "user '" + hd.user + "', date '" + hd.date + "'");
							    Checker c {*ar, static_cast<ArchiveFormat>(f), false};
							    r.trans(3);
							    c.entry(mark.want);
							    c.entry(e.want);
							    c.entry(mark.want);
							    r.outcome(e.text);
						    },
						    [&] { return mc::fmt("%s (variant %d, header %zu): %s", FMT[f], v, h, esc(e.text.empty() ? e.value : e.text, 60).c_str()); });
					}
	}

	void explore(mc::Run& r) {
		quiet_log();
		auto V = values();
		std::vector<Item> all;
		for (auto& v : V)
			for (auto& i : v)
				all.push_back(i);

		// single entries and all pairs, alone and inside an object
		for (auto& a : all) {
			all_formats(r, "single", {a}, true);
			all_formats(r, "single-in-object", {begin("o", "c", 1), a, END_}, true);
		}
		for (auto& a : all)
			for (auto& b : all) {
				all_formats(r, "pair", {begin("o", "c", 1), a, b, END_});
				all_formats(r, "pair-across-objects", {begin("o", "c", 1), a, END_, begin("p", "d", 2), b, END_});
			}

		// all sequences of entry types (one value each, rotating), with structure items mixed in
		int n_struct = N_ENTRY + 3;
		for (int len = 1; len <= r.tier(4, 5); ++len)
			tuples(len, n_struct, [&](std::vector<int> const& t) {
				int depth = 0, objs = 0;
				std::vector<Item> seq;
				for (size_t i = 0; i < t.size(); ++i) {
					if (t[i] < N_ENTRY)
						seq.push_back(V[static_cast<size_t>(t[i])][(i * 2 + 1) % V[static_cast<size_t>(t[i])].size()]);
					else if (t[i] == N_ENTRY) {
						seq.push_back(begin(mc::fmt("o%zu", i), i % 2 ? "zCVob" : "a:b:c", static_cast<int>(i)));
						++depth;
						++objs;
					} else if (t[i] == N_ENTRY + 1) {
						if (depth == 0) return;
						seq.push_back(END_);
						--depth;
					} else
						seq.push_back({NIL, "", 0, {}, "%"});
				}
				while (depth-- > 0)
					seq.push_back(END_);
				for (size_t i = 0; i < seq.size(); ++i)
					if (seq[i].k < N_ENTRY) seq[i].name = mc::fmt("k%zu", i % 3);
				if (r.quick() && len == 4 && objs == 0) return;
				all_formats(r, "sequence", seq);
			});

		// entry-count, size and name-length sweeps
		for (int n = 0; n <= r.tier(1100, 2400); ++n) {
			all_formats(r, "first-object-size", {begin("o", "c", 0), Item {STR, std::string(static_cast<size_t>(n), 'z')}, END_});
			for (auto edge : {' ', '\t', '=', ']'}) {
				if (n == 0) continue;
				std::string t(static_cast<size_t>(n), 'z');
				t.back() = edge;
				all_formats(r, "string-size", {Item {STR, t}, Item {INT, "", n}});
				std::swap(t.front(), t.back());
				all_formats(r, "string-size", {Item {STR, t}, Item {INT, "", n}});
			}
			if (n % 3 == 0) all_formats(r, "raw-size", {begin("o", "c", 0), Item {RAW, std::string(static_cast<size_t>(n), '\n')}, Item {INT, "", n}, END_});
		}
		for (size_t n : {65535ul, 65534ul, 32768ul, 32767ul, 4096ul, 4095ul})
			for (auto k : {STR, RAW})
				all_formats(r, "long", {begin("o", "c", 0), Item {k, std::string(n, k == STR ? 'l' : '\x9c')}, Item {INT, "", 7}, END_, begin("p", "d", 3), END_});
		for (size_t n = 1; n <= 127; ++n) {
			std::string nm(n, 'N');
			all_formats(r, "object-names", {begin(nm, "c", 65535), Item {INT, "", 1}, END_, Item {REF, "", 4000000000ll, {}, nm}, Item {NIL, "", 0, {}, nm}});
			all_formats(r, "object-names", {begin("o", nm, 256), Item {INT, "", 1, {}, nm}, END_});
			all_formats(r, "object-names", {begin(nm, nm, 9), begin("o", nm, 10), END_, END_});
			all_formats(r, "entry-names", {begin("o", "c", 9), Item {INT, "", 1, {}, nm + "a"}, Item {STR, "x", 0, {}, nm + "b"}, Item {INT, "", 2, {}, nm}, Item {INT, "", 3, {}, nm + "a"}, Item {VEC3, "", 0, {1, 2, 3}, nm + "B"}, END_});
		}
		for (int n = 0; n <= 70; ++n) {
			std::vector<Item> many, deep, objs;
			for (int i = 0; i < n * 5; ++i)
				many.push_back({INT, "", i, {}, mc::fmt("key%d", i * 7919 % 1009)});
			for (int i = 0; i < n; ++i)
				deep.push_back(begin("d", "D", i));
			for (int i = 0; i < n; ++i)
				deep.push_back(END_);
			for (int i = 0; i < n; ++i) {
				objs.push_back(begin("d", "D", i));
				objs.push_back(END_);
			}
			all_formats(r, "many-keys", many);
			all_formats(r, "deep", deep);
			all_formats(r, "many-objects", objs);
		}

		// archives which start behind other data
		for (int pre = 0; pre <= r.tier(70, 600); ++pre)
			for (int f = 0; f < 3; ++f)
				for (int post = 0; post < 2; ++post)
					r.run_case(
					    "behind-other-data",
					    [&] {
						    std::vector<Item> seq {begin("o", "c", 1), V[STR][1], V[INT][6], begin("p", "d", 3), V[RAW][3], V[STR][2], END_, V[WORD][2], END_, Item {NIL, "", 0, {}, "%"}};
						    Bytes b;
						    auto w = Write::to(&b);
						    w->write_string(std::string(static_cast<size_t>(pre), '\n'));
						    {
							    auto ar = WriteArchive::to(w.get(), static_cast<ArchiveFormat>(f));
							    for (auto& i : seq) put(*ar, i);
							    ar->write_header();
						    }
						    if (post) {
							    w->seek(0, Whence::END);
							    w->write_string("[x y 0 0]");
						    }
						    auto rd = Read::from(b);
						    rd->seek(pre, Whence::BEG);
						    auto a = ReadArchive::from(rd.get());
						    Checker c {*a, static_cast<ArchiveFormat>(f), false};
						    for (auto& i : seq) c.item(i);
						    r.trans(2 * seq.size());
						    r.outcome(mc::hash_bytes(b.data(), b.size()));
					    },
					    [&] { return mc::fmt("%s archive behind %d other bytes%s", FMT[f], pre, post ? " and before others" : ""); });

		// complete value ranges of the small types
		for (int blk = 0; blk < 256; ++blk) {
			std::vector<Item> bytes, words, raws, ints;
			for (int i = 0; i < 256; ++i) {
				words.push_back({WORD, "", blk * 256 + i});
				raws.push_back({RAW, std::string {static_cast<char>(blk), static_cast<char>(i)}});
				ints.push_back({INT, "", static_cast<int32_t>(0x01010101u * static_cast<uint32_t>(blk) ^ (0x80u << 24) >> (i % 32))});
				if (blk == 0) bytes.push_back({BYTE, "", i});
			}
			all_formats(r, "every-word", words);
			all_formats(r, "every-byte-pair-raw", raws);
			all_formats(r, "ints", ints);
			if (blk == 0) all_formats(r, "every-byte", bytes);
			std::string c(1, static_cast<char>(blk));
			all_formats(r, "every-char", {Item {STR, c}, Item {STR, "a" + c}, Item {STR, c + "a"}, Item {STR, "a" + c + "b"}});
			all_formats(r, "every-colour", {Item {COLOR, "", blk}, Item {COLOR, "", static_cast<int64_t>(blk) << 8}, Item {COLOR, "", static_cast<int64_t>(blk) << 16}, Item {COLOR, "", static_cast<int64_t>(blk) << 24}});
		}
		// every single-bit and exponent pattern of floats
		for (int e = 0; e < 255; ++e)
			for (uint32_t m : {0u, 1u, 0x400000u, 0x7fffffu, 0x2aaaaau})
				for (uint32_t s : {0u, 1u}) {
					uint32_t u = s << 31 | static_cast<uint32_t>(e) << 23 | m;
					float x;
					memcpy(&x, &u, 4);
					all_formats(r, "float-patterns", {Item {FLT, "", 0, {x}}, Item {VEC3, "", 0, {x, -x, 1}}, Item {VEC2, "", 0, {1, x}}, Item {BBOX, "", 0, {x, 0, 1, 2, 3, x}}, Item {MAT3, "", 0, {x, 0, 1, 2, 3, x, 4, 5, x}}});
				}

		// reading an entry as another type is an error in the self-describing formats
		auto rep = [](int k, int f) {
			if (f == 2) return k == BYTE || k == WORD ? static_cast<int>(INT) : k == BBOX ? static_cast<int>(VEC2) : k == MAT3 ? static_cast<int>(RAW) : k;
			return k == BBOX ? static_cast<int>(VEC2) : k == MAT3 ? static_cast<int>(RAW) : k;
		};
		for (int f = 1; f < 3; ++f)
			for (auto& a : all)
				for (int k = 0; k < N_ENTRY; ++k)
					if (rep(a.k, f) != rep(k, f))
						r.run_case(
						    "type-mismatch",
						    [&] {
							    if (!in_domain(a, static_cast<ArchiveFormat>(f))) return;
							    Bytes b = write_items({begin("o", "c", 1), a, END_}, static_cast<ArchiveFormat>(f), false);
							    auto rd = Read::from(b);
							    auto ar = ReadArchive::from(rd.get());
							    ArchiveObject o;
							    check(ar->read_object_begin(o), "no-begin", "object not found");
							    r.trans();
							    try {
								    Item got = get(*ar, static_cast<Kind>(k));
								    mc::fail("mismatch-accepted", mc::fmt("%s: %s was read as %s", FMT[f], show(a).c_str(), show(got).c_str()));
							    } catch (mc::Failure const&) {
								    throw;
							    } catch (zenkit::Error const&) {
								    r.outcome("error");
							    }
						    },
						    [&] { return mc::fmt("%s: %s read as %s", FMT[f], show(a).c_str(), KIND[k]); });

		foreign(r);

		// an object or an object end where an entry is expected
		for (int f = 1; f < 3; ++f)
			for (int k = 0; k < N_ENTRY; ++k)
				for (int what = 0; what < 2; ++what)
					r.run_case(
					    "entry-expected",
					    [&] {
						    Bytes b = write_items({begin("o", "c", 1), begin("p", "d", 1), END_, END_}, static_cast<ArchiveFormat>(f), false);
						    auto rd = Read::from(b);
						    auto ar = ReadArchive::from(rd.get());
						    ArchiveObject o;
						    check(ar->read_object_begin(o), "no-begin", "object not found");
						    if (what == 1) {
							    check(ar->read_object_begin(o) && ar->read_object_end(), "no-begin", "object not found");
						    }
						    r.trans();
						    try {
							    Item got = get(*ar, static_cast<Kind>(k));
							    mc::fail("marker-accepted", mc::fmt("%s: object marker was read as %s", FMT[f], show(got).c_str()));
						    } catch (mc::Failure const&) {
							    throw;
						    } catch (zenkit::Error const&) {
							    r.outcome("error");
						    }
					    },
					    [&] { return mc::fmt("%s: %s read where an object %s", FMT[f], KIND[k], what ? "ends" : "begins"); });
	}
} // namespace
MC_MAIN(explore)
