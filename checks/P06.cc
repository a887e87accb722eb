// P06: save -> mount is the identity on every small tree, for both game versions, plain and compressed.
// config: asan bare
#include "vfsmodel.hh"
#include <fstream>
using namespace mcz;
namespace fs = std::filesystem;

namespace {
	/// directories without any file below cannot be stored in an image
	bool prune(MNode& d) {
		for (auto it = d.ch.begin(); it != d.ch.end();) {
			if (it->second.dir && prune(it->second))
				it = d.ch.erase(it);
			else
				++it;
		}
		return d.ch.empty();
	}
	MNode stamped(MNode m, time_t t) {
		m.time = t;
		for (auto& [k, c] : m.ch) c = stamped(c, t);
		return m;
	}

	std::string content(size_t n, int salt) {
		std::string s;
		uint32_t x = static_cast<uint32_t>(salt) * 2654435761u + 12345;
		for (size_t i = 0; i < n; ++i) {
			x = x * 1664525u + 1013904223u;
			s += static_cast<char>(i % 3 ? x >> 24 : 'z'); // half compressible
		}
		return s;
	}

#ifdef _ZK_WITH_ZIPPED_VDF
	std::vector<bool> const ZIP {false, true};
#else
	std::vector<bool> const ZIP {false};
#endif
	enum Sink { VEC, FILEP, SSTREAM };
	std::string save(Vfs const& v, GameVersion g, bool z, time_t t, Sink k, mc::Run& r) {
		auto go = [&](Write* w) {
#ifdef _ZK_WITH_ZIPPED_VDF
			if (z)
				v.save_compressed(w, g, t);
			else
#endif
				v.save(w, g, t);
		};
		if (k == VEC) {
			Bytes b;
			auto w = Write::to(&b);
			go(w.get());
			return to_str(b);
		}
		if (k == FILEP) {
			auto p = r.scratch + "/s.vdf";
			{
				auto w = Write::to(fs::path(p));
				go(w.get());
			}
			std::ifstream f(p, std::ios::binary);
			std::stringstream ss;
			ss << f.rdbuf();
			return ss.str();
		}
		std::ostringstream os;
		auto w = Write::to(&os);
		go(w.get());
		return os.str();
	}

	/// reads an image independently of the library and compares it with the tree
	void layout(std::string const& img, MNode const& want, bool z) {
		auto u32 = [&](size_t o) {
			check(o + 4 <= img.size(), "layout-short", mc::fmt("field at %zu is behind the end of the image (%zu bytes)", o, img.size()));
			uint32_t v;
			memcpy(&v, img.data() + o, 4);
			return v;
		};
		uint32_t entries = u32(272), files = u32(276), cat = u32(288), flags = u32(292), seen = 0, nf = 0;
		check(flags == (z ? 0xA0u : 0x50u), "layout-flags", mc::fmt("volume flags are %08x", flags));
		std::vector<bool> used(entries);
		std::function<void(uint32_t, MNode const&, std::string const&)> dir = [&](uint32_t i, MNode const& d, std::string const& path) {
			std::set<std::string> got;
			for (bool last = d.ch.empty(); !last; ++i) {
				check(i < entries, "layout-index", mc::fmt("%s refers to entry %u of %u", path.c_str(), i, entries));
				check(!used[i], "layout-index", mc::fmt("entry %u is used twice", i));
				used[i] = true;
				++seen;
				size_t at = cat + size_t(i) * 80;
				uint32_t off = u32(at + 64), sz = u32(at + 68), ty = u32(at + 72);
				(void) u32(at + 76);
				auto nm = img.substr(at, 64);
				while (!nm.empty() && nm.back() == ' ') nm.pop_back();
				last = (ty & 0x40000000u) != 0;
				auto it = d.ch.find(low(nm));
				check(it != d.ch.end() && got.insert(low(nm)).second, "layout-name", mc::fmt("unexpected entry '%s' in %s", esc(nm).c_str(), path.c_str()));
				check(it->second.name == nm, "layout-name", mc::fmt("entry is named '%s', not '%s'", esc(nm).c_str(), esc(it->second.name).c_str()));
				check(((ty & 0x80000000u) != 0) == it->second.dir, "layout-type", mc::fmt("type of '%s' is %08x", esc(nm).c_str(), ty));
				if (it->second.dir) {
					dir(off, it->second, path + "/" + nm);
					continue;
				}
				++nf;
				auto& c = it->second.content;
				check(sz == c.size(), "layout-size", mc::fmt("size of '%s' is %u, not %zu", esc(nm).c_str(), sz, c.size()));
				if (!z) check(off <= img.size() && img.compare(off, sz, c) == 0, "layout-data", mc::fmt("data of '%s' is not at %u", esc(nm).c_str(), off));
			}
			check(got.size() == d.ch.size(), "layout-missing", mc::fmt("%zu of %zu entries of %s", got.size(), d.ch.size(), path.c_str()));
		};
		dir(0, want, "");
		check(seen == entries, "layout-count", mc::fmt("header says %u entries, catalog has %u", entries, seen));
		check(nf == files, "layout-count", mc::fmt("header says %u files, catalog has %u", files, nf));
	}

	void roundtrip(mc::Run& r, MNode const& tree, GameVersion g, bool z, time_t t, Sink sink = VEC, int gens = 1) {
		std::vector<std::unique_ptr<std::byte[]>> keep;
		auto v = std::make_unique<Vfs>();
		for (auto& [k, c] : tree.ch) v->mount(real(c, keep, true), "/");
		MNode want = stamped(tree, t - (t & 1));
		prune(want);
		want.time = ANY_TIME; // the root itself is not stored
		for (int gen = 0; gen < gens; ++gen) {
			auto img = save(*v, g, z, t, sink, r);
			r.trans();
			check(img.size() >= 296, "image-size", mc::fmt("image has only %zu bytes", img.size()));
			check(img.compare(256, 16, g == GameVersion::GOTHIC_1 ? "PSVDSC_V2.00\r\n\r\n" : "PSVDSC_V2.00\n\r\n\r", 16) == 0, "signature", "wrong signature");
			layout(img, want, z);
			auto n = std::make_unique<Vfs>();
			if (gen % 2 == 0) {
				auto s = rd(img);
				n->mount_disk(s.get());
			} else {
				auto p = r.scratch + "/m.vdf";
				std::ofstream(p, std::ios::binary) << img;
				n->mount_disk(fs::path(p));
			}
			same(n->root(), want, "", false);
			v = std::move(n);
			r.outcome(img);
			if (gens > 1) z = !z && ZIP.size() > 1; // next generation the other way round
		}
	}

	/// all forests with exactly n nodes; leaves are files or empty directories
	void forests(int n, std::vector<std::string> const& names, std::function<void(MNode const&)> const& f) {
		// recursive enumeration of ordered forests: first tree of size k, rest n-k
		std::function<void(int, size_t, std::function<void(std::vector<MNode> const&)> const&)> gen =
		    [&](int m, size_t name, std::function<void(std::vector<MNode> const&)> const& out) {
			    if (m == 0) {
				    out({});
				    return;
			    }
			    if (name >= names.size()) return;
			    for (int k = 1; k <= m; ++k)
				    gen(k - 1, 0, [&](std::vector<MNode> const& sub) {
					    for (int kind = 0; kind < (k == 1 ? 2 : 1); ++kind) {
						    MNode t = k == 1 && kind == 0 ? mfile(names[name], "", 0) : mdir(names[name]);
						    for (auto& c : sub) t.ch[low(c.name)] = c;
						    gen(m - k, name + 1, [&](std::vector<MNode> const& rest) {
							    std::vector<MNode> all {t};
							    all.insert(all.end(), rest.begin(), rest.end());
							    out(all);
						    });
					    }
				    });
		    };
		gen(n, 0, [&](std::vector<MNode> const& v) {
			MNode root = mdir("/");
			for (auto& c : v) root.ch[low(c.name)] = c;
			f(root);
		});
	}
	void fill(MNode& d, int& i, int mode) {
		for (auto& [k, c] : d.ch) {
			if (c.dir)
				fill(c, i, mode);
			else {
				static size_t const sz[] = {0, 1, 5, 300};
				c.content = content(sz[(mode >> (2 * (i % 4))) & 3], i);
				++i;
			}
		}
	}

	void explore(mc::Run& r) {
		quiet_log();
		fs::create_directories(r.scratch);
		time_t T0 = utc(2004, 2, 29, 23, 59, 58);
		std::vector<std::string> names {"b", "A", "_c.wav", "d", "E"};
		GameVersion gv[] = {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2};
		for (int n = 0; n <= r.tier(5, 6); ++n)
			forests(n, names, [&](MNode const& shape) {
				for (int mode : {0xff, 0x1b, 0x00, 0xc6}) {
					MNode t = shape;
					int i = 0;
					fill(t, i, mode);
					for (auto g : gv)
						for (bool z : ZIP)
							r.run_case(
							    "trees", [&] { roundtrip(r, t, g, z, T0, n <= 2 ? static_cast<Sink>(mode % 3) : VEC, n <= 3 ? 3 : 1); },
							    [&] { return mc::fmt("%s %s G%d", z ? "compressed" : "plain", t.canon().substr(0, 400).c_str(), g == GameVersion::GOTHIC_1 ? 1 : 2); });
				}
			});
		// sizes around the compression block, names that are stored raw in compressed images, all sinks
		size_t const sz[] = {0, 1, 2, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 40000};
		for (auto a : {"a.bin", "a.wav", "x.OGG", "wav", ".wav"})
			for (auto s1 : sz)
				for (auto s2 : {size_t(0), size_t(1), size_t(8192), size_t(9000)})
					for (bool z : ZIP)
						for (int k = 0; k < 3; ++k)
							r.run_case(
							    "sizes",
							    [&] {
								    MNode t = mdir("/") + mfile(a, content(s1, 1), 0) + mfile("m", content(s2, 2), 0) + mfile("zz.WAV", content(s2, 3), 0);
								    roundtrip(r, t, gv[s1 % 2], z, T0, static_cast<Sink>(k), 2);
							    },
							    [&] { return mc::fmt("%s(%zu) + m(%zu) + zz.WAV(%zu) %s sink %d", a, s1, s2, s2, z ? "compressed" : "plain", k); });
		// names
		std::string long64, long63;
		for (int i = 0; i < 64; ++i) long64 += static_cast<char>('A' + i % 26);
		long63 = long64.substr(1);
		std::vector<std::string> nn {"x", " lead", "in ner", "tab\tx", "dot.", ".d", long63, long64, "\xc4\xd6", "\x01", "a\\b", "\xff", "0", std::string(64, 'q')};
		for (size_t a = 0; a < nn.size(); ++a)
			for (size_t b = 0; b < nn.size(); ++b)
				for (bool z : ZIP)
					r.run_case(
					    "names",
					    [&] {
						    MNode t = mdir("/") + mfile(nn[a], "A", 0) + (mdir(nn[b] == nn[a] ? nn[(b + 1) % nn.size()] : nn[b]) + mfile(nn[a], "inner", 0));
						    roundtrip(r, t, gv[1], z, T0);
					    },
					    [&] { return "file '" + esc(nn[a]) + "' directory '" + esc(nn[b]) + "'"; });
		// wide and deep
		for (int n : {1, 2, 3, 50, 300, 1000})
			for (bool z : ZIP) {
				r.run_case(
				    "wide",
				    [&] {
					    MNode t = mdir("/");
					    for (int i = 0; i < n; ++i) {
						    auto nm = mc::fmt("n%d", i * 7919 % 10007);
						    t.ch[nm] = i % 5 == 4 ? mdir(nm) + mfile("c", content(static_cast<size_t>(i % 9), i), 0) : mfile(nm, content(static_cast<size_t>(i % 7), i), 0);
					    }
					    roundtrip(r, t, gv[0], z, T0);
				    },
				    [&] { return mc::fmt("%d siblings", n); });
				if (n <= 50)
					r.run_case(
					    "deep",
					    [&] {
						    MNode t = mfile("leaf", "deep", 0);
						    for (int i = 0; i < n; ++i) t = mdir(mc::fmt("d%d", i)) + t + mfile("f", content(3, i), 0);
						    roundtrip(r, mdir("/") + t, gv[1], z, T0);
					    },
					    [&] { return mc::fmt("%d levels", n); });
			}
		// timestamps: every calendar boundary of the DOS format, several time zones
		int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
		for (int y : {1980, 1999, 2000, 2001, 2004, 2037, 2100, 2107})
			for (int m = 1; m <= 12; ++m)
				for (int d : {1, 15, 28, 29, 30, 31}) {
					int dm = days[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0));
					if (d > dm) continue;
					for (auto [h, mi, s] : {std::array<int, 3> {0, 0, 0}, {23, 59, 59}, {2, 30, 1}, {12, 34, 56}})
						for (auto tz : {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT"}) {
							r.run_case(
							    "timestamps",
							    [&] {
								    setenv("TZ", tz, 1);
								    tzset();
								    struct R {
									    ~R() {
										    setenv("TZ", "UTC", 1);
										    tzset();
									    }
								    } restore;
								    roundtrip(r, mdir("/") + mfile("f", "x", 0), gv[0], false, utc(y, m, d, h, mi, s));
							    },
							    [&] { return mc::fmt("%04d-%02d-%02d %02d:%02d:%02d UTC, TZ=%s", y, m, d, h, mi, s, tz); });
						}
				}
	}
} // namespace
MC_MAIN(explore)
