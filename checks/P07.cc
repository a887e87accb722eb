// P07: damaged disk images -- every truncation, every field corruption from a boundary menu, pairs of corruptions.
// config: asan bare
#define MC_LIMIT_ALLOC 256
#include "vfsmodel.hh"
using namespace mcz;

namespace {
	void walk(VfsNode const& n, mc::Run& r, std::string& sum, int depth) {
		if (n.type() == VfsNodeType::FILE) {
			auto c = read_all(n);
			sum += mc::fmt("F%zu,", c.size());
			// seeking inside must be safe as well
			auto s = n.open_read();
			s->seek(0, Whence::END);
			(void) s->read_uint();
			s->seek(-1, Whence::CUR);
			(void) s->read_uint();
			s->seek(static_cast<ssize_t>(c.size() / 2), Whence::BEG);
			(void) s->read_mat4();
			s->seek(1, Whence::BEG);
			(void) !s->read_string(c.size()).size();
			s->seek(0, Whence::BEG);
			(void) s->read_line(true);
			r.trans();
			return;
		}
		sum += "D(";
		for (auto& c : n.children()) walk(c, r, sum, depth + 1);
		sum += ")";
	}

	void attack(mc::Run& r, std::string const& img) {
		std::string sum;
		Vfs v;
		try {
			// exact-size heap block inside
			auto s = rd(img);
			v.mount_disk(s.get(), VfsOverwriteBehavior::ALL);
			sum = "ok ";
		} catch (mc::Failure const&) {
			throw;
		} catch (std::exception const& e) { sum = "rejected "; }
		walk(v.root(), r, sum, 0);
		++r.counters[sum.substr(0, 2) == "ok" ? "mounted" : "rejected"];
		r.outcome(sum);
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 3;
		std::vector<std::pair<std::string, Disk>> imgs;
		uint32_t dos = dos_time(2002, 2, 2, 2, 2, 2);
		auto t1 = mdir("/") + mfile("f", "hello", 0);
		auto t2 = mdir("/") + (mdir("d") + mfile("x", "abc", 0)) + mfile("g", "", 0);
		auto t3 = mdir("/") + (mdir("a") + (mdir("b") + mfile("x", "abcdefghij", 0)) + mfile("y", "Y", 0)) + (mdir("c") + mfile("z", "zz", 0));
		for (auto& [n, t] : {std::pair {"one", t1}, {"dir", t2}, {"nested", t3}})
			for (int z = 0; z < 3; ++z)
				for (bool last : {false, true})
#ifndef _ZK_WITH_ZIPPED_VDF
					if (z == 0 || n == std::string_view("one"))
#endif
						imgs.emplace_back(mc::fmt("%s%s%s", n, z == 0 ? "" : z == 1 ? "/zip4" : "/zip8192", last ? "/catalog-last" : ""), disk_image(t, dos, last ? 0 : z == 0 ? 2 : 1, z > 0, z == 1 ? 4 : 8192, last, false));
		imgs.emplace_back("zero-offset", disk_image(t3, dos, 1, false, 8192, false, true));
		imgs.emplace_back("empty", disk_image(mdir("/"), dos));

		for (auto& [name, d] : imgs) {
			std::string const& s = d.s;
			auto n = static_cast<uint32_t>(s.size());
			for (size_t cut = 0; cut <= s.size(); ++cut)
				r.run_case("truncated", [&] { attack(r, s.substr(0, cut)); }, [&] { return mc::fmt("%s cut to %zu of %u bytes", name.c_str(), cut, n); });
			// fields
			std::vector<size_t> fields;
			for (size_t o = 272; o < 296; o += 4) fields.push_back(o);
			for (auto& e : d.entries)
				for (size_t o = 64; o < 76; o += 4) fields.push_back(e.at + o);
			bool zip = name.find("zip") != std::string::npos;
			if (zip)
				for (size_t p : d.data)
					for (size_t o = 0; o < 24 && p + o + 4 <= s.size(); o += 4) fields.push_back(p + o);
			auto get = [&](size_t o) { uint32_t v; memcpy(&v, s.data() + o, 4); return v; };
			auto put = [](std::string& x, size_t o, uint32_t v) { memcpy(x.data() + o, &v, 4); };
			auto menu = [&](size_t o) {
				uint32_t v = get(o);
				std::vector<uint32_t> m {0, 1, 2, 3, 4, 5, 8, 50, 79, 80, 81, 296, n - 1, n, n + 1, n - 80, 0x7fffffff, 0x80000000, 0x80000001, 0x40000000, 0xC0000000, 0xfffffff0, 0xffffffff, v + 1, v - 1, v ^ 0x80000000, v ^ 0x40000000, v + 80, 0x03333333, 0x03333334, 0x00ffffff, 0xffffffff - v, 0u - v, 0xA0, 0x50};
				std::sort(m.begin(), m.end());
				m.erase(std::unique(m.begin(), m.end()), m.end());
				std::erase(m, v);
				return m;
			};
			for (size_t f : fields)
				for (uint32_t v : menu(f))
					r.run_case(
					    "field",
					    [&] {
						    std::string x = s;
						    put(x, f, v);
						    attack(r, x);
					    },
					    [&] { return mc::fmt("%s: u32 at %zu (%08x) := %08x", name.c_str(), f, get(f), v); });
			// every byte
			for (size_t o = 0; o < s.size(); ++o) {
				if (o >= 8 && o < 250) continue; // comment
				for (int k = 0; k < 4; ++k)
					r.run_case(
					    "byte",
					    [&] {
						    std::string x = s;
						    char c[] = {0, static_cast<char>(0xff), static_cast<char>(x[o] ^ 1), static_cast<char>(x[o] ^ 0x80)};
						    x[o] = c[k];
						    attack(r, x);
					    },
					    [&] { return mc::fmt("%s: byte at %zu variant %d", name.c_str(), o, k); });
			}
			// pairs of fields
			std::vector<uint32_t> pm {0, 1, 2, 80, n - 1, n, 0x7fffffff, 0x80000000, 0x40000000, 0xC0000000, 0xffffffff};
			if (!r.quick() || name == "dir" || name == "dir/zip4" || name == "one/zip8192")
				for (size_t a = 0; a < fields.size(); ++a)
					for (size_t b = a + 1; b < fields.size(); ++b)
						for (uint32_t va : pm)
							for (uint32_t vb : pm)
								r.run_case(
								    "field-pair",
								    [&] {
									    std::string x = s;
									    put(x, fields[a], va);
									    put(x, fields[b], vb);
									    attack(r, x);
								    },
								    [&] { return mc::fmt("%s: u32 at %zu := %08x, u32 at %zu := %08x", name.c_str(), fields[a], va, fields[b], vb); });
			// truncation x field
			if (!r.quick())
				for (size_t cut = 272; cut < s.size(); cut += 3)
					for (size_t f : fields)
						for (uint32_t v : pm)
							if (f + 4 <= cut)
								r.run_case(
								    "cut-and-field",
								    [&] {
									    std::string x = s.substr(0, cut);
									    put(x, f, v);
									    attack(r, x);
								    },
								    [&] { return mc::fmt("%s cut to %zu, u32 at %zu := %08x", name.c_str(), cut, f, v); });
		}
		// directory cycles: every assignment of child indices in a catalog of three directories and a file
		tuples(3, 6, [&](std::vector<int> const& t) {
			tuples(4, 2, [&](std::vector<int> const& last) {
				r.run_case(
				    "cycles",
				    [&] {
					    auto root = mdir("/") + (mdir("a") + (mdir("b") + (mdir("c") + mfile("f", "x", 0))));
					    auto d = disk_image(root, dos);
					    std::string x = d.s;
					    for (size_t i = 0; i < 3; ++i) {
						    uint32_t off = static_cast<uint32_t>(t[i]);
						    memcpy(x.data() + d.entries[i].at + 64, &off, 4);
					    }
					    for (size_t i = 0; i < 4; ++i) {
						    uint32_t ty = (i < 3 ? 0x80000000u : 0u) | (last[i] ? 0x40000000u : 0u);
						    memcpy(x.data() + d.entries[i].at + 72, &ty, 4);
					    }
					    attack(r, x);
				    },
				    [&] { return mc::fmt("child indices %d %d %d, last flags %d%d%d%d", t[0], t[1], t[2], last[0], last[1], last[2], last[3]); });
			});
		});
	}
} // namespace
MC_MAIN(explore)
