// P05: mount conflicts follow the overwrite policy -- for nodes, disk images and host directories.
// config: asan bare
#include "vfsmodel.hh"
#include <fstream>
#include <sys/stat.h>
using namespace mcz;
namespace fs = std::filesystem;

namespace {
	constexpr VfsOverwriteBehavior POL[] = {VfsOverwriteBehavior::NONE, VfsOverwriteBehavior::ALL, VfsOverwriteBehavior::NEWER, VfsOverwriteBehavior::OLDER};
	char const* POLN[] = {"NONE", "ALL", "NEWER", "OLDER"};
	enum Kind { NODES, DISK, DISKFILE, HOST, HOSTFILE, MIXED };
	char const* KN[] = {"nodes", "disk image", "disk image file", "host directory", "host file", "nodes with mixed times"};

	// times: three even UTC seconds
	time_t const T[] = {static_cast<time_t>(utc(2001, 3, 15, 12, 0, 0)), static_cast<time_t>(utc(2003, 7, 1, 6, 30, 30)), static_cast<time_t>(utc(2003, 7, 1, 6, 30, 32))};
	uint32_t const DOS[] = {dos_time(2001, 3, 15, 12, 0, 0), dos_time(2003, 7, 1, 6, 30, 30), dos_time(2003, 7, 1, 6, 30, 32)};

	/// sets all times of a tree
	MNode at(MNode m, time_t t) {
		m.time = t;
		for (auto& [k, c] : m.ch) c = at(c, t);
		return m;
	}
	/// entries of one tree carry different times, depending on their depth and position
	MNode mixed(MNode m, int i) {
		m.time = T[i % 3];
		for (auto& [k, c] : m.ch) c = mixed(c, ++i);
		return m;
	}
	std::string tag(MNode const& m, std::string const& s) {
		return m.content + s;
	}
	MNode salted(MNode m, std::string const& s) {
		if (!m.dir) m.content += s;
		for (auto& [k, c] : m.ch) c = salted(c, s);
		return m;
	}

	void host_write(MNode const& d, fs::path const& p) {
		fs::create_directories(p);
		for (auto& [k, c] : d.ch) {
			auto q = p / c.name;
			if (c.dir)
				host_write(c, q);
			else
				std::ofstream(q, std::ios::binary) << c.content;
			struct timespec ts[2] = {{c.time, 0}, {c.time, 0}};
			utimensat(AT_FDCWD, q.c_str(), ts, 0);
		}
	}

	/// mounts every child of `tree` (a root directory) and applies the model
	void mount(Vfs& v, MNode& m, MNode const& tree, Kind k, int ti, VfsOverwriteBehavior ow, mc::Run& r, std::vector<std::unique_ptr<std::byte[]>>& keep, int salt) {
		MNode t = k == MIXED ? mixed(tree, ti) : at(tree, T[ti]);
		switch (k) {
		case NODES:
		case MIXED:
			for (auto& [n, c] : t.ch) v.mount(real(c, keep, salt % 2), "/", ow);
			break;
		case DISK:
		case DISKFILE: {
			auto d = disk_image(t, DOS[ti]);
			if (k == DISK) {
				auto s = rd(d.s);
				v.mount_disk(s.get(), ow);
			} else {
				auto p = r.scratch + mc::fmt("/d%d.vdf", salt);
				std::ofstream(p, std::ios::binary) << d.s;
				v.mount_disk(fs::path(p), ow);
			}
			break;
		}
		case HOST:
		case HOSTFILE: {
			fs::path p = r.scratch + mc::fmt("/h%d", salt);
			fs::remove_all(p);
			host_write(t, p);
			if (k == HOST)
				v.mount_host(p, "/", ow);
			else
				for (auto& [n, c] : t.ch) v.mount_host(p / c.name, "/", ow);
			break;
		}
		}
		for (auto& [n, c] : t.ch) mmerge(m, c, ow);
	}

	void explore(mc::Run& r) {
		quiet_log();
		fs::create_directories(r.scratch);
		// tree alphabet: roots whose children collide in every possible way
		std::vector<MNode> al {
		    mdir("") + mfile("x", "fx", 0),
		    mdir("") + mfile("X", "FX", 0),
		    mdir("") + mdir("x"),
		    mdir("") + (mdir("x") + mfile("y", "fxy", 0)),
		    mdir("") + (mdir("X") + mfile("Y", "FXY", 0) + mfile("z", "fz", 0)),
		    mdir("") + (mdir("x") + (mdir("Y") + mfile("w", "fw", 0))),
		    mdir("") + mfile("q", "fq", 0) + (mdir("x") + mfile("z", "", 0) + (mdir("sub") + mfile("s", "S", 0))),
		    // nested directories holding other entries than the ones above
		    mdir("") + (mdir("x") + (mdir("y") + mfile("v", "fv", 0) + mfile("W", "FW", 0)) + (mdir("SUB") + mfile("t", "T", 0))),
		    mdir("") + (mdir("X") + (mdir("y") + (mdir("w") + mfile("u", "fu", 0)) + (mdir("k") + mfile("l", "fl", 0)))) + mfile("Q", "fQ", 0),
		    mdir("") + (mdir("x") + (mdir("Y") + (mdir("W") + mfile("U", "FU", 0) + mfile("n", "fn", 0)) + mfile("k", "fk", 0))),
		};
		auto usable = [&](MNode const& t, Kind k) {
			// an image cannot hold empty directories
			std::function<bool(MNode const&)> empty = [&](MNode const& d) {
				if (!d.dir) return false;
				if (d.ch.empty()) return true;
				for (auto& [n, c] : d.ch)
					if (empty(c)) return true;
				return false;
			};
			if ((k == DISK || k == DISKFILE) && empty(t)) return false;
			if (k == HOSTFILE)
				for (auto& [n, c] : t.ch)
					if (c.dir) return false;
			return true;
		};
		Kind kinds[] = {NODES, DISK, HOST, DISKFILE, HOSTFILE, MIXED};
		int A = static_cast<int>(al.size());
		// two mounts: everything x everything
		for (int a = 0; a < A; ++a)
			for (int b = 0; b < A; ++b)
				for (Kind ka : kinds)
					for (Kind kb : kinds) {
						if (!usable(al[static_cast<size_t>(a)], ka) || !usable(al[static_cast<size_t>(b)], kb)) continue;
						for (int ta = 0; ta < 3; ++ta)
							for (int tb = 0; tb < 3; ++tb)
								for (int p = 0; p < 4; ++p)
									r.run_case(
									    "two-mounts",
									    [&] {
										    std::vector<std::unique_ptr<std::byte[]>> keep;
										    Vfs v;
										    MNode m = mdir("/");
										    mount(v, m, salted(al[static_cast<size_t>(a)], "1"), ka, ta, VfsOverwriteBehavior::ALL, r, keep, 0);
										    same(v.root(), m, "", false);
										    mount(v, m, salted(al[static_cast<size_t>(b)], "2"), kb, tb, POL[p], r, keep, 1);
										    same(v.root(), m, "", false);
										    r.trans(2);
										    r.state(mc::hash_str(m.canon()));
										    r.outcome(m.canon());
									    },
									    [&] { return mc::fmt("%s %s at t%d, then %s %s at t%d with policy %s", KN[ka], al[static_cast<size_t>(a)].canon().c_str(), ta, KN[kb], al[static_cast<size_t>(b)].canon().c_str(), tb, POLN[p]); });
					}
		// three node/disk mounts with independent policies
		for (int a = 0; a < A; ++a)
			for (int b = 0; b < A; ++b)
				for (int c = 0; c < A; ++c)
					for (int p = 0; p < 16; ++p)
						for (int t = 0; t < (r.quick() ? 6 : 27); ++t)
							r.run_case(
							    "three-mounts",
							    [&] {
								    static int const perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
								    int tt[3] = {t / 9 % 3, t / 3 % 3, t % 3};
								    if (r.quick()) std::copy(perm[t], perm[t] + 3, tt);
								    std::vector<std::unique_ptr<std::byte[]>> keep;
								    Vfs v;
								    MNode m = mdir("/");
								    auto k = [&](int i) { return (p + i) % 2 && usable(al[static_cast<size_t>(i)], DISK) ? DISK : NODES; };
								    mount(v, m, salted(al[static_cast<size_t>(a)], "1"), k(a), tt[0], POL[(p + 1) % 4], r, keep, 0);
								    mount(v, m, salted(al[static_cast<size_t>(b)], "2"), k(b), tt[1], POL[p / 4], r, keep, 1);
								    mount(v, m, salted(al[static_cast<size_t>(c)], "3"), k(c), tt[2], POL[p % 4], r, keep, 2);
								    same(v.root(), m, "", false);
								    r.trans(3);
								    r.state(mc::hash_str(m.canon()));
								    r.outcome(m.canon());
							    },
							    [&] { return mc::fmt("%s; %s; %s with policies %s,%s time order %d", al[static_cast<size_t>(a)].canon().c_str(), al[static_cast<size_t>(b)].canon().c_str(), al[static_cast<size_t>(c)].canon().c_str(), POLN[p / 4], POLN[p % 4], t); });
		// mounting below a sub directory / into missing or file parents, single nodes with mixed times
		for (int a = 0; a < A; ++a)
			for (auto parent : {"x", "X/", "x/y", "q", "nope", "x/Y/w", "/"})
				for (int p = 0; p < 4; ++p)
					for (int host = 0; host < 2; ++host)
						for (int b = 0; b < A; ++b)
							r.run_case(
							    "parents",
							    [&] {
								    std::vector<std::unique_ptr<std::byte[]>> keep;
								    Vfs v;
								    MNode m = mdir("/");
								    mount(v, m, al[static_cast<size_t>(a)], NODES, 1, VfsOverwriteBehavior::ALL, r, keep, 0);
								    MNode t = salted(at(al[static_cast<size_t>(b)], T[b % 3]), "n");
								    auto* dst = mresolve(m, parent);
								    int want = !dst ? 1 : !dst->dir ? 2 : 0, got = 0;
								    try {
									    if (host) {
										    fs::path hp = r.scratch + "/hp";
										    fs::remove_all(hp);
										    host_write(t, hp);
										    v.mount_host(hp, parent, POL[p]);
									    } else
										    for (auto& [n, c] : t.ch) v.mount(real(c, keep, true), parent, POL[p]);
								    } catch (VfsNotFoundError const&) {
									    got = 1;
								    } catch (VfsFileExistsError const&) { got = 2; }
								    check(got == want, "parent-result", mc::fmt("mounting into '%s' reported %d want %d", parent, got, want));
								    if (!want)
									    for (auto& [n, c] : t.ch) mmerge(*dst, c, POL[p]);
								    same(v.root(), m, "", false);
								    r.trans();
								    r.outcome(m.canon() + parent);
							    },
							    [&] { return mc::fmt("%s then mount%s %s into '%s' policy %s", al[static_cast<size_t>(a)].canon().c_str(), host ? "_host" : "", al[static_cast<size_t>(b)].canon().c_str(), parent, POLN[p]); });
		// host directories hold names of every kind, also such that differ only in case, and times between two seconds
		{
			struct Entry {
				std::string path, content; // a directory if the path ends with '/'
			};
			std::vector<std::vector<Entry>> groups {
			    {{".hidden", "dot"}},
			    {{".dir/.inner", "dots"}, {".dir/plain", "p"}},
			    {{"a b", "blank"}},
			    {{" lead", "leading blank"}},
			    {{"x.y.z", "points"}},
			    {{"\xc4\xd6.\xdc", "umlauts"}},
			    {{"a\\b", "backslash"}},
			    {{std::string(120, 'n'), "long"}},
			    {{"-", ""}, {"%s", "percent"}, {"~", "tilde"}},
			    {{"empty/", ""}},
			    {{"D/p", "first"}, {"d/q", "second"}},
			    {{"Mixed/Sub/r", "r"}, {"mixed/sUB/t", "t"}, {"MIXED/u", "u"}},
			    {{"deep/1/2/3/4/5/6/7/8/leaf", "leaf"}, {"DEEP/1/2/3/4/5/6/7/8/LEAF2", "other"}},
			    {{"big", std::string(70000, 'b')}},
			};
			long const NS[] = {0, 300000000, 500000000, 700000000, 950000000};
			int G = static_cast<int>(groups.size());
			for (int len = 1; len <= r.tier(2, 3); ++len)
				tuples(static_cast<size_t>(len), G, [&](std::vector<int> const& t) {
					for (size_t i = 1; i < t.size(); ++i)
						if (t[i] <= t[i - 1]) return;
					for (size_t ns = 0; ns < std::size(NS); ++ns)
						r.run_case(
						    "host-tree",
						    [&] {
							    fs::path hp = r.scratch + "/ht";
							    fs::remove_all(hp);
							    fs::create_directories(hp);
							    std::map<std::string, std::string> want; // lower case path -> contents
							    for (int g : t)
								    for (auto& e : groups[static_cast<size_t>(g)]) {
									    auto q = hp / e.path;
									    if (e.path.back() == '/') {
										    fs::create_directories(q);
										    want["/" + low(e.path)] = "directory";
										    continue;
									    }
									    fs::create_directories(q.parent_path());
									    std::ofstream(q, std::ios::binary) << e.content;
									    struct timespec ts[2] = {{T[1], NS[ns]}, {T[1], NS[ns]}};
									    utimensat(AT_FDCWD, q.c_str(), ts, 0);
									    want["/" + low(e.path)] = "file " + e.content;
									    for (auto d = fs::path(e.path).parent_path(); !d.empty(); d = d.parent_path()) want["/" + low(d.string()) + "/"] = "directory";
								    }
							    for (int times = 1; times <= 2; ++times) {
								    Vfs v;
								    for (int i = 0; i < times; ++i) v.mount_host(hp, "/");
								    r.trans();
								    std::map<std::string, std::string> got;
								    std::function<void(VfsNode const&, std::string const&)> walk = [&](VfsNode const& n, std::string const& at) {
									    for (auto& c : n.children()) {
										    bool dir = c.type() == VfsNodeType::DIRECTORY;
										    auto path = at + "/" + low(c.name());
										    check(got.emplace(path + (dir ? "/" : ""), dir ? "directory" : "file " + read_all(c)).second, "duplicate", path + " is listed twice");
										    check(v.resolve(path) == &c, "unreachable", esc(path) + " is listed but cannot be looked up");
										    if (dir) walk(c, path);
										    else check(c.time() == T[1], "time", mc::fmt("%s: time %ld want %ld (the file was written %.2f s later)", esc(path).c_str(), static_cast<long>(c.time()), static_cast<long>(T[1]), static_cast<double>(NS[ns]) / 1e9));
									    }
								    };
								    walk(v.root(), "");
								    for (auto& [k, c] : want) check(got.count(k), "missing-entry", esc(k) + " is missing");
								    for (auto& [k, c] : got) check(want.count(k) && want[k] == c, "entry", esc(k) + " should not be there or has other contents");
							    }
							    fs::remove_all(hp);
							    r.outcome(mc::hash_str(want.begin()->first, want.size()));
						    },
						    [&] {
							    std::string o = mc::fmt("host directory, %.2f s past the second:", static_cast<double>(NS[ns]) / 1e9);
							    for (int g : t)
								    for (auto& e : groups[static_cast<size_t>(g)]) o += " " + esc(e.path);
							    return o;
						    });
				});
		}

		// default policies: nodes and host overwrite everything, disks overwrite what is older
		for (int ta = 0; ta < 3; ++ta)
			for (int tb = 0; tb < 3; ++tb)
				for (int k = 0; k < 3; ++k)
					r.run_case(
					    "default-policy",
					    [&] {
						    std::vector<std::unique_ptr<std::byte[]>> keep;
						    Vfs v;
						    MNode m = mdir("/");
						    mount(v, m, al[0], NODES, ta, VfsOverwriteBehavior::ALL, r, keep, 0);
						    MNode t = at(al[1], T[tb]);
						    if (k == 0)
							    v.mount(real(t.ch["x"], keep, true), "/");
						    else if (k == 1) {
							    auto s = rd(disk_image(t, DOS[tb]).s);
							    v.mount_disk(s.get());
						    } else {
							    fs::path hp = r.scratch + "/hd";
							    fs::remove_all(hp);
							    host_write(t, hp);
							    v.mount_host(hp, "/");
						    }
						    mmerge(m, t.ch["x"], k == 1 ? VfsOverwriteBehavior::OLDER : VfsOverwriteBehavior::ALL);
						    same(v.root(), m, "", false);
						    r.outcome(m.canon());
					    },
					    [&] { return mc::fmt("default policy of kind %d, times %d %d", k, ta, tb); });
	}
} // namespace
MC_MAIN(explore)
