// P04: the virtual file system is a case-insensitive tree (explicit-state search over operation histories).
#include "vfsmodel.hh"
#include <deque>
using namespace mcz;

namespace {
	struct Op {
		enum K { MKDIR, MOUNT, REMOVE, CREATE, DROP } k;
		std::string path; // MKDIR/REMOVE path, MOUNT/CREATE/DROP parent
		MNode node;
		std::string s() const {
			switch (k) {
			case MKDIR: return "mkdir(" + path + ")";
			case MOUNT: return "mount(" + node.canon() + " -> '" + path + "')";
			case REMOVE: return "remove(" + path + ")";
			case CREATE: return "resolve('" + path + "')->create(" + node.canon() + ")";
			case DROP: return "resolve('" + path + "')->remove(" + node.name + ")";
			}
			return "";
		}
	};

	enum Res { OK, FALSE_, NOTFOUND, EXISTS, NONODE };
	char const* RES[] = {"success", "false", "VfsNotFoundError", "VfsFileExistsError", "no node"};

	Res model(MNode& root, Op const& o) {
		switch (o.k) {
		case Op::MKDIR: {
			MNode* n = &root;
			for (auto& s : split(o.path)) {
				auto* c = n->child(s);
				if (!c) {
					n->ch[low(s)] = mdir(s);
					c = n->child(s);
				} else if (!c->dir)
					return EXISTS;
				n = c;
			}
			return OK;
		}
		case Op::MOUNT: {
			auto* p = mresolve(root, o.path);
			if (!p) return NOTFOUND;
			if (!p->dir) return EXISTS;
			mmerge(*p, o.node, VfsOverwriteBehavior::ALL);
			return OK;
		}
		case Op::REMOVE: {
			auto parts = split(o.path);
			if (parts.empty()) return FALSE_;
			MNode* n = &root;
			for (size_t i = 0; i + 1 < parts.size(); ++i) {
				n = n->child(parts[i]);
				if (!n) return FALSE_;
			}
			if (!n->dir || !n->child(parts.back())) return FALSE_;
			n->ch.erase(low(trim(parts.back())));
			return OK;
		}
		case Op::CREATE: {
			auto* p = mresolve(root, o.path);
			if (!p || !p->dir) return NONODE;
			p->ch.erase(low(o.node.name));
			p->ch[low(o.node.name)] = o.node;
			return OK;
		}
		case Op::DROP: {
			auto* p = mresolve(root, o.path);
			if (!p || !p->dir) return NONODE;
			return p->ch.erase(low(o.node.name)) ? OK : FALSE_;
		}
		}
		return OK;
	}

	Res apply(Vfs& v, Op const& o, std::vector<std::unique_ptr<std::byte[]>>& keep, bool owned) {
		try {
			switch (o.k) {
			case Op::MKDIR: {
				auto& n = v.mkdir(o.path);
				check(&n == v.resolve(o.path), "mkdir-result", "mkdir(" + o.path + ") returned a node that is not at this path");
				return OK;
			}
			case Op::MOUNT: v.mount(real(o.node, keep, owned), o.path); return OK;
			case Op::REMOVE: return v.remove(o.path) ? OK : FALSE_;
			case Op::CREATE: {
				auto* p = v.resolve(o.path);
				if (!p || p->type() != VfsNodeType::DIRECTORY) return NONODE;
				auto* n = p->create(real(o.node, keep, owned));
				check(n == p->child(o.node.name), "create-result", "create returned a node that is not the child");
				return OK;
			}
			case Op::DROP: {
				auto* p = v.resolve(o.path);
				if (!p || p->type() != VfsNodeType::DIRECTORY) return NONODE;
				return p->remove(o.node.name) ? OK : FALSE_;
			}
			}
		} catch (VfsNotFoundError const&) {
			return NOTFOUND;
		} catch (VfsFileExistsError const&) { return EXISTS; }
		return OK;
	}

	void explore(mc::Run& r) {
		quiet_log();
		std::vector<Op> ops;
		for (auto p : {"a", "A/_b", "/a//_B/c/", "F", "a/f/x"}) ops.push_back({Op::MKDIR, p, {}});
		auto f1 = mfile("f", "one", 100), f2 = mfile("F", "two!", 50), fa = mfile("A", "", 70), f_ = mfile("_b", "under", 80);
		auto d1 = mdir("a", 10) + mfile("f", "deep", 5) + (mdir("_B", 11) + mfile("X.y", "xy", 12));
		for (auto p : {"", "a", "a/_b", "f", "zz/a"}) {
			ops.push_back({Op::MOUNT, p, f1});
			ops.push_back({Op::MOUNT, p, f2});
		}
		ops.push_back({Op::MOUNT, "/", fa});
		ops.push_back({Op::MOUNT, "A/", f_});
		ops.push_back({Op::MOUNT, "", d1});
		ops.push_back({Op::MOUNT, "a", d1});
		for (auto p : {"a", "A/_B", "/f", "a//F", "zz", "f/x", "a/_b/c", "", "a/zz/f"}) ops.push_back({Op::REMOVE, p, {}});
		ops.push_back({Op::CREATE, "", f2});
		ops.push_back({Op::CREATE, "a", mdir("F", 3) + f1});
		ops.push_back({Op::DROP, "", f1});
		ops.push_back({Op::DROP, "a", mdir("_b")});

		std::vector<std::string> probes {"", "/", "a", "A", "f", "F", "a/f", "A/F", "a/_b", "a/_B/X.Y", "_b", "a/_b/c", "a/a/_b/x.y", "zz", "f/f", "a/f/f", "//a///_b", "a/f/", "f/a/b/c", "a/_b/X.Y/q"};
		std::vector<std::string> names {"a", "F", "_b", "c", "x.Y", "zz", "f ", "X.y"};

		// breadth-first over model states; the histories are replayed on the real thing, one case per transition
		struct S {
			MNode m;
			std::vector<int> hist;
		};
		std::unordered_set<std::string> seen;
		std::deque<S> q {{mdir("/"), {}}};
		seen.insert(q.front().m.canon());
		size_t depth = r.tier(5u, 6u);
		while (!q.empty()) {
			S s = std::move(q.front());
			q.pop_front();
			r.state(mc::hash_str(s.m.canon()));
			for (int i = 0; i < static_cast<int>(ops.size()); ++i) {
				MNode after = s.m;
				Res want = model(after, ops[static_cast<size_t>(i)]);
				r.run_case(
				    "history",
				    [&] {
					    for (bool owned : {true, false}) {
						    std::vector<std::unique_ptr<std::byte[]>> keep;
						    Vfs v;
						    for (int h : s.hist) apply(v, ops[static_cast<size_t>(h)], keep, owned);
						    Res got = apply(v, ops[static_cast<size_t>(i)], keep, owned);
						    r.trans();
						    check(got == want, "result", mc::fmt("operation reported %s want %s", RES[got], RES[want]));
						    same(v.root(), after, "", false);
						    lookups(v, after, probes, names);
					    }
					    r.outcome(after.canon() + RES[want]);
				    },
				    [&] {
					    std::string d;
					    for (int h : s.hist) d += ops[static_cast<size_t>(h)].s() + "; ";
					    return d + "then " + ops[static_cast<size_t>(i)].s();
				    });
				if (s.hist.size() + 1 < depth && seen.insert(after.canon()).second) {
					S n {after, s.hist};
					n.hist.push_back(i);
					q.push_back(std::move(n));
				}
			}
		}

		// every path of up to four parts, including parts which mean something elsewhere, to every operation that takes one
		{
			std::vector<std::string> parts {"", "a", "A", "f", "F ", "_b", ".", "..", "*", "?", "\\", "a\\f", "X.y", "zz", "x", "C:", "~", "%", "a f"};
			auto tree = mdir("/") + ((mdir("a", 3) + mfile("f", "inner", 4)) + (mdir("_b", 5) + mfile("x.Y", "deep", 6) + mdir("A", 2))) + mfile("F", "top", 1);
			for (int len = 0; len <= r.tier(3, 4); ++len)
				tuples(static_cast<size_t>(len), static_cast<int>(parts.size()), [&](std::vector<int> const& t) {
					std::string path;
					bool blank = false;
					for (size_t i = 0; i < t.size(); ++i) {
						path += (i ? "/" : "") + parts[static_cast<size_t>(t[i])];
						blank |= parts[static_cast<size_t>(t[i])].ends_with(' ');
					}
					r.run_case(
					    "paths",
					    [&] {
						    std::vector<std::unique_ptr<std::byte[]>> keep;
						    {
							    Vfs v;
							    auto m = tree;
							    for (auto& [k, c] : m.ch) v.mount(real(c, keep, false), "");
							    Vfs const& cv = v;
							    auto* want = mresolve(m, path);
							    auto *got = v.resolve(path);
							    check(cv.resolve(path) == got, "const-resolve", "the two lookups of '" + path + "' differ");
							    check((got != nullptr) == (want != nullptr), "resolve", "resolve(" + esc(path) + ") is " + (got ? got->name() : "nothing"));
							    if (got && want != &m) same(*got, *want, path);
							    if (path.find('/') == std::string::npos && !path.empty()) { // the same name as a search
								    bool any = false;
								    std::function<void(MNode&)> walk = [&](MNode& n) {
									    for (auto& [k, c] : n.ch) any |= k == low(trim(path)), walk(c);
								    };
								    walk(m);
								    check((v.find(path) != nullptr) == any, "find", "find(" + esc(path) + ")");
							    }
						    }
						    std::vector<Op> os {{Op::REMOVE, path, {}}, {Op::MOUNT, path, mfile("new", "n", 8)}};
						    if (!blank) os.push_back({Op::MKDIR, path, {}});
						    for (auto& o : os) {
							    Vfs v;
							    auto m = tree;
							    for (auto& [k, c] : m.ch) v.mount(real(c, keep, false), "");
							    auto want = model(m, o), got = apply(v, o, keep, false);
							    r.trans();
							    check(want == got, "path-result", o.s() + ": " + RES[got] + ", want " + RES[want]);
							    same(v.root(), m, "", false);
						    }
						    r.outcome(mc::hash_str(path));
					    },
					    [&] { return "path '" + esc(path) + "'"; });
				});
		}

		// sibling ordering: every insertion order of 4 names out of an order-sensitive alphabet, then lookups of everything
		std::vector<std::string> al {"a", "B", "_c", "b1", "b.C", "Zz", "[x", "aa", "\xc4x", "a b", "b-1", "~", "z\xc4", "q\x01", "q"};
		int n = static_cast<int>(al.size());
		for (int len = 1; len <= r.tier(3, 4); ++len)
			tuples(len, n, [&](std::vector<int> const& t) {
				for (size_t i = 0; i < t.size(); ++i)
					for (size_t j = 0; j < i; ++j)
						if (t[i] == t[j]) return;
				r.run_case(
				    "siblings",
				    [&] {
					    for (int via = 0; via < 2; ++via)
						    for (int rem = -1; rem < len; ++rem) {
							    Vfs v;
							    MNode m = mdir("/");
							    std::vector<std::unique_ptr<std::byte[]>> keep;
							    for (size_t i = 0; i < t.size(); ++i) {
								    auto& nm = al[static_cast<size_t>(t[i])];
								    bool dir = i % 2 == 1;
								    auto node = dir ? mdir(nm, 7) : mfile(nm, "c" + nm, 9);
								    if (via == 0)
									    v.mount(real(node, keep, true), "");
								    else
									    v.resolve("")->create(real(node, keep, false));
								    m.ch[low(nm)] = node;
							    }
							    if (rem >= 0) {
								    auto nm = flip_case(al[static_cast<size_t>(t[static_cast<size_t>(rem)])]);
								    check(v.remove(nm), "sibling-remove", "remove(" + nm + ") failed");
								    m.ch.erase(low(nm));
							    }
							    r.trans();
							    same(v.root(), m, "", false);
							    lookups(v, m, al, al);
						    }
					    std::string o;
					    for (int i : t) o += al[static_cast<size_t>(i)] + "|";
					    r.outcome(o);
				    },
				    [&] {
					    std::string o = "insert:";
					    for (int i : t) o += " " + esc(al[static_cast<size_t>(i)]);
					    return o;
				    });
			});

		// node values: copies and assignments of nodes keep their contents alive independently
		for (int k = 0; k < 6; ++k)
			r.run_case(
			    "node-values",
			    [&] {
				    std::vector<std::unique_ptr<std::byte[]>> keep;
				    auto m1 = mdir("d", 1) + mfile("x", "first", 2), m2 = mdir("d2", 3) + mfile("y", "second", 4);
				    if (k >= 3) m1 = mfile("x", "first", 2), m2 = mfile("y", "second", 4);
				    auto a = std::make_unique<VfsNode>(real(m1, keep, true));
				    auto b = std::make_unique<VfsNode>(real(m2, keep, true));
				    switch (k % 3) {
				    case 0: {
					    VfsNode c = *a;
					    a.reset();
					    same(c, m1, "copy");
					    break;
				    }
				    case 1: {
					    *b = *a;
					    a.reset();
					    same(*b, m1, "assigned");
					    break;
				    }
				    case 2: {
					    *b = std::move(*a);
					    a.reset();
					    same(*b, m1, "move-assigned");
					    VfsNode c(std::move(*b));
					    b.reset();
					    same(c, m1, "moved");
					    break;
				    }
				    }
				    r.outcome(static_cast<uint64_t>(k));
			    },
			    [&] { return mc::fmt("node value semantics variant %d", k); });
	}
} // namespace
MC_MAIN(explore)
