// Reference model of the virtual file system: a case-insensitive tree of maps.
#pragma once
#include "common.hh"
#include "zenkit/Vfs.hh"
#include <optional>

namespace mcz {
	using namespace zenkit;
	constexpr time_t ANY_TIME = INT64_MIN;

	inline std::string low(std::string_view s) {
		std::string o(s);
		for (auto& c : o)
			if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
		return o;
	}
	inline std::string trim(std::string s) {
		while (!s.empty() && strchr(" \t\r\n\v\f", s.back()) && s.back()) s.pop_back();
		return s;
	}

	struct MNode {
		bool dir = true;
		std::string name, content;
		time_t time = ANY_TIME;
		std::map<std::string, MNode> ch;

		MNode* child(std::string_view n) {
			if (!dir) return nullptr;
			auto it = ch.find(low(trim(std::string(n))));
			return it == ch.end() ? nullptr : &it->second;
		}
		std::string canon() const {
			std::string s = (dir ? "D" : "F") + name + (time == ANY_TIME ? "" : mc::fmt("@%ld", static_cast<long>(time)));
			if (!dir) return s + "=" + content;
			s += "(";
			for (auto& [k, v] : ch) s += v.canon() + ",";
			return s + ")";
		}
		size_t count() const {
			size_t n = 1;
			for (auto& [k, v] : ch) n += v.count();
			return n;
		}
	};

	inline MNode mdir(std::string n, time_t t = ANY_TIME) {
		MNode m;
		m.name = std::move(n);
		m.time = t;
		return m;
	}
	inline MNode mfile(std::string n, std::string c, time_t t) {
		MNode m;
		m.dir = false;
		m.name = std::move(n);
		m.content = std::move(c);
		m.time = t;
		return m;
	}
	inline MNode operator+(MNode a, MNode const& b) {
		a.ch[low(b.name)] = b;
		return a;
	}

	inline std::vector<std::string> split(std::string_view p) {
		std::vector<std::string> v;
		std::string cur;
		for (char c : p) {
			if (c == '/') {
				if (!cur.empty()) v.push_back(cur);
				cur.clear();
			} else
				cur += c;
		}
		if (!cur.empty()) v.push_back(cur);
		return v;
	}

	inline MNode* mresolve(MNode& root, std::string_view path) {
		MNode* n = &root;
		for (auto& s : split(path)) {
			n = n->child(s);
			if (!n) return nullptr;
		}
		return n;
	}

	/// builds a real node from a model node. `owned`: the node owns its bytes (exact-size heap block)
	inline VfsNode real(MNode const& m, std::vector<std::unique_ptr<std::byte[]>>& keep, bool owned) {
		if (m.dir) {
			auto n = m.time == ANY_TIME ? VfsNode::directory(m.name) : VfsNode::directory(m.name, m.time);
			for (auto& [k, c] : m.ch) n.create(real(c, keep, owned));
			return n;
		}
		auto* b = new std::byte[m.content.size()];
		memcpy(b, m.content.data(), m.content.size());
		if (!owned) keep.emplace_back(b);
		return VfsNode::file(m.name, VfsFileDescriptor {b, m.content.size(), owned}, m.time);
	}

	inline std::string read_all(VfsNode const& n) {
		auto r = n.open_read();
		std::string out;
		char buf[4096];
		size_t guard = 0;
		while (!r->eof()) {
			size_t k = r->read(buf, sizeof buf);
			if (k == 0) {
				if (++guard > 3) break;
				continue;
			}
			out.append(buf, k);
			if (out.size() > (64u << 20)) break;
		}
		return out;
	}

	inline void same(VfsNode const& n, MNode const& m, std::string const& path, bool check_name = true) {
		if (check_name) check(n.name() == m.name, "name", mc::fmt("%s: name '%s' want '%s'", path.c_str(), esc(n.name()).c_str(), esc(m.name).c_str()));
		check((n.type() == VfsNodeType::DIRECTORY) == m.dir, "type", path + ": is a " + (m.dir ? "file, want directory" : "directory, want file"));
		if (m.time != ANY_TIME) check(n.time() == m.time, "time", mc::fmt("%s: time %ld want %ld", path.c_str(), static_cast<long>(n.time()), static_cast<long>(m.time)));
		if (!m.dir) {
			auto c = read_all(n);
			check(c == m.content, "content", mc::fmt("%s: content of %zu bytes [%s] want %zu bytes [%s]", path.c_str(), c.size(), esc(c, 24).c_str(), m.content.size(), esc(m.content, 24).c_str()));
			return;
		}
		std::set<std::string> seen;
		for (auto& c : n.children()) {
			auto it = m.ch.find(low(c.name()));
			check(it != m.ch.end(), "extra-entry", path + "/" + esc(c.name()) + ": entry should not exist");
			check(seen.insert(low(c.name())).second, "duplicate-entry", path + "/" + c.name() + ": listed twice");
			same(c, it->second, path + "/" + c.name());
		}
		for (auto& [k, v] : m.ch) check(seen.count(k), "missing-entry", path + "/" + esc(v.name) + ": entry is missing");
	}

	inline std::string flip_case(std::string s) {
		for (auto& c : s) {
			if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
			else if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
		}
		return s;
	}

	/// every entry of the tree is found by path lookups in any spelling; every name by find
	inline void lookups(Vfs const& v, MNode& m, std::vector<std::string> const& probes, std::vector<std::string> const& names) {
		std::function<void(MNode&, std::string)> walk = [&](MNode& d, std::string p) {
			for (auto& [k, c] : d.ch) {
				std::string q = p.empty() ? c.name : p + "/" + c.name;
				for (auto& s : {q, flip_case(q), "/" + low(q), q + "/", q + " "}) {
					auto* n = v.resolve(s);
					check(n != nullptr, "resolve-missing", "resolve('" + s + "') finds nothing");
					same(*n, c, s);
				}
				if (c.dir) walk(c, q);
			}
		};
		walk(m, "");
		for (auto& p : probes) {
			auto* n = v.resolve(p);
			auto* w = mresolve(m, p);
			check((n != nullptr) == (w != nullptr), "resolve", mc::fmt("resolve('%s') %s", p.c_str(), n ? "finds an entry that does not exist" : "finds nothing"));
			if (n && w != &m) same(*n, *w, p);
			if (n && w == &m) check(n == &v.root(), "resolve-root", "resolve('" + p + "') is not the root");
		}
		std::function<bool(MNode const&, std::string const&, VfsNode const&)> any = [&](MNode const& d, std::string const& n, VfsNode const& got) {
			for (auto& [k, c] : d.ch) {
				if (k == n) {
					try {
						same(got, c, "find:" + n);
						return true;
					} catch (mc::Failure const&) {}
				}
				if (c.dir && any(c, n, got)) return true;
			}
			return false;
		};
		std::function<bool(MNode const&, std::string const&)> has = [&](MNode const& d, std::string const& n) {
			for (auto& [k, c] : d.ch)
				if (k == n || (c.dir && has(c, n))) return true;
			return false;
		};
		for (auto& nm : names) {
			auto* n = v.find(nm);
			bool h = has(m, low(trim(nm)));
			check((n != nullptr) == h, "find", mc::fmt("find('%s') %s", nm.c_str(), n ? "finds an entry that does not exist" : "finds nothing"));
			if (n) check(any(m, low(trim(nm)), *n), "find-wrong", "find('" + nm + "') returns an entry that is not in the tree under this name");
		}
	}

	/// merge semantics of mounting `node` below `dest`
	inline void mmerge(MNode& dest, MNode const& node, VfsOverwriteBehavior ow) {
		auto* ex = dest.child(node.name);
		if (!ex) {
			dest.ch[low(node.name)] = node;
			return;
		}
		if (ex->dir && node.dir) {
			for (auto& [k, c] : node.ch) mmerge(*ex, c, ow);
			return;
		}
		bool repl = ow == VfsOverwriteBehavior::ALL || (ow == VfsOverwriteBehavior::NEWER && ex->time > node.time) ||
		    (ow == VfsOverwriteBehavior::OLDER && ex->time < node.time);
		if (repl) {
			dest.ch.erase(low(node.name));
			dest.ch[low(node.name)] = node;
		}
	}
} // namespace mcz

#include <zlib.h>
namespace mcz {
	inline uint32_t dos_time(int y, int mo, int d, int h, int mi, int s) {
		return static_cast<uint32_t>((y - 1980) << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | s / 2);
	}
	/// seconds since 1970 of a UTC calendar date (days-from-civil)
	inline int64_t utc(int y, int m, int d, int h, int mi, int s) {
		y -= m <= 2;
		int64_t era = (y >= 0 ? y : y - 399) / 400;
		unsigned yoe = static_cast<unsigned>(y - era * 400);
		unsigned doy = (153u * static_cast<unsigned>(m + (m > 2 ? -3 : 9)) + 2) / 5 + static_cast<unsigned>(d) - 1;
		unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
		return (era * 146097 + static_cast<int64_t>(doe) - 719468) * 86400 + h * 3600 + mi * 60 + s;
	}

	inline std::string zip_stream(std::string const& d, uint32_t bs) {
		Out o;
		uint32_t n = static_cast<uint32_t>((d.size() + bs - 1) / bs);
		o.u32(static_cast<uint32_t>(d.size())).u32(bs).u32(n);
		for (uint32_t i = 0; i < n; ++i) {
			std::string src = d.substr(i * bs, bs);
			uLongf cl = compressBound(src.size());
			std::string c(cl, '\0');
			compress(reinterpret_cast<Bytef*>(c.data()), &cl, reinterpret_cast<Bytef const*>(src.data()), src.size());
			o.u32(static_cast<uint32_t>(src.size())).u32(static_cast<uint32_t>(cl)).u32(bs).str(std::string_view(c.data(), cl));
		}
		return o.s;
	}

	struct DiskEntry {
		size_t at;     ///< offset of the 80-byte catalog entry
		MNode const* n;
	};
	struct Disk {
		std::string s;
		std::vector<DiskEntry> entries;
		std::vector<size_t> data; ///< offsets of stored file data
		size_t catalog = 296;
	};

	/// Independent encoder of disk images. sig: 0 G1, 1 G2, 2 vdfstool
	inline Disk disk_image(MNode const& root, uint32_t dos, int sig = 1, bool zipped = false, uint32_t bs = 8192, bool catalog_last = false, bool zero_catalog_offset = false) {
		// flatten breadth-wise the way the format wants it: siblings contiguous, last flagged
		struct E {
			MNode const* n;
			bool last;
			uint32_t child = 0;
		};
		std::vector<E> es;
		std::function<uint32_t(MNode const&)> emit = [&](MNode const& d) -> uint32_t {
			uint32_t first = static_cast<uint32_t>(es.size());
			size_t i = 0;
			for (auto& [k, c] : d.ch) es.push_back({&c, ++i == d.ch.size()});
			uint32_t at = first;
			for (auto& [k, c] : d.ch) {
				if (c.dir) {
					uint32_t ci = emit(c);
					es[at].child = ci;
				}
				++at;
			}
			return first;
		};
		emit(root);
		Disk out;
		Out o;
		std::string comment = "mc image";
		comment.resize(256, '\x1a');
		static char const* sigs[] = {"PSVDSC_V2.00\r\n\r\n", "PSVDSC_V2.00\n\r\n\r", "PSVDSC_V2.00\x1A\x1A\x1A\x1A"};
		uint32_t nf = 0;
		for (auto& e : es) nf += !e.n->dir;
		size_t cat_size = es.size() * 80;
		std::string data;
		size_t data_base = catalog_last ? 296 : 296 + cat_size;
		std::vector<std::pair<uint32_t, uint32_t>> loc;
		for (auto& e : es) {
			if (e.n->dir) {
				loc.emplace_back(e.child, 0);
				continue;
			}
			loc.emplace_back(static_cast<uint32_t>(data_base + data.size()), static_cast<uint32_t>(e.n->content.size()));
			out.data.push_back(data_base + data.size());
			data += zipped ? zip_stream(e.n->content, bs) : e.n->content;
		}
		out.catalog = catalog_last ? 296 + data.size() : 296;
		o.str(comment).str(std::string_view(sigs[sig], 16)).u32(static_cast<uint32_t>(es.size())).u32(nf).u32(dos);
		o.u32(static_cast<uint32_t>(296 + cat_size + data.size())).u32(zero_catalog_offset ? 0 : static_cast<uint32_t>(out.catalog)).u32(zipped ? 0xA0 : 0x50);
		if (catalog_last) o.str(data);
		for (size_t i = 0; i < es.size(); ++i) {
			out.entries.push_back({o.s.size(), es[i].n});
			std::string nm = es[i].n->name;
			nm.resize(64, ' ');
			o.str(nm).u32(loc[i].first).u32(loc[i].second).u32((es[i].n->dir ? 0x80000000u : 0u) | (es[i].last ? 0x40000000u : 0u)).u32(0x20);
		}
		if (!catalog_last) o.str(data);
		out.s = o.s;
		return out;
	}
} // namespace mcz
