// P09: skipping an archive object lands exactly behind it -- every object tree x every skip point x every format.
#include "armodel.hh"
using namespace mcz;

namespace {
	// content alphabet: entries which resemble structure, and structure itself
	std::vector<Item> alphabet() {
		return {
		    {STR, "[]", 0, {}, "s"},
		    {INT, "", 0x5d5b0002, {}, "i"},
		    {RAW, std::string("\x01\x02\x00[]", 5), 0, {}, "r"},
		    {STR, "[o c 0 0]", 0, {}, "t"},
		    {VEC3, "", 0, {1, 2, 3}, "v"},
		    {BYTE, "", 1, {}, "b"},
		    {WORD, "", 0x5b01, {}, "w"},
		    {BBOX, "", 0, {1, 2, 3, 4, 5, 6}, "x"},
		    {COLOR, "", 0x12010203, {}, "c"},
		    {MAT3, "", 0, {1, 2, 3, 4, 5, 6, 7, 8, 9}, "m"},
		    {ENUM, "", 18, {}, "e"},
		    {BOOL, "", 1, {}, "l"},
		    {FLT, "", 0, {2.5f}, "f"},
		    {VEC2, "", 0, {7, 8}, "y"},
		    {STR, "", 0, {}, "u"},
		    {RAW, "", 0, {}, "q"},
		    {STR, "[] ", 0, {}, "z"},
		};
	}

	/// index of the END matching the object which contains position `at` (or begins at `at` when `from_begin`)
	size_t end_of(std::vector<Item> const& v, size_t at, int depth) {
		for (size_t i = at; i < v.size(); ++i) {
			if (v[i].k == BEGIN) ++depth;
			if (v[i].k == END && --depth == 0) return i;
		}
		return v.size();
	}

	uint32_t objects_before(std::vector<Item> const& v, size_t at) {
		uint32_t n = 0;
		for (size_t i = 0; i < at; ++i)
			if (v[i].k == BEGIN && v[i].s != "%") ++n;
		return n;
	}

	/// read items up to `at`, skip there, read the rest; optionally skip a second time at `at2`
	void skip(mc::Run& r, std::vector<Item> const& v, ArchiveFormat f, std::vector<size_t> const& skips, bool current, int source) {
		Bytes b = write_items(v, f, false);
		std::unique_ptr<Read> rd;
		std::stringstream ss;
		if (source == 0)
			rd = Read::from(b);
		else {
			ss.str(to_str(b));
			rd = Read::from(&ss);
		}
		auto a = ReadArchive::from(rd.get());
		Checker c {*a, f, false};
		size_t i = 0, k = 0;
		while (i < v.size()) {
			if (k < skips.size() && skips[k] == i) {
				++k;
				size_t e = end_of(v, i, current ? 1 : 0);
				a->skip_object(current);
				r.trans();
				if (current) c.depth--;
				i = e + 1;
				c.next_index = objects_before(v, i);
				continue;
			}
			c.item(v[i++]);
			r.trans();
		}
		check(c.depth == 0, "depth", "model depth mismatch");
		ArchiveObject o;
		if (f != ArchiveFormat::BINSAFE) check(!a->read_object_begin(o), "object-behind-end", mc::fmt("%s: an object is recognised behind the last one", FMT[static_cast<int>(f)]));
		r.outcome(mc::hash_bytes(b.data(), b.size(), skips.empty() ? 0 : skips[0] * 31 + current));
	}

	void all_skips(mc::Run& r, char const* fam, std::vector<Item> const& v, bool twice) {
		std::vector<int> depth_at(v.size() + 1, 0);
		for (size_t i = 0; i < v.size(); ++i)
			depth_at[i + 1] = depth_at[i] + (v[i].k == BEGIN) - (v[i].k == END);
		for (int f = 0; f < 3; ++f) {
			auto go = [&](std::vector<size_t> s, bool cur, int src) {
				r.run_case(
				    fam, [&] { skip(r, v, static_cast<ArchiveFormat>(f), s, cur, src); },
				    [&] {
					    std::string at;
					    for (auto x : s)
						    at += mc::fmt(" #%zu", x);
					    return mc::fmt("%s (source %d): skip %s object at item%s of: %s", FMT[f], src, cur ? "current" : "next", at.c_str(), show(v).c_str());
				    });
			};
			for (size_t i = 0; i < v.size(); ++i) {
				if (depth_at[i] > 0) go({i}, true, 0);
				if (v[i].k == BEGIN) go({i}, false, 0);
				if (depth_at[i] > 0 && i % 3 == 0) go({i}, true, 1);
				if (v[i].k == BEGIN && i % 2 == 0) go({i}, false, 1);
				if (twice)
					for (size_t j = end_of(v, i, depth_at[i] > 0 ? 1 : 0) + 1; depth_at[i] > 0 && j < v.size(); ++j)
						if (depth_at[j] > 0) go({i, j}, true, 0);
			}
		}
	}

	void build(mc::Run& r, std::vector<Item> const& alpha, int max, int kinds, std::vector<Item>& cur, int depth, bool twice) {
		bool has_obj = false;
		for (auto& i : cur)
			has_obj |= i.k == BEGIN;
		if (depth == 0 && has_obj) all_skips(r, "trees", cur, twice);
		if (static_cast<int>(cur.size()) + depth >= max) {
			if (depth > 0 && static_cast<int>(cur.size()) < max) {
				cur.push_back({END, ""});
				build(r, alpha, max, kinds, cur, depth - 1, twice);
				cur.pop_back();
			}
			return;
		}
		for (int k = 0; k < kinds; ++k) {
			cur.push_back(alpha[static_cast<size_t>(k)]);
			build(r, alpha, max, kinds, cur, depth, twice);
			cur.pop_back();
		}
		if (static_cast<int>(cur.size()) + depth + 2 <= max) {
			cur.push_back({BEGIN, depth % 2 ? "a:b" : "c", depth, {}, mc::fmt("o%zu", cur.size())});
			build(r, alpha, max, kinds, cur, depth + 1, twice);
			cur.pop_back();
			if (depth > 0) {
				cur.push_back({NIL, "", 0, {}, "%"});
				build(r, alpha, max, kinds, cur, depth, twice);
				cur.pop_back();
				cur.push_back({REF, "", 5, {}, "ref"});
				build(r, alpha, max, kinds, cur, depth, twice);
				cur.pop_back();
			}
		}
		if (depth > 0) {
			cur.push_back({END, ""});
			build(r, alpha, max, kinds, cur, depth - 1, twice);
			cur.pop_back();
		}
	}

	void explore(mc::Run& r) {
		quiet_log();
		auto alpha = alphabet();
		std::vector<Item> cur;
		build(r, alpha, r.tier(5, 6), static_cast<int>(alpha.size()), cur, 0, true); // all entry kinds, short
		build(r, alpha, r.tier(8, 9), 1, cur, 0, true);                              // pure structure, longer
		build(r, alpha, r.tier(7, 8), 3, cur, 0, false);
		// skipping wide and deep objects
		for (int n = 0; n <= r.tier(120, 400); ++n)
			for (int kind = 0; kind < 3; ++kind) {
				std::vector<Item> v {{BEGIN, "c", 1, {}, "outer"}, {INT, "", 3}};
				for (int i = 0; i < n; ++i) {
					if (kind == 0) v.push_back(alpha[static_cast<size_t>(i) % alpha.size()]);
					if (kind > 0) v.push_back({BEGIN, "d", i, {}, "x"});
					if (kind == 2) v.push_back({END, ""});
				}
				if (kind == 1)
					for (int i = 0; i < n; ++i)
						v.push_back({END, ""});
				v.push_back({END, ""});
				v.push_back({BEGIN, "behind", 2, {}, "after"});
				v.push_back({STR, "x"});
				v.push_back({END, ""});
				for (int f = 0; f < 3; ++f)
					for (size_t at : {size_t {1}, size_t {2}})
						r.run_case(
						    "wide-deep", [&] { skip(r, v, static_cast<ArchiveFormat>(f), {at}, true, 0); },
						    [&] { return mc::fmt("%s: skip at #%zu of an object with %d %s", FMT[f], at, n, kind == 0 ? "entries" : kind == 1 ? "nested levels" : "children"); });
			}
		// skipping entries and objects of every size class, with long names, made of what looks like structure
		std::vector<size_t> sizes;
		for (size_t n = 0; n <= static_cast<size_t>(r.tier(300, 1100)); ++n) sizes.push_back(n);
		for (size_t n = 512; n <= 65536; n *= 2)
			for (size_t d : {n - 2, n - 1, n, n + 1})
				if (d <= 65535) sizes.push_back(d);
		for (size_t n : sizes)
			for (int kind = 0; kind < 4; ++kind) {
				std::vector<Item> v {{BEGIN, "c", 1, {}, "outer"}, {INT, "", 3}};
				std::string fill;
				while (fill.size() < n) fill += std::string("[]\x01\x02 [x y 0 0]", 13);
				fill.resize(n);
				if (kind == 0) v.push_back({STR, fill});
				else if (kind == 1) v.push_back({RAW, fill});
				else if (kind == 2) {
					if (n > 127 || n == 0) continue;
					v.push_back({BEGIN, std::string(n, 'C'), 65535, {}, std::string(n, 'O')});
					v.push_back({END, ""});
					v.push_back({REF, "", 4000000000ll, {}, std::string(n, 'R')});
				} else {
					if (n > 64) continue;
					for (size_t i = 0; i < n; ++i) v.push_back({RAW, std::string(65535 - i, '[')});
				}
				v.push_back({BYTE, "", 7});
				v.push_back({END, ""});
				v.push_back({BEGIN, "behind", 2, {}, "after"});
				v.push_back({STR, "x"});
				v.push_back({END, ""});
				for (int f = 0; f < 3; ++f)
					for (size_t at : {size_t {0}, size_t {1}, size_t {2}})
						r.run_case(
						    "sizes", [&] { skip(r, v, static_cast<ArchiveFormat>(f), {at}, at != 0, 0); },
						    [&] { return mc::fmt("%s: skip at #%zu of an object with %s %zu", FMT[f], at, kind == 0 ? "a string of size" : kind == 1 ? "raw data of size" : kind == 2 ? "names of length" : "long raw entries, count", n); });
			}
	}
} // namespace
MC_MAIN(explore)
