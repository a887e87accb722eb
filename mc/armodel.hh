// Archive entries as plain values: written through WriteArchive, read back through ReadArchive, compared.
#pragma once
#include "common.hh"
#include "zenkit/Archive.hh"

namespace mcz {
	using namespace zenkit;

	enum Kind { STR, INT, FLT, BYTE, WORD, ENUM, BOOL, COLOR, VEC3, VEC2, BBOX, MAT3, RAW, N_ENTRY, BEGIN = N_ENTRY, END, NIL, REF };
	inline char const* KIND[] = {"string", "int", "float", "byte", "word", "enum", "bool", "color", "vec3", "vec2", "bbox", "mat3", "raw", "begin", "end", "null", "ref"};
	inline char const* FMT[] = {"BINARY", "BINSAFE", "ASCII"};

	struct Item {
		Kind k;
		std::string s;          // string/raw payload; class name of BEGIN
		int64_t i = 0;          // integral payload; version of BEGIN; index of REF
		std::vector<float> f {}; // float payload
		std::string name = "n"; // entry / object name
	};

	inline std::string show(Item const& it) {
		std::string o = KIND[it.k];
		if (it.k == STR || it.k == RAW || it.k == BEGIN) o += mc::fmt("(%zu)'%s'", it.s.size(), esc(it.s, 24).c_str());
		if (it.k == INT || it.k == BYTE || it.k == WORD || it.k == ENUM || it.k == BOOL || it.k == COLOR || it.k == BEGIN || it.k == REF) o += mc::fmt(" %lld", static_cast<long long>(it.i));
		for (auto v : it.f)
			o += mc::fmt(" %.9g", static_cast<double>(v));
		if (it.name != "n") o += mc::fmt(" name(%zu)'%s'", it.name.size(), esc(it.name, 12).c_str());
		return o;
	}
	inline std::string show(std::vector<Item> const& v) {
		std::string o;
		for (auto& i : v)
			o += (o.empty() ? "" : "; ") + show(i);
		return o;
	}

	inline bool in_domain(Item const& it, ArchiveFormat f) {
		if (it.k == ENUM && f == ArchiveFormat::BINARY) return it.i >= 0 && it.i < 256;
		if (it.k == STR && f != ArchiveFormat::BINSAFE) return it.s.find_first_of(std::string_view("\0\r\n", 3)) == std::string::npos;
		return true;
	}

	inline void put(WriteArchive& w, Item const& it) {
		auto* f = it.f.data();
		switch (it.k) {
		case STR: return w.write_string(it.name, it.s);
		case INT: return w.write_int(it.name, static_cast<int32_t>(it.i));
		case FLT: return w.write_float(it.name, f[0]);
		case BYTE: return w.write_byte(it.name, static_cast<uint8_t>(it.i));
		case WORD: return w.write_word(it.name, static_cast<uint16_t>(it.i));
		case ENUM: return w.write_enum(it.name, static_cast<uint32_t>(it.i));
		case BOOL: return w.write_bool(it.name, it.i != 0);
		case COLOR: {
			auto u = static_cast<uint32_t>(it.i);
			return w.write_color(it.name, Color {static_cast<uint8_t>(u), static_cast<uint8_t>(u >> 8), static_cast<uint8_t>(u >> 16), static_cast<uint8_t>(u >> 24)});
		}
		case VEC3: return w.write_vec3(it.name, Vec3 {f[0], f[1], f[2]});
		case VEC2: return w.write_vec2(it.name, Vec2 {f[0], f[1]});
		case BBOX: {
			AxisAlignedBoundingBox b {};
			b.min = Vec3 {f[0], f[1], f[2]};
			b.max = Vec3 {f[3], f[4], f[5]};
			return w.write_bbox(it.name, b);
		}
		case MAT3: {
			Mat3 m {};
			for (int c = 0; c < 3; ++c)
				for (int r = 0; r < 3; ++r)
					m[static_cast<size_t>(c)][static_cast<size_t>(r)] = f[c * 3 + r];
			return w.write_mat3x3(it.name, m);
		}
		case RAW:
			if (it.i == 0) return w.write_raw(it.name, to_bytes(it.s));
			return w.write_raw(it.name, reinterpret_cast<std::byte const*>(it.s.data()), static_cast<uint16_t>(it.s.size()));
		case BEGIN: {
			// names are views into larger strings, as any caller may pass
			std::string junk = it.name + "]X" + it.s + "]Y";
			std::string_view v = junk;
			w.write_object_begin(v.substr(0, it.name.size()), v.substr(it.name.size() + 2, it.s.size()), static_cast<uint16_t>(it.i));
			return;
		}
		case END: return w.write_object_end();
		case NIL: {
			w.write_object_begin(it.name, "%", 0);
			return w.write_object_end();
		}
		case REF: {
			std::string junk = it.name + "]Z";
			return w.write_ref(std::string_view(junk).substr(0, it.name.size()), static_cast<uint32_t>(it.i));
		}
		}
	}

	inline bool same_bits(float a, float b) {
		return memcmp(&a, &b, 4) == 0;
	}
	inline bool close_text(float a, float b) {
		return std::fabs(static_cast<double>(a) - static_cast<double>(b)) <= 1e-6 + 1e-6 * std::fabs(static_cast<double>(a));
	}

	inline std::vector<float> floats(Vec3 v) {
		return {v.x, v.y, v.z};
	}

	/// reads one entry with the reader for kind `k`; the value is returned as an Item
	inline Item get(ReadArchive& a, Kind k, size_t raw_size = 0) {
		Item o {k, ""};
		switch (k) {
		case STR: o.s = a.read_string(); break;
		case INT: o.i = a.read_int(); break;
		case FLT: o.f = {a.read_float()}; break;
		case BYTE: o.i = a.read_byte(); break;
		case WORD: o.i = a.read_word(); break;
		case ENUM: o.i = a.read_enum(); break;
		case BOOL: o.i = a.read_bool() ? 1 : 0; break;
		case COLOR: {
			auto c = a.read_color();
			o.i = static_cast<int64_t>(static_cast<uint32_t>(c.r) | static_cast<uint32_t>(c.g) << 8 | static_cast<uint32_t>(c.b) << 16 | static_cast<uint32_t>(c.a) << 24);
			break;
		}
		case VEC3: o.f = floats(a.read_vec3()); break;
		case VEC2: {
			auto v = a.read_vec2();
			o.f = {v.x, v.y};
			break;
		}
		case BBOX: {
			auto b = a.read_bbox();
			o.f = {b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z};
			break;
		}
		case MAT3: {
			auto m = a.read_mat3x3();
			for (int c = 0; c < 3; ++c)
				for (int r = 0; r < 3; ++r)
					o.f.push_back(m[static_cast<size_t>(c)][static_cast<size_t>(r)]);
			break;
		}
		case RAW: {
			auto r = a.read_raw(raw_size);
			r->seek(0, Whence::END);
			size_t n = r->tell();
			r->seek(0, Whence::BEG);
			o.s = r->read_string(n);
			break;
		}
		default: break;
		}
		return o;
	}

	inline void expect_begin(ReadArchive& a, Item const& it, uint32_t index, char const* ctx) {
		ArchiveObject o;
		check(a.read_object_begin(o), "no-begin", mc::fmt("%s: object begin [%s] not recognised", ctx, show(it).c_str()));
		check(o.object_name == it.name && o.class_name == it.s && o.version == static_cast<uint16_t>(it.i) && o.index == index, "object-header",
		      mc::fmt("%s: object header [%s %s %u %u] want [%s index %u]", ctx, esc(o.object_name, 140).c_str(), esc(o.class_name, 140).c_str(), o.version, o.index, show(it).c_str(), index));
	}

	/// a cursor's view of the structure: reads the items of `v` and checks every one; probes for begin/end markers at
	/// every entry of self-describing formats
	struct Checker {
		ReadArchive& a;
		ArchiveFormat f;
		bool probe;
		int depth = 0;
		uint32_t next_index = 0;

		void entry(Item const& it) {
			if (probe && f != ArchiveFormat::BINARY) {
				ArchiveObject o;
				check(!a.read_object_begin(o), "false-begin", mc::fmt("%s: entry %s taken for an object begin", FMT[static_cast<int>(f)], show(it).c_str()));
			}
			// an empty raw entry occupies no bytes in BINARY, so the end marker may directly follow
			if (probe && depth > 0 && !(f == ArchiveFormat::BINARY && it.k == RAW && it.s.empty())) check(!a.read_object_end(), "false-end", mc::fmt("%s: entry %s taken for an object end", FMT[static_cast<int>(f)], show(it).c_str()));
			Item got = get(a, it.k, it.s.size());
			std::string want = show(Item {it.k, it.s, it.k == RAW ? 0 : it.i, it.f}), have = show(got);
			bool ok = got.s == it.s && (it.k == RAW || got.i == it.i) && got.f.size() == it.f.size();
			for (size_t i = 0; ok && i < it.f.size(); ++i)
				ok = f == ArchiveFormat::ASCII && it.k != MAT3 ? close_text(it.f[i], got.f[i]) : same_bits(it.f[i], got.f[i]);
			check(ok, (std::string("value-") + KIND[it.k]).c_str(), mc::fmt("%s: read %s want %s", FMT[static_cast<int>(f)], have.c_str(), want.c_str()));
		}

		void item(Item const& it) {
			switch (it.k) {
			case BEGIN:
				expect_begin(a, it, it.s == "%" ? 0 : next_index, FMT[static_cast<int>(f)]);
				if (it.s != "%") ++next_index;
				++depth;
				break;
			case END:
				check(a.read_object_end(), "no-end", mc::fmt("%s: object end not recognised", FMT[static_cast<int>(f)]));
				--depth;
				break;
			case NIL:
				expect_begin(a, Item {BEGIN, "%", 0, {}, it.name}, 0, FMT[static_cast<int>(f)]);
				check(a.read_object_end(), "no-end", mc::fmt("%s: end of null object not recognised", FMT[static_cast<int>(f)]));
				break;
			case REF:
				expect_begin(a, Item {BEGIN, "\xA7", 0, {}, it.name}, static_cast<uint32_t>(it.i), FMT[static_cast<int>(f)]);
				check(a.read_object_end(), "no-end", mc::fmt("%s: end of reference not recognised", FMT[static_cast<int>(f)]));
				break;
			default: entry(it);
			}
		}
	};

	inline Bytes write_items(std::vector<Item> const& v, ArchiveFormat f, bool save, std::function<void(size_t)> const& step = {}) {
		Bytes out;
		auto w = Write::to(&out);
		auto ar = save ? WriteArchive::to_save(w.get(), f) : WriteArchive::to(w.get(), f);
		for (size_t i = 0; i < v.size(); ++i) {
			if (step) step(i);
			put(*ar, v[i]);
		}
		if (step) step(v.size());
		ar->write_header();
		return out;
	}
} // namespace mcz
