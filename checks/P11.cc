// P11: every archivable object type, with any value in any stored field, is loaded back equal.
#include "vobmodel.hh"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace mcz;

namespace {
	struct Type {
		char const* name;
		std::shared_ptr<Object> (*make)();
		bool vob;
	};
#define X(T) {#T, [] { return std::static_pointer_cast<Object>(std::make_shared<T>()); }, std::is_base_of_v<VirtualObject, T>},
	std::vector<Type> const TYPES = {MCZ_OBJECTS(X)};
#undef X

	Vis vis(Vis::Mode m, Cfg const& c) {
		Vis v;
		v.mode = m;
		v.cfg = c;
		return v;
	}

	Bytes save(std::shared_ptr<Object> const& o, Cfg const& c) {
		Bytes out;
		auto w = Write::to(&out);
		auto ar = c.save ? WriteArchive::to_save(w.get(), c.f) : WriteArchive::to(w.get(), c.f);
		ar->write_object(o, c.g);
		ar->write_int("sentinel", 0x1badcafe);
		ar->write_header();
		return out;
	}

	void check_loaded(Object& o) {
		auto* v = dynamic_cast<VirtualObject*>(&o);
		if (!v) return;
		check(static_cast<int>(v->type) == static_cast<int>(o.get_object_type()), "vob-type", mc::fmt("loaded VOb of type %d says it is type %d", static_cast<int>(o.get_object_type()), static_cast<int>(v->type)));
		check(v->visual != nullptr, "visual-null", "loaded VOb has a null visual");
		if (v->visual->type != VisualType::UNKNOWN) {
			check(v->visual->name == v->visual_name && v->visual->type == v->associated_visual_type, "visual-legacy", "deprecated visual fields disagree with the visual object");
			if (v->visual->type == VisualType::DECAL) {
				check(v->visual_decal.has_value(), "decal-legacy", "loaded decal lacks visual_decal");
				check(v->visual_decal->dimension == dynamic_cast<VisualDecal&>(*v->visual).dimension, "decal-legacy", "visual_decal differs from the visual");
			}
		}
	}

	void round(mc::Run& r, std::shared_ptr<Object> const& o, Cfg const& c, bool twice) {
		VirtualObject::enable_packed_save(c.packed);
		auto want = dump(*o, c);
		Bytes b = save(o, c);
		r.trans(2);
		r.state(mc::hash_bytes(b.data(), b.size()));
		auto in = Read::from(&b);
		auto ar = ReadArchive::from(in.get());
		auto got = ar->read_object(c.g);
		check(got != nullptr, "lost", "object was not loaded (" + c.str() + ")");
		check_loaded(*got);
		same_dump(want, dump(*got, c), c, "load");
		check(ar->read_int() == 0x1badcafe, "sentinel", "entry behind the object is not reached after loading it (" + c.str() + ")");
		r.outcome(static_cast<uint64_t>(want.size()) * 64 + static_cast<uint64_t>(o->get_object_type()));
		if (twice) {
			Bytes b2 = save(got, c);
			r.trans(2);
			auto in2 = Read::from(&b2);
			auto ar2 = ReadArchive::from(in2.get());
			auto got2 = ar2->read_object(c.g);
			check(got2 != nullptr, "lost2", "object was not loaded from the second save (" + c.str() + ")");
			same_dump(want, dump(*got2, c), c, "second-load");
		}
		VirtualObject::enable_packed_save(true);
	}

	std::vector<Cfg> configs(bool vob) {
		std::vector<Cfg> v;
		for (auto g : {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2})
			for (auto f : {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII})
				for (bool s : {false, true})
					for (bool p : {true, false})
						if (vob || p) v.push_back({g, f, s, p});
		return v;
	}

	struct Pert {
		int field, value;
	};

	std::shared_ptr<Object> build(Type const& t, Cfg const& c, int baseline, std::vector<Pert> const& ps) {
		keepalive().clear();
		auto o = t.make();
		if (baseline > 0) {
			auto v = vis(Vis::FILL, c);
			v.base = baseline;
			visit_any(v, *o);
		} else if (auto* ctx = dynamic_cast<CutsceneBlock*>(o.get())) {
			// a block without sub-block is not representable
			ctx->block = std::make_shared<CutsceneAtomicBlock>();
		}
		for (auto& p : ps) {
			auto v = vis(Vis::SET, c);
			v.target = p.field;
			v.value = p.value;
			visit_any(v, *o);
		}
		return o;
	}

	void explore(mc::Run& r) {
		quiet_log();
		for (auto& t : TYPES) {
			auto o = t.make();
			auto cv = vis(Vis::COUNT, {});
			visit_any(cv, *o);
			auto const& info = cv.info;
			r.counters["fields"] += info.size();
			size_t own_from = t.vob && std::string(t.name) != "VirtualObject" ? 24 : 0;
			auto run = [&](char const* fam, Cfg const& c, int base, std::vector<Pert> ps, bool twice) {
				r.run_case(
				    fam, [&] { round(r, build(t, c, base, ps), c, twice); },
				    [&] {
					    std::string d = mc::fmt("%s %s baseline %d", t.name, c.str().c_str(), base);
					    for (auto& p : ps)
						    d += mc::fmt("; %s(#%d)=value %d", info[static_cast<size_t>(p.field)].name.c_str(), p.field, p.value);
					    return d;
				    });
			};
			for (auto& c : configs(t.vob)) {
				for (int base : {0, 1, 2, 57}) // even/odd fills flip all booleans; 57: other strings
					run("baseline", c, base, {}, true);
				for (size_t f = 0; f < info.size(); ++f)
					for (int val = 0; val < info[f].n; ++val)
						for (int base : {0, 1})
							run("single", c, base, {{static_cast<int>(f), val}}, base == 0);
				// pairs: all own fields of the type (and the base class alone for plain VObs)
				size_t from = r.quick() ? own_from : 0;
				int maxv = r.tier(2, 4);
				for (size_t f = from; f < info.size(); ++f)
					for (size_t g = f + 1; g < info.size(); ++g)
						for (int a = 0; a < std::min(info[f].n, maxv); ++a)
							for (int b = 0; b < std::min(info[g].n, maxv); ++b) {
								if (r.quick() && (info.size() - from > 40 || !c.packed) && (g - f) > 3) continue;
								// quick: last domain values (the richest ones); thorough: spread over the domain
								int va = info[f].n - 1 - a * std::max(1, (info[f].n - 1) / maxv), vb = info[g].n - 1 - b * std::max(1, (info[g].n - 1) / maxv);
								run("pair", c, 0, {{static_cast<int>(f), va}, {static_cast<int>(g), vb}}, false);
							}
			}
		}
	}
} // namespace
MC_MAIN(explore)
