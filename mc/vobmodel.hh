// Field-level model of every archivable object type: which fields exist, which of them a given configuration stores,
// a finite value domain per field, and a canonical dump used to compare an object with its reloaded counterpart.
#pragma once
#include "armodel.hh"
#include "zenkit/CutsceneLibrary.hh"
#include "zenkit/World.hh"
#include "zenkit/vobs/Camera.hh"
#include "zenkit/vobs/Light.hh"
#include "zenkit/vobs/Misc.hh"
#include "zenkit/vobs/MovableObject.hh"
#include "zenkit/vobs/Sound.hh"
#include "zenkit/vobs/Trigger.hh"
#include "zenkit/vobs/Zone.hh"
#include <cfloat>
#include <climits>
#include <memory>

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

namespace mcz {
	struct Cfg {
		GameVersion g = GameVersion::GOTHIC_1;
		ArchiveFormat f = ArchiveFormat::BINARY;
		bool save = false, packed = true;
		bool g2() const {
			return g == GameVersion::GOTHIC_2;
		}
		std::string str() const {
			return mc::fmt("%s %s%s%s", g2() ? "G2" : "G1", FMT[static_cast<int>(f)], save ? " save-game" : "", packed ? "" : " unpacked");
		}
	};

	/// how a float is stored, which decides how exactly it must come back
	enum Prec { TEXT, EXACT, STREAM };

	struct Val {
		std::string name, s;
		bool flt = false;
		float f = 0;
		Prec p = TEXT;
	};

	inline bool same(Val const& a, Val const& b, Cfg const& c) {
		if (a.name != b.name || a.flt != b.flt) return false;
		if (!a.flt) return a.s == b.s;
		if (a.p == STREAM) return std::fabs(static_cast<double>(a.f) - static_cast<double>(b.f)) <= 1e-5 * std::fabs(static_cast<double>(a.f));
		if (a.p == TEXT && c.f == ArchiveFormat::ASCII) return close_text(a.f, b.f);
		return same_bits(a.f, b.f);
	}
	inline std::string show(Val const& v) {
		return v.flt ? mc::fmt("%s=%.9g", v.name.c_str(), static_cast<double>(v.f)) : v.name + "=" + esc(v.s, 60);
	}

	inline std::vector<std::shared_ptr<Object>>& keepalive() {
		static std::vector<std::shared_ptr<Object>> k;
		return k;
	}

	/// whether fields that do not own their object are filled in
	inline bool& weak_refs() {
		static bool w = true;
		return w;
	}

	struct Vis {
		enum Mode { COUNT, SET, FILL, DUMP } mode = COUNT;
		Cfg cfg;
		int target = -1, value = 0, base = 0; // SET target/value, FILL base
		int cur = 0, depth = 0;
		struct Info {
			std::string name;
			int n;
		};
		std::vector<Info> info;
		std::vector<Val> out;
		std::string prefix;

		static std::string big(char c, size_t n) {
			return std::string(n, c);
		}

		// ---- value domains -------------------------------------------------------------------------------------
		static int dom(bool*) { return 2; }
		static int dom(int32_t*) { return 7; }
		static int dom(uint32_t*) { return 3; }
		static int dom(uint8_t*) { return 4; }
		static int dom(float*) { return 7; }
		static int dom(std::string*) { return 7; }
		static int dom(Vec2*) { return 3; }
		static int dom(Vec3*) { return 4; }
		static int dom(Mat3*) { return 2; }
		static int dom(Mat4*) { return 2; }
		static int dom(Color*) { return 4; }
		static int dom(AxisAlignedBoundingBox*) { return 3; }

		static void get(bool& x, int i) { x = i != 0; }
		static void get(int32_t& x, int i) {
			int32_t v[] = {0, 1, -1, INT_MAX, INT_MIN, 0x12345678, 256};
			x = v[i];
		}
		static void get(uint32_t& x, int i) {
			uint32_t v[] = {0, 1, 255};
			x = v[i];
		}
		static void get(uint8_t& x, int i) {
			uint8_t v[] = {0, 1, 128, 255};
			x = v[i];
		}
		static void get(float& x, int i) {
			float v[] = {0, 1, -1.5f, 123456.789f, FLT_MAX, -FLT_MAX, 0.1f};
			x = v[i];
		}
		static void get(std::string& x, int i) {
			static std::string const v[] = {"", "a", "MIXED_case 1.3DS", "[]", " x=y:z [a b 0 1] ", big('L', 600), "\xA7%"};
			x = v[i];
		}
		static void get(Vec2& x, int i) {
			Vec2 v[] = {{0, 0}, {1.5f, -2}, {FLT_MAX, -FLT_MAX}};
			x = v[i];
		}
		static void get(Vec3& x, int i) {
			Vec3 v[] = {{0, 0, 0}, {1, 2, 3}, {-FLT_MAX, FLT_MAX, 0.1f}, {-7.25f, 123456.789f, -0.001f}};
			x = v[i];
		}
		static void get(Mat3& x, int i) {
			for (size_t c = 0; c < 3; ++c)
				for (size_t r = 0; r < 3; ++r)
					x[c][r] = i == 0 ? (c == r ? 1.f : 0.f) : static_cast<float>(c * 3 + r) * 1.1f - 4;
		}
		static void get(Mat4& x, int i) {
			for (size_t c = 0; c < 4; ++c)
				for (size_t r = 0; r < 4; ++r)
					x[c][r] = i == 0 ? (c == r ? 1.f : 0.f) : static_cast<float>(c * 4 + r) * 1.1f - 4;
		}
		static void get(Color& x, int i) {
			Color v[] = {{0, 0, 0, 0}, {1, 2, 3, 4}, {255, 128, 0, 255}, {255, 255, 255, 254}};
			x = v[i];
		}
		static void get(AxisAlignedBoundingBox& x, int i) {
			x.min = i == 0 ? Vec3 {0, 0, 0} : i == 1 ? Vec3 {-1, -2, -3} : Vec3 {-FLT_MAX, 0.1f, 5};
			x.max = i == 0 ? Vec3 {0, 0, 0} : i == 1 ? Vec3 {4, 5, 6} : Vec3 {FLT_MAX, 7, 0.3f};
		}

		// ---- distinctive fill ----------------------------------------------------------------------------------
		int k() const {
			return base + cur;
		}
		float kf() const {
			return static_cast<float>(k()) + 0.5f;
		}
		void fill(bool& x) const { x = (k() & 1) != 0; }
		void fill(int32_t& x) const { x = 1000 + k(); }
		void fill(uint32_t& x) const { x = static_cast<uint32_t>(2 + k() % 100); }
		void fill(uint8_t& x) const { x = static_cast<uint8_t>(3 + k() % 100); }
		void fill(float& x) const { x = kf(); }
		void fill(std::string& x) const { x = mc::fmt("S%d", k()); }
		void fill(Vec2& x) const { x = Vec2 {kf(), -kf()}; }
		void fill(Vec3& x) const { x = Vec3 {kf(), -kf(), kf() * 4}; }
		void fill(Mat3& x) const {
			for (size_t c = 0; c < 3; ++c)
				for (size_t r = 0; r < 3; ++r)
					x[c][r] = kf() * 10 + static_cast<float>(c * 3 + r);
		}
		void fill(Mat4& x) const {
			for (size_t c = 0; c < 4; ++c)
				for (size_t r = 0; r < 4; ++r)
					x[c][r] = kf() * 20 + static_cast<float>(c * 4 + r);
		}
		void fill(Color& x) const { x = Color {static_cast<uint8_t>(k()), static_cast<uint8_t>(k() + 1), static_cast<uint8_t>(k() + 2), static_cast<uint8_t>(k() + 3)}; }
		void fill(AxisAlignedBoundingBox& x) const {
			x.min = Vec3 {-kf(), -kf() - 1, -kf() - 2};
			x.max = Vec3 {kf(), kf() + 1, kf() + 2};
		}

		// ---- dump ----------------------------------------------------------------------------------------------
		void sv(std::string const& n, std::string v) {
			out.push_back({prefix + n, std::move(v)});
		}
		void fv(std::string const& n, float v, Prec p) {
			Val x {prefix + n, ""};
			x.flt = true;
			x.f = v;
			x.p = p;
			out.push_back(std::move(x));
		}
		void dv(std::string const& n, bool v, Prec) { sv(n, v ? "true" : "false"); }
		void dv(std::string const& n, int32_t v, Prec) { sv(n, std::to_string(v)); }
		void dv(std::string const& n, uint32_t v, Prec) { sv(n, std::to_string(v)); }
		void dv(std::string const& n, uint8_t v, Prec) { sv(n, std::to_string(v)); }
		void dv(std::string const& n, float v, Prec p) { fv(n, v, p); }
		void dv(std::string const& n, std::string const& v, Prec) { sv(n, v); }
		void dv(std::string const& n, Vec2 v, Prec p) {
			fv(n + ".x", v.x, p);
			fv(n + ".y", v.y, p);
		}
		void dv(std::string const& n, Vec3 v, Prec p) {
			fv(n + ".x", v.x, p);
			fv(n + ".y", v.y, p);
			fv(n + ".z", v.z, p);
		}
		void dv(std::string const& n, Mat3 const& v, Prec) {
			for (size_t c = 0; c < 3; ++c)
				for (size_t r = 0; r < 3; ++r)
					fv(mc::fmt("%s[%zu][%zu]", n.c_str(), c, r), v[c][r], EXACT);
		}
		void dv(std::string const& n, Mat4 const& v, Prec) {
			for (size_t c = 0; c < 4; ++c)
				for (size_t r = 0; r < 4; ++r)
					fv(mc::fmt("%s[%zu][%zu]", n.c_str(), c, r), v[c][r], EXACT);
		}
		void dv(std::string const& n, Color v, Prec) { sv(n, mc::fmt("%d,%d,%d,%d", v.r, v.g, v.b, v.a)); }
		void dv(std::string const& n, AxisAlignedBoundingBox const& v, Prec p) {
			dv(n + ".min", v.min, p);
			dv(n + ".max", v.max, p);
		}

		// ---- fields --------------------------------------------------------------------------------------------
		template <typename T>
		void f(char const* name, T& x, bool stored = true, Prec p = TEXT) {
			switch (mode) {
			case COUNT: info.push_back({name, dom(static_cast<T*>(nullptr))}); break;
			case SET:
				if (cur == target) get(x, value);
				break;
			case FILL: fill(x); break;
			case DUMP:
				if (stored) dv(name, x, p);
				break;
			}
			++cur;
		}
		template <typename E>
		void e(char const* name, E& x, int max, bool stored = true) {
			switch (mode) {
			case COUNT: info.push_back({name, max + 1}); break;
			case SET:
				if (cur == target) x = static_cast<E>(value);
				break;
			case FILL: x = static_cast<E>(k() % (max + 1)); break;
			case DUMP:
				if (stored) sv(name, std::to_string(static_cast<long long>(x)));
				break;
			}
			++cur;
		}
		template <typename S, typename D>
		void custom(char const* name, int n, S&& set, D&& dump, bool stored = true, int fillv = -1) {
			switch (mode) {
			case COUNT: info.push_back({name, n}); break;
			case SET:
				if (cur == target) set(value);
				break;
			case FILL: set(fillv < 0 ? n - 1 : fillv); break;
			case DUMP:
				if (stored) {
					auto old = prefix;
					prefix += name;
					dump();
					prefix = old;
				}
				break;
			}
			++cur;
		}
	};

	void visit_any(Vis& v, Object& o);

	/// dumps a nested object (by value)
	inline void nested(Vis& v, std::string const& name, Object const* o) {
		auto old = v.prefix;
		v.prefix += name;
		if (o == nullptr)
			v.sv("", "null");
		else {
			v.sv("", mc::fmt("object type %d", static_cast<int>(o->get_object_type())));
			v.prefix += ".";
			if (++v.depth < 6) visit_any(v, const_cast<Object&>(*o));
			--v.depth;
		}
		v.prefix = old;
	}

	template <typename T>
	std::shared_ptr<T> filled(Vis const& v, int base) {
		auto o = std::make_shared<T>();
		Vis w;
		w.mode = Vis::FILL;
		w.cfg = v.cfg;
		w.base = base;
		w.depth = v.depth + 1;
		if (w.depth < 3) visit_any(w, *o);
		return o;
	}

	inline std::shared_ptr<Visual> make_visual(int i) {
		std::shared_ptr<Visual> r;
		switch (i) {
		case 0: r = std::make_shared<VisualDecal>(); break;
		case 1: r = std::make_shared<VisualMesh>(); break;
		case 2: r = std::make_shared<VisualMultiResolutionMesh>(); break;
		case 3: r = std::make_shared<VisualParticleEffect>(); break;
		case 4: r = std::make_shared<VisualCamera>(); break;
		case 5: r = std::make_shared<VisualModel>(); break;
		case 6: r = std::make_shared<VisualMorphMesh>(); break;
		default: r = std::make_shared<Visual>(); break;
		}
		r->type = static_cast<VisualType>(i);
		return r;
	}

	inline void fields(Vis& v, VisualDecal& o) {
		v.f("dimension", o.dimension);
		v.f("offset", o.offset);
		v.f("two_sided", o.two_sided);
		v.e("alpha_func", o.alpha_func, 5);
		v.f("texture_anim_fps", o.texture_anim_fps);
		v.f("alpha_weight", o.alpha_weight, v.cfg.g2());
		v.f("ignore_daylight", o.ignore_daylight, v.cfg.g2());
	}
	inline void fields(Vis& v, AiHuman& o) {
		v.f("water_level", o.water_level);
		v.f("floor_y", o.floor_y);
		v.f("water_y", o.water_y);
		v.f("ceil_y", o.ceil_y);
		v.f("feet_y", o.feet_y);
		v.f("head_y", o.head_y);
		v.f("fall_dist_y", o.fall_dist_y);
		v.f("fall_start_y", o.fall_start_y);
		v.f("walk_mode", o.walk_mode);
		v.f("weapon_mode", o.weapon_mode);
		v.f("wmode_ast", o.wmode_ast);
		v.f("wmode_select", o.wmode_select);
		v.f("change_weapon", o.change_weapon);
		v.f("action_mode", o.action_mode);
		v.custom(
		    "npc", 2,
		    [&](int i) {
			    if (i == 0 || !weak_refs()) return o.npc.reset();
			    auto n = std::make_shared<VNpc>();
			    n->npc_instance = "WEAK_NPC";
			    keepalive().push_back(n);
			    o.npc = n;
		    },
		    [&] {
			    auto n = o.npc.lock();
			    v.sv("", n ? n->npc_instance : "null");
		    });
	}
	inline void fields(Vis& v, AiMove& o) {
		v.custom(
		    "vob", 3,
		    [&](int i) {
			    if (i == 0 || !weak_refs()) return o.vob.reset();
			    std::shared_ptr<VirtualObject> n;
			    if (i == 1)
				    n = std::make_shared<VItem>();
			    else
				    n = std::make_shared<VNpc>();
			    n->vob_name = mc::fmt("WEAK_VOB%d", i);
			    keepalive().push_back(n);
			    o.vob = n;
		    },
		    [&] {
			    auto n = o.vob.lock();
			    v.sv("", n ? n->vob_name : "null");
		    });
		v.custom(
		    "owner", 2,
		    [&](int i) {
			    if (i == 0 || !weak_refs()) return o.owner.reset();
			    auto n = std::make_shared<VNpc>();
			    n->npc_instance = "WEAK_OWNER";
			    keepalive().push_back(n);
			    o.owner = n;
		    },
		    [&] {
			    auto n = o.owner.lock();
			    v.sv("", n ? n->npc_instance : "null");
		    });
	}
	inline void fields(Vis& v, ConversationMessageEvent& o) {
		v.f("type", o.type);
		v.f("high_priority", o.high_priority, v.cfg.save);
		v.f("used", o.used, v.cfg.save);
		v.f("deleted", o.deleted, v.cfg.save);
		v.f("text", o.text);
		v.f("name", o.name);
	}
	inline void fields(Vis& v, CutsceneAtomicBlock& o) {
		v.custom("message", 2, [&](int i) { o.message = i == 0 ? nullptr : filled<ConversationMessageEvent>(v, 50); }, [&] { nested(v, "", o.message.get()); });
	}
	inline void fields(Vis& v, CutsceneBlock& o) {
		v.f("name", o.name);
		v.custom(
		    "block", 4,
		    [&](int i) {
			    if (i == 0) {
				    o.block = std::make_shared<CutsceneAtomicBlock>();
			    } else if (i == 1) {
				    o.block = filled<CutsceneAtomicBlock>(v, 20);
			    } else {
				    std::shared_ptr<CutsceneBlock> inner;
				    for (int j = 1; j < i; ++j) {
					    auto b = std::make_shared<CutsceneBlock>();
					    b->name = mc::fmt("INNER%d", j);
					    if (inner)
						    b->block = inner;
					    else
						    b->block = filled<CutsceneAtomicBlock>(v, 30);
					    inner = b;
				    }
				    o.block = inner;
			    }
		    },
		    [&] {
			    if (std::holds_alternative<std::shared_ptr<CutsceneBlock>>(o.block))
				    nested(v, "", std::get<1>(o.block).get());
			    else
				    nested(v, "", std::get<0>(o.block).get());
		    },
		    true, 3);
	}
	inline void fields(Vis& v, CutsceneProps& o) {
		v.f("name", o.name);
		v.f("global", o.global);
		v.f("loop", o.loop);
		v.f("has_to_be_triggered", o.has_to_be_triggered);
		v.f("distance", o.distance);
		v.f("range", o.range);
		v.f("locked_block_count", o.locked_block_count);
		v.f("run_behaviour", o.run_behaviour);
		v.f("run_behaviour_value", o.run_behaviour_value);
		v.f("stage_name", o.stage_name);
		v.f("script_function_on_stop", o.script_function_on_stop);
	}
	template <typename T>
	void weak(Vis& v, char const* name, std::weak_ptr<T>& p) {
		v.custom(
		    name, 2,
		    [&p, name](int i) {
			    if (i == 0 || !weak_refs()) return p.reset();
			    auto n = std::make_shared<T>();
			    n->vob_name = std::string("WEAK_") + name;
			    keepalive().push_back(n);
			    p = n;
		    },
		    [&] {
			    auto n = p.lock();
			    v.sv("", n ? n->vob_name : "null");
		    });
	}
	inline void fields(Vis& v, CutsceneContext& o) {
		fields(v, static_cast<CutsceneBlock&>(o));
		v.custom("props", 2, [&](int i) { o.props = i == 0 ? nullptr : filled<CutsceneProps>(v, 80); }, [&] { nested(v, "", o.props.get()); });
		v.f("role_count", o.role_count);
		v.f("role_vob_count", o.role_vob_count);
		weak(v, "npc", o.npc);
		weak(v, "main_role", o.main_role);
		v.f("is_cutscene", o.is_cutscene);
		v.f("reference", o.reference);
		v.f("actual_block", o.actual_block);
		v.custom("alt_stage", 2, [&](int i) { o.alt_stage = i == 0 ? nullptr : filled<VItem>(v, 90); }, [&] { nested(v, "", o.alt_stage.get()); });
		v.custom("stage", 2, [&](int i) { o.stage = i == 0 ? nullptr : filled<VEarthquake>(v, 70); }, [&] { nested(v, "", o.stage.get()); });
		v.f("was_triggered", o.was_triggered);
	}
	inline void fields(Vis& v, EventManager& o) {
		v.f("cleared", o.cleared);
		v.f("active", o.active);
		v.custom(
		    "cutscene", 2,
		    [&](int i) {
			    if (i == 0 || !weak_refs()) return o.cutscene.reset();
			    auto n = std::make_shared<CutsceneContext>();
			    n->name = "WEAK_CTX";
			    n->block = std::make_shared<CutsceneAtomicBlock>();
			    keepalive().push_back(n);
			    o.cutscene = n;
		    },
		    [&] {
			    auto n = o.cutscene.lock();
			    v.sv("", n ? n->name : "null");
		    });
	}

	inline void fields(Vis& v, VirtualObject& o) {
		auto& c = v.cfg;
		bool anim = c.g2();
		v.f("bbox", o.bbox, true, c.packed ? EXACT : TEXT);
		v.f("position", o.position, true, c.packed ? EXACT : TEXT);
		v.f("rotation", o.rotation);
		v.f("show_visual", o.show_visual);
		v.e("sprite_camera_facing_mode", o.sprite_camera_facing_mode, 2);
		v.f("cd_static", o.cd_static);
		v.f("cd_dynamic", o.cd_dynamic);
		v.f("vob_static", o.vob_static);
		v.e("dynamic_shadows", o.dynamic_shadows, 1);
		v.f("physics_enabled", o.physics_enabled, c.packed);
		v.e("anim_mode", o.anim_mode, 2, anim);
		v.e("bias", o.bias, 31, anim);
		v.f("ambient", o.ambient, anim);
		v.f("anim_strength", o.anim_strength, anim, c.packed ? EXACT : TEXT);
		v.f("far_clip_scale", o.far_clip_scale, anim, c.packed ? EXACT : TEXT);
		v.f("preset_name", o.preset_name);
		v.f("vob_name", o.vob_name);
		v.custom(
		    "visual", 28,
		    [&](int i) {
			    o.visual = nullptr;
			    o.visual_name = "";
			    if (i == 0) return;
			    if (i == 1) {
				    o.visual_name = "ONLY_NAME.3DS";
			    } else if (i == 2) {
				    o.visual = make_visual(7);
				    o.visual->name = "UNKNOWN.XXX";
			    } else if (i == 3) {
				    o.visual = make_visual(7);
				    o.visual_name = "OTHER.XXX";
			    } else if (i < 11) {
				    o.visual = make_visual(i - 4);
				    o.visual->name = mc::fmt("VIS%d.3DS", i);
			    } else if (i < 18) {
				    o.visual = make_visual(i - 11);
			    } else {
				    auto d = std::make_shared<VisualDecal>();
				    d->type = VisualType::DECAL;
				    d->name = mc::fmt("DECAL%d.TGA", i);
				    Vis w;
				    w.mode = Vis::FILL;
				    w.base = i;
				    fields(w, *d);
				    int j = i - 18;
				    if (j & 1) d->two_sided = !d->two_sided;
				    if (j & 2) d->ignore_daylight = !d->ignore_daylight;
				    if (j == 8) d->alpha_weight = 255;
				    if (j == 9) d->dimension = Vec2 {FLT_MAX, 0.1f};
				    o.visual = d;
			    }
		    },
		    [&] {
			    bool typed = o.visual && o.visual->type != VisualType::UNKNOWN;
			    v.sv(".type", std::to_string(typed ? static_cast<int>(o.visual->type) : 7));
			    v.sv(".name", typed || (o.visual && !o.visual->name.empty()) ? o.visual->name : o.visual_name);
			    if (typed) {
				    v.sv(".class", std::to_string(static_cast<int>(o.visual->get_object_type())));
				    if (auto* d = dynamic_cast<VisualDecal*>(o.visual.get())) {
					    v.prefix += ".";
					    fields(v, *d);
				    }
			    }
		    });
		v.custom(
		    "ai", 6,
		    [&](int i) {
			    if (i == 0) {
				    o.ai = nullptr;
			    } else if (i < 3) {
				    o.ai = filled<AiHuman>(v, 300);
				    if (i == 1) std::static_pointer_cast<AiHuman>(o.ai)->npc.reset();
			    } else {
				    auto a = filled<AiMove>(v, 400);
				    if (i == 3) a->vob.reset();
				    if (i == 4) a->owner.reset();
				    o.ai = a;
			    }
		    },
		    [&] { nested(v, "", o.ai.get()); });
		v.custom("event_manager", 4,
		         [&](int i) {
			         if (i == 0) return o.event_manager.reset();
			         o.event_manager = filled<EventManager>(v, 500 + i);
			         if (i == 1) o.event_manager->cutscene.reset();
		         },
		         [&] { nested(v, "", o.event_manager.get()); }, c.save && c.packed);
		v.f("sleep_mode", o.sleep_mode, c.save);
		v.f("next_on_timer", o.next_on_timer, c.save);
		v.custom(
		    "rigid_body", 7,
		    [&](int i) {
			    if (i == 0) return o.rigid_body.reset();
			    o.rigid_body.emplace();
			    auto& b = *o.rigid_body;
			    b = RigidBody {};
			    if (i == 1) b.mode = 255;
			    if (i == 2) b.gravity_enabled = true;
			    if (i == 3) b.gravity_scale = -3.25f;
			    if (i == 4) b.vel = Vec3 {1, 2, 3};
			    if (i == 5) b.slide_direction = Vec3 {4, 5, 6};
			    if (i == 6) b = RigidBody {Vec3 {.5f, .25f, 8}, 7, true, 9.5f, Vec3 {10, 11, 12}};
		    },
		    [&] {
			    auto b = o.rigid_body.value_or(RigidBody {});
			    v.dv(".vel", b.vel, TEXT);
			    v.dv(".mode", b.mode, TEXT);
			    v.dv(".gravity_enabled", b.gravity_enabled, TEXT);
			    v.dv(".gravity_scale", b.gravity_scale, TEXT);
			    v.dv(".slide_direction", b.slide_direction, TEXT);
		    },
		    c.save && (!c.packed || o.physics_enabled));
	}

	inline void fields(Vis& v, VCameraTrajectoryFrame& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("time", o.time);
		v.f("roll_angle", o.roll_angle);
		v.f("fov_scale", o.fov_scale);
		v.e("motion_type", o.motion_type, 6);
		v.e("motion_type_fov", o.motion_type_fov, 6);
		v.e("motion_type_roll", o.motion_type_roll, 6);
		v.e("motion_type_time_scale", o.motion_type_time_scale, 6);
		v.f("tension", o.tension);
		v.f("cam_bias", o.cam_bias);
		v.f("continuity", o.continuity);
		v.f("time_scale", o.time_scale);
		v.f("time_fixed", o.time_fixed);
		v.f("original_pose", o.original_pose);
	}
	inline void fields(Vis& v, VCutsceneCamera& o) {
		fields(v, static_cast<VirtualObject&>(o));
		bool s2 = v.cfg.save && v.cfg.g2();
		v.e("trajectory_for", o.trajectory_for, 1);
		v.e("target_trajectory_for", o.target_trajectory_for, 1);
		v.e("loop_mode", o.loop_mode, 2);
		v.e("lerp_mode", o.lerp_mode, 3);
		v.f("ignore_for_vob_rotation", o.ignore_for_vob_rotation);
		v.f("ignore_for_vob_rotation_target", o.ignore_for_vob_rotation_target);
		v.f("adapt", o.adapt);
		v.f("ease_first", o.ease_first);
		v.f("ease_last", o.ease_last);
		v.f("total_duration", o.total_duration);
		v.f("auto_focus_vob", o.auto_focus_vob);
		v.f("auto_player_movable", o.auto_player_movable);
		v.f("auto_untrigger_last", o.auto_untrigger_last);
		v.f("auto_untrigger_last_delay", o.auto_untrigger_last_delay);
		auto list = [&v](char const* name, std::vector<std::shared_ptr<VCameraTrajectoryFrame>>& fr, int32_t& n) {
			v.custom(
			    name, 4,
			    [&](int i) {
				    fr.clear();
				    for (int j = 0; j < i; ++j)
					    fr.push_back(j == 1 ? nullptr : filled<VCameraTrajectoryFrame>(v, 600 + j));
				    n = static_cast<int32_t>(fr.size());
			    },
			    [&] {
				    v.sv(".count", std::to_string(fr.size()));
				    v.sv(".n", std::to_string(n));
				    for (auto& x : fr)
					    nested(v, "[]", x.get());
			    },
			    true, 2);
		};
		list("trajectory_frames", o.trajectory_frames, o.position_count);
		list("target_frames", o.target_frames, o.target_count);
		v.f("paused", o.paused, s2);
		v.f("started", o.started, s2);
		v.f("goto_time_mode", o.goto_time_mode, s2);
		v.f("cs_time", o.cs_time, s2);
	}
	inline void fields(Vis& v, VLight& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("preset", o.preset);
		v.e("light_type", o.light_type, 3);
		v.f("range", o.range);
		v.f("color", o.color);
		v.f("cone_angle", o.cone_angle);
		v.custom("is_static", 2, [&](int i) { o.is_static = i != 0; }, [&] { v.dv("", o.is_static, TEXT); }, true, 0);
		v.e("quality", o.quality, 2);
		v.f("lensflare_fx", o.lensflare_fx);
		bool dyn = !o.is_static;
		v.f("on", o.on, dyn);
		v.custom(
		    "range_animation_scale", 5,
		    [&](int i) {
			    static std::vector<std::vector<float>> const d = {{}, {1.f}, {0.1f, -2.5f, 1000000.f}, {0.f, 0.333333f}, {123.456f, 7}};
			    o.range_animation_scale = d[static_cast<size_t>(i)];
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.range_animation_scale.size()));
			    for (auto x : o.range_animation_scale)
				    v.fv("[]", x, STREAM);
		    },
		    dyn);
		v.f("range_animation_fps", o.range_animation_fps, dyn);
		v.f("range_animation_smooth", o.range_animation_smooth, dyn);
		v.custom(
		    "color_animation_list", 6,
		    [&](int i) {
			    static std::vector<std::vector<Color>> const d = {{}, {Color {0, 0, 0, 255}}, {Color {1, 2, 3, 255}, Color {255, 254, 253, 255}}, {Color {9, 9, 9, 255}}, {Color {9, 9, 8, 255}, Color {7, 7, 7, 255}, Color {10, 100, 0, 255}}, {Color {255, 128, 0, 255}, Color {0, 128, 255, 255}}};
			    o.color_animation_list = d[static_cast<size_t>(i)];
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.color_animation_list.size()));
			    for (auto& x : o.color_animation_list)
				    v.dv("[]", x, TEXT);
		    },
		    dyn);
		v.f("color_animation_fps", o.color_animation_fps, dyn);
		v.f("color_animation_smooth", o.color_animation_smooth, dyn);
		v.f("can_move", o.can_move, dyn && v.cfg.g2());
	}
	inline void fields(Vis& v, VSound& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("volume", o.volume);
		v.e("mode", o.mode, 2);
		v.f("random_delay", o.random_delay);
		v.f("random_delay_var", o.random_delay_var);
		v.f("initially_playing", o.initially_playing);
		v.f("ambient3d", o.ambient3d);
		v.f("obstruction", o.obstruction);
		v.f("cone_angle", o.cone_angle);
		v.e("volume_type", o.volume_type, 1);
		v.f("radius", o.radius);
		v.f("sound_name", o.sound_name);
		v.f("s_is_running", o.s_is_running, v.cfg.save);
		v.f("s_is_allowed_to_run", o.s_is_allowed_to_run, v.cfg.save);
	}
	inline void fields(Vis& v, VSoundDaytime& o) {
		fields(v, static_cast<VSound&>(o));
		v.f("start_time", o.start_time);
		v.f("end_time", o.end_time);
		v.f("sound_name2", o.sound_name2);
	}
	inline void fields(Vis& v, VZoneMusic& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("enabled", o.enabled);
		v.f("priority", o.priority);
		v.f("ellipsoid", o.ellipsoid);
		v.f("reverb", o.reverb);
		v.f("volume", o.volume);
		v.f("loop", o.loop);
		v.f("s_local_enabled", o.s_local_enabled, v.cfg.save);
		v.f("s_day_entrance_done", o.s_day_entrance_done, v.cfg.save);
		v.f("s_night_entrance_done", o.s_night_entrance_done, v.cfg.save);
	}
	inline void fields(Vis& v, VZoneFarPlane& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("vob_far_plane_z", o.vob_far_plane_z);
		v.f("inner_range_percentage", o.inner_range_percentage);
	}
	inline void fields(Vis& v, VZoneFog& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("range_center", o.range_center);
		v.f("inner_range_percentage", o.inner_range_percentage);
		v.f("color", o.color);
		v.f("fade_out_sky", o.fade_out_sky, v.cfg.g2());
		v.f("override_color", o.override_color, v.cfg.g2());
	}
	inline void fields(Vis& v, VAnimate& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("start_on", o.start_on);
		v.f("s_is_running", o.s_is_running, v.cfg.save);
	}
	inline void fields(Vis& v, VItem& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("instance", o.instance);
		v.f("s_amount", o.s_amount, v.cfg.save);
		v.f("s_flags", o.s_flags, v.cfg.save);
	}
	inline void fields(Vis& v, VLensFlare& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("fx", o.fx);
	}
	inline void fields(Vis& v, VParticleEffectController& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("pfx_name", o.pfx_name);
		v.f("kill_when_done", o.kill_when_done);
		v.f("initially_running", o.initially_running);
	}
	inline void fields(Vis& v, VMessageFilter& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("target", o.target);
		v.e("on_trigger", o.on_trigger, 5);
		v.e("on_untrigger", o.on_untrigger, 5);
	}
	inline void fields(Vis& v, VCodeMaster& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("target", o.target);
		v.f("ordered", o.ordered);
		v.f("first_false_is_failure", o.first_false_is_failure);
		v.f("failure_target", o.failure_target);
		v.f("untriggered_cancels", o.untriggered_cancels);
		v.custom(
		    "slaves", 5,
		    [&](int i) {
			    static std::vector<std::vector<std::string>> const d = {{}, {""}, {"A"}, std::vector<std::string>(255, "MANY"), {"X", "", "Z[]"}};
			    o.slaves = d[static_cast<size_t>(i)];
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.slaves.size()));
			    for (auto& s : o.slaves)
				    v.sv("[]", s);
		    });
		v.f("s_num_triggered_slaves", o.s_num_triggered_slaves, v.cfg.save && v.cfg.g2());
	}
	inline void fields(Vis& v, VMoverController& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("target", o.target);
		v.e("message", o.message, 3);
		v.f("key", o.key);
	}
	inline void fields(Vis& v, VTouchDamage& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("damage", o.damage);
		v.f("barrier", o.barrier);
		v.f("blunt", o.blunt);
		v.f("edge", o.edge);
		v.f("fire", o.fire);
		v.f("fly", o.fly);
		v.f("magic", o.magic);
		v.f("point", o.point);
		v.f("fall", o.fall);
		v.f("repeat_delay_sec", o.repeat_delay_sec);
		v.f("volume_scale", o.volume_scale);
		v.e("collision", o.collision, 2);
	}
	inline void fields(Vis& v, VEarthquake& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("radius", o.radius);
		v.f("duration", o.duration);
		v.f("amplitude", o.amplitude);
	}
	inline void fields(Vis& v, VNpc::Talent& o) {
		v.f("talent", o.talent);
		v.f("value", o.value);
		v.f("skill", o.skill);
	}
	inline void fields(Vis& v, VNpc& o) {
		fields(v, static_cast<VirtualObject&>(o));
		bool g2 = v.cfg.g2();
		v.f("npc_instance", o.npc_instance);
		v.f("model_scale", o.model_scale);
		v.f("model_fatness", o.model_fatness);
		v.custom(
		    "overlays", 4,
		    [&](int i) {
			    static std::vector<std::vector<std::string>> const d = {{}, {""}, {"A"}, {"X", "", "Z[]"}};
			    o.overlays = d[static_cast<size_t>(i)];
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.overlays.size()));
			    for (auto& s : o.overlays)
				    v.sv("[]", s);
		    });
		v.f("flags", o.flags);
		v.f("guild", o.guild);
		v.f("guild_true", o.guild_true);
		v.f("level", o.level);
		v.f("xp", o.xp);
		v.f("xp_next_level", o.xp_next_level);
		v.f("lp", o.lp);
		v.custom(
		    "talents", 4,
		    [&](int i) {
			    o.talents.clear();
			    for (int j = 0; j < i; ++j)
				    o.talents.push_back(j == 1 ? nullptr : filled<VNpc::Talent>(v, 700 + 5 * j));
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.talents.size()));
			    for (auto& x : o.talents)
				    nested(v, "[]", x.get());
		    });
		v.f("fight_tactic", o.fight_tactic);
		v.f("fight_mode", o.fight_mode);
		v.f("wounded", o.wounded);
		v.f("mad", o.mad);
		v.f("mad_time", o.mad_time);
		v.f("player", o.player);
		for (auto& x : o.attributes)
			v.f("attributes", x);
		for (auto& x : o.hit_chance)
			v.f("hit_chance", x, g2);
		for (auto& x : o.missions)
			v.f("missions", x);
		v.f("start_ai_state", o.start_ai_state);
		// script variables share one raw block: the first, the last of each game and two in between get single
		// perturbations, the others are distinctively filled and always compared
		v.custom(
		    "aivar", 9,
		    [&](int i) {
			    for (int j = 0; j < 100; ++j)
				    o.aivar[j] = i == 0 ? 0 : 7000 + j;
			    static int const at[] = {0, 1, 48, 49, 50, 98, 99};
			    if (i > 0 && i < 8) o.aivar[at[i - 1]] = i & 1 ? INT_MIN : INT_MAX;
		    },
		    [&] {
			    for (int j = 0; j < (g2 ? 100 : 50); ++j)
				    v.dv(mc::fmt("[%d]", j), o.aivar[j], TEXT);
		    });
		v.f("script_waypoint", o.script_waypoint);
		v.f("attitude", o.attitude);
		v.f("attitude_temp", o.attitude_temp);
		v.f("name_nr", o.name_nr);
		v.custom(
		    "news", 16,
		    [&](int i) {
			    o.news.clear();
			    for (int j = 0; j < (i < 3 ? i : 1); ++j) {
				    auto n = std::make_unique<VNpc::News>();
				    n->told = (i == 3) != (j == 1);
				    n->spread_time = 1.5f + static_cast<float>(j);
				    n->spread_type = static_cast<VNpc::NewsSpread>(j + i);
				    n->news_id = j == 0 ? VNpc::NewsId::THEFT : VNpc::NewsId::MURDER;
				    n->gossip = i == 4;
				    n->guild_victim = i == 5;
				    n->witness_name = mc::fmt("W%d", j);
				    n->offender_name = mc::fmt("O%d", j);
				    n->victim_name = mc::fmt("V%d", j);
				    // unusual values of each field
				    if (i == 6) n->spread_type = static_cast<VNpc::NewsSpread>(3);
				    if (i == 7) n->spread_type = static_cast<VNpc::NewsSpread>(-1);
				    if (i == 8) n->news_id = static_cast<VNpc::NewsId>(0);
				    if (i == 9) n->news_id = static_cast<VNpc::NewsId>(200);
				    if (i == 10) n->spread_time = -1e6f, n->told = true, n->gossip = true;
				    if (i == 11) n->spread_time = 0, n->gossip = true, n->guild_victim = true;
				    if (i == 12) n->witness_name = "";
				    if (i == 13) n->offender_name = "";
				    if (i == 14) n->victim_name = "", n->witness_name = "a longer name with blanks";
				    if (i == 15) n->witness_name = n->offender_name = n->victim_name = "SAME", n->told = true, n->guild_victim = true;
				    o.news.push_back(std::move(n));
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.news.size()));
			    for (auto& n : o.news) {
				    v.dv(".told", n->told, TEXT);
				    v.dv(".spread_time", n->spread_time, TEXT);
				    v.dv(".spread_type", static_cast<int32_t>(n->spread_type), TEXT);
				    v.dv(".news_id", static_cast<int32_t>(n->news_id), TEXT);
				    v.dv(".gossip", n->gossip, TEXT);
				    v.dv(".guild_victim", n->guild_victim, TEXT);
				    v.sv(".witness_name", n->witness_name);
				    v.sv(".offender_name", n->offender_name);
				    v.sv(".victim_name", n->victim_name);
			    }
		    },
		    true, 2);
		auto ref = [&v](char const* name, std::shared_ptr<VirtualObject>& p) {
			v.custom(
			    name, 4,
			    [&](int i) {
				    if (i == 0)
					    p = nullptr;
				    else if (i == 1)
					    p = std::make_shared<VItem>();
				    else if (i == 2)
					    p = std::make_shared<VNpc>();
				    else
					    p = filled<VMovableObject>(v, 800);
			    },
			    [&] { nested(v, "", p.get()); });
		};
		ref("carry_vob", o.carry_vob);
		ref("enemy", o.enemy);
		v.f("move_lock", o.move_lock);
		v.custom(
		    "packed", 12,
		    [&](int i) {
			    for (int j = 0; j < 9; ++j) {
				    // none, all, each alone, all but the last
				    o.packed[j] = i == 0 ? "" : i == 1 || i - 2 == j || (i == 11 && j < 8) ? mc::fmt("P%d", j) : "";
			    }
		    },
		    [&] {
			    for (auto& s : o.packed)
				    v.sv("[]", s);
		    });
		v.custom(
		    "items", 6,
		    [&](int i) {
			    o.items.clear();
			    int n = i == 5 ? 1 : i == 4 ? 2 : i;
			    for (int j = 0; j < n; ++j) {
				    if (i == 5 || (i == 3 && j == 1)) {
					    o.items.push_back(nullptr);
					    continue;
				    }
				    auto it = std::make_shared<VItem>();
				    it->instance = mc::fmt("ITEM%d", j);
				    it->s_amount = j + 3;
				    it->s_flags = i == 4 || j == 2 ? 0x200 : 0x1ff;
				    o.items.push_back(it);
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.items.size()));
			    for (auto& x : o.items)
				    nested(v, "[]", x.get());
		    },
		    true, 3);
		v.custom(
		    "slots", 8,
		    [&](int i) {
			    o.slots.clear();
			    for (int j = 0; j < (i >= 4 ? 1 : i); ++j) {
				    auto s = std::make_unique<VNpc::Slot>();
				    s->used = j != 1;
				    s->name = mc::fmt("SLOT%d", j);
				    s->in_inventory = i >= 4 ? (i & 1) != 0 : j == 2;
				    if (s->used && i != 4 && i != 5) {
					    s->item = std::make_shared<VItem>();
					    s->item->instance = mc::fmt("SLOTITEM%d", j);
				    }
				    o.slots.push_back(std::move(s));
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.slots.size()));
			    for (auto& s : o.slots) {
				    v.dv(".used", s->used, TEXT);
				    v.sv(".name", s->name);
				    if (s->used) {
					    nested(v, ".item", s->item.get());
					    v.dv(".in_inventory", s->in_inventory, TEXT);
				    }
			    }
		    },
		    true, 3);
		v.f("current_state_valid", o.current_state_valid);
		v.f("current_state_name", o.current_state_name);
		v.f("current_state_index", o.current_state_index);
		v.f("current_state_is_routine", o.current_state_is_routine);
		v.f("next_state_valid", o.next_state_valid);
		v.f("next_state_name", o.next_state_name);
		v.f("next_state_index", o.next_state_index);
		v.f("next_state_is_routine", o.next_state_is_routine);
		v.f("last_ai_state", o.last_ai_state);
		v.f("has_routine", o.has_routine);
		v.f("routine_changed", o.routine_changed);
		v.f("routine_overlay", o.routine_overlay);
		v.f("routine_overlay_count", o.routine_overlay_count);
		v.f("walkmode_routine", o.walkmode_routine);
		v.f("weaponmode_routine", o.weaponmode_routine);
		v.f("start_new_routine", o.start_new_routine);
		v.f("ai_state_driven", o.ai_state_driven);
		v.f("ai_state_pos", o.ai_state_pos);
		v.f("current_routine", o.current_routine);
		v.f("respawn", o.respawn);
		v.f("respawn_time", o.respawn_time);
		for (auto& x : o.protection)
			v.f("protection", x);
		v.f("bs_interruptable_override", o.bs_interruptable_override, g2);
		v.f("npc_type", o.npc_type, g2);
		v.f("spell_mana", o.spell_mana, g2);
	}
	inline void fields(Vis& v, VMovableObject& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("name", o.name);
		v.f("hp", o.hp);
		v.f("damage", o.damage);
		v.f("movable", o.movable);
		v.f("takable", o.takable);
		v.f("focus_override", o.focus_override);
		v.e("material", o.material, 5);
		v.f("visual_destroyed", o.visual_destroyed);
		v.f("owner", o.owner);
		v.f("owner_guild", o.owner_guild);
		v.f("destroyed", o.destroyed);
	}
	inline void fields(Vis& v, VInteractiveObject& o) {
		fields(v, static_cast<VMovableObject&>(o));
		v.f("state_count", o.state_count);
		v.f("target", o.target);
		v.f("item", o.item);
		v.f("condition_function", o.condition_function);
		v.f("on_state_change_function", o.on_state_change_function);
		v.f("rewind", o.rewind);
	}
	inline void fields(Vis& v, VFire& o) {
		fields(v, static_cast<VInteractiveObject&>(o));
		v.f("slot", o.slot);
		v.f("vob_tree", o.vob_tree);
	}
	inline void fields(Vis& v, VContainer& o) {
		fields(v, static_cast<VInteractiveObject&>(o));
		v.f("locked", o.locked);
		v.f("key", o.key);
		v.f("pick_string", o.pick_string);
		v.f("contents", o.contents);
		v.custom(
		    "s_items", 5,
		    [&](int i) {
			    o.s_items.clear();
			    for (int j = 0; j < (i == 4 ? 1 : i); ++j) {
				    if (i == 4 || j == 1) {
					    o.s_items.push_back(nullptr);
					    continue;
				    }
				    auto it = std::make_shared<VItem>();
				    it->instance = mc::fmt("ITEM%d", j);
				    it->s_amount = j + 3;
				    it->s_flags = 0x200;
				    o.s_items.push_back(it);
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.s_items.size()));
			    for (auto& x : o.s_items)
				    nested(v, "[]", x.get());
		    },
		    v.cfg.save, 3);
	}
	inline void fields(Vis& v, VDoor& o) {
		fields(v, static_cast<VInteractiveObject&>(o));
		v.f("locked", o.locked);
		v.f("key", o.key);
		v.f("pick_string", o.pick_string);
	}
	inline void fields(Vis& v, VTrigger& o) {
		fields(v, static_cast<VirtualObject&>(o));
		bool s = v.cfg.save;
		v.f("target", o.target);
		v.f("start_enabled", o.start_enabled);
		v.f("send_untrigger", o.send_untrigger);
		v.f("react_to_on_trigger", o.react_to_on_trigger);
		v.f("react_to_on_touch", o.react_to_on_touch);
		v.f("react_to_on_damage", o.react_to_on_damage);
		v.f("respond_to_object", o.respond_to_object);
		v.f("respond_to_pc", o.respond_to_pc);
		v.f("respond_to_npc", o.respond_to_npc);
		v.f("vob_target", o.vob_target);
		v.f("max_activation_count", o.max_activation_count);
		v.f("retrigger_delay_sec", o.retrigger_delay_sec);
		v.f("damage_threshold", o.damage_threshold);
		v.f("fire_delay_sec", o.fire_delay_sec);
		v.f("s_next_time_triggerable", o.s_next_time_triggerable, s);
		v.f("s_count_can_be_activated", o.s_count_can_be_activated, s);
		v.custom(
		    "s_other_vob", 4,
		    [&](int i) {
			    if (i == 0)
				    o.s_other_vob = nullptr;
			    else if (i == 1)
				    o.s_other_vob = std::make_shared<VItem>();
			    else if (i == 2)
				    o.s_other_vob = std::make_shared<VNpc>();
			    else
				    o.s_other_vob = filled<VMovableObject>(v, 800);
		    },
		    [&] { nested(v, "", o.s_other_vob.get()); }, s);
		v.f("s_is_enabled", o.s_is_enabled, s && v.cfg.g2());
	}
	inline void fields(Vis& v, VMover& o) {
		fields(v, static_cast<VTrigger&>(o));
		bool s = v.cfg.save;
		v.e("behavior", o.behavior, 4);
		v.f("touch_blocker_damage", o.touch_blocker_damage);
		v.f("stay_open_time_sec", o.stay_open_time_sec);
		v.f("locked", o.locked);
		v.f("auto_link", o.auto_link);
		v.f("auto_rotate", o.auto_rotate, v.cfg.g2());
		bool key = !o.keyframes.empty();
		v.custom(
		    "keyframes", 4,
		    [&](int i) {
			    o.keyframes.clear();
			    int n = i == 3 ? 300 : i;
			    for (int j = 0; j < n; ++j) {
				    float x = static_cast<float>(j) + 0.5f;
				    o.keyframes.push_back(AnimationSample {Vec3 {x, x + 1, x + 2}, Quat {x + 3, x + 4, x + 5, x + 6}});
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.keyframes.size()));
			    for (auto& x : o.keyframes) {
				    v.dv(".position", x.position, EXACT);
				    v.fv(".w", x.rotation.w, EXACT);
				    v.fv(".x", x.rotation.x, EXACT);
				    v.fv(".y", x.rotation.y, EXACT);
				    v.fv(".z", x.rotation.z, EXACT);
			    }
		    },
		    true, 2);
		v.f("speed", o.speed, key);
		v.e("lerp_mode", o.lerp_mode, 1, key);
		v.e("speed_mode", o.speed_mode, 6, key);
		v.f("sfx_open_start", o.sfx_open_start);
		v.f("sfx_open_end", o.sfx_open_end);
		v.f("sfx_transitioning", o.sfx_transitioning);
		v.f("sfx_close_start", o.sfx_close_start);
		v.f("sfx_close_end", o.sfx_close_end);
		v.f("sfx_lock", o.sfx_lock);
		v.f("sfx_unlock", o.sfx_unlock);
		v.f("sfx_use_locked", o.sfx_use_locked);
		v.f("s_act_key_pos_delta", o.s_act_key_pos_delta, s);
		v.f("s_act_keyframe_f", o.s_act_keyframe_f, s);
		v.f("s_act_keyframe", o.s_act_keyframe, s);
		v.f("s_next_keyframe", o.s_next_keyframe, s);
		v.f("s_move_speed_unit", o.s_move_speed_unit, s);
		v.f("s_advance_dir", o.s_advance_dir, s);
		v.f("s_mover_state", o.s_mover_state, s);
		v.f("s_trigger_event_count", o.s_trigger_event_count, s);
		v.f("s_stay_open_time_dest", o.s_stay_open_time_dest, s);
	}
	inline void fields(Vis& v, VTriggerList& o) {
		fields(v, static_cast<VTrigger&>(o));
		v.e("mode", o.mode, 2);
		v.custom(
		    "targets", 5,
		    [&](int i) {
			    o.targets.clear();
			    int n = i == 4 ? 255 : i;
			    for (int j = 0; j < n; ++j)
				    o.targets.push_back(VTriggerList::Target {j == 1 ? "" : mc::fmt("T%d", j), static_cast<float>(j) * 0.5f});
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.targets.size()));
			    for (auto& t : o.targets) {
				    v.sv(".name", t.name);
				    v.fv(".delay", t.delay, TEXT);
			    }
		    },
		    true, 3);
		v.f("s_act_target", o.s_act_target, v.cfg.save);
		v.f("s_send_on_trigger", o.s_send_on_trigger, v.cfg.save);
	}
	inline void fields(Vis& v, VTriggerScript& o) {
		fields(v, static_cast<VTrigger&>(o));
		v.f("function", o.function);
	}
	inline void fields(Vis& v, VTriggerChangeLevel& o) {
		fields(v, static_cast<VTrigger&>(o));
		v.f("level_name", o.level_name);
		v.f("start_vob", o.start_vob);
	}
	inline void fields(Vis& v, VTriggerWorldStart& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("target", o.target);
		v.f("fire_once", o.fire_once);
		v.f("s_has_fired", o.s_has_fired, v.cfg.save && v.cfg.g2());
	}
	inline void fields(Vis& v, VTriggerUntouch& o) {
		fields(v, static_cast<VirtualObject&>(o));
		v.f("target", o.target);
	}
	inline void fields(Vis& v, SkyController& o) {
		v.f("master_time", o.master_time);
		v.f("rain_weight", o.rain_weight);
		v.f("rain_start", o.rain_start);
		v.f("rain_stop", o.rain_stop);
		v.f("rain_sct_timer", o.rain_sct_timer);
		v.f("rain_snd_vol", o.rain_snd_vol);
		v.f("day_ctr", o.day_ctr);
		v.f("fade_scale", o.fade_scale, v.cfg.g2());
		v.f("render_lightning", o.render_lightning, v.cfg.g2());
		v.f("is_raining", o.is_raining, v.cfg.g2());
		v.f("rain_ctr", o.rain_ctr, v.cfg.g2());
	}
	inline void fields(Vis& v, CutscenePlayer& o) {
		v.f("last_process_day", o.last_process_day);
		v.f("last_process_hour", o.last_process_hour);
		v.custom(
		    "playlists", 4,
		    [&](int i) {
			    o.playlists.clear();
			    if (!weak_refs()) return;
			    for (int j = 0; j < i; ++j) {
				    if (j == 1) {
					    o.playlists.emplace_back();
					    continue;
				    }
				    auto n = filled<CutsceneContext>(v, 40 + j);
				    n->name = mc::fmt("CTX%d", j);
				    if (v.depth > 0) n->block = std::make_shared<CutsceneAtomicBlock>();
				    keepalive().push_back(n);
				    o.playlists.push_back(n);
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.playlists.size()));
			    for (auto& w : o.playlists)
				    nested(v, "[]", w.lock().get());
		    });
	}
	inline void fields(Vis& v, WayPoint& o) {
		v.f("name", o.name);
		v.f("water_depth", o.water_depth);
		v.f("under_water", o.under_water);
		v.f("position", o.position);
		v.f("direction", o.direction);
	}
	inline void fields(Vis& v, CutsceneLibrary& o) {
		v.custom(
		    "blocks", 4,
		    [&](int i) {
			    o.blocks.clear();
			    for (int j = 0; j < i; ++j) {
				    auto b = filled<CutsceneBlock>(v, 10 + 10 * j);
				    b->name = mc::fmt("BLOCK%d", j); // sorted, as after loading
				    o.blocks.push_back(b);
			    }
		    },
		    [&] {
			    v.sv(".count", std::to_string(o.blocks.size()));
			    for (auto& b : o.blocks)
				    nested(v, "[]", b.get());
		    });
	}

#define MCZ_OBJECTS(X)                                                                                                 \
	X(VirtualObject) X(VLevel) X(VItem) X(VNpc) X(VMoverController) X(VScreenEffect) X(VStair)                         \
	X(VParticleEffectController) X(VAnimate) X(VLensFlare) X(VLight) X(VSpot) X(VStartPoint) X(VMessageFilter)         \
	X(VCodeMaster) X(VTriggerWorldStart) X(VCutsceneCamera) X(VCameraTrajectoryFrame) X(VTouchDamage)                  \
	X(VTriggerUntouch) X(VEarthquake) X(VMovableObject) X(VInteractiveObject) X(VBed) X(VFire) X(VLadder) X(VSwitch)   \
	X(VWheel) X(VContainer) X(VDoor) X(VTrigger) X(VTriggerList) X(VTriggerScript) X(VTriggerChangeLevel)              \
	X(VCutsceneTrigger) X(VMover) X(VSound) X(VSoundDaytime) X(VZoneMusic) X(VZoneMusicDefault) X(VZoneFog)            \
	X(VZoneFogDefault) X(VZoneFarPlane) X(VZoneFarPlaneDefault)                                                        \
	X(VNpc::Talent) X(EventManager) X(AiHuman) X(AiMove) X(SkyController) X(CutscenePlayer) X(WayPoint)                \
	X(CutsceneProps) X(CutsceneBlock) X(Cutscene) X(CutsceneContext) X(CutsceneAtomicBlock)                            \
	X(ConversationMessageEvent) X(CutsceneLibrary) X(VisualDecal)

	inline void visit_any(Vis& v, Object& o) {
		switch (o.get_object_type()) {
#define X(T)                                                                                                           \
	case T::TYPE: fields(v, dynamic_cast<T&>(o)); break;
			MCZ_OBJECTS(X)
#undef X
		default: break;
		}
	}

	inline std::vector<Val> dump(Object const& o, Cfg const& c) {
		Vis v;
		v.mode = Vis::DUMP;
		v.cfg = c;
		v.sv("type", std::to_string(static_cast<int>(o.get_object_type())));
		visit_any(v, const_cast<Object&>(o));
		return std::move(v.out);
	}

	/// fails with the first difference
	inline void same_dump(std::vector<Val> const& want, std::vector<Val> const& got, Cfg const& c, char const* ctx) {
		for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
			std::string w = i < want.size() ? show(want[i]) : "(nothing)", g = i < got.size() ? show(got[i]) : "(nothing)";
			if (i >= want.size() || i >= got.size() || !same(want[i], got[i], c)) {
				auto& n = i < want.size() ? want[i].name : got[i].name;
				mc::fail(std::string(ctx) + "-" + n, mc::fmt("%s (%s): loaded %s, saved %s", ctx, c.str().c_str(), g.c_str(), w.c_str()));
			}
		}
	}
} // namespace mcz
#pragma GCC diagnostic pop
