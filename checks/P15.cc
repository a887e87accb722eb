// P15: model scripts mean the same as text and in compiled form, independent of layout; malformed ones end.
#define MC_LIMIT_ALLOC 256
#include "common.hh"
#include "zenkit/ModelScript.hh"
using namespace mcz;
using namespace zenkit;

namespace {
	size_t z(int i) {
		return static_cast<size_t>(i);
	}

	// ---- canonical rendering of the parsed result -----------------------------------------------------------------
	std::string fl(float f) {
		uint32_t u;
		memcpy(&u, &f, 4);
		return mc::fmt("%g#%08x", static_cast<double>(f), u);
	}
	std::string q(std::string const& s) {
		return "'" + esc(s, 200) + "'";
	}
	std::string ev_dump(MdsAnimation const& a) {
		std::string o;
		for (auto& e : a.events) {
			o += mc::fmt("    tag %d type %d slot %s slot2 %s item %s mode %d attached %d frames", e.frame, static_cast<int>(e.type), q(e.slot).c_str(), q(e.slot2).c_str(), q(e.item).c_str(), static_cast<int>(e.fight_mode), e.attached);
			for (auto f : e.frames) o += mc::fmt(" %d", f);
			o += "\n";
		}
		for (auto& e : a.pfx) o += mc::fmt("    pfx %d %d %s %s %d\n", e.frame, e.index, q(e.name).c_str(), q(e.position).c_str(), e.attached);
		for (auto& e : a.pfx_stop) o += mc::fmt("    pfxstop %d %d\n", e.frame, e.index);
		for (auto& e : a.sfx) o += mc::fmt("    sfx %d %s %s %d\n", e.frame, q(e.name).c_str(), fl(e.range).c_str(), e.empty_slot);
		for (auto& e : a.sfx_ground) o += mc::fmt("    sfxgrnd %d %s %s %d\n", e.frame, q(e.name).c_str(), fl(e.range).c_str(), e.empty_slot);
		for (auto& e : a.morph) o += mc::fmt("    morph %d %s %s\n", e.frame, q(e.animation).c_str(), q(e.node).c_str());
		for (auto& e : a.tremors) o += mc::fmt("    tremor %d %d %d %d %d\n", e.frame, e.field1, e.field2, e.field3, e.field4);
		return o;
	}
	std::string dump(ModelScript const& s) {
		std::string o = "skeleton " + q(s.skeleton.name) + mc::fmt(" %d\n", s.skeleton.disable_mesh);
		for (auto& m : s.meshes) o += "mesh " + q(m) + "\n";
		for (auto& a : s.animations) {
			o += mc::fmt("ani %s %u %s %s %s flags %d %s dir %d %d %d fps %s speed %s cvs %s\n", q(a.name).c_str(), a.layer, q(a.next).c_str(), fl(a.blend_in).c_str(), fl(a.blend_out).c_str(), static_cast<int>(a.flags), q(a.model).c_str(), static_cast<int>(a.direction), a.first_frame, a.last_frame, fl(a.fps).c_str(), fl(a.speed).c_str(), fl(a.collision_volume_scale).c_str());
			o += ev_dump(a);
		}
		for (auto& b : s.blends) o += mc::fmt("blend %s %s %s %s\n", q(b.name).c_str(), q(b.next).c_str(), fl(b.blend_in).c_str(), fl(b.blend_out).c_str());
		for (auto& b : s.aliases) o += mc::fmt("alias %s %u %s %s %s flags %d %s dir %d\n", q(b.name).c_str(), b.layer, q(b.next).c_str(), fl(b.blend_in).c_str(), fl(b.blend_out).c_str(), static_cast<int>(b.flags), q(b.alias).c_str(), static_cast<int>(b.direction));
		for (auto& b : s.combinations) o += mc::fmt("comb %s %u %s %s %s flags %d %s %d\n", q(b.name).c_str(), b.layer, q(b.next).c_str(), fl(b.blend_in).c_str(), fl(b.blend_out).c_str(), static_cast<int>(b.flags), q(b.model).c_str(), b.last_frame);
		for (auto& d : s.disabled_animations) o += "disable " + q(d) + "\n";
		for (auto& t : s.model_tags) o += "tag " + q(t.bone) + "\n";
		return o;
	}
	std::string first_diff(std::string const& want, std::string const& got) {
		std::istringstream a {want}, b {got};
		std::string x, y;
		for (;;) {
			bool p = static_cast<bool>(std::getline(a, x)), r = static_cast<bool>(std::getline(b, y));
			if (!p) x = "<nothing>";
			if (!r) y = "<nothing>";
			if (x != y) return "expected [" + x + "] got [" + y + "]";
			if (!p && !r) return "";
		}
	}

	// ---- generator: one script as tokens (text), chunks (compiled) and meaning ------------------------------------
	enum K { KW, STR, NUM, FLG, OPEN, CLOSE, LB, RB, COLON, END /* end of statement */, RAW };
	struct Tok {
		K k;
		std::string s;
	};
	struct EvOpt {
		int kind; // 0 tag 1 sfx 2 grnd 3 pfx 4 pfxstop 5 mm 6 tremor
		int frame = 3;
		bool has_frame = true;
		std::string type;
		std::optional<std::string> a, b;
		bool flag = false;   // ATTACH / EMPTY_SLOT
		bool quirk = false;  // misspelled or quoted flag
		std::optional<std::string> num; // R:<..>
		std::optional<int> idx;
	};
	float num(std::string const& s) {
		return strtof(s.c_str(), nullptr);
	}
	AnimationFlags flags_of(std::string const& s) {
		int f = 0;
		static std::string const L = "MREFIP";
		for (char c : s)
			if (auto i = L.find(c); i != std::string::npos) f |= 1 << i;
		return static_cast<AnimationFlags>(f);
	}

	// the meaning of an event tag, from the documentation of MdsEventTag
	struct TagName {
		char const* name;
		MdsEventType type;
		char args; // 'i' slot+item, 's' slot, 'm' mode, '2' slot+slot2, 'f' frames, '-' none
	};
	TagName const TAGS[] = {
	    {"DEF_CREATE_ITEM", MdsEventType::ITEM_CREATE, 'i'},
	    {"DEF_INSERT_ITEM", MdsEventType::ITEM_INSERT, 's'},
	    {"DEF_REMOVE_ITEM", MdsEventType::ITEM_REMOVE, 's'},
	    {"DEF_DESTROY_ITEM", MdsEventType::ITEM_DESTROY, 's'},
	    {"DEF_PLACE_ITEM", MdsEventType::ITEM_PLACE, '-'},
	    {"DEF_EXCHANGE_ITEM", MdsEventType::ITEM_EXCHANGE, 'i'},
	    {"DEF_FIGHTMODE", MdsEventType::SET_FIGHT_MODE, 'm'},
	    {"DEF_PLACE_MUNITION", MdsEventType::MUNITION_PLACE, 's'},
	    {"DEF_REMOVE_MUNITION", MdsEventType::MUNITION_REMOVE, 's'},
	    {"DEF_DRAWSOUND", MdsEventType::SOUND_DRAW, 's'},
	    {"DEF_UNDRAWSOUND", MdsEventType::SOUND_UNDRAW, 's'},
	    {"DEF_SWAPMESH", MdsEventType::MESH_SWAP, '2'},
	    {"DEF_DRAWTORCH", MdsEventType::TORCH_DRAW, '-'},
	    {"DEF_INV_TORCH", MdsEventType::TORCH_INVENTORY, 's'},
	    {"DEF_DROP_TORCH", MdsEventType::TORCH_DROP, '-'},
	    {"DEF_HIT_LIMB", MdsEventType::HIT_LIMB, 's'},
	    {"HIT_LIMB", MdsEventType::HIT_LIMB, 's'},
	    {"DEF_HIT_DIR", MdsEventType::HIT_DIRECTION, 's'},
	    {"DEF_DIR", MdsEventType::HIT_DIRECTION, 's'},
	    {"DEF_DAM_MULTIPLY", MdsEventType::DAMAGE_MULTIPLIER, 'f'},
	    {"DEF_PAR_FRAME", MdsEventType::PARRY_FRAME, 'f'},
	    {"DEF_OPT_FRAME", MdsEventType::OPTIMAL_FRAME, 'f'},
	    {"DEF_HIT_END", MdsEventType::HIT_END, 'f'},
	    {"DEF_WINDOW", MdsEventType::COMBO_WINDOW, 'f'},
	    {"DEF_NOBODY_KNOWS", MdsEventType::UNKNOWN, '-'},
	};
	std::vector<int> frames_of(std::string const& s) {
		std::vector<int> v;
		size_t i = 0;
		for (;;) {
			while (i < s.size() && strchr(" \t\r\n\v\f", s[i])) ++i;
			size_t j = i;
			if (j < s.size() && (s[j] == '-' || s[j] == '+')) ++j;
			size_t d = j;
			while (j < s.size() && s[j] >= '0' && s[j] <= '9') ++j;
			if (d == j) return v;
			v.push_back(atoi(s.substr(i, j - i).c_str()));
			i = j;
		}
	}
	MdsEventTag tag_of(EvOpt const& o) {
		MdsEventTag e {};
		e.frame = o.has_frame ? o.frame : 0;
		char args = '-';
		e.type = MdsEventType::UNKNOWN;
		for (auto& t : TAGS)
			if (o.type == t.name) e.type = t.type, args = t.args;
		auto a = o.a.value_or(""), b = o.b.value_or("");
		if (args == 'i' || args == 's' || args == '2') e.slot = a;
		if (args == 'i') e.item = b;
		if (args == '2') e.slot2 = b;
		if (args == 'm')
			e.fight_mode = a == "FIST" ? MdsFightMode::FIST : a == "1H" || a == "1h" ? MdsFightMode::SINGLE_HANDED : a == "2H" || a == "2h" ? MdsFightMode::DUAL_HANDED : a == "BOW" ? MdsFightMode::BOW : a == "CBOW" ? MdsFightMode::CROSSBOW : a == "MAG" ? MdsFightMode::MAGIC : MdsFightMode::NONE;
		if (args == 'f')
			for (int f : frames_of(a)) e.frames.push_back(f);
		e.attached = o.flag;
		return e;
	}

	struct Script {
		std::vector<Tok> t;
		ModelScript want;     // meaning of the text
		ModelScript want_bin; // meaning of the compiled form (which does not store `attached`)
		Out bin;
		bool has_bin = true;

		void chunk(uint32_t id, Out const& c) {
			bin.u16(id).u32(static_cast<uint32_t>(c.s.size())).str(c.s);
		}
		void kw(std::string s) { t.push_back({KW, std::move(s)}); }
		void str(std::string s) { t.push_back({STR, std::move(s)}); }
		void n(std::string s) { t.push_back({NUM, std::move(s)}); }
		void n(int v) { t.push_back({NUM, std::to_string(v)}); }
		void p(K k, char const* s) { t.push_back({k, s}); }
		void open() { p(OPEN, "("); }
		void close() { p(CLOSE, ")"); }
		void end() { p(END, ""); }

		void begin(std::string name = "TestModel") {
			kw("Model"), open(), str(std::move(name)), close(), p(LB, "{"), end();
			chunk(0xF000, Out().u32(1).line("\\_WORK\\"));
			chunk(0xF100, Out().u32(2002).u16(8).u16(28).u16(12).u16(50).u16(52).u16(0).line("A.MDS"));
			chunk(0xF200, {});
		}
		void finish() {
			p(RB, "}"), end();
			chunk(0xF2FF, {});
			chunk(0xFFFF, {});
		}
		void mesh_and_tree(std::string name, bool dont) {
			kw("meshAndTree"), open(), str(name);
			if (dont) kw("DONT_USE_MESH");
			close(), end();
			want.skeleton = want_bin.skeleton = MdsSkeleton {name, dont};
			chunk(0xF300, Out().u32(dont).line(name));
		}
		void mesh(std::string name) {
			kw("registerMesh"), open(), str(name), close(), end();
			want.meshes.push_back(name), want_bin.meshes.push_back(name);
			chunk(0xF400, Out().line(name));
		}
		void enum_begin() {
			kw("aniEnum"), p(LB, "{"), end();
			chunk(0xF500, {});
		}
		void enum_end() {
			p(RB, "}"), end();
			chunk(0xF5FF, {});
		}
		void ani(std::string name, int layer, std::string next, std::string in, std::string out, std::string flags, std::string model, bool back, int first, int last, std::optional<std::string> fps, std::optional<std::string> cvs, int block, std::vector<EvOpt> const& evs = {}, bool colon = false) {
			kw("ani"), open(), str(name), n(layer), str(next), n(in), n(out), p(FLG, flags.c_str());
			if (colon) p(COLON, ":");
			str(model), kw(back ? "R" : "F"), n(first), n(last);
			if (fps) kw("FPS"), p(COLON, ":"), n(*fps);
			if (cvs) kw("CVS"), p(COLON, ":"), n(*cvs);
			close();
			if (!block) end();
			MdsAnimation a {};
			a.name = name, a.layer = static_cast<uint32_t>(layer), a.next = next, a.blend_in = num(in), a.blend_out = num(out), a.flags = flags_of(flags), a.model = model;
			a.direction = back ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
			a.first_frame = first, a.last_frame = last, a.fps = fps ? num(*fps) : 25, a.speed = 0, a.collision_volume_scale = cvs ? num(*cvs) : 1;
			Out c;
			c.line(name).u32(a.layer).line(next).f32(a.blend_in).f32(a.blend_out).line(flags + (colon ? ":" : "")).line(model).line(back ? "R" : "F").u32(static_cast<uint32_t>(first)).u32(static_cast<uint32_t>(last)).f32(a.fps).f32(0).f32(a.collision_volume_scale);
			chunk(0xF520, c);
			want.animations.push_back(a), want_bin.animations.push_back(a);
			if (block) {
				p(LB, "{"), end();
				chunk(0xF5A0, Out().u32(static_cast<uint32_t>(evs.size())));
			}
			for (auto& e : evs) event(e);
			if (block) {
				p(RB, "}"), end();
				chunk(0xF5AF, {});
			}
		}
		void event(EvOpt const& e, bool ignored = false) {
			MdsAnimation dummy {}, dummy2 {};
			auto& A = ignored ? dummy : want.animations.back();
			auto& B = ignored ? dummy2 : want_bin.animations.back();
			Out c;
			uint32_t id = 0;
			c.u32(static_cast<uint32_t>(e.has_frame ? e.frame : 0));
			switch (e.kind) {
			case 0: {
				kw("*eventTag"), open();
				if (e.has_frame) n(e.frame);
				str(e.type);
				if (e.a) str(*e.a);
				if (e.b) str(*e.b);
				if (e.flag) kw("ATTACH");
				auto m = tag_of(e);
				A.events.push_back(m);
				m.attached = false;
				B.events.push_back(m);
				c.line(e.type).line(e.a.value_or("")).line(e.b.value_or("")).line("").line("");
				id = 0xF5A3;
				break;
			}
			case 1: {
				kw("*eventSFX"), open(), n(e.frame), str(*e.a);
				if (e.num) kw("R"), p(COLON, ":"), n(*e.num);
				if (e.flag) kw(e.quirk ? "EMTPY_SLOT" : "EMPTY_SLOT");
				MdsSoundEffect m {};
				m.frame = e.frame, m.name = *e.a, m.range = e.num ? num(*e.num) : 1000, m.empty_slot = e.flag;
				A.sfx.push_back(m), B.sfx.push_back(m);
				c.line(*e.a).f32(m.range).u32(m.empty_slot);
				id = 0xF5A1;
				break;
			}
			case 2: {
				kw("*eventSFXGrnd"), open(), n(e.frame), str(*e.a);
				if (e.quirk) kw("EMPTY_SLOT");
				MdsSoundEffectGround m {};
				m.frame = e.frame, m.name = *e.a;
				A.sfx_ground.push_back(m), B.sfx_ground.push_back(m);
				c.line(*e.a).f32(1000).u32(0);
				id = 0xF5A2;
				break;
			}
			case 3: {
				kw("*eventPFX"), open(), n(e.frame);
				if (e.idx) n(*e.idx);
				str(*e.a), str(*e.b);
				if (e.flag) {
					if (e.quirk) str("ATTACH");
					else kw("ATTACH");
				}
				MdsParticleEffect m {};
				m.frame = e.frame, m.index = e.idx.value_or(0), m.name = *e.a, m.position = *e.b, m.attached = e.flag;
				A.pfx.push_back(m), B.pfx.push_back(m);
				c.u32(static_cast<uint32_t>(m.index)).line(*e.a).line(*e.b).u32(e.flag);
				id = 0xF5A4;
				break;
			}
			case 4: {
				kw("*eventPFXStop"), open(), n(e.frame), n(*e.idx);
				MdsParticleEffectStop m {};
				m.frame = e.frame, m.index = *e.idx;
				A.pfx_stop.push_back(m), B.pfx_stop.push_back(m);
				c.u32(static_cast<uint32_t>(m.index));
				id = 0xF5A5;
				break;
			}
			case 5: {
				kw("*eventMMStartAni"), open(), n(e.frame), str(*e.a);
				if (e.b) str(*e.b);
				MdsMorphAnimation m {};
				m.frame = e.frame, m.animation = *e.a, m.node = e.b.value_or("");
				A.morph.push_back(m), B.morph.push_back(m);
				c.line(*e.a).line(m.node).f32(0).f32(0);
				id = 0xF5A9;
				break;
			}
			case 6: {
				kw("*eventCamTremor"), open(), n(e.frame), n(*e.idx), n(22), n(-33), n(44);
				MdsCameraTremor m {};
				m.frame = e.frame, m.field1 = *e.idx, m.field2 = 22, m.field3 = -33, m.field4 = 44;
				A.tremors.push_back(m), B.tremors.push_back(m);
				c.u32(static_cast<uint32_t>(*e.idx)).u32(22).u32(static_cast<uint32_t>(-33)).u32(44);
				id = 0xF5AA;
				break;
			}
			}
			close(), end();
			if (!ignored) chunk(id, c);
		}
		void ignored_block(int n_events) {
			p(LB, "{"), end();
			EvOpt e {1};
			e.a = "ignored";
			for (int i = 0; i < n_events; ++i) event(e, true);
			p(RB, "}"), end();
		}
		void blend(std::string name, std::optional<int> layer, std::string next, std::optional<std::string> in, std::optional<std::string> out, std::optional<std::string> flags, int block) {
			kw("aniBlend"), open(), str(name);
			if (layer) n(*layer);
			str(next);
			if (in) n(*in);
			if (out) n(*out);
			if (flags) p(FLG, flags->c_str());
			close();
			if (!block) end();
			else ignored_block(block - 1);
			MdsAnimationBlend b {name, next, in ? num(*in) : 0, out ? num(*out) : 0};
			want.blends.push_back(b), want_bin.blends.push_back(b);
			chunk(0xF540, Out().line(name).line(next).f32(b.blend_in).f32(b.blend_out));
		}
		void alias(std::string name, int layer, std::string next, std::string in, std::string out, std::string flags, std::string of, int dir) {
			kw("aniAlias"), open(), str(name), n(layer), str(next), n(in), n(out), p(FLG, flags.c_str()), str(of);
			if (dir == 1) kw("F");
			if (dir == 2) kw("R");
			close(), end();
			MdsAnimationAlias b {};
			b.name = name, b.layer = static_cast<uint32_t>(layer), b.next = next, b.blend_in = num(in), b.blend_out = num(out), b.flags = flags_of(flags), b.alias = of, b.direction = dir == 2 ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
			want.aliases.push_back(b), want_bin.aliases.push_back(b);
			chunk(0xF530, Out().line(name).u32(b.layer).line(next).f32(b.blend_in).f32(b.blend_out).line(flags).line(of).line(dir == 2 ? "R" : "F"));
		}
		void comb(std::string name, int layer, std::string next, std::string in, std::string out, std::string flags, std::string model, int last, int block) {
			kw("aniComb"), open(), str(name), n(layer), str(next), n(in), n(out), p(FLG, flags.c_str()), str(model), n(last), close();
			if (!block) end();
			else ignored_block(block - 1);
			MdsAnimationCombine b {};
			b.name = name, b.layer = static_cast<uint32_t>(layer), b.next = next, b.blend_in = num(in), b.blend_out = num(out), b.flags = flags_of(flags), b.model = model, b.last_frame = last;
			want.combinations.push_back(b), want_bin.combinations.push_back(b);
			chunk(0xF570, Out().line(name).u32(b.layer).line(next).f32(b.blend_in).f32(b.blend_out).line(flags).line(model).u32(static_cast<uint32_t>(last)));
		}
		void disable(std::string name) {
			kw("aniDisable"), open(), str(name), close(), end();
			want.disabled_animations.push_back(name), want_bin.disabled_animations.push_back(name);
			chunk(0xF580, Out().line(name));
		}
		void tag(std::string bone) {
			kw("modelTag"), open(), str("DEF_HIT_LIMB"), str(bone), close(), end();
			want.model_tags.push_back({bone}), want_bin.model_tags.push_back({bone});
			chunk(0xF590, Out().u32(0).line("DEF_HIT_LIMB").line(bone));
		}
	};

	// ---- layouts ------------------------------------------------------------------------------------------------
	constexpr int NLAYOUT = 11;
	char const* LNAME[] = {"plain", "tabs,no parens", "line per token,CRLF", "dense", "comment after each token", "UPPER CASE", "lower case", "semicolons", "comment lines", "no newline at end", "mIxEd cAsE"};
	bool word(K k) {
		return k == KW || k == NUM || k == FLG;
	}
	std::string raw(Tok const& t, int layout) {
		if (t.k == STR) return "\"" + t.s + "\"";
		std::string s = t.s;
		if (t.k == KW) {
			int i = 0;
			for (auto& c : s) {
				if (layout == 5 || (layout == 10 && i % 2)) c = static_cast<char>(toupper(c));
				if (layout == 6 || (layout == 10 && i % 2 == 0)) c = static_cast<char>(tolower(c));
				++i;
			}
		}
		return s;
	}
	std::string render(std::vector<Tok> const& t, int layout) {
		std::string o;
		for (size_t i = 0; i < t.size(); ++i) {
			auto& x = t[i];
			K next = i + 1 < t.size() ? t[i + 1].k : END;
			if (x.k == RAW) {
				o += x.s;
				continue;
			}
			if (layout == 1 && (x.k == OPEN || x.k == CLOSE)) continue;
			if (x.k == END) {
				if (layout == 3) o += word(next) || next == RAW ? " " : "";
				else if (layout == 7) o += ";\n";
				else if (layout == 8) o += " // ani(\"x\" 1 { } \" \n/ single\n";
				else if (layout == 2) o += "\r\n\r\n";
				else o += "\n";
				continue;
			}
			o += raw(x, layout);
			switch (layout) {
			case 1: o += next == COLON || x.k == COLON ? "" : "\t"; break;
			case 2: o += "\r\n"; break;
			case 3: o += word(x.k) && word(next) ? " " : ""; break;
			case 4: o += "//" + std::string(i % 2 ? "x \" ( {" : "") + "\n"; break;
			case 7: o += x.k == COLON || next == COLON ? "" : " ; "; break;
			default: o += x.k == OPEN || next == CLOSE || next == COLON || x.k == COLON ? "" : " "; break;
			}
		}
		if (layout == 9)
			while (!o.empty() && isspace(static_cast<unsigned char>(o.back()))) o.pop_back();
		return o;
	}

	std::string load(std::string const& data, int source = 0) {
		ModelScript s;
		if (source == 1) {
			std::istringstream in {data};
			auto r = Read::from(&in);
			s.load(r.get());
		} else {
			auto r = rd(data);
			s.load(r.get());
		}
		return dump(s);
	}
	void expect(mc::Run& r, std::string const& data, ModelScript const& want, char const* what, int source = 0) {
		std::string got, w = dump(want);
		try {
			got = load(data, source);
		} catch (mc::Failure&) {
			throw;
		} catch (std::exception const& e) {
			mc::fail(mc::fmt("%s-rejected", what), std::string(what) + " rejected: " + e.what() + " | " + esc(data, 600));
		}
		r.trans();
		r.state(mc::hash_str(data));
		r.outcome(mc::hash_str(w));
		if (got != w) mc::fail(mc::fmt("%s-differs", what), std::string(what) + ": " + first_diff(w, got) + " | " + esc(data, 600));
	}
	void expect_all(mc::Run& r, Script const& s, int layouts = NLAYOUT) {
		for (int l = 0; l < layouts; ++l) expect(r, render(s.t, l), s.want, "text");
		if (s.has_bin) expect(r, s.bin.s, s.want_bin, "binary");
	}
	/// any answer but a hang, a crash or unbounded memory is fine
	void survives(mc::Run& r, std::string const& data) {
		try {
			auto d = load(data);
			r.outcome(mc::hash_str(d));
			r.counters["malformed accepted"]++;
		} catch (mc::Failure&) {
			throw;
		} catch (std::bad_alloc const&) {
			mc::fail("unbounded-memory", "loading needs unbounded memory: " + esc(data, 400));
		} catch (std::exception const&) {
			r.counters["malformed rejected"]++;
		}
		r.trans();
	}

	std::vector<EvOpt> event_menu(bool rich) {
		std::vector<EvOpt> v;
		auto add = [&](EvOpt e) { v.push_back(std::move(e)); };
		auto tag = [&](char const* type, std::optional<std::string> a, std::optional<std::string> b, bool at, bool fr) {
			EvOpt e {0};
			e.type = type, e.a = a, e.b = b, e.flag = at, e.has_frame = fr;
			add(e);
		};
		tag("DEF_DROP_TORCH", {}, {}, true, true);
		tag("DEF_WINDOW", "1 2 3", {}, false, true);
		tag("DEF_CREATE_ITEM", "slot", "item", false, false);
		tag("DEF_FIGHTMODE", "2H", {}, false, true);
		for (int b = 0; b < 8; ++b) {
			if ((b & 4) && !(b & 2)) continue;
			if (!rich && b && b != 7) continue;
			EvOpt e {1};
			e.a = "sfx", e.flag = b & 2, e.quirk = b & 4;
			if (b & 1) e.num = "67.5";
			add(e);
		}
		for (int b = 0; b < 2; ++b) {
			EvOpt e {2};
			e.a = "grnd", e.quirk = b;
			add(e);
		}
		for (int b = 0; b < 8; ++b) {
			if ((b & 4) && !(b & 2)) continue;
			if (!rich && b && b != 7) continue;
			EvOpt e {3};
			e.a = "pfx", e.b = "pos", e.flag = b & 2, e.quirk = b & 4;
			if (b & 1) e.idx = 991;
			add(e);
		}
		EvOpt st {4};
		st.idx = 77;
		add(st);
		for (int b = 0; b < 2; ++b) {
			EvOpt e {5};
			e.a = "mm";
			if (b) e.b = "node";
			add(e);
		}
		EvOpt tr {6};
		tr.idx = 11;
		add(tr);
		return v;
	}

	constexpr int NSTMT = 16;
	void statement(Script& s, int k, int i) {
		auto nm = [&](char const* p) { return mc::fmt("%s%d", p, i); };
		EvOpt e {0};
		e.type = "DEF_HIT_END", e.a = "7 8";
		EvOpt g {1};
		g.a = "boom", g.num = "12.5";
		switch (k) {
		case 0: s.ani(nm("ani"), 1 + i, nm("next"), "0.1", "0", "M.", "m.asc", false, 0, 10 + i, {}, {}, 0); break;
		case 1: s.ani(nm("ani"), 2, "", "0", "0.25", "MI", "m.asc", true, 5, -1, "10", {}, 1); break;
		case 2: s.ani(nm("ani"), 3, "x", "1", "2.5", ".", "m.asc", false, 1, 2, {}, "0.2", 1, {e, g}); break;
		case 3: s.ani(nm("ani"), 3, "x", "1", "2.5", "RE", "m.asc", false, 1, 2, "50", "2", 0); break;
		case 4: s.blend(nm("blend"), {}, nm("bn"), {}, {}, {}, 0); break;
		case 5: s.blend(nm("blend"), 4, nm("bn"), "0.5", "1.5", {}, 0); break;
		case 6: s.blend(nm("blend"), {}, nm("bn"), "0.5", "1.5", "M.", 0); break;
		case 7: s.blend(nm("blend"), {}, nm("bn"), "3", {}, {}, 1); break;
		case 8: s.blend(nm("blend"), 7, nm("bn"), {}, {}, {}, 3); break;
		case 9: s.alias(nm("alias"), 1, "n", "0.1", "0.2", "M", "ani0", 0); break;
		case 10: s.alias(nm("alias"), 1, "n", "0", "0", ".F", "ani0", 2); break;
		case 11: s.comb(nm("comb"), 1, "n", "0.1", "0.2", "M.", "c_", 9, 0); break;
		case 12: s.comb(nm("comb"), 1, "n", "0.1", "0.2", "I", "c_", 9, 2); break;
		case 13: s.disable(nm("dis")); break;
		case 14: s.tag(nm("bone")); break;
		case 15: s.alias(nm("alias"), 9, "n", "0", "0", "P", "ani0", 1); break;
		}
	}
	Script in_enum(std::function<void(Script&)> const& f) {
		Script s;
		s.begin();
		s.mesh_and_tree("tree.asc", false);
		s.enum_begin();
		f(s);
		s.enum_end();
		s.mesh("behind.asc");
		s.finish();
		return s;
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 5;

		// 1. every statement sequence
		for (int len = 0; len <= r.tier(3, 4); ++len)
			tuples(len, NSTMT, [&](std::vector<int> const& v) {
				r.run_case(
				    "statements",
				    [&] {
					    auto s = in_enum([&](Script& x) {
						    for (size_t i = 0; i < v.size(); ++i) statement(x, v[i], static_cast<int>(i));
					    });
					    if (v.size() <= 2)
						    expect_all(r, s);
					    else {
						    for (int l : {0, 3, 5}) expect(r, render(s.t, l), s.want, "text");
						    expect(r, s.bin.s, s.want_bin, "binary");
					    }
				    },
				    [&] {
					    std::string d = "statements";
					    for (int k : v) d += mc::fmt(" %d", k);
					    return d;
				    });
			});

		// 2. every event sequence
		auto menu = event_menu(true);
		for (int len = 1; len <= r.tier(2, 3); ++len)
			tuples(len, static_cast<int>(menu.size()), [&](std::vector<int> const& v) {
				r.run_case(
				    "events",
				    [&] {
					    auto s = in_enum([&](Script& x) {
						    std::vector<EvOpt> evs;
						    for (int k : v) evs.push_back(menu[z(k)]);
						    x.ani("a", 1, "b", "0", "0", "M", "m", false, 0, 1, {}, {}, 1, evs);
						    x.disable("other");
					    });
					    expect_all(r, s, v.size() == 1 ? NLAYOUT : 7);
					    if (v.size() == 1) expect(r, render(s.t, 0), s.want, "text", 1), expect(r, s.bin.s, s.want_bin, "binary", 1);
				    },
				    [&] {
					    std::string d = "events";
					    for (int k : v) d += mc::fmt(" %d", k);
					    return d;
				    });
			});

		// 3. event tags: every type x arguments
		std::vector<std::optional<std::string>> as {{}, "", "ZS_RIGHTHAND", "FIST", "1H", "1h", "2H", "2h", "BOW", "CBOW", "MAG", "1 2 3", "8\t15", " 5 ", "-4 7", "x", "12 y 3", "2147483647", "ATTACH", " lead"};
		std::vector<std::optional<std::string>> bs {{}, "", "ItMw 1", "5"};
		for (auto& t : TAGS)
			for (auto& a : as)
				for (auto& b : bs)
					for (int at = 0; at < 2; ++at)
						for (int fr = 0; fr < 2; ++fr) {
							if (!a && b) continue;
							r.run_case(
							    "tags",
							    [&] {
								    EvOpt e {0};
								    e.type = t.name, e.a = a, e.b = b, e.flag = at, e.has_frame = fr, e.frame = 17;
								    EvOpt f {4};
								    f.idx = 5;
								    auto s = in_enum([&](Script& x) { x.ani("a", 1, "b", "0", "0", "M", "m", false, 0, 1, {}, {}, 1, {e, f, e}); });
								    expect(r, render(s.t, 0), s.want, "text");
								    expect(r, render(s.t, 3), s.want, "text");
								    expect(r, s.bin.s, s.want_bin, "binary");
							    },
							    [&] { return mc::fmt("tag %s a=%s b=%s attach %d frame %d", t.name, a ? esc(*a).c_str() : "-", b ? esc(*b).c_str() : "-", at, fr); });
						}

		// 4. flags
		for (int set = 0; set < 64; ++set)
			for (int style = 0; style < 5; ++style)
				r.run_case(
				    "flags",
				    [&] {
					    std::string f;
					    std::string const L = style == 1 ? "PIFERM" : "MREFIP";
					    for (size_t i = 0; i < 6; ++i) {
						    size_t bit = style == 1 ? 5 - i : i;
						    if (set >> bit & 1) f += L[i];
						    else if (style == 2) f += '.';
					    }
					    if (style == 3) f = "." + f;
					    if (style == 4) f = f + ".";
					    if (f.empty()) f = ".";
					    auto s = in_enum([&](Script& x) {
						    x.ani("a", 1, "b", "0", "0", f, "m", false, 0, 1, {}, {}, 0, {}, style == 0 && f != ".");
						    x.alias("al", 1, "n", "0", "0", f, "a", 2);
						    x.comb("c", 1, "n", "0", "0", f, "m", 3, 0);
						    x.blend("bl", {}, "n", "0", "0", f, 0);
						    x.disable("d");
					    });
					    expect_all(r, s);
				    },
				    [&] { return mc::fmt("flags set %d style %d", set, style); });

		// 5. numbers
		for (int v : {0, 1, -1, 9, 10, 11, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 999999999, 1000000000, 2147483647, -2147483647 - 1, -32768, -10})
			for (int slot = 0; slot < 8; ++slot)
				r.run_case(
				    "integers",
				    [&] {
					    auto s = in_enum([&](Script& x) {
						    EvOpt p {3};
						    p.a = "p", p.b = "q", p.frame = slot == 0 ? v : 1, p.idx = slot == 1 ? v : 2;
						    EvOpt st {4};
						    st.frame = slot == 2 ? v : 3, st.idx = slot == 3 ? v : 4;
						    EvOpt tr {6};
						    tr.frame = slot == 4 ? v : 5, tr.idx = slot == 5 ? v : 5;
						    x.ani("a", slot == 6 ? v : 6, "b", "0", "0", "M", "m", false, slot == 7 ? v : 7, slot == 7 ? v : 8, {}, {}, 1, {p, st, tr});
						    x.comb("c", slot == 6 ? v : 6, "b", "0", "0", "M", "m", slot == 7 ? v : 8, 0);
						    x.alias("c", slot == 6 ? v : 6, "b", "0", "0", "M", "m", 0);
					    });
					    expect_all(r, s);
				    },
				    [&] { return mc::fmt("integer %d slot %d", v, slot); });
		for (auto v : {"0", "1", "-1", "0.0", "0.5", "-0.5", "0.1", "0.25", "10.", "123456", "0.000001", "3.402823", "25.0", "99999.99", "1000", "16777217", "-1000.125", "00.50", "7"})
			for (int slot = 0; slot < 6; ++slot)
				r.run_case(
				    "floats",
				    [&] {
					    auto s = in_enum([&](Script& x) {
						    std::string d = "2";
						    EvOpt g {1};
						    g.a = "s", g.num = slot == 0 ? v : d;
						    x.ani("a", 1, "b", slot == 1 ? v : d, slot == 2 ? v : d, "M", "m", false, 0, 1, slot == 3 ? v : d, slot == 4 ? v : d, 1, {g});
						    x.blend("bl", {}, "n", slot == 5 ? v : d, slot == 2 ? v : d, {}, 0);
						    x.alias("al", 1, "n", slot == 1 ? v : d, slot == 2 ? v : d, "M", "a", 2);
						    x.comb("c", 1, "n", slot == 1 ? v : d, slot == 2 ? v : d, "M", "m", 3, 0);
					    });
					    expect_all(r, s);
				    },
				    [&] { return mc::fmt("number %s slot %d", v, slot); });

		// 6. strings
		for (auto v : {"", "a", " ", "a b", " a", "a ", "x(1).asc", "x)", "x) ", "(", ")", "//c", "/", "{", "}", ":", ";", "'", "F", "R", "ATTACH", "DONT_USE_MESH", "\xe4\xff", "a\tb", "ani", "5", "-", ".", "*eventTag", "a,b", "\\_WORK\\X.ASC"})
			for (int slot = 0; slot < 18; ++slot)
				r.run_case(
				    "strings",
				    [&] {
					    auto at = [&](int i, char const* d) { return std::string(slot == i ? v : d); };
					    Script s;
					    s.begin(at(0, "Model"));
					    s.mesh_and_tree(at(1, "tree"), slot % 2);
					    s.mesh(at(2, "mesh"));
					    s.enum_begin();
					    EvOpt t {0};
					    t.type = "DEF_SWAPMESH", t.a = at(3, "s1"), t.b = at(4, "s2");
					    EvOpt g {1};
					    g.a = at(5, "snd");
					    EvOpt p {3};
					    p.a = at(6, "pf"), p.b = at(7, "pos");
					    EvOpt m {5};
					    m.a = at(8, "mm"), m.b = at(9, "nd");
					    EvOpt gr {2};
					    gr.a = at(5, "snd");
					    s.ani(at(10, "a"), 1, at(11, "n"), "0", "0", "M", at(12, "mod"), false, 0, 1, {}, {}, 1, {t, g, p, m, gr});
					    s.alias(at(10, "al"), 1, at(11, "n"), "0", "0", "M", at(13, "of"), 0);
					    s.blend(at(14, "bl"), {}, at(15, "n"), {}, {}, {}, 0);
					    s.comb(at(10, "co"), 1, at(11, "n"), "0", "0", "M", at(12, "mod"), 5, 0);
					    s.disable(at(16, "dis"));
					    s.tag(at(17, "bone"));
					    s.enum_end();
					    s.finish();
					    expect_all(r, s);
				    },
				    [&] { return mc::fmt("string '%s' slot %d", esc(v).c_str(), slot); });

		// 7. strings whose end is missing (documented in the parser)
		for (auto nl : {"\n", "\r\n"})
			for (auto name : {"A.ASC", "Some_File Name.ASC", "F(1).asc", "x"})
				for (auto tail : {"", ")", " ", " )", ") ", "\t"})
					for (int where = 0; where < 3; ++where)
						for (int eof = 0; eof < 2; ++eof)
							r.run_case(
							    "unterminated",
							    [&] {
								    Script s;
								    std::string x = std::string("\"") + name + tail;
								    s.begin();
								    s.mesh("first.asc");
								    std::string txt = render(s.t, 0);
								    if (where == 0) txt += "registerMesh (" + x, s.want.meshes.push_back(name);
								    if (where == 1) txt += "meshAndTree(" + x, s.want.skeleton.name = name;
								    if (where == 2) txt += "aniEnum {\naniDisable(" + x, s.want.disabled_animations.push_back(name);
								    if (!eof) {
									    txt += nl;
									    if (where != 2) txt += "registerMesh(\"last.asc\")", s.want.meshes.push_back("last.asc");
									    if (where == 2) txt += "aniDisable(\"last\")\n}", s.want.disabled_animations.push_back("last");
									    txt += std::string(nl) + "}" + nl;
								    }
								    expect(r, txt, s.want, "unterminated");
							    },
							    [&] { return mc::fmt("unterminated '%s%s' in %d eof %d", name, tail, where, eof); });

		// 8. items of the model block
		for (int len = 0; len <= r.tier(4, 5); ++len)
			tuples(len, 6, [&](std::vector<int> const& v) {
				r.run_case(
				    "model-block",
				    [&] {
					    Script s;
					    s.begin();
					    for (size_t i = 0; i < v.size(); ++i) {
						    auto nm = mc::fmt("f%zu", i);
						    if (v[i] == 0) s.mesh_and_tree(nm, false);
						    if (v[i] == 1) s.mesh_and_tree(nm, true);
						    if (v[i] == 2) s.mesh(nm);
						    if (v[i] > 2) {
							    s.enum_begin();
							    if (v[i] == 4) statement(s, 0, static_cast<int>(i));
							    if (v[i] == 5) statement(s, 4, static_cast<int>(i)), statement(s, 2, static_cast<int>(i));
							    s.enum_end();
						    }
					    }
					    s.finish();
					    expect_all(r, s);
				    },
				    [&] {
					    std::string d = "model block";
					    for (int k : v) d += mc::fmt(" %d", k);
					    return d;
				    });
			});

		// 9. one gap between tokens filled with anything that means nothing
		{
			std::vector<std::string> gaps {"\n", "\r\n", "\t", "  ", "//\n", "// \"x { ) *eventTag\n", "/ c\r\n", ";", "(", ")", "(;)\n", "\v", "\f"};
			std::vector<Script> bases;
			for (int k = 0; k < NSTMT; ++k)
				bases.push_back(in_enum([&](Script& x) {
					statement(x, k, 0);
					statement(x, 13, 1);
				}));
			for (auto& e : menu)
				bases.push_back(in_enum([&](Script& x) { x.ani("a", 1, "b", "0", "0", "M", "m", false, 0, 1, {}, {}, 1, {e}); }));
			for (size_t b = 0; b < bases.size(); ++b)
				for (size_t i = 0; i < bases[b].t.size(); ++i)
					r.run_case(
					    "gaps",
					    [&] {
						    for (auto& g : gaps) {
							    auto t = bases[b].t;
							    t.insert(t.begin() + static_cast<ptrdiff_t>(i), Tok {RAW, " " + g});
							    expect(r, render(t, 0), bases[b].want, "gap");
						    }
					    },
					    [&] { return mc::fmt("script %zu: filler before token %zu", b, i); });
		}

		// 10. malformed text: every prefix, every single-character change, every token removed, doubled or swapped
		Script big = in_enum([&](Script& x) {
			x.ani("a", 1, "b", "0.5", "0", "M.", "m", false, 0, 1, "25", "0.2", 1, event_menu(false));
			for (int k : {4, 8, 10, 12, 14, 0}) statement(x, k, k);
		});
		for (int l = 0; l < NLAYOUT; ++l) {
			auto full = render(big.t, l);
			for (size_t n = 0; n <= full.size(); ++n)
				r.run_case("truncated-text", [&] { survives(r, full.substr(0, n)); }, [&] { return mc::fmt("layout %s cut at %zu of %zu", LNAME[l], n, full.size()); });
		}
		for (size_t n = 0; n <= big.bin.s.size(); ++n)
			r.run_case("truncated-binary", [&] { survives(r, big.bin.s.substr(0, n)); }, [&] { return mc::fmt("compiled form cut at %zu of %zu", n, big.bin.s.size()); });
		{
			std::string const chars = std::string("\"{}/\n(:-.x0 F*;\xff\x01", 17) + std::string(1, '\0');
			auto full = render(big.t, 0);
			std::vector<int> layouts = r.quick() ? std::vector<int> {0} : std::vector<int> {0, 3, 4};
			for (int l : layouts) {
				auto f = render(big.t, l);
				for (size_t n = 0; n <= f.size(); ++n)
					r.run_case(
					    "edited-text",
					    [&] {
						    for (char c : chars) {
							    auto x = f;
							    x.insert(n, 1, c);
							    survives(r, x);
							    if (n < f.size()) {
								    x = f;
								    x[n] = c;
								    survives(r, x);
							    }
						    }
						    if (n < f.size()) {
							    auto x = f;
							    x.erase(n, 1);
							    survives(r, x);
						    }
					    },
					    [&] { return mc::fmt("layout %s: one character changed at %zu", LNAME[l], n); });
			}
			for (size_t i = 0; i < big.t.size(); ++i)
				r.run_case(
				    "edited-tokens",
				    [&] {
					    auto t = big.t;
					    t.erase(t.begin() + static_cast<ptrdiff_t>(i));
					    survives(r, render(t, 0));
					    t = big.t;
					    t.insert(t.begin() + static_cast<ptrdiff_t>(i), t[i]);
					    survives(r, render(t, 0));
					    for (size_t j = i + 1; j < big.t.size() && j < i + z(r.tier(6, 1000)); ++j) {
						    t = big.t;
						    std::swap(t[i], t[j]);
						    survives(r, render(t, 0));
					    }
					    t = big.t;
					    t.resize(i);
					    survives(r, render(t, 9));
				    },
				    [&] { return mc::fmt("token %zu removed, doubled, swapped, last", i); });
		}

		// 11. compiled form: unknown chunks are skipped, events need an animation
		{
			std::vector<size_t> cuts {0};
			auto& b = big.bin.s;
			for (size_t o = 0; o + 6 <= b.size();) {
				auto u = [&](size_t i) { return static_cast<size_t>(static_cast<unsigned char>(b[i])); };
				o += 6 + (u(o + 2) | u(o + 3) << 8 | u(o + 4) << 16 | u(o + 5) << 24);
				cuts.push_back(o);
			}
			cuts.pop_back();
			for (size_t ci = 1; ci < cuts.size(); ++ci)
				for (uint32_t id : {0xF510u, 0xF550u, 0xF560u, 0xF5A6u, 0xF5A7u, 0xF5A8u, 0xF600u, 0xF5A0u, 0xF5AFu})
					for (size_t len : {0u, 4u, 7u})
						r.run_case(
						    "unknown-chunk",
						    [&] {
							    Out c;
							    c.u16(id).u32(static_cast<uint32_t>(len)).str(std::string(len, 'q'));
							    expect(r, b.substr(0, cuts[ci]) + c.s + b.substr(cuts[ci]), big.want_bin, "unknown-chunk");
						    },
						    [&] { return mc::fmt("chunk %04x length %zu before chunk %zu", id, len, ci); });
			auto evs = event_menu(true);
			for (size_t k = 0; k < evs.size(); ++k)
				r.run_case(
				    "event-without-animation",
				    [&] {
					    Script s;
					    s.begin();
					    s.enum_begin();
					    s.want.animations.emplace_back(), s.want_bin.animations.emplace_back();
					    s.event(evs[k]);
					    s.enum_end();
					    s.finish();
					    survives(r, s.bin.s);
				    },
				    [&] { return mc::fmt("event %zu before any animation", k); });
		}

		// 12. loading into an object used before
		for (int first = 0; first < 2; ++first)
			for (int second = 0; second < 2; ++second)
				for (int k = 0; k < NSTMT; ++k)
					r.run_case(
					    "reuse",
					    [&] {
						    auto s = in_enum([&](Script& x) { statement(x, k, 0); });
						    ModelScript m;
						    auto a = rd(first ? big.bin.s : render(big.t, 0));
						    m.load(a.get());
						    Script t;
						    t.begin();
						    if (k % 2) t.mesh("only");
						    t.finish();
						    auto b = rd(second ? t.bin.s : render(t.t, 0));
						    m.load(b.get());
						    auto w = dump(second ? t.want_bin : t.want), g = dump(m);
						    check(w == g, "reuse", "loading into a used script: " + first_diff(w, g));
						    auto c = rd(first ? s.bin.s : render(s.t, 0));
						    m.load(c.get());
						    w = dump(first ? s.want_bin : s.want), g = dump(m);
						    check(w == g, "reuse", "loading into a used script: " + first_diff(w, g));
						    r.trans(3);
					    },
					    [&] { return mc::fmt("reuse %d %d statement %d", first, second, k); });
	}
} // namespace
MC_MAIN(explore)
