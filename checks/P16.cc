// P16: loading a truncated or altered asset ends with a result or an error and never leaves its buffers.
#define MC_LIMIT_ALLOC 64
#include "corpus.hh"

namespace {
	// ---- alterations --------------------------------------------------------------------------------------------
	void attack(mc::Run& r, Asset const& a, std::string const& data) {
		r.trans();
		try {
			a.load(data);
			++r.counters["accepted"];
			r.outcome(a.name + " ok");
		} catch (mc::Failure const&) {
			throw;
		} catch (std::exception const& e) {
			++r.counters["rejected"];
			r.outcome(a.name + " " + std::string(e.what()).substr(0, 60));
		}
		// the logger must still work
	}

	void binary(mc::Run& r, Asset const& a) {
		auto const& s = a.data;
		auto set = [&](size_t o, size_t w, uint32_t v) {
			std::string x = s;
			for (size_t i = 0; i < w; ++i) x[o + i] = static_cast<char>(v >> (8 * i));
			return x;
		};
		auto get = [&](size_t o, size_t w) {
			uint32_t v = 0;
			for (size_t i = 0; i < w; ++i) v |= static_cast<uint32_t>(static_cast<unsigned char>(s[o + i])) << (8 * i);
			return v;
		};
		auto n = static_cast<uint32_t>(s.size());
		for (size_t w : {1u, 2u, 4u})
			for (size_t o = 0; o + w <= s.size(); ++o) {
				uint32_t v = get(o, w);
				std::vector<uint32_t> m;
				if (w == 1) m = {0, 1, 0x7f, 0x80, 0xff, v ^ 1, v + 1, v - 1, v ^ 0x20, v ^ 0x80};
				if (w == 2) m = {0x100, 0x7fff, 0x8000, 0xffff, v + 1};
				if (w == 4) m = {0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x40000000, 0x00ffffff, 0x10000, n, n - static_cast<uint32_t>(o), v + 1, v - 1, v * 2 + 1, 0x20000001, 0x15555556};
				if (a.depth == NARROW || r.quick()) {
					if (w == 1) m = {0, 0xff, v ^ 1, v ^ 0x80};
					if (w == 2) m = {0xffff};
					if (w == 4) m = {0x7fffffff, 0xffffffff, 0x00ffffff};
				}
				if (r.quick() && a.depth == NARROW) {
					if (w == 1) m = {0xff, v ^ 1};
					if (w == 2) m = {};
					if (w == 4) m = {0x7fffffff, 0xffffffff};
				}
				uint32_t mask = w == 4 ? 0xffffffffu : (1u << (8 * w)) - 1;
				for (auto& x : m) x &= mask;
				std::sort(m.begin(), m.end());
				m.erase(std::unique(m.begin(), m.end()), m.end());
				std::erase(m, v);
				for (uint32_t x : m)
					r.run_case("altered", [&] { attack(r, a, set(o, w, x)); }, [&] { return mc::fmt("%s: %zu bytes at %zu: %x := %x", a.name.c_str(), w, o, v, x); });
			}
	}
	void text(mc::Run& r, Asset const& a) {
		auto const& s = a.data;
		// numbers
		for (size_t i = 0; i < s.size();) {
			if (!isdigit(static_cast<unsigned char>(s[i]))) {
				++i;
				continue;
			}
			size_t j = i;
			while (j < s.size() && isdigit(static_cast<unsigned char>(s[j]))) ++j;
			std::vector<char const*> menu {"", "-1", "0", "2147483647", "4294967295", "99999999999999999999", "x"};
			if (r.quick()) menu = {"-1", "2147483647", "99999999999999999999"};
			if (j - i < 200)
				for (auto v : menu)
					r.run_case("number", [&] { attack(r, a, s.substr(0, i) + v + s.substr(j)); }, [&] { return mc::fmt("%s: number at %zu '%s' := '%s'", a.name.c_str(), i, s.substr(i, j - i).c_str(), v); });
			i = j;
		}
		// characters
		for (size_t i = 0; i < s.size(); ++i) {
			std::string menu {"\0\n \"]}=:x\xff", 10};
			if (r.quick()) menu = std::string("\0\n\"", 3);
			if (r.quick() && a.depth == NARROW && i % 3) continue;
			for (char v : menu)
				if (s[i] != v)
					r.run_case(
					    "character",
					    [&] {
						    std::string x = s;
						    x[i] = v;
						    attack(r, a, x);
					    },
					    [&] { return mc::fmt("%s: character at %zu '%s' := '%s'", a.name.c_str(), i, esc(s.substr(i, 1)).c_str(), esc(std::string(1, v)).c_str()); });
		}
		// lines removed, doubled, exchanged with the next
		std::vector<std::string> lines;
		std::istringstream in {s};
		for (std::string l; std::getline(in, l);) lines.push_back(l + "\n");
		for (size_t i = 0; i < lines.size(); ++i)
			for (int k = 0; k < 3; ++k)
				r.run_case(
				    "line",
				    [&] {
					    std::string x;
					    for (size_t j = 0; j < lines.size(); ++j) {
						    if (k == 2 && i + 1 < lines.size() && (j == i || j == i + 1)) {
							    x += lines[j == i ? i + 1 : i];
							    continue;
						    }
						    if (k != 0 || j != i) x += lines[j];
						    if (k == 1 && j == i) x += lines[j];
					    }
					    attack(r, a, x);
				    },
				    [&] { return mc::fmt("%s: line %zu %s", a.name.c_str(), i, k == 0 ? "removed" : k == 1 ? "doubled" : "exchanged with the next"); });
	}
	/// every object header of an ASCII archive given every other class, and every reference to every object
	void classes(mc::Run& r, Asset const& a) {
		static std::vector<std::string> const CLASSES {"zCVob", "zCVobLevelCompo:zCVob", "oCItem:zCVob", "oCNpc:zCVob", "oCMobContainer:oCMobInter:oCMOB:zCVob", "zCVobLight:zCVob", "zCMover:zCTrigger:zCVob", "zCTriggerList:zCTrigger:zCVob", "zCCSCamera:zCVob", "zCCamTrj_KeyFrame:zCVob", "oCNpcTalent", "zCEventManager", "zCDecal", "zCMesh", "zCModel", "oCAIHuman:oCAniCtrl_Human:zCAIPlayer", "oCAIVobMove", "oCCSPlayer:zCCSPlayer", "zCSkyControler_Outdoor", "zCWayNet", "zCWaypoint", "oCWorld:zCWorld", "zCMaterial", "oCSavegameInfo", "oCCSManager:zCCSManager", "zCCSPoolItem", "zCCSBlock", "zCCutscene:zCCSBlock", "zCCSCutsceneContext:zCCutscene:zCCSBlock", "oCMsgConversation:oCNpcMessage:zCEventMessage", "zCCSAtomicBlock", "zCCSLib", "zCCSProps", "%", "\xA7", "unknown"};
		auto const& s = a.data;
		std::vector<std::pair<size_t, size_t>> heads; // position of the class name
		uint32_t objects = 0;
		for (size_t p = 0; (p = s.find('[', p)) != std::string::npos; ++p) {
			auto e = s.find_first_of("]\n", p);
			if (e == std::string::npos || s[e] != ']') continue;
			auto c = s.find(' ', p);
			if (c == std::string::npos || c > e) continue;
			auto d = s.find(' ', c + 1);
			if (d == std::string::npos || d > e) continue;
			heads.push_back({c + 1, d});
			++objects;
		}
		for (auto [b, e] : heads) {
			for (auto& c : CLASSES)
				if (s.substr(b, e - b) != c) r.run_case("class", [&] { attack(r, a, s.substr(0, b) + c + s.substr(e)); }, [&] { return mc::fmt("%s: class %s at %zu := %s", a.name.c_str(), esc(s.substr(b, e - b)).c_str(), b, esc(c).c_str()); });
			for (uint32_t i = 0; i <= objects; ++i)
				r.run_case(
				    "reference",
				    [&] {
					    auto end = s.find(']', e);
					    attack(r, a, s.substr(0, b) + mc::fmt("\xA7 0 %u]", i) + s.substr(end + 1));
				    },
				    [&] { return mc::fmt("%s: object at %zu := reference to %u", a.name.c_str(), b, i); });
		}
	}
	void pairs(mc::Run& r, Asset const& a) {
		auto const& s = a.data;
		for (size_t o = 0; o + 4 <= s.size(); ++o)
			for (size_t p = o + 2; p + 4 <= s.size(); ++p)
				for (int k = 0; k < 4; ++k)
					r.run_case(
					    "altered-twice",
					    [&] {
						    static char const V[] = "\xff\xff\xff\x7f\x00\x00\x01\x00";
						    std::string x = s;
						    x.replace(o, 4, V + (k & 1) * 4, 4);
						    x.replace(p, 4, V + (k >> 1) * 4, 4);
						    attack(r, a, x);
					    },
					    [&] { return mc::fmt("%s: words at %zu and %zu (%d)", a.name.c_str(), o, p, k); });
	}

	void explore(mc::Run& r) {
		quiet_log();
		r.case_cpu_s = 3;
		geometry(r);
		textures();
		animations();
		model_scripts();
		scripts();
		objects();
		entries();
		worlds();
		saves(r);
		for (auto& a : assets) {
			r.run_case(
			    "intact", [&] { attack(r, a, a.data); }, [&] { return a.name; });
			r.state(mc::hash_str(a.data));
			for (size_t cut = 0; cut < a.data.size(); ++cut)
				if (!r.quick() || a.depth == FULL || cut % (a.quick ? 4 : 16) == a.data.size() % 4)
					r.run_case("truncated", [&] { attack(r, a, a.data.substr(0, cut)); }, [&] { return mc::fmt("%s cut to %zu of %zu bytes", a.name.c_str(), cut, a.data.size()); });
		}
		for (auto& a : assets)
			if (!r.quick() || a.quick) {
				if (a.text) {
					text(r, a);
					if (a.data.find('[') != std::string::npos) classes(r, a);
				} else
					binary(r, a);
			}
		if (!r.quick())
			for (auto& a : assets)
				if (!a.text && a.depth == FULL && a.data.size() < 900) pairs(r, a);
	}
} // namespace
MC_MAIN(explore)
