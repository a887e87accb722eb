// P19: typed script data access -- every symbol kind x access kind x index x context instance, every sequence of writes,
// every registration, every opaque class layout and every script assignment, against a typed store model.
#include "daemodel.hh"
#include "zenkit/addon/daedalus.hh"
#undef var
#undef string
#undef func
using namespace mcd;

namespace {
	enum class E4 : uint32_t { A = 1 };

	struct CObj : DaedalusInstance {
		int32_t c0 = 0x1111;
		int32_t i = 0;
		int32_t ia[3] = {};
		float f = 0;
		float fa[2] = {};
		std::string s;
		std::string sa[2];
		int32_t fn = 0;
		int32_t fna[2] = {};
		E4 e = static_cast<E4>(0);
		int32_t c1 = 0x2222;
	};
	struct CSub : CObj {
		int32_t more = 0;
	};
	struct DObj : DaedalusInstance {
		std::string s;
		int32_t i = 0;
		int32_t c1 = 0x3333;
	};
	struct TObj : DaedalusTransientInstance {
		mutable std::vector<std::string> log;
		std::string str = "transient";
		void set_int(DaedalusSymbol const& y, uint16_t i, int32_t v) override {
			log.push_back(mc::fmt("set int %u[%u]=%d", y.index(), i, v));
		}
		int32_t get_int(DaedalusSymbol const& y, uint16_t i) const override {
			log.push_back(mc::fmt("get int %u[%u]", y.index(), i));
			return 4711;
		}
		void set_float(DaedalusSymbol const& y, uint16_t i, float v) override {
			log.push_back(mc::fmt("set float %u[%u]=%g", y.index(), i, double(v)));
		}
		float get_float(DaedalusSymbol const& y, uint16_t i) const override {
			log.push_back(mc::fmt("get float %u[%u]", y.index(), i));
			return 47.5f;
		}
		void set_string(DaedalusSymbol const& y, uint16_t i, std::string_view v) override {
			log.push_back(mc::fmt("set string %u[%u]=", y.index(), i) + std::string(v));
		}
		std::string const& get_string(DaedalusSymbol const& y, uint16_t i) const override {
			log.push_back(mc::fmt("get string %u[%u]", y.index(), i));
			return str;
		}
	};

	std::string vi(int32_t v) {
		return mc::fmt("i%d", v);
	}
	std::string vf(float v) {
		uint32_t u;
		memcpy(&u, &v, 4);
		return mc::fmt("f%08x", u);
	}
	std::string vs(std::string_view v) {
		return "s" + std::string(v);
	}

	enum Kind { KI, KFL, KS_, KN };
	char const* kind_name(int k) {
		char const* n[] = {"int", "float", "string", "instance"};
		return n[k];
	}

	/// the script all families but the layouts use
	struct Tab {
		std::vector<Sym> syms;
		std::map<std::string, uint32_t> id;
		std::string code;
		uint32_t add(Sym s) {
			id[s.name] = static_cast<uint32_t>(syms.size());
			syms.push_back(std::move(s));
			return static_cast<uint32_t>(syms.size() - 1);
		}
		uint32_t mk(std::string const& n, uint32_t type, uint32_t count, uint32_t flags = 0, int parent = -1) {
			Sym s {n, type, count, flags};
			s.parent = parent;
			s.addr = 0;
			for (uint32_t i = 0; i < count; ++i) {
				s.ints.push_back(static_cast<int32_t>(100 * syms.size() + i));
				s.floats.push_back(float(syms.size()) + 0.25f * float(i));
				s.strs.push_back(n + mc::fmt(" value %u", i));
			}
			return add(s);
		}
		uint32_t operator[](std::string const& n) const {
			return id.at(n);
		}
		void cls(std::string const& n) {
			int p = int(mk(n, T_CLASS, 8));
			if (n == "D" || n == "U" || n == "G") {
				mk(n + ".S", T_STRING, 1, F_MEMBER, p);
				mk(n + ".I", T_INT, 1, F_MEMBER, p);
				return;
			}
			mk(n + ".I", T_INT, 1, F_MEMBER, p);
			mk(n + ".S", T_STRING, 1, F_MEMBER, p);
			mk(n + ".IA", T_INT, 3, F_MEMBER, p);
			mk(n + ".F", T_FLOAT, 1, F_MEMBER, p);
			mk(n + ".SA", T_STRING, 2, F_MEMBER, p);
			mk(n + ".FA", T_FLOAT, 2, F_MEMBER, p);
			mk(n + ".FN", T_FUNC, 1, F_MEMBER, p);
			mk(n + ".FNA", T_FUNC, 2, F_MEMBER, p);
			mk(n + ".E", T_INT, 1, F_MEMBER, p);
		}
		Tab() {
			cls("C");
			cls("D");
			cls("E");
			cls("G");
			cls("U");
			int proto = int(mk("PC", T_PROTO, 0, F_CONST, int(id["C"])));
			int proto2 = int(mk("PE", T_PROTO, 0, F_CONST, int(id["E"])));
			for (auto n : {"C1", "C2"}) mk(n, T_INST, 0, F_CONST, int(id["C"]));
			mk("C3", T_INST, 0, F_CONST, proto);
			mk("D1", T_INST, 0, F_CONST, int(id["D"]));
			mk("E1", T_INST, 0, F_CONST, int(id["E"]));
			mk("E2", T_INST, 0, F_CONST, proto2);
			mk("G1", T_INST, 0, F_CONST, int(id["G"]));
			mk("U1", T_INST, 0, F_CONST, int(id["U"]));
			mk("INT", T_INT, 1);
			mk("INTA", T_INT, 3);
			mk("FLT", T_FLOAT, 1);
			mk("FLTA", T_FLOAT, 2);
			mk("STR", T_STRING, 1);
			mk("STRA", T_STRING, 3);
			mk("FV", T_FUNC, 1);
			mk("FVA", T_FUNC, 2);
			mk("BIG", T_INT, 300);
			mk("NIL", T_INT, 0);
			mk("NILS", T_STRING, 0);
			mk("VOIDV", T_VOID, 1);
			mk("VAR", T_INST, 1, 0, int(id["C"]));
			mk("KINT", T_INT, 1, F_CONST);
			mk("KINTA", T_INT, 2, F_CONST);
			mk("KFLTA", T_FLOAT, 2, F_CONST);
			mk("KSTRA", T_STRING, 2, F_CONST);
			mk("KINST", T_INST, 1, F_CONST, int(id["C"]));
			mk("MEMINST", T_INST, 1, F_MEMBER, int(id["U"]));
			mk("KMEM", T_INT, 1, F_MEMBER | F_CONST, int(id["D"]));
			mk("ORPHAN", T_INT, 1, F_MEMBER, -1);
			mk("FUN", T_FUNC, 0, F_CONST);
			syms.back().addr = 1;
			mk("FUN2", T_FUNC, 1, F_CONST | F_RETURN);
			syms.back().addr = 2;
			mk("FUN2.P", T_INT, 1);
			mk("EXT", T_FUNC, 0, F_CONST | F_EXTERNAL);
			mk("MAIN", T_FUNC, 0, F_CONST);
			syms.back().addr = 3;
			code = std::string(3, char(RSR));
		}
	};
	Tab const& tab() {
		static Tab t;
		return t;
	}

	enum Ctx { NUL, C1, C2, C3, D1, E1, E2, G1, FRESH, SUBC, UFRESH, TRANS, NCTX };
	char const* ctx_name(int c) {
		char const* n[] = {"none", "C1", "C2", "C3", "D1", "E1", "E2", "G1", "an unallocated host object", "an unallocated derived object", "an object of an unregistered class", "a transient instance"};
		return n[c];
	}

	struct World {
		DaedalusVm vm;
		std::shared_ptr<DaedalusInstance> ctx[NCTX];
		std::shared_ptr<CObj> c[3];
		std::shared_ptr<DObj> d;
		std::shared_ptr<TObj> t = std::make_shared<TObj>();
		/// model: (symbol, element, context) -> value
		std::map<std::tuple<uint32_t, uint32_t, int>, std::string> store;

		static void register_c(DaedalusScript& s) {
			s.register_member("C.I", &CObj::i);
			s.register_member("C.IA", &CObj::ia);
			s.register_member("C.F", &CObj::f);
			s.register_member("C.FA", &CObj::fa);
			s.register_member("C.S", &CObj::s);
			s.register_member("C.SA", &CObj::sa);
			s.register_member("C.FN", &CObj::fn);
			s.register_member("C.FNA", &CObj::fna);
			s.register_member("C.E", &CObj::e);
		}
		explicit World(std::string const& code = tab().code, uint8_t flags = 0) : vm(mcd::load(tab().syms, code), flags) {
			register_c(vm);
			vm.register_member("D.S", &DObj::s);
			vm.register_member("D.I", &DObj::i);
			vm.register_as_opaque("E");
			vm.register_as_opaque("G");
			char const* n[] = {"C1", "C2", "C3"};
			for (int k = 0; k < 3; ++k) ctx[C1 + k] = c[k] = vm.allocate_instance<CObj>(n[k]);
			ctx[D1] = d = vm.allocate_instance<DObj>("D1");
			ctx[E1] = vm.init_opaque_instance(vm.find_symbol_by_name("E1"));
			ctx[E2] = vm.init_opaque_instance(vm.find_symbol_by_name("E2"));
			ctx[G1] = vm.init_opaque_instance(vm.find_symbol_by_name("G1"));
			ctx[FRESH] = std::make_shared<CObj>();
			ctx[SUBC] = std::make_shared<CSub>();
			ctx[UFRESH] = std::make_shared<Other>();
			ctx[TRANS] = t;
			for (uint32_t y = 0; y < tab().syms.size(); ++y) {
				auto& s = tab().syms[y];
				for (uint32_t k = 0; k < s.count; ++k)
					for (int x = 0; x < NCTX; ++x) {
						if (x == TRANS) continue;
						if (ok(y, KI, k, x)) store[{y, k, key(y, x)}] = (s.flags & F_MEMBER) ? vi(0) : s.type == T_FUNC ? vi(0) : vi(s.ints[k]);
						if (ok(y, KFL, k, x)) store[{y, k, key(y, x)}] = (s.flags & F_MEMBER) ? vf(0) : vf(s.floats[k]);
						if (ok(y, KS_, k, x)) store[{y, k, key(y, x)}] = (s.flags & F_MEMBER) ? vs("") : vs(s.strs[k]);
					}
			}
		}
		static int key(uint32_t y, int x) {
			return (tab().syms[y].flags & F_MEMBER) ? x : NUL;
		}
		/// may this element be read?
		static bool ok(uint32_t y, int kind, uint32_t idx, int x) {
			auto& s = tab().syms[y];
			if (kind == KN) return s.type == T_INST && !(s.flags & F_MEMBER);
			if (kind == KI && s.type != T_INT && s.type != T_FUNC) return false;
			if (kind == KFL && s.type != T_FLOAT) return false;
			if (kind == KS_ && s.type != T_STRING) return false;
			if (idx >= s.count) return false;
			if (s.flags & F_MEMBER) {
				if (x == TRANS) return true;
				if (s.parent < 0) return false;
				if (s.name == "KMEM") return false; // never registered
				auto& cls = tab().syms[size_t(s.parent)].name;
				switch (x) {
				case C1: case C2: case C3: return cls == "C";
				case D1: return cls == "D";
				case E1: case E2: return cls == "E";
				case G1: return cls == "G";
				default: return false;
				}
			}
			return !(s.type == T_FUNC && (s.flags & F_CONST));
		}
		std::string read(uint32_t y, int kind, uint32_t idx, int x) {
			auto* s = vm.find_symbol_by_index(y);
			auto i = static_cast<uint16_t>(idx);
			switch (kind) {
			case KI: return vi(s->get_int(i, ctx[x].get()));
			case KFL: return vf(s->get_float(i, ctx[x].get()));
			case KS_: return vs(s->get_string(i, ctx[x].get()));
			}
			auto& n = s->get_instance();
			for (int k = 0; k < NCTX; ++k)
				if (ctx[k] == n) return mc::fmt("n%d", k);
			return "n?";
		}
		void write(uint32_t y, int kind, uint32_t idx, int x, int v, std::string const& sv) {
			auto* s = vm.find_symbol_by_index(y);
			auto i = static_cast<uint16_t>(idx);
			switch (kind) {
			case KI: s->set_int(v, i, ctx[x].get()); break;
			case KFL: s->set_float(float(v) + 0.5f, i, ctx[x].get()); break;
			case KS_: s->set_string(sv, i, ctx[x].get()); break;
			default: s->set_instance(ctx[v % NCTX]); break;
			}
		}
		static std::string value(int kind, int v, std::string const& sv) {
			return kind == KI ? vi(v) : kind == KFL ? vf(float(v) + 0.5f) : kind == KS_ ? vs(sv) : mc::fmt("n%d", v % NCTX);
		}

		/// everything is exactly what the model says
		void compare(std::string const& what) {
			for (auto& [k, v] : store) {
				auto [y, idx, x] = k;
				auto ty = tab().syms[y].type;
				int kind = ty == T_FLOAT ? KFL : ty == T_STRING ? KS_ : KI;
				auto got = read(y, kind, idx, x);
				MCD_CHECK(got == v, "value", tab().syms[y].name + mc::fmt("[%u] of %s is '%s', expected '%s' after ", idx, ctx_name(x), got.c_str(), v.c_str()) + what);
			}
			auto host = [&](CObj const& o, std::map<std::string, std::string> const& w) {
				std::map<std::string, std::string> g {{"C.I0", vi(o.i)}, {"C.IA0", vi(o.ia[0])}, {"C.IA1", vi(o.ia[1])}, {"C.IA2", vi(o.ia[2])}, {"C.F0", vf(o.f)}, {"C.FA0", vf(o.fa[0])},
				                                      {"C.FA1", vf(o.fa[1])}, {"C.S0", vs(o.s)}, {"C.SA0", vs(o.sa[0])}, {"C.SA1", vs(o.sa[1])}, {"C.FN0", vi(o.fn)}, {"C.FNA0", vi(o.fna[0])},
				                                      {"C.FNA1", vi(o.fna[1])}, {"C.E0", vi(int32_t(o.e))}};
				MCD_CHECK(o.c0 == 0x1111 && o.c1 == 0x2222, "host", "a host field which no script member refers to changed after " + what);
				for (auto& [n, v] : w) MCD_CHECK(g[n] == v, "host", "host field " + n + " is '" + g[n] + "', expected '" + v + "' after " + what);
			};
			for (int k = 0; k < 3; ++k) {
				std::map<std::string, std::string> w;
				for (auto& [kk, v] : store)
					if (std::get<2>(kk) == C1 + k) w[tab().syms[std::get<0>(kk)].name + mc::fmt("%u", std::get<1>(kk))] = v;
				host(*c[k], w);
			}
			auto fresh = [&](CObj const& o) {
				MCD_CHECK(o.i == 0 && o.ia[0] == 0 && o.ia[1] == 0 && o.ia[2] == 0 && o.f == 0 && o.fa[0] == 0 && o.fa[1] == 0 && o.s.empty() && o.sa[0].empty() && o.sa[1].empty() && o.fn == 0 &&
				              o.fna[0] == 0 && o.fna[1] == 0 && o.c0 == 0x1111 && o.c1 == 0x2222,
				          "foreign", "an object the script does not own changed after " + what);
			};
			fresh(static_cast<CObj&>(*ctx[FRESH]));
			fresh(static_cast<CObj&>(*ctx[SUBC]));
			MCD_CHECK(static_cast<Other&>(*ctx[UFRESH]).o == 0, "foreign", "an object of an unregistered class changed after " + what);
			MCD_CHECK((d->c1 == 0x3333 && vs(d->s) == store[{tab()["D.S"], 0, D1}] && vi(d->i) == store[{tab()["D.I"], 0, D1}]), "host", "D1 is wrong after " + what);
			char const* n[] = {"C1", "C2", "C3", "D1", "E1", "E2", "G1"};
			for (int k = 0; k < 7; ++k) {
				auto* s = vm.find_symbol_by_name(n[k]);
				MCD_CHECK(s->get_instance() == ctx[C1 + k], "instance", std::string("the instance of ") + n[k] + " changed after " + what);
				MCD_CHECK(vm.find_symbol_by_instance(*ctx[C1 + k]) == s && ctx[C1 + k]->symbol_index() == s->index(), "instance", std::string("the symbol of ") + n[k] + " is wrong after " + what);
			}
		}
	};

	char const* LONG = "a string which is too long to be stored in place";

	/// one access of every kind to everything
	void single(mc::Run& r) {
		auto& t = tab();
		for (uint32_t y = 0; y < t.syms.size(); ++y) {
			std::set<uint32_t> idx {0, 1, 2, 3, t.syms[y].count, t.syms[y].count + 1, 255, 256, 299, 4095, 4096, 0x8000, 0xffff};
			for (auto i : idx)
				for (int kind = KI; kind <= KN; ++kind)
					for (int x = 0; x < NCTX; ++x) {
						if (kind == KN && (i != 0 || x != 0)) continue;
						for (int wr = 0; wr < 2; ++wr) {
							auto desc = [&] { return mc::fmt("%s %s %s[%u] with %s", wr ? "write" : "read", kind_name(kind), t.syms[y].name.c_str(), i, ctx_name(x)); };
							r.run_case(
							    "single access",
							    [&] {
								    World w;
								    bool want = World::ok(y, kind, i, x), got = true;
								    std::string val;
								    try {
									    if (wr)
										    w.write(y, kind, i, x, 77, LONG);
									    else
										    val = w.read(y, kind, i, x);
								    } catch (DaedalusIllegalAccess const&) {
									    got = false;
								    } catch (std::bad_variant_access const&) {
									    MCD_CHECK(kind == KN && (t.syms[y].flags & F_MEMBER), "error", "an unexpected kind of error from " + desc());
									    got = false;
								    }
								    bool konst = wr && (t.syms[y].flags & F_CONST) && want; // the host may or may not be allowed to do this
								    MCD_CHECK(got == want || konst, "result", desc() + (got ? " was accepted" : " was rejected"));
								    r.outcome(got ? "accepted" : "rejected");
								    r.trans();
								    if (kind == KN) {
									    if (wr && got) {
										    MCD_CHECK(w.vm.find_symbol_by_index(y)->get_instance() == w.ctx[77 % NCTX], "instance", "set_instance did not store the instance: " + desc());
										    auto& n = t.syms[y].name;
										    char const* nn[] = {"C1", "C2", "C3", "D1", "E1", "E2", "G1"};
										    for (int k = 0; k < 7; ++k)
											    if (n == nn[k]) w.vm.find_symbol_by_index(y)->set_instance(w.ctx[C1 + k]);
										    w.compare(desc());
									    }
									    return;
								    }
								    if (x == TRANS && (t.syms[y].flags & F_MEMBER)) {
									    if (want) {
										    std::string l = std::string(wr ? "set " : "get ") + kind_name(kind) + mc::fmt(" %u[%u]", y, i);
										    if (wr) l += kind == KI ? "=77" : kind == KFL ? "=77.5" : std::string("=") + LONG;
										    MCD_CHECK(w.t->log.size() == 1 && w.t->log[0] == l, "transient", "the transient instance saw " + (w.t->log.empty() ? "nothing" : w.t->log[0]) + ", expected " + l);
										    if (!wr) MCD_CHECK(val == (kind == KI ? "i4711" : kind == KFL ? vf(47.5f) : "stransient"), "transient", "the transient instance's value is lost: " + val);
									    } else
										    MCD_CHECK(w.t->log.empty(), "transient", "the transient instance saw " + w.t->log[0]);
								    } else {
									    MCD_CHECK(w.t->log.empty(), "transient", "the transient instance saw " + w.t->log[0]);
									    if (want && got && wr) w.store[{y, i, World::key(y, x)}] = World::value(kind, 77, LONG);
									    if (want && !wr) MCD_CHECK((val == w.store[{y, i, World::key(y, x)}]), "value", desc() + " gives '" + val + "'");
								    }
								    w.compare(desc());
							    },
							    desc);
						}
					}
		}
	}

	/// every sequence of writes to elements
	void sequences(mc::Run& r) {
		struct W {
			uint32_t y, i;
			int kind, x;
		};
		std::vector<W> ws;
		auto& t = tab();
		for (uint32_t y = 0; y < t.syms.size(); ++y) {
			auto& s = t.syms[y];
			if (s.flags & F_CONST) continue;
			int kind = s.type == T_FLOAT ? KFL : s.type == T_STRING ? KS_ : KI;
			for (uint32_t i = 0; i < s.count && i < 3; ++i)
				for (int x = 0; x < TRANS; ++x)
					if (World::ok(y, kind, i, x)) {
						ws.push_back({y, i, kind, World::key(y, x)});
						if (!(s.flags & F_MEMBER)) break;
					}
		}
		r.counters["write alphabet"] = ws.size();
		int depth = r.tier(2, 2);
		for (int n = 1; n <= depth; ++n)
			tuples(n, int(ws.size()), [&](std::vector<int> const& ix) {
				r.run_case(
				    "write sequence",
				    [&] {
					    World w;
					    std::string d;
					    for (size_t k = 0; k < ix.size(); ++k) {
						    auto& o = ws[size_t(ix[k])];
						    std::string sv = mc::fmt("%s %zu", k % 2 ? "x" : LONG, k);
						    w.write(o.y, o.kind, o.i, o.x, 1000 + int(k), sv);
						    w.store[{o.y, o.i, o.x}] = World::value(o.kind, 1000 + int(k), sv);
						    d += mc::fmt("%s[%u] of %s := %zu; ", t.syms[o.y].name.c_str(), o.i, ctx_name(o.x), k);
						    r.trans();
					    }
					    w.compare(d);
				    },
				    [&] {
					    std::string d;
					    for (auto k : ix) d += mc::fmt("%s[%u] of %s; ", t.syms[ws[size_t(k)].y].name.c_str(), ws[size_t(k)].i, ctx_name(ws[size_t(k)].x));
					    return d;
				    });
			});
	}

	/// assignments a script makes: constants are protected, elements are addressed exactly
	void scripts(mc::Run& r) {
		auto& t = tab();
		char const* sel[] = {nullptr, "C1", "C3", "D1", "E2", "G1", "VAR"};
		int selctx[] = {NUL, C1, C3, D1, E2, G1, NUL};
		struct K {
			char const* name;
			uint8_t op;
			int kind;
		} ks[] = {{"MOVI", MOVI, KI}, {"MOVVF", MOVVF, KI}, {"ADDMOVI", ADDMOVI, KI}, {"SUBMOVI", SUBMOVI, KI}, {"MULMOVI", MULMOVI, KI}, {"DIVMOVI", DIVMOVI, KI}, {"MOVF", MOVF, KFL}, {"MOVS", MOVS, KS_}};
		for (uint32_t y = 0; y < t.syms.size(); ++y) {
			auto& s = t.syms[y];
			if (s.name == "NILS" || s.name == "VOIDV") continue;
			std::set<uint32_t> idx {0, 1, 2, s.count, 255};
			for (auto i : idx) {
				if (i > 255) continue;
				for (int c = 0; c < 7; ++c)
					for (auto& k : ks)
						for (int fl = 0; fl < 4; ++fl)
							for (int plain = 0; plain < 2; ++plain) {
								if (plain && i != 0) continue;
								auto desc = [&] {
									return mc::fmt("%s to %s[%u]%s with %s selected, flags %d", k.name, s.name.c_str(), i, plain ? " (no index)" : "", sel[c] ? sel[c] : "nothing", fl);
								};
								r.run_case(
								    "script assignment",
								    [&] {
									    uint8_t flags = static_cast<uint8_t>((fl & 1 ? DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER : 0) | (fl & 2 ? DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0));
									    Out o;
									    o.s = t.code;
									    if (sel[c]) emit(o, {GMOVI, t[sel[c]]});
									    if (k.kind == KS_)
										    emit(o, {PUSHVV, t["STRA"], 2});
									    else
										    emit(o, {PUSHI, k.kind == KFL ? 0x40b00000u : 3u});
									    if (plain)
										    emit(o, {PUSHV, y});
									    else
										    emit(o, {PUSHVV, y, static_cast<uint8_t>(i)});
									    emit(o, {k.op});
									    emit(o, {RSR});
									    World w(o.s, flags);
									    bool konst = (s.flags & F_CONST) && !(fl & 1);
									    bool null_member = (s.flags & F_MEMBER) && selctx[c] == NUL;
									    bool want = World::ok(y, k.kind, i, selctx[c]) && !konst;
									    if (null_member && !konst) want = (fl & 2) != 0; // tolerated, but without any effect
									    bool got = true;
									    try {
										    w.vm.call_function("MAIN");
									    } catch (DaedalusScriptError const&) {
										    got = false;
									    }
									    if (!(null_member && (fl & 2))) MCD_CHECK(got == want, "result", desc() + (got ? " was accepted" : " was rejected"));
									    r.outcome(got ? "accepted" : "rejected");
									    if (want && !null_member) {
										    auto& cell = w.store[{y, i, World::key(y, selctx[c])}];
										    if (k.kind == KI) {
											    int32_t old = atoi(cell.c_str() + 1);
											    int32_t now = k.op == ADDMOVI ? old + 3 : k.op == SUBMOVI ? old - 3 : k.op == MULMOVI ? old * 3 : k.op == DIVMOVI ? old / 3 : 3;
											    cell = vi(now);
										    } else
											    cell = k.kind == KFL ? vf(5.5f) : vs(t.syms[t["STRA"]].strs[2]);
									    }
									    r.trans();
									    w.compare(desc());
								    },
								    desc);
							}
			}
		}
	}

	// ------------------------------------------------------------------------------------------------ registration
	template <typename M, int N>
	struct Host : DaedalusInstance {
		int32_t pad = 5;
		M f[N] {};
		int32_t end = 7;
	};
	template <typename M>
	struct Host1 : DaedalusInstance {
		int32_t pad = 5;
		M f {};
		int32_t end = 7;
	};

	template <typename H, typename M, int N, typename F>
	void reg_one(mc::Run& r, char const* tn, int kind, F field) {
		auto& t = tab();
		std::vector<std::string> names {"NOPE", "", "C", "c.i", "C.i", "C.I.X"};
		for (auto& s : t.syms) names.push_back(s.name);
		for (auto& n : names)
			for (int prior = 0; prior < 3; ++prior)
				r.run_case(
				    "registration",
				    [&] {
					    DaedalusVm vm {mcd::load(t.syms, t.code)};
					    std::string up = n;
					    std::transform(up.begin(), up.end(), up.begin(), ::toupper);
					    auto it = t.id.find(up);
					    bool want = it != t.id.end();
					    if (want) {
						    auto& s = t.syms[it->second];
						    want = (s.flags & F_MEMBER) && s.count <= N && s.parent >= 0 &&
						        (kind == KI ? s.type == T_INT || s.type == T_FUNC : kind == KFL ? s.type == T_FLOAT : s.type == T_STRING);
						    if (prior && want && t.syms[size_t(s.parent)].name == "C") want = false; // C is registered with another type
					    }
					    if (prior == 1) World::register_c(vm);
					    if (prior == 2) vm.register_as_opaque("C");
					    bool got = true;
					    try {
						    vm.register_member(n, field);
					    } catch (DaedalusScriptError const&) {
						    got = false;
					    }
					    auto what = mc::fmt("registering %s[%d] for '%s' (prior %d)", tn, N, n.c_str(), prior);
					    MCD_CHECK(got == want, "result", what + (got ? " was accepted" : " was rejected"));
					    r.outcome(got ? "accepted" : "rejected");
					    r.trans();
					    if (prior == 1) {
						    auto c = vm.allocate_instance<CObj>("C2");
						    vm.find_symbol_by_name("C.IA")->set_int(9, 2, c.get());
						    MCD_CHECK(c->ia[2] == 9 && c->c0 == 0x1111 && c->c1 == 0x2222, "prior", "an earlier registration is damaged by " + what);
					    }
					    if (!got) return;
					    auto& s = t.syms[it->second];
					    std::string inst;
					    for (auto i : {"C2", "D1", "E1", "G1", "U1"})
						    if (t.syms[t[i]].parent == s.parent) inst = i;
					    auto o = vm.allocate_instance<H>(inst);
					    auto* y = vm.find_symbol_by_name(n);
					    for (uint32_t e = 0; e < s.count; ++e) {
						    if constexpr (std::same_as<M, std::string>)
							    y->set_string(mc::fmt("%s %u", LONG, e), static_cast<uint16_t>(e), o.get());
						    else if constexpr (std::same_as<M, float>)
							    y->set_float(float(e) + 0.5f, static_cast<uint16_t>(e), o.get());
						    else
							    y->set_int(int32_t(e) + 40, static_cast<uint16_t>(e), o.get());
					    }
					    auto* f = reinterpret_cast<M const*>(&(o.get()->*field));
					    for (uint32_t e = 0; e < uint32_t(N); ++e) {
						    bool eq;
						    if constexpr (std::same_as<M, std::string>)
							    eq = f[e] == (e < s.count ? mc::fmt("%s %u", LONG, e) : "") && (e >= s.count || y->get_string(static_cast<uint16_t>(e), o.get()) == f[e]);
						    else if constexpr (std::same_as<M, float>)
							    eq = f[e] == (e < s.count ? float(e) + 0.5f : 0.f) && (e >= s.count || y->get_float(static_cast<uint16_t>(e), o.get()) == f[e]);
						    else
							    eq = int32_t(f[e]) == (e < s.count ? int32_t(e) + 40 : 0) && (e >= s.count || y->get_int(static_cast<uint16_t>(e), o.get()) == int32_t(f[e]));
						    MCD_CHECK(eq, "field", mc::fmt("element %u of the host field is wrong after ", e) + what);
					    }
					    MCD_CHECK(o->pad == 5 && o->end == 7, "neighbour", "a neighbouring host field changed after " + what);
				    },
				    [&] { return mc::fmt("%s[%d] for '%s' prior %d", tn, N, n.c_str(), prior); });
	}
	template <typename M>
	void reg_type(mc::Run& r, char const* tn, int kind) {
		reg_one<Host1<M>, M, 1>(r, tn, kind, &Host1<M>::f);
		reg_one<Host<M, 2>, M, 2>(r, tn, kind, &Host<M, 2>::f);
		reg_one<Host<M, 3>, M, 3>(r, tn, kind, &Host<M, 3>::f);
		reg_one<Host<M, 5>, M, 5>(r, tn, kind, &Host<M, 5>::f);
	}

	/// allocating instances: only for the class they are registered to
	void allocation(mc::Run& r) {
		auto& t = tab();
		for (auto& s : t.syms)
			for (int ty = 0; ty < 4; ++ty)
				r.run_case(
				    "allocation",
				    [&] {
					    World w;
					    uint32_t y = t[s.name];
					    int p = s.parent;
					    while (p >= 0 && t.syms[size_t(p)].type != T_CLASS) p = t.syms[size_t(p)].parent;
					    std::string cls = p >= 0 ? t.syms[size_t(p)].name : "";
					    char const* need[] = {"C", "D", "E", "-"};
					    bool want = s.type == T_INST && !(s.flags & F_MEMBER) && (cls == need[ty] || (ty == 2 && cls == "G"));
					    if (ty == 2 && s.type == T_CLASS) return; // asks for an instance without a symbol
					    std::shared_ptr<DaedalusInstance> got, before = s.type == T_INST && !(s.flags & F_MEMBER) ? w.vm.find_symbol_by_index(y)->get_instance() : nullptr;
					    try {
						    auto* sy = w.vm.find_symbol_by_index(y);
						    if (ty == 0) got = w.vm.allocate_instance<CObj>(sy);
						    if (ty == 1) got = w.vm.allocate_instance<DObj>(s.name);
						    if (ty == 2) got = w.vm.init_opaque_instance(sy);
						    if (ty == 3) got = w.vm.allocate_instance<CSub>(sy);
					    } catch (DaedalusScriptError const&) {
					    } catch (std::bad_variant_access const&) {
					    }
					    MCD_CHECK((got != nullptr) == want, "result", mc::fmt("allocating %s as type %d was ", s.name.c_str(), ty) + (got ? "accepted" : "rejected"));
					    r.outcome(got ? "accepted" : "rejected");
					    if (got) {
						    auto* sy = w.vm.find_symbol_by_index(y);
						    MCD_CHECK(sy->get_instance() == got && got->symbol_index() == y && w.vm.find_symbol_by_instance(got) == sy, "binding", "the new instance of " + s.name + " is not bound to it");
						    MCD_CHECK(ty != 0 || (sy->is_instance_of<CObj>() && !sy->is_instance_of<DObj>() && !sy->is_instance_of<CSub>()), "type", "is_instance_of is wrong for " + s.name);
						    MCD_CHECK(ty != 1 || (sy->is_instance_of<DObj>() && !sy->is_instance_of<CObj>()), "type", "is_instance_of is wrong for " + s.name);
						    sy->set_instance(before);
					    } else if (s.type == T_INST && !(s.flags & F_MEMBER))
						    MCD_CHECK(w.vm.find_symbol_by_index(y)->get_instance() == before, "binding", "a rejected allocation changed " + s.name);
					    w.compare("allocating " + s.name);
				    },
				    [&] { return mc::fmt("%s as type %d", s.name.c_str(), ty); });
	}

	/// every opaque class with up to n members: all elements are distinct and start out empty
	void opaque(mc::Run& r) {
		struct M {
			uint32_t type, count;
		};
		std::vector<M> kinds {{T_INT, 1}, {T_INT, 3}, {T_FLOAT, 1}, {T_FLOAT, 2}, {T_STRING, 1}, {T_STRING, 2}, {T_FUNC, 1}, {T_INST, 1}, {T_STRING, 0}};
		for (int n = 0; n <= r.tier(4, 5); ++n)
			tuples(n, int(kinds.size()), [&](std::vector<int> const& ix) {
				r.run_case(
				    "opaque layout",
				    [&] {
					    std::vector<Sym> syms;
					    Sym o {"Z", T_CLASS, 1, 0, 4};
					    Sym o2 {"Q", T_CLASS, 1, 0, 4};
					    o.addr = o2.addr = 0;
					    syms.push_back(o);
					    syms.push_back(o2);
					    int k = 0;
					    for (auto i : ix) {
						    Sym m {mc::fmt("Z.M%d", k++), kinds[size_t(i)].type, kinds[size_t(i)].count, F_MEMBER};
						    m.parent = 0;
						    m.vary = 4;
						    syms.push_back(m);
						    Sym q {mc::fmt("Q.M%d", k), T_INT, 1, F_MEMBER}; // another class's member in between
						    q.parent = 1;
						    syms.push_back(q);
					    }
					    for (auto nme : {"A", "B"}) {
						    Sym s {nme, T_INST, 0, F_CONST};
						    s.parent = 0;
						    s.addr = 0;
						    syms.push_back(s);
					    }
					    DaedalusVm vm {mcd::load(syms, std::string(1, char(RSR)))};
					    vm.register_as_opaque("Z");
					    std::shared_ptr<DaedalusInstance> in[2] = {vm.init_opaque_instance(vm.find_symbol_by_name("A")), vm.init_opaque_instance(vm.find_symbol_by_name("B"))};
					    auto check_all = [&](int round) {
						    for (int w = 0; w < 2; ++w)
							    for (uint32_t y = 2; y < syms.size(); ++y) {
								    auto* s = vm.find_symbol_by_index(y);
								    if (!(syms[y].flags & F_MEMBER) || syms[y].parent != 0) continue;
								    for (uint16_t e = 0; e < syms[y].count; ++e) {
									    int id = round ? int(y * 16 + e * 2) + w : 0;
									    bool okv = true;
									    switch (syms[y].type) {
									    case T_INT: case T_FUNC: okv = s->get_int(e, in[w].get()) == id; break;
									    case T_FLOAT: okv = s->get_float(e, in[w].get()) == float(id); break;
									    case T_STRING: okv = s->get_string(e, in[w].get()) == (round ? mc::fmt("%s %d", LONG, id) : ""); break;
									    default: break;
									    }
									    MCD_CHECK(okv, "element", mc::fmt("%s[%u] of instance %d is wrong in round %d", syms[y].name.c_str(), e, w, round));
									    r.trans();
								    }
							    }
					    };
					    check_all(0);
					    for (int w = 0; w < 2; ++w)
						    for (uint32_t y = 2; y < syms.size(); ++y) {
							    auto* s = vm.find_symbol_by_index(y);
							    if (!(syms[y].flags & F_MEMBER) || syms[y].parent != 0) continue;
							    for (uint16_t e = 0; e < syms[y].count; ++e) {
								    int id = int(y * 16 + e * 2) + w;
								    switch (syms[y].type) {
								    case T_INT: case T_FUNC: s->set_int(id, e, in[w].get()); break;
								    case T_FLOAT: s->set_float(float(id), e, in[w].get()); break;
								    case T_STRING: s->set_string(mc::fmt("%s %d", LONG, id), e, in[w].get()); break;
								    default: break;
								    }
							    }
						    }
					    check_all(1);
				    },
				    [&] {
					    std::string s;
					    for (auto i : ix) s += mc::fmt("type %u[%u]; ", kinds[size_t(i)].type, kinds[size_t(i)].count);
					    return s;
				    });
			});
	}

	// ------------------------------------------------------------------------------------------------ the games' classes
	struct Field {
		std::string cls, name;
		uint32_t type, count;
		size_t size;
		std::function<std::shared_ptr<DaedalusInstance>(DaedalusVm&, std::string const&)> make;
		std::function<std::byte*(DaedalusInstance&)> at;
		std::function<size_t()> total;
	};
	template <typename T, typename F>
	Field field(char const* cls, char const* name, F T::* p) {
		using E = std::remove_all_extents_t<F>;
		Field f;
		f.cls = cls;
		f.name = name;
		f.count = std::is_array_v<F> ? sizeof(F) / sizeof(E) : 1;
		f.size = sizeof(E);
		f.type = std::same_as<E, std::string> ? T_STRING : std::same_as<E, float> ? T_FLOAT : T_INT;
		f.make = [](DaedalusVm& vm, std::string const& n) -> std::shared_ptr<DaedalusInstance> { return vm.allocate_instance<T>(n); };
		f.at = [p](DaedalusInstance& o) { return reinterpret_cast<std::byte*>(&(static_cast<T&>(o).*p)); };
		f.total = [] { return sizeof(T); };
		return f;
	}
	void addon(mc::Run& r) {
		std::vector<Field> fs {
#define A(c, n, t, f) field(c, n, &t::f),
#include "addon.inc"
#undef A
		};
		// members only some of the games have
		std::vector<std::vector<std::string>> optional {{"C_GILVALUES.FIGHT_RANGE_G"}, {"C_NPC.HITCHANCE", "C_NPC.BODYSTATEINTERRUPTABLEOVERRIDE", "C_NPC.NOFOCUS"}, {"C_NPC.EFFECT"},
		                                                {"C_ITEM.INV_ZBIAS", "C_ITEM.INV_ROTX", "C_ITEM.INV_ROTY", "C_ITEM.INV_ROTZ", "C_ITEM.INV_ANIMATE"}, {"C_ITEM.EFFECT"},
		                                                {"C_MENU_ITEM.FRAMEPOSX", "C_MENU_ITEM.FRAMEPOSY"}, {"C_MENU_ITEM.HIDEIFOPTIONSECTIONSET", "C_MENU_ITEM.HIDEIFOPTIONSET", "C_MENU_ITEM.HIDEONVALUE"},
		                                                {"C_PARTICLEFX.FLOCKMODE", "C_PARTICLEFX.FLOCKSTRENGTH", "C_PARTICLEFX.USEEMITTERSFOR", "C_PARTICLEFX.TIMESTARTEND_S", "C_PARTICLEFX.M_BISAMBIENTPFX"},
		                                                {"CFX_BASE.EMFXCOLLDYNPERC_S"}};
		std::vector<std::string> classes;
		for (auto& f : fs)
			if (std::find(classes.begin(), classes.end(), f.cls) == classes.end()) classes.push_back(f.cls);
		for (int absent = -1; absent < int(optional.size()) + 2; ++absent)
			for (auto& cls : classes)
				r.run_case(
				    "game classes",
				    [&] {
					    std::set<std::string> gone;
					    for (size_t i = 0; i < optional.size(); ++i)
						    if (int(i) == absent || absent == int(optional.size())) gone.insert(optional[i].begin(), optional[i].end());
					    std::vector<Sym> syms;
					    std::vector<Field const*> mine;
					    Sym c {cls, T_CLASS, 1, 0, 4};
					    c.addr = 0;
					    syms.push_back(c);
					    for (auto& f : fs) {
						    if (f.cls != cls || gone.count(f.name)) continue;
						    Sym m {f.name, f.type, f.count, F_MEMBER};
						    // the game's own class may declare fewer elements than the host provides
						    if (absent == int(optional.size()) + 1 && f.count > 1) m.count = f.count / 2 + 1;
						    m.parent = 0;
						    syms.push_back(m);
						    mine.push_back(&f);
					    }
					    Sym n {"I", T_INST, 0, F_CONST};
					    n.parent = 0;
					    n.addr = 0;
					    syms.push_back(n);
					    DaedalusVm vm {mcd::load(syms, std::string(1, char(RSR)))};
					    register_all_script_classes(vm);
					    if (mine.empty()) return;
					    auto o = mine[0]->make(vm, "I");
					    auto* raw = reinterpret_cast<std::byte*>(dynamic_cast<void*>(o.get()));
					    auto total = mine[0]->total();
					    uint32_t y = 1;
					    for (auto* f : mine) {
						    auto* s = vm.find_symbol_by_index(y);
						    for (uint32_t e = 0; e < syms[y].count; ++e) {
							    std::vector<std::byte> before(raw, raw + total);
							    auto* p = f->at(*o) + e * f->size;
							    std::string sv = mc::fmt("%u %u", y, e);
							    if (f->type == T_STRING)
								    s->set_string(sv, static_cast<uint16_t>(e), o.get());
							    else if (f->type == T_FLOAT)
								    s->set_float(float(y) + float(e), static_cast<uint16_t>(e), o.get());
							    else
								    s->set_int(int32_t(y * 1000 + e), static_cast<uint16_t>(e), o.get());
							    bool okv = f->type == T_STRING ? *reinterpret_cast<std::string*>(p) == sv
							        : f->type == T_FLOAT       ? *reinterpret_cast<float*>(p) == float(y) + float(e)
							                                   : *reinterpret_cast<int32_t*>(p) == int32_t(y * 1000 + e);
							    MCD_CHECK(okv, "field", mc::fmt("%s[%u] does not reach its host field", f->name.c_str(), e));
							    auto at = static_cast<size_t>(p - raw);
							    MCD_CHECK(memcmp(before.data(), raw, at) == 0 && memcmp(before.data() + at + f->size, raw + at + f->size, total - at - f->size) == 0, "neighbour",
							              mc::fmt("writing %s[%u] changed another field", f->name.c_str(), e));
							    r.trans();
						    }
						    ++y;
					    }
				    },
				    [&] { return cls + mc::fmt(" variant %d", absent); });
	}
}

void explore(mc::Run& r) {
	quiet_log();
	single(r);
	sequences(r);
	scripts(r);
	reg_type<int32_t>(r, "int", KI);
	reg_type<float>(r, "float", KFL);
	reg_type<std::string>(r, "string", KS_);
	reg_type<E4>(r, "enum", KI);
	allocation(r);
	opaque(r);
	addon(r);
}
MC_MAIN(explore)
