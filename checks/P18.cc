// P18: script calls keep the stack and the machine state consistent -- every callee body x signature x error strategy in
// lockstep with a reference machine, every host-callback misbehaviour, every history of (failing) host calls, recursion
// with saved locals, and exhaustion of the stack and of the call depth.
#include "daemodel.hh"
#include <utility>
using namespace mcd;

namespace {
	std::string fbits(float f) {
		uint32_t u;
		memcpy(&u, &f, 4);
		return mc::fmt("%08x", u);
	}

	void idle(DaedalusVm& vm, uint32_t pc, std::string const& ctx) {
		MCD_CHECK(stack_empty(vm), "stack", "the stack is not empty after " + ctx);
		MCD_CHECK(vm.unsafe_get_gi() == nullptr, "instance", "an instance is still active after " + ctx);
		MCD_CHECK(vm.pc() == pc, "pc", mc::fmt("the program counter is %u instead of %u after ", vm.pc(), pc) + ctx);
	}

	void install(DaedalusVm& vm, RVM::Mode mode) {
		using St = DaedalusVmExceptionStrategy;
		if (mode == RVM::NO_HANDLER) return;
		vm.register_exception_handler([mode](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const& i) {
			if (mode == RVM::RETURN_ALL) return St::RETURN;
			if (mode == RVM::CONTINUE_CALLS && (i.op == DaedalusOpcode::BL || i.op == DaedalusOpcode::BE)) return St::CONTINUE;
			return St::FAIL;
		});
	}
	char const* mode_name(int m) {
		char const* n[] = {"no handler", "fail", "continue calls", "return"};
		return n[m];
	}

	/// F1: MAIN pushes two sentinels and the arguments, calls the callee, stores its result and then the sentinels
	void callee_bodies(mc::Run& r) {
		struct Macro {
			char const* name;
			std::vector<Ins> ins;
		};
		Env proto;
		std::vector<Macro> alpha {
		    {"push", {{PUSHI, 5}}},
		    {"push string", {{PUSHV, KS}}},
		    {"push temporary", {{PUSHV, ST}, {PUSHV, KS}, {BE, E_CAT}}},
		    {"push instance", {{PUSHVI, I0}}},
		    {"push float", {{PUSHV, FL}}},
		    {"pop int", {{PUSHV, ARR}, {MOVI}}},
		    {"pop string", {{PUSHV, ST}, {MOVS}}},
		    {"select instance", {{GMOVI, I1}}},
		    {"failing int external", {{BE, E_FAIL}}},
		    {"failing void external", {{PUSHI, 3}, {BE, E_FAILV}}},
		    {"failing string external", {{PUSHV, KS}, {BE, E_FAILS}}},
		    {"division by zero", {{PUSHI, 0}, {PUSHI, 1}, {DIV}}},
		    {"missing symbol", {{PUSHV, 9999}}},
		    {"illegal jump", {{B, 0x7fffffff}}},
		    {"missing function", {{BL, 0x7fffffff}}},
		    {"call", {{PUSHI, 2}, {BL, proto.addr(F1)}}},
		    {"return", {{RSR}}},
		};
		int len = r.tier(3, 4);
		for (int slot = 0; slot < 3; ++slot)
			for (int rt : {-1, int(T_INT), int(T_FLOAT), int(T_STRING), int(T_INST)})
				for (int mode = 0; mode < 4; ++mode) {
					Env env;
					uint32_t fn = slot == 0 ? LEAK : slot == 1 ? VOIDX : SUB2;
					// VOIDX has one parameter here: the symbol behind it serves as such
					env.syms[fn].count = slot == 2 ? 2 : slot;
					env.syms[fn].flags = F_CONST | (rt >= 0 ? F_RETURN : 0u);
					env.syms[fn].vary = rt >= 0 ? static_cast<uint32_t>(rt) : 0;
					env.set_return(-1);
					for (int n = 0; n <= len; ++n)
						tuples(n, int(alpha.size()), [&](std::vector<int> const& ix) {
							r.run_case(
							    "callee bodies",
							    [&] {
								    std::vector<Ins> main {{PUSHI, 111}, {PUSHI, 222}};
								    for (uint32_t i = 0; i < env.syms[fn].count; ++i) main.push_back({PUSHI, 1000 + i});
								    uint32_t call_at = static_cast<uint32_t>(main.size());
								    main.push_back({BL, 0});
								    if (rt == T_INT) main.insert(main.end(), {{PUSHVV, ARR, 2}, {MOVI}});
								    if (rt == T_FLOAT) main.insert(main.end(), {{PUSHVV, FA, 1}, {MOVF}});
								    if (rt == T_STRING) main.insert(main.end(), {{PUSHVV, SA, 1}, {MOVS}});
								    if (rt == T_INST) main.insert(main.end(), {{PUSHV, G}, {MOVVI}});
								    // the active instance must be none again
								    main.insert(main.end(), {{PUSHV, Y}, {MOVI}, {PUSHV, X}, {MOVI}, {RSR}});
								    uint32_t at = env.main;
								    for (auto& i : main) at += ins_size(i);
								    main[call_at].arg = at;
								    std::string ctx = std::string(mode_name(mode)) + mc::fmt(", callee with %u parameters returning %d: ", env.syms[fn].count, rt);
								    for (auto k : ix) {
									    main.insert(main.end(), alpha[size_t(k)].ins.begin(), alpha[size_t(k)].ins.end());
									    ctx += std::string(alpha[size_t(k)].name) + "; ";
								    }
								    main.push_back({RSR});
								    Env e2 = env;
								    e2.syms[fn].addr = static_cast<int32_t>(at);
								    auto code = e2.with(main);

								    RVM m(e2, code);
								    model_instances(m);
								    m.mode = static_cast<RVM::Mode>(mode);
								    bool err = false;
								    std::string why;
								    try {
									    m.call(MAIN, e2.main);
								    } catch (RErr const& e) {
									    err = true;
									    why = e.what;
								    }
								    Real v(e2, code);
								    install(v.vm, m.mode);
								    auto pc = v.vm.pc();
								    bool got = false;
								    std::string gwhy;
								    try {
									    v.vm.call_function<void>("MAIN");
								    } catch (std::exception const& e) {
									    got = true;
									    gwhy = e.what();
								    }
								    MCD_CHECK(got == err, "result", (got ? "failed: " + gwhy : "succeeded") + ", expected " + (err ? "failure: " + why : "success") + " with " + ctx);
								    compare_store(v, m, ctx);
								    idle(v.vm, pc, ctx);
								    r.trans(m.steps);
								    r.outcome(err ? "E" + why : mc::fmt("%d %d %d", m.iv[X][0], m.iv[Y][0], m.iv[ARR][2]));
								    // the machine still works like a fresh one
								    MCD_CHECK(v.vm.call_function<int32_t>("F1", 32) == 42, "later-call", "a later call gives a wrong result after " + ctx);
								    MCD_CHECK(v.vm.call_function<std::string>("FSTR") == "a constant which is longer than sso", "later-call",
								              "a later string call gives a wrong result after " + ctx);
								    idle(v.vm, pc, ctx);
							    },
							    [&] {
								    std::string s = mc::fmt("slot %d ret %d %s: ", slot, rt, mode_name(mode));
								    for (auto k : ix) s += std::string(alpha[size_t(k)].name) + "; ";
								    return s;
							    });
						});
				}
	}

	// ------------------------------------------------------------------------------------------- a second environment
	struct Lab {
		std::vector<Sym> syms;
		Out code;
		std::map<std::string, uint32_t> id;

		uint32_t add(Sym s) {
			id[s.name] = static_cast<uint32_t>(syms.size());
			syms.push_back(std::move(s));
			return static_cast<uint32_t>(syms.size() - 1);
		}
		uint32_t var(std::string const& n, uint32_t type, uint32_t count = 1, uint32_t flags = 0, int parent = -1) {
			Sym s {n, type, count, flags};
			s.parent = parent;
			return add(s);
		}
		uint32_t func(std::string const& n, std::vector<std::pair<std::string, uint32_t>> params, int rt, uint32_t flags = 0) {
			Sym s {n, T_FUNC, static_cast<uint32_t>(params.size()), F_CONST | flags | (rt >= 0 ? F_RETURN : 0u), rt >= 0 ? static_cast<uint32_t>(rt) : 0u};
			auto i = add(s);
			for (auto& [p, t] : params) var(n + "." + p, t);
			return i;
		}
		uint32_t operator[](std::string const& n) const {
			return id.at(n);
		}
		void body(std::string const& n, std::vector<Ins> const& b) {
			syms[id.at(n)].addr = static_cast<int32_t>(code.s.size());
			for (auto& i : b) emit(code, i);
		}
		uint32_t at(std::string const& n) const {
			return static_cast<uint32_t>(syms[id.at(n)].addr);
		}
		DaedalusVm vm(uint8_t flags = 0) const {
			return DaedalusVm {mcd::load(syms, code.s), flags};
		}
	};

	/// the functions the histories and callbacks work with
	struct Zoo : Lab {
		Zoo() {
			Sym c {"C", T_CLASS, 1, 0, 4};
			c.addr = 0;
			add(c);
			var("C.A", T_INT, 1, F_MEMBER, 0);
			for (auto n : {"I0", "I1", "IFAIL"}) var(n, T_INST, 0, F_CONST, 0);
			var("SELF", T_INST, 1, 0, 0);
			var("X", T_INT);
			Sym s {"S", T_STRING, 1, F_CONST};
			s.strs = {"const"};
			add(s);
			func("E_FAIL", {{"P", T_INT}}, T_INT, F_EXTERNAL);
			func("E_HOOK", {{"P", T_INT}}, T_INT, F_EXTERNAL);
			func("E_VOID", {{"P", T_STRING}}, -1, F_EXTERNAL);
			func("E_CAT", {{"P", T_STRING}, {"Q", T_STRING}}, T_STRING, F_EXTERNAL);
			func("E_NONE", {{"P", T_INT}, {"Q", T_STRING}, {"R", T_FUNC}, {"T", T_FLOAT}, {"U", T_INST}}, T_STRING, F_EXTERNAL);
			func("ADD3", {{"P", T_INT}, {"Q", T_INT}, {"R", T_INT}}, T_INT);
			func("STR", {{"P", T_STRING}}, T_STRING);
			func("FAIL", {{"P", T_INT}}, T_INT);
			func("DEEP", {{"P", T_INT}}, T_INT);
			func("CTX", {}, T_INT);
			func("MEMBER", {}, T_INT);
			func("HOOK", {{"P", T_INT}}, T_INT);
			func("OVR", {{"P", T_INT}}, T_INT);
			func("USEOVR", {{"P", T_INT}}, T_INT);
			func("CATS", {}, T_STRING);
			func("UNREG", {}, T_STRING);
			func("INST", {{"P", T_INST}}, T_INST);
			func("FLT", {{"P", T_FLOAT}}, T_FLOAT);
			func("SELFM", {}, T_INT);
			auto& z = *this;
			auto P = [&](char const* f, char const* p) { return z[std::string(f) + "." + p]; };
			code.u8(RSR);
			for (auto n : {"I0", "I1"}) body(n, {{PUSHI, 5}, {PUSHV, z["C.A"]}, {MOVI}, {RSR}});
			body("IFAIL", {{PUSHI, 6}, {PUSHV, z["C.A"]}, {MOVI}, {PUSHI, 1}, {PUSHI, 1}, {BE, z["E_FAIL"]}, {RSR}});
			body("ADD3", {{PUSHV, P("ADD3", "R")}, {MOVI}, {PUSHV, P("ADD3", "Q")}, {MOVI}, {PUSHV, P("ADD3", "P")}, {MOVI}, {PUSHI, 100}, {PUSHV, P("ADD3", "P")}, {MUL},
			              {PUSHI, 10}, {PUSHV, P("ADD3", "Q")}, {MUL}, {ADD}, {PUSHV, P("ADD3", "R")}, {ADD}, {RSR}});
			body("STR", {{PUSHV, P("STR", "P")}, {MOVS}, {PUSHV, P("STR", "P")}, {PUSHV, z["S"]}, {BE, z["E_CAT"]}, {RSR}});
			body("FAIL", {{PUSHV, P("FAIL", "P")}, {MOVI}, {GMOVI, z["I0"]}, {PUSHI, 1}, {PUSHV, P("FAIL", "P")}, {BE, z["E_FAIL"]}, {ADD}, {RSR}});
			body("DEEP", {{PUSHV, P("DEEP", "P")}, {MOVI}, {PUSHI, 9}, {PUSHV, P("DEEP", "P")}, {BL, at("FAIL")}, {ADD}, {RSR}});
			body("CTX", {{GMOVI, z["I1"]}, {PUSHV, z["C.A"]}, {RSR}});
			body("MEMBER", {{PUSHV, z["C.A"]}, {RSR}});
			body("HOOK", {{PUSHV, P("HOOK", "P")}, {MOVI}, {GMOVI, z["I1"]}, {PUSHI, 1000}, {PUSHV, P("HOOK", "P")}, {BE, z["E_HOOK"]}, {ADD}, {PUSHV, z["C.A"]}, {ADD}, {RSR}});
			body("OVR", {{PUSHI, 1}, {RSR}});
			body("USEOVR", {{PUSHV, P("USEOVR", "P")}, {MOVI}, {GMOVI, z["I1"]}, {PUSHI, 1000}, {PUSHV, P("USEOVR", "P")}, {BL, at("OVR")}, {ADD}, {PUSHV, z["C.A"]}, {ADD}, {RSR}});
			body("CATS", {{PUSHV, z["S"]}, {PUSHV, z["S"]}, {PUSHV, z["S"]}, {BE, z["E_CAT"]}, {PUSHV, z["S"]}, {PUSHV, z["S"]}, {BE, z["E_CAT"]}, {BE, z["E_CAT"]}, {BE, z["E_CAT"]}, {RSR}});
			body("UNREG", {{PUSHV, z["S"]}, {PUSHI, 1}, {PUSHV, z["S"]}, {PUSHI, 3}, {PUSHI, 0x3f800000}, {PUSHVI, z["I0"]}, {BE, z["E_NONE"]}, {BE, z["E_CAT"]}, {RSR}});
			body("INST", {{PUSHV, P("INST", "P")}, {MOVVI}, {PUSHV, P("INST", "P")}, {RSR}});
			body("FLT", {{PUSHV, P("FLT", "P")}, {MOVF}, {PUSHV, P("FLT", "P")}, {RSR}});
			body("SELFM", {{GMOVI, z["SELF"]}, {PUSHV, z["C.A"]}, {RSR}});
		}
	};
	struct CObj : DaedalusInstance {
		int32_t a = 0;
	};

	struct Host {
		static Zoo const& zoo() {
			static Zoo z;
			return z;
		}
		DaedalusVm vm;
		std::shared_ptr<CObj> i0, i1;
		std::function<int32_t(int32_t)> hook;
		int handler;

		explicit Host(int h) : vm(zoo().vm()), handler(h) {
			vm.register_member("C.A", &CObj::a);
			i0 = vm.init_instance<CObj>("I0");
			i1 = vm.init_instance<CObj>("I1");
			i1->a = 7;
			vm.register_external("E_FAIL", [](int32_t p) -> int32_t {
				if (p == 2) throw std::runtime_error {"foreign exception"};
				if (p == 3) throw DaedalusVmException {"script error"};
				if (p == 4) throw 42;
				return p;
			});
			vm.register_external("E_HOOK", [this](int32_t p) { return hook ? hook(p) : p; });
			vm.register_external("E_VOID", [](std::string_view) {});
			vm.register_external("E_CAT", [](std::string_view a, std::string_view b) { return std::string(a) + "," + std::string(b); });
			if (h == 1) vm.register_exception_handler(lenient_vm_exception_handler);
			if (h == 2) install(vm, RVM::CONTINUE_CALLS);
			if (h == 3) install(vm, RVM::RETURN_ALL);
		}
		void reset() {
			i0->a = 5;
			i1->a = 7;
			vm.find_symbol_by_name("SELF")->set_instance(nullptr);
		}
	};

	std::string guarded(std::function<std::string()> const& f) {
		try {
			return f();
		} catch (std::exception const& e) {
			return "error";
		} catch (int) {
			return "int";
		}
	}

	struct HostOp {
		char const* name;
		std::function<std::string(Host&)> f;
	};
	std::vector<HostOp> host_ops() {
		auto I = [](int32_t v) { return mc::fmt("%d", v); };
		return {
		    {"ADD3(1,2,3)", [=](Host& h) { return I(h.vm.call_function<int32_t>("ADD3", 1, 2, 3)); }},
		    {"STR(x)", [=](Host& h) { return h.vm.call_function<std::string>("STR", std::string_view("x")); }},
		    {"STR(y) ignored", [=](Host& h) { h.vm.call_function("STR", std::string_view("a string that is not short")); return ""; }},
		    {"FAIL(1)", [=](Host& h) { return I(h.vm.call_function<int32_t>("FAIL", 1)); }},
		    {"FAIL(2) foreign", [=](Host& h) { return I(h.vm.call_function<int32_t>("FAIL", 2)); }},
		    {"FAIL(3)", [=](Host& h) { return I(h.vm.call_function<int32_t>("FAIL", 3)); }},
		    {"FAIL(4) non-std", [=](Host& h) { return I(h.vm.call_function<int32_t>("FAIL", 4)); }},
		    {"DEEP(2)", [=](Host& h) { return I(h.vm.call_function<int32_t>("DEEP", 2)); }},
		    {"DEEP(3)", [=](Host& h) { return I(h.vm.call_function<int32_t>("DEEP", 3)); }},
		    {"CTX", [=](Host& h) { return I(h.vm.call_function<int32_t>("CTX")); }},
		    {"MEMBER", [=](Host& h) { return I(h.vm.call_function<int32_t>("MEMBER")); }},
		    {"init I0", [=](Host& h) { h.i0->a = 0; h.vm.init_instance<CObj>(h.i0, "I0"); return I(h.i0->a); }},
		    {"init IFAIL", [=](Host& h) { auto o = h.vm.init_instance<CObj>("IFAIL"); return I(o->a); }},
		    {"init with foreign failure",
		     [=](Host& h) {
			     auto o = std::make_shared<CObj>();
			     struct Patch {
				     Host& h;
				     ~Patch() {
					     h.hook = nullptr;
				     }
			     } p {h};
			     h.hook = [](int32_t) -> int32_t { throw std::runtime_error {"x"}; };
			     h.vm.call_function<int32_t>("HOOK", 1);
			     return std::string();
		     }},
		    {"wrong argument type 1", [=](Host& h) { return I(h.vm.call_function<int32_t>("ADD3", std::string_view("a"), 2, 3)); }},
		    {"wrong argument type 3", [=](Host& h) { return I(h.vm.call_function<int32_t>("ADD3", 1, 2, std::string_view("a"))); }},
		    {"wrong argument type 2 after string", [=](Host& h) { return h.vm.call_function<std::string>("E_CAT", std::string_view("a"), 2); }},
		    {"too few arguments", [=](Host& h) { return I(h.vm.call_function<int32_t>("ADD3", 1, 2)); }},
		    {"too many arguments", [=](Host& h) { return I(h.vm.call_function<int32_t>("CTX", 1)); }},
		    {"wrong result type", [=](Host& h) { return h.vm.call_function<std::string>("ADD3", 1, 2, 3); }},
		    {"void for int", [=](Host& h) { h.vm.call_function<void>("ADD3", 1, 2, 3); return ""; }},
		    {"missing function", [=](Host& h) { return I(h.vm.call_function<int32_t>("NOPE")); }},
		    {"not a function", [=](Host& h) { return I(h.vm.call_function<int32_t>("X")); }},
		    {"CATS", [=](Host& h) { return h.vm.call_function<std::string>("CATS"); }},
		    {"UNREG", [=](Host& h) { return h.vm.call_function<std::string>("UNREG"); }},
		    {"INST(i1)", [=](Host& h) { return h.vm.call_function<std::shared_ptr<CObj>>("INST", h.i1) == h.i1 ? "i1" : "other"; }},
		    {"INST(null)", [=](Host& h) { return h.vm.call_function<std::shared_ptr<CObj>>("INST", std::shared_ptr<CObj>()) == nullptr ? "null" : "other"; }},
		    {"INST(unregistered)", [=](Host& h) { return h.vm.call_function<std::shared_ptr<CObj>>("INST", std::make_shared<CObj>()) == nullptr ? "null" : "other"; }},
		    {"INST(as other type)", [=](Host& h) { return h.vm.call_function<std::shared_ptr<Obj>>("INST", h.i1) == nullptr ? "null" : "other"; }},
		    {"FLT", [=](Host& h) { return fbits(h.vm.call_function<float>("FLT", 2.5f)); }},
		    {"SELFM", [=](Host& h) { return I(h.vm.call_function<int32_t>("SELFM")); }},
		    {"HOOK", [=](Host& h) { return I(h.vm.call_function<int32_t>("HOOK", 4)); }},
		    {"USEOVR", [=](Host& h) { return I(h.vm.call_function<int32_t>("USEOVR", 4)); }},
		};
	}

	/// every history of host calls: each call gives what it gives on a fresh machine
	void histories(mc::Run& r) {
		auto ops = host_ops();
		auto n = ops.size();
		for (int handler = 0; handler < 4; ++handler) {
			std::vector<std::string> want;
			for (auto& op : ops) {
				Host h(handler);
				want.push_back(guarded([&] { return op.f(h); }));
			}
			// what a fresh machine answers is fixed where it does not depend on the error strategy
			r.run_case(
			    "fresh machine",
			    [&] {
				    std::map<std::string, std::string> fix {{"ADD3(1,2,3)", "123"}, {"STR(x)", "x,const"}, {"FAIL(1)", "2"}, {"CTX", "7"}, {"init I0", "5"}, {"FAIL(4) non-std", "int"},
				                                            {"FAIL(2) foreign", "error"}, {"too few arguments", "error"}, {"too many arguments", "error"}, {"wrong result type", "error"},
				                                            {"void for int", "error"}, {"wrong argument type 1", "error"}, {"wrong argument type 3", "error"}, {"missing function", "error"},
				                                            {"not a function", "error"}, {"CATS", "const,const,const,const,const"}, {"INST(i1)", "i1"}, {"INST(null)", "null"},
				                                            {"INST(unregistered)", "error"}, {"INST(as other type)", "error"}, {"FLT", "40200000"}, {"HOOK", "1011"}, {"USEOVR", "1008"}};
				    if (handler == 0) fix.insert({{"FAIL(3)", "error"}, {"DEEP(3)", "error"}, {"MEMBER", "error"}, {"UNREG", "error"}, {"SELFM", "error"}});
				    if (handler == 2) fix.insert({{"FAIL(3)", "1"}, {"DEEP(3)", "10"}, {"UNREG", "const,"}});
				    if (handler == 3) fix.insert({{"FAIL(3)", "0"}, {"DEEP(3)", "9"}, {"UNREG", ""}});
				    for (size_t i = 0; i < n; ++i)
					    if (auto it = fix.find(ops[i].name); it != fix.end())
						    MCD_CHECK(want[i] == it->second, "result", std::string(ops[i].name) + " gives '" + want[i] + "', expected '" + it->second + mc::fmt("' with handler %d", handler));
			    },
			    [&] { return mc::fmt("handler %d", handler); });
			for (int len = 1; len <= r.tier(2, 3); ++len)
				tuples(len, int(n), [&](std::vector<int> const& ix) {
					r.run_case(
					    "call histories",
					    [&] {
						    Host h(handler);
						    auto pc = h.vm.pc();
						    std::string ctx;
						    for (auto i : ix) {
							    ctx += std::string(ops[size_t(i)].name) + "; ";
							    h.reset();
							    auto got = guarded([&] { return ops[size_t(i)].f(h); });
							    MCD_CHECK(got == want[size_t(i)], "result", "got '" + got + "', a fresh machine gives '" + want[size_t(i)] + "' after " + ctx);
							    MCD_CHECK(h.vm.find_symbol_by_name("SELF")->get_instance() == nullptr, "self", "SELF changed after " + ctx);
							    idle(h.vm, pc, ctx);
							    r.trans();
						    }
						    r.state(mc::hash_str(ctx));
					    },
					    [&] {
						    std::string s = mc::fmt("handler %d: ", handler);
						    for (auto i : ix) s += std::string(ops[size_t(i)].name) + "; ";
						    return s;
					    });
				});
			// the same call, many times: nothing accumulates
			for (size_t i = 0; i < n; ++i)
				r.run_case(
				    "repeated call",
				    [&] {
					    Host h(handler);
					    auto pc = h.vm.pc();
					    for (int k = 0; k < 2500; ++k) {
						    h.reset();
						    auto got = guarded([&] { return ops[i].f(h); });
						    MCD_CHECK(got == want[i], "result", mc::fmt("repetition %d of %s gives '%s', the first gave '%s'", k, ops[i].name, got.c_str(), want[i].c_str()));
					    }
					    idle(h.vm, pc, ops[i].name);
					    for (size_t j = 0; j < n; ++j) {
						    h.reset();
						    auto got = guarded([&] { return ops[j].f(h); });
						    MCD_CHECK(got == want[j], "result", std::string(ops[j].name) + " gives '" + got + "', expected '" + want[j] + "' after many times " + ops[i].name);
					    }
					    r.trans(2500);
				    },
				    [&] { return mc::fmt("handler %d: %s", handler, ops[i].name); });
		}
	}

	/// callbacks which call back into the machine, disturb its stack or instance, or fail -- as external and as override
	void callbacks(mc::Run& r) {
		struct Act {
			char const* name;
			std::function<int32_t(Host&)> f;
			int fails; // 0 no, 1 script error, 2 other exception
		};
		std::vector<Act> acts {
		    {"nothing", [](Host&) { return 5; }, 0},
		    {"nested call", [](Host& h) { return h.vm.call_function<int32_t>("ADD3", 0, 0, 5); }, 0},
		    {"nested strings", [](Host& h) { return h.vm.call_function<std::string>("CATS").size() == 29 ? 5 : 6; }, 0},
		    {"nested instance", [](Host& h) { h.vm.init_instance<CObj>(h.i0, "I0"); return h.i0->a; }, 0},
		    {"nested failure, caught",
		     [](Host& h) {
			     try {
				     h.vm.call_function<int32_t>("DEEP", 2);
			     } catch (std::runtime_error const&) { return 5; }
			     return 6;
		     },
		     0},
		    {"nested instance failure, caught",
		     [](Host& h) {
			     auto ovr = h.hook;
			     h.hook = [](int32_t) -> int32_t { throw std::runtime_error {"x"}; };
			     int k = 6;
			     try {
				     h.vm.call_function<int32_t>("HOOK", 2);
			     } catch (std::runtime_error const&) { k = 5; }
			     h.hook = ovr;
			     return k;
		     },
		     0},
		    {"selects another instance", [](Host& h) { h.vm.unsafe_set_gi(h.i0); return 5; }, 0},
		    {"selects no instance", [](Host& h) { h.vm.unsafe_set_gi(nullptr); return 5; }, 0},
		    {"leaves values", [](Host& h) { h.vm.push_int(77); h.vm.push_string("left over"); return 5; }, 0},
		    {"takes values", [](Host& h) { (void) h.vm.pop_int(); return 5; }, -1},
		    {"jumps", [](Host& h) { h.vm.unsafe_jump(1); return 5; }, 0},
		    {"script error", [](Host&) -> int32_t { throw DaedalusVmException {"x"}; }, 1},
		    {"script error after disturbing", [](Host& h) -> int32_t { h.vm.push_int(77); h.vm.push_string("q"); h.vm.unsafe_set_gi(nullptr); h.vm.unsafe_jump(1); throw DaedalusVmException {"x"}; }, 1},
		    {"nested script error", [](Host& h) { h.vm.push_string("z"); return h.vm.call_function<int32_t>("NOPE"); }, 1},
		    {"std error", [](Host&) -> int32_t { throw std::runtime_error {"x"}; }, 2},
		    {"nested std error", [](Host& h) { return h.vm.call_function<int32_t>("DEEP", 2); }, 2},
		    {"wrong nested arguments", [](Host& h) { return h.vm.call_function<int32_t>("ADD3", 1, 2, 3.5f); }, 1},
		};
		for (int handler : {0, 2, 3})
			for (int kind = 0; kind < 4; ++kind) // external, typed override, naked override, default external
				for (size_t a = 0; a < acts.size(); ++a)
					for (size_t b = 0; b < acts.size(); ++b)
						r.run_case(
						    "callbacks",
						    [&] {
							    Host h(handler);
							    auto pc = h.vm.pc();
							    auto const* act = &acts[a];
							    char const* fn = kind == 0 ? "HOOK" : "USEOVR";
							    if (kind == 0) h.hook = [&](int32_t p) { MCD_CHECK(p == 4, "argument", "the callback got a wrong argument"); return act->f(h); };
							    if (kind == 1)
								    h.vm.override_function("OVR", [&](int32_t p) {
									    MCD_CHECK(p == 4, "argument", "the callback got a wrong argument");
									    return act->f(h);
								    });
							    if (kind == 2)
								    h.vm.override_function("OVR", [&](DaedalusVm& vm) -> DaedalusNakedCall {
									    MCD_CHECK(vm.pop_int() == 4, "argument", "the callback got a wrong argument");
									    auto v = act->f(h);
									    vm.push_int(v);
									    return {};
								    });
							    if (kind == 3) {
								    // an unregistered external, reported through the default callback: its result is a default value
								    h.vm.register_default_external([&](DaedalusSymbol const& s) {
									    MCD_CHECK(s.name() == "E_NONE", "argument", "the callback got the wrong symbol");
									    act->f(h);
								    });
								    fn = "UNREG";
							    }
							    std::string ctx;
							    for (auto k : {a, b}) {
								    act = &acts[k];
								    ctx += std::string(act->name) + "; ";
								    // unmanaged callbacks are responsible for the stack, the instance and the position themselves
								    bool disturbs = act->fails <= 0 && (strstr(act->name, "selects") || strstr(act->name, "leaves") || strstr(act->name, "jumps"));
								    if (kind >= 2 && disturbs) return;
								    if (act->fails < 0) {
									    // a value of the caller is lost, but never more than that
									    if (kind >= 2) return;
									    h.reset();
									    auto got = guarded([&] { return mc::fmt("%d", h.vm.call_function<int32_t>(fn, 4)); });
									    MCD_CHECK(got == "12", "result", "got " + got + " although the callback only took one value after " + ctx);
									    idle(h.vm, pc, ctx);
									    continue;
								    }
								    h.reset();
								    std::string want;
								    if (kind == 3)
									    want = act->fails == 0 ? "const," : act->fails == 2 || handler == 0 ? "error" : handler == 2 ? "const," : "";
								    else
									    want = act->fails == 0 ? "1012" : act->fails == 2 || handler == 0 ? "error" : handler == 2 ? "1007" : "0";
								    auto got = guarded([&] { return kind == 3 ? h.vm.call_function<std::string>(fn) : mc::fmt("%d", h.vm.call_function<int32_t>(fn, 4)); });
								    MCD_CHECK(got == want, "result", "got '" + got + "', expected '" + want + "' after " + ctx);
								    idle(h.vm, pc, ctx);
								    r.trans();
							    }
							    r.outcome(ctx);
						    },
						    [&] { return mc::fmt("handler %d kind %d: ", handler, kind) + acts[a].name + ", " + acts[b].name; });
	}

	/// recursive functions with saved local variables
	void recursion(mc::Run& r) {
		enum LT_ { LI, LA, LF, LS, LN, NLT };
		int maxl = r.tier(2, 3);
		for (int np = 1; np <= 3; ++np)
			for (int nl = 1; nl <= maxl; ++nl)
				tuples(nl, NLT, [&](std::vector<int> const& lt) {
					for (int rt = -1; rt < nl; ++rt) // returned local (or nothing)
						for (int depth = 0; depth <= 3; ++depth)
							for (int fail = -1; fail <= depth; ++fail)
								for (int enabled : {1, 0})
									r.run_case(
									    "recursion",
									    [&] {
										    Lab z;
										    Sym c {"C", T_CLASS, 1, 0, 4};
										    c.addr = 0;
										    z.add(c);
										    z.var("C.A", T_INT, 1, F_MEMBER, 0);
										    for (int i = 0; i < 4; ++i) z.var(mc::fmt("I%d", i), T_INST, 0, F_CONST, 0);
										    Sym ks {"KS", T_STRING, 4, F_CONST};
										    ks.strs = {"zero", "one", "two", "three"};
										    z.add(ks);
										    z.var("N", T_INT);
										    z.func("E_LOG", {{"P", T_INT}}, -1, F_EXTERNAL);
										    z.func("E_LOGF", {{"P", T_FLOAT}}, -1, F_EXTERNAL);
										    z.func("E_LOGS", {{"P", T_STRING}}, -1, F_EXTERNAL);
										    z.func("E_LOGI", {{"P", T_INST}}, -1, F_EXTERNAL);
										    z.func("E_FAIL", {{"P", T_INT}}, -1, F_EXTERNAL);
										    z.func("E_SETUP", {{"P", T_INT}}, -1, F_EXTERNAL);
										    uint32_t tys[] = {T_INT, T_INT, T_FLOAT, T_STRING, T_INST};
										    std::vector<std::pair<std::string, uint32_t>> params;
										    for (int i = 0; i < np; ++i) params.emplace_back(mc::fmt("P%d", i), T_INT);
										    z.func("REC", params, rt < 0 ? -1 : int(tys[lt[size_t(rt)]]));
										    z.var("REC.M", T_INT); // the local copy of the recursion counter
										    std::vector<uint32_t> loc;
										    for (int i = 0; i < nl; ++i) loc.push_back(z.var(mc::fmt("REC.L%d", i), tys[lt[size_t(i)]], lt[size_t(i)] == LA ? 2 : 1));
										    z.var("RECX", T_INT);
										    z.code.u8(RSR);
										    for (int i = 0; i < 4; ++i) z.syms[z[mc::fmt("I%d", i)]].addr = 0;
										    auto P = [&](int i) { return z[mc::fmt("REC.P%d", i)]; };
										    uint32_t M = z["REC.M"];
										    std::vector<Ins> b;
										    for (int i = np; i-- > 0;) b.insert(b.end(), {{PUSHV, P(i)}, {MOVI}});
										    b.insert(b.end(), {{PUSHV, P(0)}, {PUSHV, M}, {MOVI}});
										    // all arguments must have arrived: log them
										    for (int i = 0; i < np; ++i) b.insert(b.end(), {{PUSHV, P(i)}, {BE, z["E_LOG"]}});
										    // set the locals from the host: they depend on the level
										    b.insert(b.end(), {{PUSHV, M}, {BE, z["E_SETUP"]}});
										    b.insert(b.end(), {{PUSHV, M}, {BE, z["E_FAIL"]}});
										    std::vector<Ins> rec;
										    for (int i = 0; i < np; ++i) rec.insert(rec.end(), {{PUSHI, i == 0 ? 1u : uint32_t(-100 * i)}, {PUSHV, i == 0 ? M : P(i)}, {SUB}});
										    rec.push_back({BL, 0});
										    if (rt >= 0) {
											    char const* e[] = {"E_LOG", "E_LOG", "E_LOGF", "E_LOGS", "E_LOGI"};
											    rec.push_back({BE, z[e[lt[size_t(rt)]]]});
										    }
										    uint32_t base = static_cast<uint32_t>(z.code.s.size());
										    for (auto& i : rec)
											    if (i.op == BL) i.arg = base;
										    uint32_t size = 0;
										    for (auto& i : b) size += ins_size(i);
										    for (auto& i : rec) size += ins_size(i);
										    b.push_back({PUSHV, M});
										    b.push_back({BZ, base + size + 10});
										    b.insert(b.end(), rec.begin(), rec.end());
										    // log the counter and the locals again
										    b.insert(b.end(), {{PUSHV, M}, {BE, z["E_LOG"]}});
										    for (int i = 0; i < nl; ++i) {
											    char const* e[] = {"E_LOG", "E_LOG", "E_LOGF", "E_LOGS", "E_LOGI"};
											    b.insert(b.end(), {{PUSHV, loc[size_t(i)]}, {BE, z[e[lt[size_t(i)]]]}});
											    if (lt[size_t(i)] == LA) b.insert(b.end(), {{PUSHVV, loc[size_t(i)], 1}, {BE, z["E_LOG"]}});
										    }
										    if (rt >= 0) b.push_back({PUSHV, loc[size_t(rt)]});
										    b.push_back({RSR});
										    z.body("REC", b);

										    DaedalusVm vm = z.vm();
										    vm.register_member("C.A", &CObj::a);
										    std::shared_ptr<CObj> inst[4];
										    for (int i = 0; i < 4; ++i) {
											    inst[i] = vm.init_instance<CObj>(mc::fmt("I%d", i));
											    inst[i]->a = i;
										    }
										    std::vector<std::string> log, want;
										    vm.register_external("E_LOG", [&](int32_t v) { log.push_back(mc::fmt("%d", v)); });
										    vm.register_external("E_LOGF", [&](float v) { log.push_back(mc::fmt("%g", v)); });
										    vm.register_external("E_LOGS", [&](std::string_view v) { log.push_back(std::string(v)); });
										    vm.register_external("E_LOGI", [&](std::shared_ptr<CObj> v) { log.push_back(v ? mc::fmt("i%d", v->a) : "null"); });
										    int failures = 0;
										    vm.register_external("E_FAIL", [&](int32_t m) {
											    if (m == depth - fail && fail >= 0) {
												    ++failures;
												    throw DaedalusVmException {"x"};
											    }
										    });
										    char const* names[] = {"zero", "one", "two", "three"};
										    vm.register_external("E_SETUP", [&](int32_t m) {
											    for (int i = 0; i < nl; ++i) {
												    auto* s = vm.find_symbol_by_index(loc[size_t(i)]);
												    switch (lt[size_t(i)]) {
												    case LI: s->set_int(m * 10 + i); break;
												    case LA: s->set_int(m * 100 + i), s->set_int(m * 1000 + i, 1); break;
												    case LF: s->set_float(static_cast<float>(m) + 0.5f); break;
												    case LS: s->set_string(names[m]); break;
												    case LN: s->set_instance(inst[m]); break;
												    }
											    }
										    });
										    vm.find_symbol_by_name("REC")->set_local_variables_enable(enabled);
										    auto value = [&](int i, int m) -> std::string {
											    switch (lt[size_t(i)]) {
											    case LI: return mc::fmt("%d", m * 10 + i);
											    case LA: return mc::fmt("%d", m * 100 + i);
											    case LF: return mc::fmt("%g", m + 0.5);
											    case LS: return names[m];
											    default: return mc::fmt("i%d", m);
											    }
										    };
										    // expected log; without saved locals all levels share one set of variables
										    int fail_at = fail >= 0 ? depth - fail : -1;
										    bool failed = false;
										    int shared = 0;
										    std::function<void(int)> expect = [&](int m) {
											    shared = m;
											    want.push_back(mc::fmt("%d", m));
											    for (int i = 1; i < np; ++i) want.push_back(mc::fmt("%d", 7 * i + (depth - m) * 100 * i));
											    if (m == fail_at) {
												    failed = true;
												    return;
											    }
											    if (m > 0) {
												    expect(m - 1);
												    if (failed) return;
												    if (rt >= 0) want.push_back(value(rt, enabled ? m - 1 : shared));
											    }
											    int l = enabled ? m : shared;
											    want.push_back(mc::fmt("%d", l));
											    for (int i = 0; i < nl; ++i) {
												    want.push_back(value(i, l));
												    if (lt[size_t(i)] == LA) want.push_back(mc::fmt("%d", l * 1000 + i));
											    }
										    };
										    for (int round = 0; round < 2; ++round) {
											    log.clear();
											    want.clear();
											    failed = false;
											    expect(depth);
											    auto res = guarded([&] {
												    auto* s = vm.find_symbol_by_name("REC");
												    if (np == 1) vm.call_function(s, int32_t(depth));
												    if (np == 2) vm.call_function(s, int32_t(depth), 7);
												    if (np == 3) vm.call_function(s, int32_t(depth), 7, 14);
												    return std::string("ok");
											    });
											    std::string g, w;
											    for (auto& l : log) g += l + " ";
											    for (auto& l : want) w += l + " ";
											    MCD_CHECK(res == (fail >= 0 ? "error" : "ok"), "result", "the call ended in " + res + " with log " + g);
											    MCD_CHECK(g == w, "log", mc::fmt("round %d: logged %s, expected %s", round, g.c_str(), w.c_str()));
											    idle(vm, 0, "recursion");
											    r.trans(log.size());
										    }
									    },
									    [&] {
										    std::string s = mc::fmt("%d parameters, return %d, depth %d, fail %d, enabled %d, locals ", np, rt, depth, fail, enabled);
										    for (auto l : lt) s += "IAFSN"[l];
										    return s;
									    });
				});
	}

	/// running out of stack space or call depth is an error, and the machine works afterwards
	void exhaustion(mc::Run& r) {
		// a deep call stack is printed once for each level it has
		auto keep = std::exchange(r.case_cpu_s, std::max(r.case_cpu_s, 16.0));
		struct Restore {
			mc::Run& r;
			double v;
			~Restore() {
				r.case_cpu_s = v;
			}
		} restore {r, keep};
		for (int what = 0; what < 9; ++what)
			for (int handler : {0, 1, 2, 3})
				r.run_case(
				    "exhaustion",
				    [&] {
					    Lab z;
					    z.func("E_INT", {{"P", T_INT}}, T_INT, F_EXTERNAL);
					    z.func("E_STR", {{"P", T_STRING}}, T_STRING, F_EXTERNAL);
					    z.func("E_BAD", {}, T_STRING, F_EXTERNAL);
					    z.func("E_BACK", {}, T_INT, F_EXTERNAL);
					    Sym ks {"KS", T_STRING, 1, F_CONST};
					    ks.strs = {"str"};
					    z.add(ks);
					    z.var("X", T_INT);
					    z.func("GO", {}, T_INT);
					    z.func("FINE", {{"P", T_INT}}, T_INT);
					    z.func("FINES", {}, T_STRING);
					    z.code.u8(RSR);
					    z.body("FINE", {{PUSHV, z["FINE.P"]}, {MOVI}, {PUSHI, 1}, {PUSHV, z["FINE.P"]}, {ADD}, {RSR}});
					    z.body("FINES", {{PUSHV, z["KS"]}, {BE, z["E_STR"]}, {RSR}});
					    uint32_t at = static_cast<uint32_t>(z.code.s.size());
					    // counted loop: fill the stack to exactly the limit, then do something
					    auto fill = [&](uint32_t n) {
						    std::vector<Ins> v(n, Ins {PUSHI, 7});
						    return v;
					    };
					    std::vector<Ins> b;
					    switch (what) {
					    case 0: b = {{PUSHI, 1}, {B, at}}; break;                       // endless pushes
					    case 1: b = {{BL, at}, {RSR}}; break;                           // endless recursion
					    case 2: b = {{PUSHI, 1}, {BL, at}, {RSR}}; break;               // both
					    case 3: b = fill(2048), b.insert(b.end(), {{PUSHV, z["KS"]}, {RSR}}); break;
					    case 4: b = fill(2048), b.insert(b.end(), {{BE, z["E_BAD"]}, {RSR}}); break;
					    case 5: b = fill(2048), b.insert(b.end(), {{BL, z.at("FINES")}, {RSR}}); break;
					    case 6: b = fill(2048), b.insert(b.end(), {{BE, z["E_INT"]}, {RSR}}); break; // just fits
					    case 7: b = {{BE, z["E_BACK"]}, {RSR}}; break; // recursion through the host
					    case 8: b = fill(2047), b.insert(b.end(), {{BL, z.at("FINES")}, {RSR}}); break;
					    }
					    z.body("GO", b);
					    DaedalusVm vm = z.vm();
					    vm.register_external("E_INT", [](int32_t v) { return v + 1; });
					    vm.register_external("E_STR", [](std::string_view v) { return std::string(v) + "!"; });
					    vm.register_external("E_BAD", []() -> std::string { throw DaedalusVmException {"x"}; });
					    int host_depth = 0;
					    vm.register_external("E_BACK", [&]() -> int32_t {
						    ++host_depth;
						    return vm.call_function<int32_t>("GO");
					    });
					    if (handler == 1) install(vm, RVM::FAIL_ALL);
					    if (handler == 2) install(vm, RVM::CONTINUE_CALLS);
					    if (handler == 3) install(vm, RVM::RETURN_ALL);
					    for (int round = 0; round < 3; ++round) {
						    std::string res = guarded([&] { return mc::fmt("%d", vm.call_function<int32_t>("GO")); });
						    bool fits = what == 6;
						    if (fits) MCD_CHECK(res == "8", "result", "a full but sufficient stack gives " + res);
						    if (!fits && handler < 2) MCD_CHECK(res == "error", "result", "running out of space gives " + res);
						    idle(vm, 0, mc::fmt("exhaustion %d", what));
						    MCD_CHECK(vm.call_function<int32_t>("FINE", 41) == 42, "later-call", "a later call gives a wrong result");
						    MCD_CHECK(vm.call_function<std::string>("FINES") == "str!", "later-call", "a later string call gives a wrong result");
						    r.outcome(res);
						    r.trans();
					    }
				    },
				    [&] { return mc::fmt("kind %d handler %d", what, handler); });
	}

	/// many temporary strings alive at once keep their values
	void strings(mc::Run& r) {
		for (int n : {1, 2, 3, 9, 10, 27, 28, 81, 82, 243, 244, 255, 256, 257, 300, 729, 730, 1000})
			for (int via = 0; via < 2; ++via)
				for (int pre = 0; pre < 3; ++pre)
					r.run_case(
					    "temporary strings",
					    [&] {
						    Lab z;
						    z.func("E_NEXT", {}, T_STRING, F_EXTERNAL);
						    z.func("E_TAKE", {{"P", T_STRING}}, -1, F_EXTERNAL);
						    z.func("GO", {}, -1);
						    z.func("LEAK", {}, T_STRING);
						    z.code.u8(RSR);
						    std::vector<Ins> b;
						    for (int i = 0; i < n; ++i) b.push_back({BE, z["E_NEXT"]});
						    for (int i = 0; i < n; ++i) b.push_back({BE, z["E_TAKE"]});
						    b.push_back({RSR});
						    z.body("GO", b);
						    z.body("LEAK", {{BE, z["E_NEXT"]}, {BE, z["E_NEXT"]}, {BE, z["E_NEXT"]}, {RSR}});
						    DaedalusVm vm = z.vm();
						    int next = 0;
						    std::vector<std::string> got, want;
						    vm.register_external("E_NEXT", [&] { return mc::fmt("string number %d of the test", next++); });
						    vm.register_external("E_TAKE", [&](std::string_view s) { got.emplace_back(s); });
						    for (int k = 0; k < 150 * pre; ++k) {
							    if (k % 2)
								    vm.call_function("LEAK");
							    else {
								    auto ret = vm.call_function<std::string>("LEAK");
								    MCD_CHECK(ret == mc::fmt("string number %d of the test", next - 1), "string", "a returned string has changed");
							    }
						    }
						    for (int round = 0; round < 2; ++round) {
							    got.clear();
							    want.clear();
							    next = 0;
							    for (int i = n; i-- > 0;) want.push_back(mc::fmt("string number %d of the test", i));
							    if (via == 0)
								    vm.call_function<void>("GO");
							    else {
								    for (int i = 0; i < n; ++i) vm.push_string(mc::fmt("string number %d of the test", i));
								    for (int i = 0; i < n; ++i) got.push_back(vm.pop_string());
							    }
							    for (int i = 0; i < n; ++i)
								    MCD_CHECK(got[size_t(i)] == want[size_t(i)], "string", mc::fmt("of %d strings on the stack, number %d became '", n, n - 1 - i) + got[size_t(i)] + "'");
							    idle(vm, 0, "strings");
						    }
						    r.trans(uint64_t(n));
					    },
					    [&] { return mc::fmt("%d strings via %d after %d leaking calls", n, via, 150 * pre); });
	}

	/// a default external or an unregistered one removes exactly its arguments, whatever their types
	void default_externals(mc::Run& r) {
		uint32_t tys[] = {T_INT, T_FLOAT, T_STRING, T_FUNC, T_INST};
		for (int np = 0; np <= r.tier(3, 4); ++np)
			tuples(np, 5, [&](std::vector<int> const& pt) {
				for (int rt : {-1, int(T_INT), int(T_FLOAT), int(T_STRING), int(T_INST), int(T_FUNC)})
					for (int imm = 0; imm < 2; ++imm)
						for (int mode = 0; mode < 4; ++mode) // by symbol, by name, none registered (error strategy: continue)
							r.run_case(
							    "default externals",
							    [&] {
								    Lab z;
								    Sym c {"C", T_CLASS, 0, 0, 4};
								    c.addr = 0;
								    z.add(c);
								    z.var("I0", T_INST, 0, F_CONST, 0);
								    z.var("X", T_INT);
								    z.var("Y", T_INT);
								    z.var("FL", T_FLOAT);
								    z.var("FN", T_FUNC);
								    z.var("R", T_INT);
								    z.var("RF", T_FLOAT);
								    z.var("RS", T_STRING);
								    z.var("RI", T_INST, 1, 0, 0);
								    Sym ks {"KS", T_STRING, 1, F_CONST};
								    ks.strs = {"str"};
								    z.add(ks);
								    std::vector<std::pair<std::string, uint32_t>> params;
								    for (int i = 0; i < np; ++i) params.emplace_back(mc::fmt("P%d", i), tys[pt[size_t(i)]]);
								    z.func("E", params, rt, F_EXTERNAL);
								    z.func("E_S", {}, T_STRING, F_EXTERNAL);
								    z.func("E_I", {}, T_INST, F_EXTERNAL);
								    z.func("GO", {}, -1);
								    z.code.u8(RSR);
								    std::vector<Ins> b {{PUSHI, 111}, {PUSHI, 222}};
								    for (int i = 0; i < np; ++i) switch (pt[size_t(i)]) {
									    case 0: b.push_back(imm ? Ins {PUSHI, 1} : Ins {PUSHV, z["X"]}); break;
									    case 1: b.push_back(imm ? Ins {PUSHI, 0x3f800000} : Ins {PUSHV, z["FL"]}); break;
									    case 2: b.push_back(imm ? Ins {BE, z["E_S"]} : Ins {PUSHV, z["KS"]}); break;
									    case 3: b.push_back(imm ? Ins {PUSHI, z["GO"]} : Ins {PUSHV, z["FN"]}); break;
									    case 4: b.push_back(imm ? Ins {BE, z["E_I"]} : Ins {PUSHVI, z["I0"]}); break;
									    }
								    b.push_back({BE, z["E"]});
								    if (rt == T_INT || rt == T_FUNC) b.insert(b.end(), {{PUSHV, z["R"]}, {MOVI}});
								    if (rt == T_FLOAT) b.insert(b.end(), {{PUSHV, z["RF"]}, {MOVF}});
								    if (rt == T_STRING) b.insert(b.end(), {{PUSHV, z["RS"]}, {MOVS}});
								    if (rt == T_INST) b.insert(b.end(), {{PUSHV, z["RI"]}, {MOVVI}});
								    b.insert(b.end(), {{PUSHV, z["Y"]}, {MOVI}, {PUSHV, z["X"]}, {MOVI}, {RSR}});
								    z.body("GO", b);
								    DaedalusVm vm = z.vm();
								    auto inst = std::make_shared<CObj>();
								    vm.register_external("E_S", [] { return std::string("temp"); });
								    vm.register_external("E_I", [&] { return inst; });
								    std::vector<std::string> seen;
								    if (mode == 0) vm.register_default_external([&](DaedalusSymbol const& s) { seen.push_back(s.name()); });
								    if (mode == 1) vm.register_default_external([&](std::string_view s) { seen.emplace_back(s); });
								    if (mode == 2) install(vm, RVM::CONTINUE_CALLS);
								    // a callback which handles the stack itself
								    if (mode == 3)
									    vm.register_default_external_custom([&](DaedalusVm& m, DaedalusSymbol& s) {
										    MCD_CHECK(&m == &vm, "callback", "the callback is given another machine");
										    seen.push_back(s.name());
										    for (int i = np; i-- > 0;) switch (pt[size_t(i)]) {
											    case 0: {
												    auto got = m.pop_int();
												    MCD_CHECK(!imm || got == 1, "argument", mc::fmt("integer argument %d", got));
												    break;
											    }
											    case 1: {
												    auto got = m.pop_float();
												    MCD_CHECK(!imm || got == 1.f, "argument", mc::fmt("number argument %f", double(got)));
												    break;
											    }
											    case 2: {
												    auto got = m.pop_string();
												    MCD_CHECK(got == (imm ? "temp" : "str"), "argument", "string argument '" + got + "'");
												    break;
											    }
											    case 3: (void) m.pop_int(); break;
											    case 4: {
												    auto got = m.pop_instance();
												    MCD_CHECK(!imm || got == inst, "argument", "wrong instance argument");
												    break;
											    }
											    }
										    switch (rt) {
										    case T_INT:
										    case T_FUNC: m.push_int(77); break;
										    case T_FLOAT: m.push_float(0.25f); break;
										    case T_STRING: m.push_string("custom"); break;
										    case T_INST: m.push_instance(inst); break;
										    default: break;
										    }
									    });
								    vm.find_symbol_by_name("R")->set_int(9);
								    vm.find_symbol_by_name("RF")->set_float(9);
								    vm.find_symbol_by_name("RS")->set_string("nine");
								    vm.find_symbol_by_name("RI")->set_instance(inst);
								    vm.call_function<void>("GO");
								    int x = vm.find_symbol_by_name("X")->get_int(), y = vm.find_symbol_by_name("Y")->get_int();
								    MCD_CHECK(x == 111 && y == 222, "stack", mc::fmt("the caller's values became %d and %d", x, y));
								    if (rt == T_INT || rt == T_FUNC) MCD_CHECK(vm.find_symbol_by_name("R")->get_int() == (mode == 3 ? 77 : 0), "default", "wrong default result");
								    if (rt == T_FLOAT) MCD_CHECK(vm.find_symbol_by_name("RF")->get_float() == (mode == 3 ? 0.25f : 0.f), "default", "wrong default result");
								    if (rt == T_STRING) MCD_CHECK(vm.find_symbol_by_name("RS")->get_string() == (mode == 3 ? "custom" : ""), "default", "wrong default result");
								    if (rt == T_INST) MCD_CHECK(vm.find_symbol_by_name("RI")->get_instance() == (mode == 3 ? inst : nullptr), "default", "wrong default result");
								    MCD_CHECK(mode == 2 ? seen.empty() : seen == std::vector<std::string> {"E"}, "callback", "the default callback was not called once with the missing function");
								    idle(vm, 0, "the default external");
								    r.trans();
							    },
							    [&] {
								    std::string s = mc::fmt("return %d immediates %d mode %d parameters ", rt, imm, mode);
								    for (auto p : pt) s += "IFSfO"[p];
								    return s;
							    });
			});
	}

	/// what a callback was given stays as it is until the callback returns, whatever it does with the machine meanwhile
	void arguments(mc::Run& r) {
		static char const* SRC[] = {"constant", "variable", "array element", "member", "temporary", "short temporary"};
		static char const* ACT[] = {"nothing", "push and pop", "push many", "nested call", "nested call with strings", "assign the variables", "nested call of itself", "many nested calls", "drop the instance"};
		constexpr int NS = 6, NA = 9;
		for (int s1 = 0; s1 < NS; ++s1)
			for (int s2 = 0; s2 < NS; ++s2)
				for (int act = 0; act < NA; ++act)
					for (int act2 = 0; act2 < (r.quick() ? 3 : NA); ++act2)
						for (int how = 0; how < 4; ++how) // external or override, returning nothing or a string
							for (int inst = 0; inst < 3; ++inst) // instance argument: none, shared, plain pointer
								r.run_case(
								    "arguments",
								    [&] {
									    bool ovr = how & 1, ret = how & 2;
									    Lab z;
									    Sym c {"C", T_CLASS, 1, 0, 4};
									    c.addr = 0;
									    z.add(c);
									    z.var("C.S", T_STRING, 1, F_MEMBER, 0);
									    z.var("I0", T_INST, 0, F_CONST, 0);
									    Sym k {"KS", T_STRING, 1, F_CONST};
									    k.strs = {"a constant which is long enough"};
									    z.add(k);
									    Sym v {"VS", T_STRING, 3};
									    v.strs = {"first", "the second of the three elements", "third"};
									    z.add(v);
									    z.func("E_TEMP", {}, T_STRING, F_EXTERNAL);
									    z.func("E_SHORT", {}, T_STRING, F_EXTERNAL);
									    z.func("E_NEW", {}, T_INST, F_EXTERNAL);
									    z.func("TAKE", {{"P", T_STRING}, {"O", T_INST}, {"Q", T_STRING}}, ret ? T_STRING : -1, ovr ? 0 : F_EXTERNAL);
									    z.func("E_CAT", {{"P", T_STRING}, {"Q", T_STRING}}, T_STRING, F_EXTERNAL);
									    z.func("CATS", {{"P", T_STRING}}, T_STRING);
									    z.func("GO", {}, ret ? T_STRING : -1);
									    z.code.u8(RSR);
									    z.body("I0", {{RSR}});
									    if (ovr) z.body("TAKE", {{RSR}});
									    z.body("CATS", {{PUSHV, z["CATS.P"]}, {MOVS}, {BE, z["E_TEMP"]}, {PUSHV, z["CATS.P"]}, {BE, z["E_CAT"]}, {BE, z["E_SHORT"]}, {BE, z["E_CAT"]}, {RSR}});
									    std::vector<Ins> b {{GMOVI, z["I0"]}};
									    for (int s : {s1, -1, s2}) switch (s) {
										    case -1: b.push_back(inst == 0 ? Ins {PUSHVI, z["I0"]} : Ins {BE, z["E_NEW"]}); break;
										    case 0: b.push_back({PUSHV, z["KS"]}); break;
										    case 1: b.push_back({PUSHV, z["VS"]}); break;
										    case 2: b.push_back({PUSHVV, z["VS"], 1}); break;
										    case 3: b.push_back({PUSHV, z["C.S"]}); break;
										    case 4: b.push_back({BE, z["E_TEMP"]}); break;
										    case 5: b.push_back({BE, z["E_SHORT"]}); break;
										    }
									    b.push_back(ovr ? Ins {BL, z.at("TAKE")} : Ins {BE, z["TAKE"]});
									    b.push_back({RSR});
									    z.body("GO", b);
									    DaedalusVm vm = z.vm();
									    struct SObj : DaedalusInstance {
										    std::string s = "the text of the member variable";
										    int mark = 4711;
										    ~SObj() {
											    mark = 0;
										    }
									    };
									    vm.register_member("C.S", &SObj::s);
									    auto i0 = vm.init_instance<SObj>("I0");
									    int temps = 0, news = 0, calls = 0;
									    vm.register_external("E_TEMP", [&] { return mc::fmt("temporary string number %d", temps++); });
									    vm.register_external("E_SHORT", [&] { return mc::fmt("#%d", temps++); });
									    vm.register_external("E_NEW", [&]() -> std::shared_ptr<SObj> {
										    ++news;
										    auto tmp = vm.allocate_instance<SObj>("I0");
										    vm.find_symbol_by_name("I0")->set_instance(i0);
										    return tmp;
									    });
									    vm.register_external("E_CAT", [&](std::string_view a, std::string_view q) { return std::string(a) + "," + std::string(q); });
									    auto text = [&](int s, int& t) -> std::string {
										    switch (s) {
										    case 0: return "a constant which is long enough";
										    case 1: return "first";
										    case 2: return "the second of the three elements";
										    case 3: return "the text of the member variable";
										    case 4: return mc::fmt("temporary string number %d", t++);
										    default: return mc::fmt("#%d", t++);
										    }
									    };
									    int depth = 0;
									    auto do_act = [&](int a) {
										    switch (a) {
										    case 0: break;
										    case 1:
											    vm.push_string("pushed by the callback itself");
											    (void) vm.pop_string();
											    break;
										    case 2:
											    for (int i = 0; i < 40; ++i) vm.push_string(mc::fmt("pushed number %d by the callback", i));
											    for (int i = 0; i < 40; ++i) (void) vm.pop_string();
											    break;
										    case 3: (void) vm.call_function<std::string>("CATS", std::string_view("x")); break;
										    case 4: (void) vm.call_function<std::string>("CATS", std::string_view("a long string as the only argument")); break;
										    case 5:
											    vm.find_symbol_by_name("VS")->set_string("something different from before", 0);
											    vm.find_symbol_by_name("VS")->set_string("", 1);
											    i0->s = "z";
											    break;
										    case 6:
											    if (depth < 2) vm.call_function("GO");
											    break;
										    case 7:
											    for (int i = 0; i < 12; ++i) (void) vm.call_function<std::string>("CATS", std::string_view("some argument of moderate length"));
											    break;
										    case 8: vm.find_symbol_by_name("I0")->set_instance(nullptr); break;
										    }
										    vm.find_symbol_by_name("I0")->set_instance(a == 8 ? nullptr : i0);
									    };
									    auto body = [&](std::string_view a, DaedalusInstance* o, std::string_view q) {
										    ++depth;
										    ++calls;
										    std::string a0(a), q0(q);
										    if (depth == 1) {
											    int t = 0;
											    auto wa = text(s1, t), wq = text(s2, t);
											    MCD_CHECK(a0 == wa && q0 == wq, "argument", "got '" + a0 + "' and '" + q0 + "', expected '" + wa + "' and '" + wq + "'");
										    }
										    for (int x : {act, act2}) {
											    do_act(x);
											    MCD_CHECK(a == a0 && q == q0, "argument-changed", mc::fmt("after '%s': '", ACT[x]) + std::string(a) + "' and '" + std::string(q) + "' instead of '" + a0 + "' and '" + q0 + "'");
											    MCD_CHECK(o == nullptr || static_cast<SObj*>(o)->mark == 4711, "argument-changed", "the instance is gone");
										    }
										    --depth;
										    r.trans();
										    return a0 + "|" + q0;
									    };
									    auto reg = [&](auto f) {
										    if (ovr) vm.override_function("TAKE", f);
										    else vm.register_external("TAKE", f);
									    };
									    if (ret) {
										    if (inst < 2) reg([&](std::string_view a, std::shared_ptr<SObj> o, std::string_view q) { return body(a, o.get(), q); });
										    else reg([&](std::string_view a, SObj* o, std::string_view q) { return body(a, o, q); });
									    } else {
										    if (inst < 2) reg([&](std::string_view a, std::shared_ptr<SObj> o, std::string_view q) { body(a, o.get(), q); });
										    else reg([&](std::string_view a, SObj* o, std::string_view q) { body(a, o, q); });
									    }
									    int t = 0;
									    auto wa = text(s1, t), wq = text(s2, t);
									    if (ret) {
										    auto got = vm.call_function<std::string>("GO");
										    MCD_CHECK(got == wa + "|" + wq, "result", "got '" + got + "'");
									    } else
										    vm.call_function<void>("GO");
									    MCD_CHECK(calls >= 1, "callback", "the callback was not called");
									    idle(vm, 0, "the callback");
								    },
								    [&] { return mc::fmt("%s returning %s: %s and %s (instance argument %d), %s, then %s", how & 1 ? "override" : "external", how & 2 ? "a string" : "nothing", SRC[s1], SRC[s2], inst, ACT[act], ACT[act2]); });
	}

	/// results of every kind, requested in every way a caller may ask for them
	void results(mc::Run& r) {
		struct Other : DaedalusInstance {};
		for (int want = 0; want < 7; ++want)
			for (int kind = 0; kind < 7; ++kind)
				for (int pre = 0; pre < 2; ++pre)
					r.run_case(
					    "results",
					    [&] {
						    Lab z;
						    Sym c {"C", T_CLASS, 1, 0, 4};
						    c.addr = 0;
						    z.add(c);
						    z.var("C.A", T_INT, 1, F_MEMBER, 0);
						    z.var("I0", T_INST, 0, F_CONST, 0);
						    z.var("IV", T_INST, 1, 0, 0);
						    z.var("FV", T_FUNC, 1);
						    z.func("RF", {}, T_FUNC);
						    z.func("RI", {}, T_INST);
						    z.func("RN", {}, T_INT);
						    z.func("RFL", {}, T_FLOAT);
						    z.func("RS", {}, T_STRING);
						    z.func("RV", {}, -1);
						    z.func("RFV", {}, T_FUNC);
						    Sym k {"KS", T_STRING, 1, F_CONST};
						    k.strs = {"text"};
						    z.add(k);
						    z.code.u8(RSR);
						    z.body("I0", {{RSR}});
						    z.body("RF", {{PUSHI, z["RN"]}, {RSR}});
						    z.body("RI", {{PUSHVI, z["I0"]}, {RSR}});
						    z.body("RN", {{PUSHI, 77}, {RSR}});
						    z.body("RFL", {{PUSHI, 0x40200000}, {RSR}});
						    z.body("RS", {{PUSHV, z["KS"]}, {RSR}});
						    z.body("RV", {{RSR}});
						    z.body("RFV", {{PUSHI, z["RS"]}, {PUSHV, z["FV"]}, {MOVVF}, {PUSHV, z["FV"]}, {RSR}});
						    static char const* FN[] = {"RN", "RFL", "RS", "RV", "RI", "RF", "RFV"};
						    DaedalusVm vm = z.vm();
						    vm.register_member("C.A", &CObj::a);
						    auto obj = vm.init_instance<CObj>("I0");
						    if (pre) vm.push_int(1234);
						    auto got = guarded([&]() -> std::string {
							    auto* f = FN[kind];
							    switch (want) {
							    case 0: return mc::fmt("%d", vm.call_function<int32_t>(f));
							    case 1: return mc::fmt("%g", static_cast<double>(vm.call_function<float>(f)));
							    case 2: return vm.call_function<std::string>(f);
							    case 3: vm.call_function<void>(f); return "void";
							    case 4: return vm.call_function<std::shared_ptr<DaedalusInstance>>(f) == obj ? "object" : "not the object";
							    case 5: return vm.call_function<std::shared_ptr<CObj>>(f) == obj ? "object" : "not the object";
							    default: {
								    auto fn = vm.call_function<DaedalusFunction>(f);
								    return fn.value ? "function " + fn.value->name() : "none";
							    }
							    }
						    });
						    static char const* RES[7][7] = {
						        // RN, RFL, RS, RV, RI, RF, RFV
						        {"77", "error", "error", "error", "error", nullptr, nullptr},
						        {"error", "2.5", "error", "error", "error", "error", "error"},
						        {"error", "error", "text", "error", "error", "error", "error"},
						        {"error", "error", "error", "void", "error", "error", "error"},
						        {"error", "error", "error", "error", "object", "error", "error"},
						        {"error", "error", "error", "error", "object", "error", "error"},
						        {"none", "error", "error", "error", "error", "function RN", "function RS"},
						    };
						    std::string w = RES[want][kind] ? RES[want][kind] : mc::fmt("%u", z[kind == 5 ? "RN" : "RS"]);
						    MCD_CHECK(got == w, "result", "got '" + got + "', expected '" + w + "'");
						    if (pre) MCD_CHECK(vm.pop_int() == 1234, "stack", "the caller's value is gone");
						    idle(vm, 0, "the call");
						    r.trans();
					    },
					    [&] { return mc::fmt("function %d asked for as %d (%d)", kind, want, pre); });
	}

	void explore(mc::Run& r) {
		quiet_log();
		results(r);
		exhaustion(r);
		strings(r);
		default_externals(r);
		callbacks(r);
		histories(r);
		recursion(r);
		callee_bodies(r);
		arguments(r);
	}
} // namespace
MC_MAIN(explore)
