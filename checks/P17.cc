// P17: script operators -- every operator over a boundary set of operands, and every program up to a depth bound, executed
// by the real machine and by an independent reference interpreter.
#include "daemodel.hh"
using namespace mcd;

namespace {
	struct Result {
		bool error = false;
		std::string why;
		std::string value;
		bool operator==(Result const& o) const {
			return error == o.error && (error || value == o.value);
		}
	};
	std::string fbits(float f) {
		uint32_t u;
		memcpy(&u, &f, 4);
		return mc::fmt("%08x", u);
	}

	enum Status { OK, ERROR, ENDLESS, OFF };
	Status model(RVM& m, int rt, Result& res) {
		try {
			m.call(MAIN, m.env.main);
		} catch (RErr const& e) {
			res = {true, e.what, ""};
			return m.fell_off ? OFF : ERROR;
		} catch (RSteps) {
			return ENDLESS;
		}
		try {
			switch (rt) {
			case T_INT: res.value = mc::fmt("%d", m.pop_int()); break;
			case T_FLOAT: res.value = fbits(m.pop_float()); break;
			case T_STRING: res.value = m.pop_str(); break;
			case T_INST: {
				int i = m.pop_inst();
				if (i != NONE && m.objs[i].cls != C) throw RErr {"foreign"};
				res.value = mc::fmt("%d", i);
				break;
			}
			}
		} catch (RErr const& e) {
			res = {true, e.what, ""};
		}
		return OK;
	}

	Result real(Real& v, int rt) {
		Result res;
		try {
			switch (rt) {
			case T_INT: res.value = mc::fmt("%d", v.vm.call_function<int32_t>("MAIN")); break;
			case T_FLOAT: res.value = fbits(v.vm.call_function<float>("MAIN")); break;
			case T_STRING: res.value = v.vm.call_function<std::string>("MAIN"); break;
			case T_INST: res.value = mc::fmt("%d", v.index_of(v.vm.call_function<std::shared_ptr<Obj>>("MAIN"))); break;
			default: v.vm.call_function<void>("MAIN"); break;
			}
		} catch (std::exception const& e) {
			res = {true, e.what(), ""};
		}
		return res;
	}

	/// runs one program in both machines and compares everything observable
	Status lockstep(mc::Run& r, Env const& env, std::vector<Ins> const& body, int rt, uint8_t flags) {
		auto code = env.with(body);
		RVM m(env, code);
		model_instances(m);
		m.flags = flags;
		Result want;
		auto st = model(m, rt, want);
		if (st == ENDLESS || st == OFF) return st;
		Real v(env, code, flags);
		auto got = real(v, rt);
		std::string ctx = show(body);
		MCD_CHECK(got == want, "result",
		      mc::fmt("got %s '%s', expected %s '%s' from ", got.error ? "error" : "value", got.error ? got.why.c_str() : esc(got.value).c_str(),
		              want.error ? "error" : "value", want.error ? want.why.c_str() : esc(want.value).c_str()) +
		          ctx);
		compare_store(v, m, ctx);
		MCD_CHECK(stack_empty(v.vm), "stack", "the stack is not empty after " + ctx);
		MCD_CHECK(v.vm.unsafe_get_gi() == nullptr, "instance", "an instance is still active after " + ctx);
		r.trans(m.steps);
		r.state(mc::hash_str(m.ext_log.empty() ? want.value : m.ext_log.back() + want.value));
		r.outcome(want.error ? "E" + want.why : "V" + want.value);
		return st;
	}

	// ------------------------------------------------------------------------------------------- operators
	std::vector<int32_t> operands(bool quick) {
		std::vector<int32_t> v {0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 15, 16, 31, 32, 33, 63, 64, 127, 128, -128, 255, 256, 1000, -1000, 32767, 32768, -32768, 65535, 65536,
		                        46340, 46341, -46341, 0x00ff00ff, 0x55555555, static_cast<int32_t>(0xaaaaaaaa), 0x40000000, -0x40000000, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1};
		if (!quick)
			for (int b = 0; b < 32; ++b)
				for (int d : {-1, 0, 1}) {
					auto x = static_cast<int32_t>((1u << b) + static_cast<uint32_t>(d));
					for (auto y : {x, static_cast<int32_t>(~static_cast<uint32_t>(x))})
						if (std::find(v.begin(), v.end(), y) == v.end()) v.push_back(y);
				}
		return v;
	}

	void operators(mc::Run& r) {
		Env env;
		auto vals = operands(r.quick());
		std::vector<uint8_t> bin {ADD, SUB, MUL, DIV, MOD, OR, ANDB, LT, GT, LTE, GTE, EQ, NEQ, ORR, AND, LSL, LSR};
		std::vector<uint8_t> un {PLUS, NEGATE, NOT, CMPL};
		std::vector<uint8_t> mov {MOVI, ADDMOVI, SUBMOVI, MULMOVI, DIVMOVI};
		auto twin = [&](mc::Run& r, std::vector<Ins> const& body, auto&& set) {
			// one machine, many operand values: the variables are set from the host before each call
			auto code = env.with(body);
			Real v(env, code);
			for (auto a : vals)
				for (auto b : vals) {
					RVM m(env, code);
					model_instances(m);
					set(v, m, a, b);
					Result want;
					model(m, T_INT, want);
					auto got = real(v, T_INT);
					MCD_CHECK(got == want, "result",
					      mc::fmt("a=%d b=%d: got %s%s, expected %s%s from ", a, b, got.error ? "error " : "", got.error ? got.why.c_str() : got.value.c_str(),
					              want.error ? "error " : "", want.error ? want.why.c_str() : want.value.c_str()) +
					          show(body));
					compare_store(v, m, mc::fmt("a=%d b=%d ", a, b) + show(body));
					MCD_CHECK(stack_empty(v.vm), "stack", "the stack is not empty after " + show(body));
					r.trans(m.steps);
				}
		};
		auto xy = [](Real& v, RVM& m, int32_t a, int32_t b) {
			v.vm.find_symbol_by_index(X)->set_int(a);
			v.vm.find_symbol_by_index(Y)->set_int(b);
			v.vm.find_symbol_by_index(ARR)->set_int(a, 2);
			m.iv[X][0] = a;
			m.iv[Y][0] = b;
			m.iv[ARR][2] = a;
			for (uint32_t k : {0u, 1u}) {
				v.vm.find_symbol_by_index(ARR)->set_int(10 + static_cast<int>(k), static_cast<uint16_t>(k));
				v.vm.find_symbol_by_index(C_ARR)->set_int(b, static_cast<uint16_t>(k), v.o[k].get());
				m.objs[k].arr[k] = b;
			}
		};
		for (auto op : bin) {
			r.run_case("binary operator on variables", [&] { twin(r, {{PUSHV, Y}, {PUSHV, X}, {op}, {RSR}}, xy); },
			           [&] { return std::string(op_name(op)); });
			r.run_case("binary operator on array elements", [&] { twin(r, {{PUSHV, Y}, {PUSHVV, ARR, 2}, {op}, {RSR}}, xy); },
			           [&] { return std::string(op_name(op)); });
			r.run_case("binary operator on members", [&] { twin(r, {{GMOVI, I1}, {PUSHV, X}, {PUSHVV, C_ARR, 1}, {op}, {RSR}}, xy); },
			           [&] { return std::string(op_name(op)); });
			// immediates: a fresh program for every operand pair of a smaller set
			for (auto a : {0, 1, -1, 5, 31, 32, INT_MAX, INT_MIN})
				for (auto b : {0, 1, -1, 3, 31, 32, INT_MAX, INT_MIN})
					r.run_case(
					    "binary operator on immediates",
					    [&] { lockstep(r, env, {{PUSHI, static_cast<uint32_t>(b)}, {PUSHI, static_cast<uint32_t>(a)}, {op}, {RSR}}, T_INT, 0); },
					    [&] { return mc::fmt("%s a=%d b=%d", op_name(op), a, b); });
		}
		for (auto op : un)
			r.run_case("unary operator", [&] { twin(r, {{PUSHV, X}, {op}, {RSR}}, xy); }, [&] { return std::string(op_name(op)); });
		for (auto op : mov) {
			r.run_case("assignment to variable", [&] { twin(r, {{PUSHV, Y}, {PUSHV, X}, {op}, {PUSHV, X}, {RSR}}, xy); },
			           [&] { return std::string(op_name(op)); });
			r.run_case("assignment to array element", [&] { twin(r, {{PUSHV, Y}, {PUSHVV, ARR, 2}, {op}, {PUSHVV, ARR, 2}, {RSR}}, xy); },
			           [&] { return std::string(op_name(op)); });
			r.run_case("assignment to member", [&] { twin(r, {{GMOVI, I0}, {PUSHV, X}, {PUSHVV, C_ARR, 0}, {op}, {GMOVI, I1}, {PUSHVV, C_ARR, 1}, {RSR}}, xy); },
			           [&] { return std::string(op_name(op)); });
		}
		// floats: every interesting bit pattern through every kind of target
		std::vector<uint32_t> fb {0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00001, 0x00000001, 0x7f7fffff, 0x42280000, 0x00800000};
		for (auto b : fb)
			for (auto& t : {Ins {PUSHV, FL}, Ins {PUSHVV, FA, 0}, Ins {PUSHVV, FA, 1}, Ins {PUSHV, C_F}, Ins {PUSHV, KF}, Ins {PUSHVV, FA, 2}, Ins {PUSHV, X}})
				for (uint8_t flags : {0, 2, 4, 6})
					for (int g : {0, 1})
						r.run_case(
						    "float assignment",
						    [&] {
							    std::vector<Ins> body;
							    if (g) body.push_back({GMOVI, I1});
							    for (auto& i : {Ins {PUSHI, b}, t, Ins {MOVF}, t, Ins {RSR}}) body.push_back(i);
							    env.set_return(T_FLOAT);
							    lockstep(r, env, body, T_FLOAT, flags);
							    env.set_return(T_INT);
						    },
						    [&] { return mc::fmt("%08x to %u[%u] flags %u instance %d", b, t.arg, t.idx, flags, g); });
	}

	/// every operand source x assignment kind x target x machine flags
	void targets(mc::Run& r) {
		Env env;
		std::vector<Ins> refs;
		for (uint32_t s : {X, ARR, K, KA, FL, FA, ST, SA, KS, KF, FV, C_A, C_ARR, C_F, C_S, C_SS, C_FN, D_O, G, I0, I1, J0, C, F1, VOIDX, E_SUB, MAIN}) {
			refs.push_back({PUSHV, s});
			for (uint8_t i : {0, 1, 2, 3, 255}) refs.push_back({PUSHVV, s, i});
		}
		refs.push_back({PUSHVI, I1});
		refs.push_back({PUSHV, 9999});
		refs.push_back({PUSHVV, 9999, 0});
		refs.push_back({PUSHVI, 9999});
		std::vector<Ins> srcs {{PUSHI, 41}, {PUSHV, Y}, {PUSHV, FL}, {PUSHV, ST}, {PUSHV, I1}, {PUSHVI, J0}, {PUSHV, G}, {PUSHV, C_A}, {PUSHV, C_S}, {NOP}};
		for (auto op : {MOVI, MOVVF, MOVF, MOVS, MOVSS, MOVVI, ADDMOVI, DIVMOVI, SUBMOVI, MULMOVI})
			for (auto& t : refs)
				for (auto& s : srcs)
					for (uint32_t g : {UINT_MAX, uint32_t(I0), uint32_t(J0)})
						for (uint8_t flags : {0, 2, 4, 6})
							r.run_case(
							    "assignment matrix",
							    [&] {
								    std::vector<Ins> body;
								    if (g != UINT_MAX) body.push_back({GMOVI, g});
								    body.push_back(s);
								    body.push_back(t);
								    body.push_back({uint8_t(op)});
								    body.push_back({PUSHI, 1});
								    body.push_back({RSR});
								    lockstep(r, env, body, T_INT, flags);
							    },
							    [&] { return mc::fmt("%s target %u[%u] source %u instance %d flags %u", op_name(op), t.arg, t.idx, s.arg, int(g), flags); });
	}

	// ------------------------------------------------------------------------------------------- programs
	void dfs(mc::Run& r, char const* fam, Env& env, std::vector<Ins> const& alpha, std::vector<Ins>& body, int rt, uint8_t flags, int depth) {
		for (auto& i : alpha) {
			body.push_back(i);
			auto full = body;
			full.push_back({RSR});
			// the reference run decides (cheaply, in every shard) whether longer programs can differ from this one
			RVM m(env, env.with(full));
			model_instances(m);
			m.flags = flags;
			Result res;
			auto st = model(m, rt, res);
			r.run_case(fam, [&] { lockstep(r, env, full, rt, flags); }, [&] { return show(full); });
			if (st == OK && depth > 1) dfs(r, fam, env, alpha, body, rt, flags, depth - 1);
			body.pop_back();
		}
	}

	void programs(mc::Run& r) {
		Env env;
		std::vector<Ins> body;
		std::vector<Ins> ints {{PUSHI, uint32_t(-1)}, {PUSHI, 2},       {PUSHV, X},       {PUSHV, K},      {PUSHVV, ARR, 1}, {PUSHVV, ARR, 3}, {ADD},          {SUB},
		                       {DIV},                 {LT},             {NOT},            {MOVI},          {ADDMOVI},        {SUBMOVI},        {BL, env.addr(F1)}, {BL, env.addr(SUB2)},
		                       {BL, env.addr(VOIDX)}, {BL, env.addr(LEAK)}, {BL, env.addr(NORET)}, {BE, E_SUB}, {BE, E_SET}};
		dfs(r, "integer programs", env, ints, body, T_INT, 0, r.tier(4, 5));

		std::vector<Ins> mem {{GMOVI, I0}, {GMOVI, I1}, {GMOVI, J0}, {GMOVI, G}, {PUSHV, C_A}, {PUSHVV, C_ARR, 1}, {PUSHI, 9}, {MOVI}, {ADDMOVI}, {PUSHV, G},
		                      {PUSHVI, I1}, {MOVVI}, {PUSHV, D_O}, {BL, env.addr(FINST)}, {ADD}};
		dfs(r, "instance programs", env, mem, body, T_INT, 0, r.tier(5, 6));
		dfs(r, "instance programs, null access allowed", env, mem, body, T_INT, DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS, r.tier(4, 5));

		std::vector<Ins> str {{PUSHV, ST}, {PUSHVV, SA, 1}, {PUSHV, KS}, {PUSHV, C_S}, {PUSHVV, C_SS, 1}, {GMOVI, I0}, {GMOVI, I1}, {MOVS}, {BE, E_CAT}, {BL, env.addr(FSTR)}, {PUSHVV, SA, 2}};
		env.set_return(T_STRING);
		dfs(r, "string programs", env, str, body, T_STRING, 0, r.tier(5, 7));
		env.set_return(T_FLOAT);
		std::vector<Ins> mix {{PUSHI, 4}, {PUSHI, 0x40000000}, {PUSHV, FL}, {PUSHV, ST}, {PUSHVI, I1}, {PUSHV, G}, {PUSHVI, J0}, {BE, E_MIX}, {BL, env.addr(FLTF)}, {MOVF}, {BL, env.addr(FINST)}, {PUSHVV, FA, 1}};
		dfs(r, "mixed argument programs", env, mix, body, T_FLOAT, 0, r.tier(5, 6));
		env.set_return(T_INST);
		std::vector<Ins> in {{PUSHVI, I0}, {PUSHV, G}, {PUSHVI, J0}, {PUSHV, SELF}, {MOVVI}, {BL, env.addr(FINST)}, {GMOVI, I1}, {PUSHI, 1}};
		dfs(r, "instance valued programs", env, in, body, T_INST, 0, r.tier(5, 6));
		env.set_return(-1);
		std::vector<Ins> vo {{PUSHI, 1}, {PUSHV, X}, {PUSHV, ST}, {MOVI}, {MOVS}, {BE, E_SET}, {BE, E_CAT}, {BL, env.addr(LEAK)}, {ADDMOVI}, {NOP}};
		dfs(r, "void programs", env, vo, body, T_VOID, 0, r.tier(5, 6));
		env.set_return(T_INT);
	}

	/// programs with jumps: every instruction boundary (and addresses outside) is a target of every branch
	void jumps(mc::Run& r) {
		Env env;
		int n = r.tier(4, 5);
		// each slot is a short macro; `t` placeholders become addresses
		struct Slot {
			std::vector<Ins> ins;
			int target = -1;
		};
		std::vector<Slot> slots {
		    {{{PUSHI, 1}, {PUSHV, X}, {ADDMOVI}}, -1},
		    {{{PUSHI, 0}}, -1},
		    {{{PUSHV, X}}, -1},
		    {{{PUSHI, 6}, {PUSHV, X}, {LT}}, -1},
		    {{{BL, env.addr(VOIDX)}}, -1},
		};
		for (int len = 1; len <= n; ++len) {
			auto alpha = slots;
			for (int t = 0; t <= len + 1; ++t) {
				alpha.push_back({{{B, 0}}, t});
				alpha.push_back({{{BZ, 0}}, t});
			}
			tuples(len, int(alpha.size()), [&](std::vector<int> const& ix) {
				std::vector<uint32_t> start;
				uint32_t at = env.main;
				bool any = false;
				for (size_t i : ix) {
					start.push_back(at);
					for (auto& k : alpha[i].ins) at += ins_size(k);
					any |= alpha[i].target >= 0;
				}
				if (!any) return;
				start.push_back(at);     // the final RSR
				start.push_back(at + 1); // behind the code: illegal
				std::vector<Ins> body;
				for (size_t i : ix)
					for (auto k : alpha[i].ins) {
						if (alpha[i].target >= 0) k.arg = start[static_cast<size_t>(alpha[i].target)];
						body.push_back(k);
					}
				body.push_back({RSR});
				r.run_case(
				    "jump programs",
				    [&] {
					    auto st = lockstep(r, env, body, T_INT, 0);
					    ++r.counters[st == ENDLESS ? "endless programs (skipped)" : st == OFF ? "fell off" : "terminating"];
				    },
				    [&] { return show(body); });
			});
		}
	}

	/// a program which runs off the end of the code, or whose last instruction is cut short, ends in an error
	void code_end(mc::Run& r) {
		Env env;
		for (auto& last : {Ins {NOP}, Ins {PUSHI, 5}, Ins {PUSHV, X}, Ins {PUSHVV, ARR, 1}, Ins {BE, E_SUB}, Ins {B, 0}, Ins {200}})
			for (uint32_t cut = 0; cut <= ins_size(last); ++cut)
				r.run_case(
				    "end of code",
				    [&] {
					    auto code = env.with({last});
					    code.resize(code.size() - cut);
					    if (last.op == B && cut == 0) return;
					    Real v(env, code);
					    std::string what = "value";
					    try {
						    what += mc::fmt(" %d", v.vm.call_function<int32_t>("MAIN"));
					    } catch (std::exception const&) { what = "error"; }
					    MCD_CHECK(what == "error", "code-end", "running off the end of the code gave " + what);
					    MCD_CHECK(stack_empty(v.vm), "stack", "the stack is not empty after running off the end");
					    r.outcome(what);
				    },
				    [&] { return mc::fmt("last %s cut %u", op_name(last.op), cut); });
	}

	/// access traps: the callback decides what is pushed instead of the variable
	void traps(mc::Run& r) {
		Env env;
		for (int trap : {0, 1})
			for (int flag : {0, 1})
				for (uint32_t s : {X, Y, K})
					r.run_case(
					    "access trap",
					    [&] {
						    auto code = env.with({{PUSHV, Y}, {PUSHV, s}, {SUB}, {RSR}});
						    Real v(env, code);
						    std::vector<std::string> seen;
						    if (trap)
							    v.vm.register_access_trap([&](DaedalusSymbol& y) {
								    seen.push_back(y.name());
								    v.vm.push_int(1000);
							    });
						    v.vm.find_symbol_by_index(X)->set_access_trap_enable(flag);
						    v.vm.find_symbol_by_index(K)->set_access_trap_enable(flag);
						    bool hit = trap && flag && s != Y;
						    int want = (hit ? 1000 : s == X ? 3 : s == Y ? -4 : 77) + 4;
						    int got = v.vm.call_function<int32_t>("MAIN");
						    MCD_CHECK(got == want, "trap", mc::fmt("got %d, expected %d", got, want));
						    MCD_CHECK(seen == (hit ? std::vector<std::string> {env.syms[s].name} : std::vector<std::string> {}), "trap-calls", "the access trap was called for the wrong symbols");
						    v.vm.find_symbol_by_index(X)->set_access_trap_enable(false);
						    v.vm.find_symbol_by_index(K)->set_access_trap_enable(false);
						    got = v.vm.call_function<int32_t>("MAIN");
						    MCD_CHECK(got == (s == X ? 7 : s == Y ? 0 : 81), "trap-off", "a disabled trap still has an effect");
					    },
					    [&] { return mc::fmt("callback %d flag %d symbol %u", trap, flag, s); });
	}

	void explore(mc::Run& r) {
		quiet_log();
		operators(r);
		targets(r);
		traps(r);
		code_end(r);
		jumps(r);
		programs(r);
	}
} // namespace
MC_MAIN(explore)
