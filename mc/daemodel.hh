// Independent encoder for compiled Daedalus scripts, an assembler, a fixed test program environment and a reference
// interpreter which the real virtual machine is compared with (P17, P18).
#pragma once
#include "common.hh"
#include "zenkit/DaedalusScript.hh"
#include "zenkit/DaedalusVm.hh"

#include <climits>
#include <optional>

namespace mcd {
	using namespace mcz;
	using namespace zenkit;

	enum Ty : uint32_t { T_VOID = 0, T_FLOAT, T_INT, T_STRING, T_CLASS, T_FUNC, T_PROTO, T_INST };
	enum Fl : uint32_t { F_CONST = 1, F_RETURN = 2, F_MEMBER = 4, F_EXTERNAL = 8, F_MERGED = 16 };
	enum Op : uint8_t {
		ADD = 0, SUB = 1, MUL = 2, DIV = 3, MOD = 4, OR = 5, ANDB = 6, LT = 7, GT = 8, MOVI = 9, ORR = 11, AND = 12,
		LSL = 13, LSR = 14, LTE = 15, EQ = 16, NEQ = 17, GTE = 18, ADDMOVI = 19, SUBMOVI = 20, MULMOVI = 21, DIVMOVI = 22,
		PLUS = 30, NEGATE = 31, NOT = 32, CMPL = 33, NOP = 45, RSR = 60, BL = 61, BE = 62, PUSHI = 64, PUSHV = 65,
		PUSHVI = 67, MOVS = 70, MOVSS = 71, MOVVF = 72, MOVF = 73, MOVVI = 74, B = 75, BZ = 76, GMOVI = 80, PUSHVV = 245
	};

	struct Sym {
		std::string name;
		uint32_t type = T_INT, count = 1, flags = 0;
		uint32_t vary = 0;
		std::vector<int32_t> ints;
		std::vector<float> floats;
		std::vector<std::string> strs;
		int32_t addr = -1;
		int32_t parent = -1;
		uint32_t file = 0, ls = 0, lc = 0, cs = 0, cc = 0;
		bool named = true;
	};

	inline void encode_sym(Out& o, Sym const& s) {
		o.u32(s.named ? 1 : 0);
		if (s.named) o.line(s.name);
		o.u32(s.vary);
		o.u32((s.count & 0xfff) | s.type << 12 | s.flags << 16);
		o.u32(s.file).u32(s.ls).u32(s.lc).u32(s.cs).u32(s.cc);
		if (!(s.flags & F_MEMBER)) {
			switch (s.type) {
			case T_FLOAT:
				for (uint32_t i = 0; i < s.count; ++i) o.f32(i < s.floats.size() ? s.floats[i] : 0.f);
				break;
			case T_INT:
				for (uint32_t i = 0; i < s.count; ++i) o.u32(static_cast<uint32_t>(i < s.ints.size() ? s.ints[i] : 0));
				break;
			case T_STRING:
				for (uint32_t i = 0; i < s.count; ++i) o.line(i < s.strs.size() ? s.strs[i] : "");
				break;
			case T_CLASS:
			case T_FUNC:
			case T_PROTO:
			case T_INST:
				o.u32(static_cast<uint32_t>(s.addr));
				break;
			default:
				break;
			}
		}
		o.u32(static_cast<uint32_t>(s.parent));
	}

	inline std::string encode(std::vector<Sym> const& syms, std::string const& code, uint32_t version = 50) {
		Out o;
		o.u8(version).u32(static_cast<uint32_t>(syms.size()));
		std::vector<uint32_t> order(syms.size());
		for (uint32_t i = 0; i < order.size(); ++i) order[i] = i;
		std::stable_sort(order.begin(), order.end(), [&](uint32_t a, uint32_t b) { return syms[a].name < syms[b].name; });
		for (auto i : order) o.u32(i);
		for (auto& s : syms) encode_sym(o, s);
		o.u32(static_cast<uint32_t>(code.size())).str(code);
		return o.s;
	}

	inline DaedalusScript load(std::vector<Sym> const& syms, std::string const& code) {
		auto b = encode(syms, code);
		auto r = rd(b);
		DaedalusScript s;
		s.load(r.get());
		return s;
	}

	struct Ins {
		uint8_t op = NOP;
		uint32_t arg = 0;
		uint8_t idx = 0;
	};
	inline bool has_arg(uint8_t op) {
		switch (op) {
		case BL: case BE: case PUSHI: case PUSHV: case PUSHVI: case B: case BZ: case GMOVI: case PUSHVV: return true;
		default: return false;
		}
	}
	inline uint32_t ins_size(Ins const& i) {
		return i.op == PUSHVV ? 6 : has_arg(i.op) ? 5 : 1;
	}
	inline void emit(Out& o, Ins const& i) {
		o.u8(i.op);
		if (has_arg(i.op)) o.u32(i.arg);
		if (i.op == PUSHVV) o.u8(i.idx);
	}
	inline char const* op_name(uint8_t op) {
		switch (op) {
#define X(n) case n: return #n;
			X(ADD) X(SUB) X(MUL) X(DIV) X(MOD) X(OR) X(ANDB) X(LT) X(GT) X(MOVI) X(ORR) X(AND) X(LSL) X(LSR) X(LTE) X(EQ)
			X(NEQ) X(GTE) X(ADDMOVI) X(SUBMOVI) X(MULMOVI) X(DIVMOVI) X(PLUS) X(NEGATE) X(NOT) X(CMPL) X(NOP) X(RSR)
			X(BL) X(BE) X(PUSHI) X(PUSHV) X(PUSHVI) X(MOVS) X(MOVSS) X(MOVVF) X(MOVF) X(MOVVI) X(B) X(BZ) X(GMOVI) X(PUSHVV)
#undef X
		}
		return "?";
	}
	inline std::string show(std::vector<Ins> const& p) {
		std::string s;
		for (auto& i : p) {
			s += op_name(i.op);
			if (has_arg(i.op)) s += mc::fmt(" %d", static_cast<int>(i.arg));
			if (i.op == PUSHVV) s += mc::fmt("[%u]", i.idx);
			s += "; ";
		}
		return s;
	}

	// ---------------------------------------------------------------- host instances
	struct Obj : DaedalusInstance {
		int32_t a = 0;
		int32_t arr[3] = {};
		float f = 0;
		std::string s;
		std::string ss[2];
		int32_t fn = 0;
		uint32_t canary = 0xC0FFEE;
	};
	struct Other : DaedalusInstance {
		int32_t o = 0;
		uint32_t canary = 0xC0FFEE;
	};

	// ---------------------------------------------------------------- the fixed environment
	enum S : uint32_t {
		C, C_A, C_ARR, C_F, C_S, C_SS, C_FN, D, D_O, I0, I1, J0, G, SELF, X, Y, ARR, K, KA, FL, FA, ST, SA, FV, KS, KF,
		F1, F1_P, SUB2, SUB2_A, SUB2_B, VOIDX, LEAK, NORET, FSTR, FINST, E_SUB, E_SUB_A, E_SUB_B, E_CAT, E_CAT_A, E_CAT_B,
		E_MIX, E_MIX_A, E_MIX_B, E_MIX_C, E_MIX_D, E_SET, E_SET_A, FLTF, E_FAIL, E_FAILV, E_FAILV_A, E_FAILS, E_FAILS_A, MAIN, NSYM
	};

	struct Env {
		std::vector<Sym> syms {NSYM};
		std::string code; // helpers only, the main program is appended at `main`
		uint32_t main = 0;

		uint32_t func(S s, char const* name, uint32_t params, int rt, std::vector<Ins> const& body) {
			auto addr = static_cast<uint32_t>(code.size());
			syms[s] = {name, T_FUNC, params, F_CONST | (rt >= 0 ? F_RETURN : 0u), rt >= 0 ? static_cast<uint32_t>(rt) : 0u};
			syms[s].addr = static_cast<int32_t>(addr);
			Out o;
			for (auto& i : body) emit(o, i);
			code += o.s;
			return addr;
		}
		void ext(S s, char const* name, uint32_t params, int rt) {
			syms[s] = {name, T_FUNC, params, F_CONST | F_EXTERNAL | (rt >= 0 ? F_RETURN : 0u), rt >= 0 ? static_cast<uint32_t>(rt) : 0u};
		}
		void var(S s, char const* name, uint32_t type, uint32_t count = 1, uint32_t flags = 0, int parent = -1) {
			syms[s] = {name, type, count, flags};
			syms[s].parent = parent;
		}

		Env() {
			code = std::string(1, char(RSR)); // address 0: instance bodies
			syms[C] = {"C", T_CLASS, 6, 0, 60};
			syms[C].addr = 0;
			var(C_A, "C.A", T_INT, 1, F_MEMBER, C);
			var(C_ARR, "C.ARR", T_INT, 3, F_MEMBER, C);
			var(C_F, "C.F", T_FLOAT, 1, F_MEMBER, C);
			var(C_S, "C.S", T_STRING, 1, F_MEMBER, C);
			var(C_SS, "C.SS", T_STRING, 2, F_MEMBER, C);
			var(C_FN, "C.FN", T_FUNC, 1, F_MEMBER, C);
			syms[D] = {"D", T_CLASS, 1, 0, 4};
			syms[D].addr = 0;
			var(D_O, "D.O", T_INT, 1, F_MEMBER, D);
			for (auto [s, n, p] : {std::tuple {I0, "I0", C}, {I1, "I1", C}, {J0, "J0", D}}) {
				var(s, n, T_INST, 0, F_CONST, p);
				syms[s].addr = 0;
			}
			var(G, "G", T_INST, 1, 0, C);
			var(SELF, "SELF", T_INST, 1, 0, C);
			var(X, "X", T_INT);
			syms[X].ints = {3};
			var(Y, "Y", T_INT);
			syms[Y].ints = {-4};
			var(ARR, "ARR", T_INT, 3);
			syms[ARR].ints = {10, 11, 12};
			var(K, "K", T_INT, 1, F_CONST);
			syms[K].ints = {77};
			var(KA, "KA", T_INT, 2, F_CONST);
			syms[KA].ints = {5, 6};
			var(FL, "FL", T_FLOAT);
			syms[FL].floats = {1.5f};
			var(FA, "FA", T_FLOAT, 2);
			syms[FA].floats = {-2.25f, 4.f};
			var(ST, "ST", T_STRING);
			syms[ST].strs = {"st"};
			var(SA, "SA", T_STRING, 2);
			syms[SA].strs = {"sa0", "sa1"};
			var(FV, "FV", T_FUNC, 1, 0);
			var(KS, "KS", T_STRING, 1, F_CONST);
			syms[KS].strs = {"a constant which is longer than sso"};
			var(KF, "KF", T_FLOAT, 1, F_CONST);
			syms[KF].floats = {0.5f};

			var(F1_P, "F1.P", T_INT);
			func(F1, "F1", 1, T_INT, {{PUSHV, F1_P}, {MOVI}, {PUSHI, 10}, {PUSHV, F1_P}, {ADD}, {RSR}});
			var(SUB2_A, "SUB2.A", T_INT);
			var(SUB2_B, "SUB2.B", T_INT);
			func(SUB2, "SUB2", 2, T_INT, {{PUSHV, SUB2_B}, {MOVI}, {PUSHV, SUB2_A}, {MOVI}, {PUSHV, SUB2_B}, {PUSHV, SUB2_A}, {SUB}, {RSR}});
			func(VOIDX, "VOIDX", 0, -1, {{PUSHI, 1}, {PUSHV, X}, {ADDMOVI}, {RSR}});
			func(LEAK, "LEAK", 0, T_INT, {{PUSHI, 7}, {PUSHI, 8}, {PUSHI, 9}, {RSR}});
			func(NORET, "NORET", 0, T_INT, {{RSR}});
			func(FSTR, "FSTR", 0, T_STRING, {{PUSHV, KS}, {RSR}});
			func(FINST, "FINST", 0, T_INST, {{GMOVI, I1}, {PUSHVI, I1}, {RSR}});
			func(FLTF, "FLTF", 0, T_FLOAT, {{PUSHI, 0x40490fdb}, {RSR}});
			ext(E_SUB, "E_SUB", 2, T_INT);
			var(E_SUB_A, "E_SUB.PAR0", T_INT);
			var(E_SUB_B, "E_SUB.PAR1", T_INT);
			ext(E_CAT, "E_CAT", 2, T_STRING);
			var(E_CAT_A, "E_CAT.PAR0", T_STRING);
			var(E_CAT_B, "E_CAT.PAR1", T_STRING);
			ext(E_MIX, "E_MIX", 4, T_FLOAT);
			var(E_MIX_A, "E_MIX.PAR0", T_INT);
			var(E_MIX_B, "E_MIX.PAR1", T_FLOAT);
			var(E_MIX_C, "E_MIX.PAR2", T_STRING);
			var(E_MIX_D, "E_MIX.PAR3", T_INST, 1, 0, C);
			ext(E_SET, "E_SET", 1, -1);
			var(E_SET_A, "E_SET.PAR0", T_INT);
			ext(E_FAIL, "E_FAIL", 0, T_INT);
			ext(E_FAILV, "E_FAILV", 1, -1);
			var(E_FAILV_A, "E_FAILV.PAR0", T_INT);
			ext(E_FAILS, "E_FAILS", 1, T_STRING);
			var(E_FAILS_A, "E_FAILS.PAR0", T_STRING);
			main = static_cast<uint32_t>(code.size());
			syms[MAIN] = {"MAIN", T_FUNC, 0, F_CONST | F_RETURN, T_INT};
			syms[MAIN].addr = static_cast<int32_t>(main);
		}
		mutable std::string table; // encoded symbol table
		std::string file(std::string const& code) const {
			if (table.empty()) table = encode(syms, "");
			Out o;
			o.s = table.substr(0, table.size() - 4);
			o.u32(static_cast<uint32_t>(code.size())).str(code);
			return o.s;
		}
		void set_return(int rt) {
			table.clear();
			syms[MAIN].flags = F_CONST | (rt >= 0 ? F_RETURN : 0u);
			syms[MAIN].vary = rt >= 0 ? static_cast<uint32_t>(rt) : 0;
		}
		uint32_t addr(S s) const {
			return static_cast<uint32_t>(syms[s].addr);
		}
		std::string with(std::vector<Ins> const& body) const {
			Out o;
			for (auto& i : body) emit(o, i);
			return code + o.s;
		}
	};

	// ---------------------------------------------------------------- reference interpreter
	struct RErr {
		std::string what;
	};
	struct RSteps {};

	/// what a model instance holds
	struct RObj {
		int cls = C;
		int32_t a = 0;
		int32_t arr[3] = {};
		float f = 0;
		std::string s, ss[2];
		int32_t fn = 0;
		int32_t o = 0;
		bool operator==(RObj const& x) const {
			return a == x.a && std::equal(arr, arr + 3, x.arr) && memcmp(&f, &x.f, 4) == 0 && s == x.s && ss[0] == x.ss[0] && ss[1] == x.ss[1] &&
			    fn == x.fn && o == x.o;
		}
	};
	enum { NONE = -1 };

	struct Val {
		enum K { INT, FLT, REF, INST, STR } k = INT;
		int32_t i = 0;
		float f = 0;
		uint32_t sym = 0;
		uint32_t idx = 0;
		int ctx = NONE; // REF: context instance; INST: the instance
		std::string s;  // STR: temporary string
	};

	/// up to three elements per symbol, stored flat so that machines are cheap to create
	template <typename T>
	struct Flat {
		std::array<T, NSYM * 3> v {};
		T* operator[](uint32_t s) {
			return &v[s * 3];
		}
	};
	struct FlatStr {
		std::array<std::string, 11> v;
		std::string* operator[](uint32_t s) {
			switch (s) {
			case ST: return &v[0];
			case SA: return &v[1];
			case KS: return &v[3];
			case E_CAT_A: return &v[4];
			case E_CAT_B: return &v[5];
			case E_MIX_C: return &v[6];
			case E_FAILS_A: return &v[7];
			}
			return &v[8];
		}
	};

	struct RVM {
		Env const& env;
		std::string code;
		Flat<int32_t> iv;
		Flat<float> fv;
		FlatStr sv;
		std::array<int, NSYM> inst; // instance held by an instance symbol
		std::vector<RObj> objs;
		std::vector<Val> st;
		int cur = NONE;
		uint8_t flags = 0;
		uint64_t steps = 0, max_steps = 400;
		int depth = 0;
		std::vector<std::string> ext_log;
		enum Mode { NO_HANDLER, FAIL_ALL, CONTINUE_CALLS, RETURN_ALL } mode = NO_HANDLER;
		bool fell_off = false; // execution reached the end of main without RSR

		RVM(Env const& e, std::string c) : env(e), code(std::move(c)) {
			inst.fill(NONE);
			st.reserve(16);
			for (uint32_t i = 0; i < NSYM; ++i) {
				auto& s = e.syms[i];
				if (s.flags & F_MEMBER) continue;
				std::copy(s.ints.begin(), s.ints.end(), iv[i]);
				std::copy(s.floats.begin(), s.floats.end(), fv[i]);
				std::copy(s.strs.begin(), s.strs.end(), sv[i]);
			}
		}

		int32_t& int_at(uint32_t s, uint32_t i, int ctx) {
			auto& y = env.syms[s];
			if (y.type != T_INT && y.type != T_FUNC) throw RErr {"type"};
			if (i >= y.count) throw RErr {"index"};
			if (y.flags & F_MEMBER) {
				if (ctx == NONE) throw RErr {"context"};
				auto& o = objs[ctx];
				if (o.cls != y.parent) throw RErr {"foreign"};
				switch (s) {
				case C_A: return o.a;
				case C_ARR: return o.arr[i];
				case C_FN: return o.fn;
				case D_O: return o.o;
				}
			}
			if (y.type == T_FUNC && (y.flags & F_CONST)) throw RErr {"type"};
			return iv[s][i];
		}
		float& flt_at(uint32_t s, uint32_t i, int ctx) {
			auto& y = env.syms[s];
			if (y.type != T_FLOAT) throw RErr {"type"};
			if (i >= y.count) throw RErr {"index"};
			if (y.flags & F_MEMBER) {
				if (ctx == NONE) throw RErr {"context"};
				if (objs[ctx].cls != y.parent) throw RErr {"foreign"};
				return objs[ctx].f;
			}
			return fv[s][i];
		}
		std::string& str_at(uint32_t s, uint32_t i, int ctx) {
			auto& y = env.syms[s];
			if (y.type != T_STRING) throw RErr {"type"};
			if (i >= y.count) throw RErr {"index"};
			if (y.flags & F_MEMBER) {
				if (ctx == NONE) throw RErr {"context"};
				if (objs[ctx].cls != y.parent) throw RErr {"foreign"};
				return s == C_S ? objs[ctx].s : objs[ctx].ss[i];
			}
			return sv[s][i];
		}
		int& inst_at(uint32_t s) {
			if (env.syms[s].type != T_INST) throw RErr {"type"};
			return inst[s];
		}

		Val pop() {
			Val v = st.back();
			st.pop_back();
			return v;
		}
		bool null_member(Val const& v) const {
			return (env.syms[v.sym].flags & F_MEMBER) && v.ctx == NONE;
		}
		bool lax() const {
			return flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS;
		}
		int32_t pop_int() {
			if (st.empty()) return 0;
			Val v = pop();
			if (v.k == Val::STR) throw RErr {"type"};
			if (v.k == Val::REF) {
				if (null_member(v) && lax()) return 0;
				return int_at(v.sym, v.idx, v.ctx);
			}
			if (v.k == Val::INT) return v.i;
			throw RErr {"pop_int"};
		}
		float pop_float() {
			if (st.empty()) return 0;
			Val v = pop();
			if (v.k == Val::STR) throw RErr {"type"};
			if (v.k == Val::REF) {
				if (null_member(v) && lax()) return 0;
				return flt_at(v.sym, v.idx, v.ctx);
			}
			if (v.k == Val::FLT) return v.f;
			if (v.k == Val::INT) {
				float f;
				memcpy(&f, &v.i, 4);
				return f;
			}
			throw RErr {"pop_float"};
		}
		Val pop_ref() {
			if (st.empty()) throw RErr {"empty"};
			Val v = pop();
			if (v.k != Val::REF && v.k != Val::STR) throw RErr {"pop_ref"};
			return v;
		}
		std::string pop_str() {
			Val v = pop_ref();
			if (v.k == Val::STR) return v.s;
			if (null_member(v) && lax()) return "";
			return str_at(v.sym, v.idx, v.ctx);
		}
		int pop_inst() {
			if (st.empty()) throw RErr {"empty"};
			Val v = pop();
			if (v.k == Val::STR) throw RErr {"type"};
			if (v.k == Val::REF) return inst_at(v.sym);
			if (v.k == Val::INST) return v.ctx;
			throw RErr {"pop_inst"};
		}
		void push(Val v) {
			if (st.size() >= 2048) throw RErr {"stack overflow"};
			st.push_back(std::move(v));
		}
		void pushi(int32_t i) {
			push({Val::INT, i});
		}
		void pushf(float f) {
			Val v;
			v.k = Val::FLT;
			v.f = f;
			push(v);
		}
		void pushs(std::string s) {
			Val v;
			v.k = Val::STR;
			v.s = std::move(s);
			push(v);
		}
		void pushinst(int o) {
			Val v;
			v.k = Val::INST;
			v.ctx = o;
			push(v);
		}
		void push_default(uint32_t t) {
			switch (t) {
			case T_FLOAT: pushf(0); break;
			case T_INT:
			case T_FUNC: pushi(0); break;
			case T_STRING: pushs(""); break;
			case T_INST: pushinst(NONE); break;
			}
		}
		/// what the stack looks like after a call whose arguments start at `base`
		void settle(uint32_t fn, size_t base) {
			auto& f = env.syms[fn];
			if (!(f.flags & F_RETURN)) {
				st.resize(std::max(base, st.size()));
				while (st.size() > base) st.pop_back();
			} else if (st.size() <= base) {
				while (st.size() < base) pushi(0);
				push_default(f.vary);
			} else {
				Val v = pop();
				st.resize(base);
				push(v);
			}
		}

		void external(uint32_t s) {
			size_t base = st.size() - std::min<size_t>(st.size(), env.syms[s].count);
			int saved = cur;
			switch (s) {
			case E_SUB: {
				auto b = pop_int(), a = pop_int();
				ext_log.push_back(mc::fmt("E_SUB %d %d", a, b));
				pushi(static_cast<int32_t>(static_cast<uint32_t>(a) - static_cast<uint32_t>(b)));
				break;
			}
			case E_CAT: {
				auto b = pop_str(), a = pop_str();
				ext_log.push_back("E_CAT " + a + "," + b);
				pushs(a + "+" + b);
				break;
			}
			case E_MIX: {
				auto d = pop_inst();
				if (d != NONE && objs[d].cls != C) throw RErr {"foreign"};
				auto c = pop_str();
				auto b = pop_float();
				auto a = pop_int();
				ext_log.push_back(mc::fmt("E_MIX %d %a %s %d", a, b, c.c_str(), d));
				pushf(b * 2);
				break;
			}
			case E_SET: {
				auto a = pop_int();
				ext_log.push_back(mc::fmt("E_SET %d", a));
				iv[Y][0] = a;
				break;
			}
			case E_FAIL:
				throw RErr {"failing external"};
			case E_FAILV:
				(void) pop_int();
				throw RErr {"failing external"};
			case E_FAILS:
				(void) pop_str();
				throw RErr {"failing external"};
			default:
				throw RErr {"unregistered external"};
			}
			settle(s, base);
			cur = saved;
		}

		void call(uint32_t fn, uint32_t address) {
			size_t base = st.size() - std::min<size_t>(st.size(), env.syms[fn].count);
			int saved = cur;
			if (depth >= 2048) throw RErr {"call depth"};
			++depth;
			try {
				run(address);
			} catch (RErr const&) {
				--depth;
				cur = saved;
				throw;
			}
			--depth;
			settle(fn, base);
			cur = saved;
		}

		/// a call made by the script: if it fails, it is as if it had not happened, except for a default result
		template <typename F>
		void guarded(uint32_t fn, F&& f) {
			size_t base = st.size() - std::min<size_t>(st.size(), env.syms[fn].count);
			try {
				f();
			} catch (RErr const&) {
				while (st.size() > base) st.pop_back();
				while (st.size() < base) st.push_back({});
				if (env.syms[fn].type == T_FUNC && st.size() < 2048) push_default(env.syms[fn].vary);
				throw;
			}
		}

		std::optional<uint32_t> by_address(uint32_t a) const {
			std::optional<uint32_t> r;
			for (uint32_t i = 0; i < NSYM; ++i) {
				auto& s = env.syms[i];
				if (s.type == T_PROTO || s.type == T_INST || (s.type == T_FUNC && (s.flags & F_CONST) && !(s.flags & F_MEMBER)))
					if (static_cast<uint32_t>(s.addr) == a) r = i;
			}
			return r;
		}

		void run(uint32_t pc) {
			auto u32 = [&](uint32_t p) {
				if (p + 4 > code.size()) throw RErr {"code end"};
				uint32_t v;
				memcpy(&v, code.data() + p, 4);
				return v;
			};
			for (;;) {
				if (++steps > max_steps) throw RSteps {};
				if (pc >= code.size()) {
					fell_off = true;
					throw RErr {"code end"};
				}
				auto op = static_cast<uint8_t>(code[pc]);
				uint32_t arg = has_arg(op) ? u32(pc + 1) : 0;
				uint32_t next = pc + (op == PUSHVV ? 6 : has_arg(op) ? 5 : 1);
				using U = uint32_t;
				auto I = [](uint32_t u) { return static_cast<int32_t>(u); };
				int32_t a, b;
				try {
				switch (op) {
#define BIN(OPC, EXPR) case OPC: a = pop_int(); b = pop_int(); pushi(EXPR); break;
					BIN(ADD, I(U(a) + U(b)))
					BIN(SUB, I(U(a) - U(b)))
					BIN(MUL, I(U(a) * U(b)))
					BIN(OR, a | b)
					BIN(ANDB, a & b)
					BIN(LT, a < b)
					BIN(GT, a > b)
					BIN(LTE, a <= b)
					BIN(GTE, a >= b)
					BIN(EQ, a == b)
					BIN(NEQ, a != b)
					BIN(ORR, a != 0 || b != 0)
					BIN(AND, a != 0 && b != 0)
					BIN(LSL, I(U(a) << (b & 31)))
					BIN(LSR, a >> (b & 31))
#undef BIN
				case DIV:
					a = pop_int(), b = pop_int();
					if (b == 0) throw RErr {"div0"};
					pushi(b == -1 ? I(0u - U(a)) : a / b);
					break;
				case MOD:
					a = pop_int(), b = pop_int();
					if (b == 0) throw RErr {"div0"};
					pushi(b == -1 ? 0 : a % b);
					break;
				case PLUS: pushi(pop_int()); break;
				case NEGATE: pushi(I(0u - U(pop_int()))); break;
				case NOT: pushi(pop_int() == 0); break;
				case CMPL: pushi(~pop_int()); break;
				case RSR: return;
				case BL: {
					auto s = by_address(arg);
					if (!s) throw RErr {"bl"};
					guarded(*s, [&] { call(*s, arg); });
					break;
				}
				case BE:
					if (arg > NSYM) throw RErr {"be"};
					guarded(arg, [&] { external(arg); });
					break;
				case PUSHI: pushi(I(arg)); break;
				case PUSHV:
				case PUSHVI:
				case PUSHVV: {
					if (arg > NSYM) throw RErr {"no symbol"}; // index NSYM: the machine's own string storage
					Val v;
					v.k = Val::REF;
					v.sym = arg;
					v.idx = op == PUSHVV ? static_cast<uint8_t>(code[pc + 5]) : 0;
					v.ctx = cur;
					push(v);
					break;
				}
				case MOVI:
				case MOVVF: {
					auto r = target();
					auto v = pop_int();
					wr(r, [&] { int_at(r.sym, r.idx, r.ctx) = v; });
					break;
				}
				case MOVF: {
					auto r = target();
					auto v = pop_float();
					wr(r, [&] { flt_at(r.sym, r.idx, r.ctx) = v; });
					break;
				}
				case MOVS: {
					auto r = target();
					auto v = pop_str();
					if (r.sym == UINT_MAX) break; // a temporary, nobody can see its new value
					wr(r, [&] { str_at(r.sym, r.idx, r.ctx) = v; });
					break;
				}
				case MOVSS: throw RErr {"movss"};
				case ADDMOVI:
				case SUBMOVI:
				case MULMOVI:
				case DIVMOVI: {
					auto r = target();
					auto v = pop_int();
					if (op == DIVMOVI && v == 0) throw RErr {"div0"};
					wr(r, [&] {
						auto& x = int_at(r.sym, r.idx, r.ctx);
						x = op == ADDMOVI ? I(U(x) + U(v))
						    : op == SUBMOVI ? I(U(x) - U(v))
						    : op == MULMOVI ? I(U(x) * U(v))
						    : v == -1       ? I(0u - U(x))
						                    : x / v;
					});
					break;
				}
				case MOVVI: {
					auto r = target();
					auto i = pop_inst();
					inst_at(r.sym) = i;
					break;
				}
				case B:
					if (arg >= code.size()) throw RErr {"jump"};
					next = arg;
					break;
				case BZ:
					if (pop_int() == 0) {
						if (arg >= code.size()) throw RErr {"jump"};
						next = arg;
					}
					break;
				case GMOVI:
					if (arg > NSYM) throw RErr {"no symbol"};
					cur = inst_at(arg);
					break;
				default: break;
				}
				} catch (RErr const&) {
					if (mode == RETURN_ALL) return;
					if (mode != CONTINUE_CALLS || (op != BL && op != BE)) throw;
				}
				pc = next;
			}
		}
		Val target() {
			Val v = pop_ref();
			if (v.k == Val::STR) v.sym = UINT_MAX;
			return v;
		}
		template <typename F>
		void wr(Val const& r, F&& f) {
			if (r.sym == UINT_MAX) throw RErr {"temp"};
			if ((env.syms[r.sym].flags & F_CONST) && !(flags & DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER)) throw RErr {"const"};
			if (null_member(r) && lax()) return;
			f();
		}
	};

	// ---------------------------------------------------------------- the real machine, prepared the same way
	struct Real {
		DaedalusVm vm;
		std::vector<std::string> ext_log;
		std::shared_ptr<Obj> o[2];
		std::shared_ptr<Other> j;

		static DaedalusScript prepare(Env const& e, std::string const& code) {
			auto f = e.file(code);
			auto r = rd(f);
			DaedalusScript s;
			s.load(r.get());
			return s;
		}
		Real(Env const& e, std::string const& code, uint8_t flags = 0, bool instances = true) : vm(prepare(e, code), flags) {
			vm.register_member("C.A", &Obj::a);
			vm.register_member("C.ARR", &Obj::arr);
			vm.register_member("C.F", &Obj::f);
			vm.register_member("C.S", &Obj::s);
			vm.register_member("C.SS", &Obj::ss);
			vm.register_member("C.FN", &Obj::fn);
			vm.register_member("D.O", &Other::o);
			if (instances) {
				o[0] = vm.init_instance<Obj>("I0");
				o[1] = vm.init_instance<Obj>("I1");
				j = vm.init_instance<Other>("J0");
			}
			vm.register_external("E_SUB", [this](int32_t a, int32_t b) {
				ext_log.push_back(mc::fmt("E_SUB %d %d", a, b));
				return static_cast<int32_t>(static_cast<uint32_t>(a) - static_cast<uint32_t>(b));
			});
			vm.register_external("E_CAT", [this](std::string_view a, std::string_view b) {
				ext_log.push_back("E_CAT " + std::string(a) + "," + std::string(b));
				return std::string(a) + "+" + std::string(b);
			});
			vm.register_external("E_MIX", [this](int32_t a, float b, std::string_view c, std::shared_ptr<Obj> d) {
				ext_log.push_back(mc::fmt("E_MIX %d %a %s %d", a, b, std::string(c).c_str(), index_of(d)));
				return b * 2;
			});
			vm.register_external("E_FAIL", []() -> int32_t { throw DaedalusVmException {"failing external"}; });
			vm.register_external("E_FAILV", [](int32_t) -> void { throw DaedalusVmException {"failing external"}; });
			vm.register_external("E_FAILS", [](std::string_view) -> std::string { throw DaedalusVmException {"failing external"}; });
			vm.register_external("E_SET", [this](int32_t a) {
				ext_log.push_back(mc::fmt("E_SET %d", a));
				vm.find_symbol_by_name("Y")->set_int(a);
			});
		}
		int index_of(std::shared_ptr<DaedalusInstance> const& p) const {
			if (p == nullptr) return NONE;
			if (p == o[0]) return 0;
			if (p == o[1]) return 1;
			if (p == j) return 2;
			return -99;
		}
	};

	inline void model_instances(RVM& m) {
		m.objs.resize(3);
		m.objs[2].cls = D;
		m.inst[I0] = 0;
		m.inst[I1] = 1;
		m.inst[J0] = 2;
	}

	inline bool stack_empty(DaedalusVm& vm) {
		try {
			(void) vm.top_is_reference();
			return false;
		} catch (DaedalusVmException const&) {
			return true;
		}
	}

	#define MCD_CHECK(cond, sig, ...)                                                                                                    \
	do {                                                                                                                             \
		if (!(cond)) mc::fail(sig, __VA_ARGS__);                                                                                      \
	} while (0)

	/// compares every variable of the script and every member of the instances
	inline void compare_store(Real& r, RVM& m, std::string const& ctx) {
		for (uint32_t i = 0; i < NSYM; ++i) {
			auto& s = m.env.syms[i];
			auto* y = r.vm.find_symbol_by_index(i);
			if (s.flags & F_MEMBER) continue;
			for (uint32_t k = 0; k < s.count; ++k) {
				if (s.type == T_INT || (s.type == T_FUNC && !(s.flags & F_CONST)))
					MCD_CHECK(y->get_int(k) == m.iv[i][k], "variable",
					      mc::fmt("%s[%u] is %d, expected %d after ", s.name.c_str(), k, y->get_int(k), m.iv[i][k]) + ctx);
				if (s.type == T_FLOAT) {
					float g = y->get_float(k), w = m.fv[i][k];
					MCD_CHECK(memcmp(&g, &w, 4) == 0, "variable", mc::fmt("%s[%u] is %a, expected %a after ", s.name.c_str(), k, g, w) + ctx);
				}
				if (s.type == T_STRING)
					MCD_CHECK(y->get_string(k) == m.sv[i][k], "variable",
					      s.name + mc::fmt("[%u] is '", k) + esc(y->get_string(k)) + "', expected '" + esc(m.sv[i][k]) + "' after " + ctx);
			}
			if (s.type == T_INST)
				MCD_CHECK(r.index_of(y->get_instance()) == m.inst[i], "variable",
				      mc::fmt("%s holds instance %d, expected %d after ", s.name.c_str(), r.index_of(y->get_instance()), m.inst[i]) + ctx);
		}
		if (r.o[0]) {
			for (int k = 0; k < 2; ++k) {
				RObj g;
				g.a = r.o[k]->a;
				std::copy(r.o[k]->arr, r.o[k]->arr + 3, g.arr);
				g.f = r.o[k]->f;
				g.s = r.o[k]->s;
				g.ss[0] = r.o[k]->ss[0];
				g.ss[1] = r.o[k]->ss[1];
				g.fn = r.o[k]->fn;
				MCD_CHECK(g == m.objs[k] && r.o[k]->canary == 0xC0FFEE, "member",
				      mc::fmt("instance %d differs (a=%d/%d arr=%d,%d,%d/%d,%d,%d s=%s/%s) after ", k, g.a, m.objs[k].a, g.arr[0], g.arr[1], g.arr[2],
				              m.objs[k].arr[0], m.objs[k].arr[1], m.objs[k].arr[2], g.s.c_str(), m.objs[k].s.c_str()) +
				          ctx);
			}
			MCD_CHECK(r.j->o == m.objs[2].o && r.j->canary == 0xC0FFEE, "member", "instance of the other class differs after " + ctx);
		}
		MCD_CHECK(r.ext_log == m.ext_log, "externals", [&] {
			std::string s = "external calls [";
			for (auto& e : r.ext_log) s += e + ";";
			s += "] expected [";
			for (auto& e : m.ext_log) s += e + ";";
			return s + "] after " + ctx;
		}());
	}
} // namespace mcd
