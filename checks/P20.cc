// P20: compiled scripts -- every small symbol table over all symbol kinds, flags, counts, values and relations, written by
// an independent encoder, loaded by the real code and compared attribute by attribute and lookup by lookup.
#include "daemodel.hh"
using namespace mcd;

namespace {
	std::string upper(std::string s) {
		for (auto& c : s)
			if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
		return s;
	}
	std::vector<std::string> cases(std::string const& n) {
		std::string lo = n, mix = n;
		for (auto& c : lo)
			if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
		for (size_t i = 0; i < mix.size(); ++i)
			if (i % 2 && mix[i] >= 'A' && mix[i] <= 'Z') mix[i] = static_cast<char>(mix[i] + 32);
		return {n, lo, mix};
	}
	std::string unescape(std::string const& s) {
		std::string o;
		for (size_t i = 0; i < s.size(); ++i) {
			if (s[i] == '\\' && i + 1 < s.size() && (s[i + 1] == 'n' || s[i + 1] == 't')) {
				o += s[i + 1] == 'n' ? '\n' : '\t';
				++i;
			} else
				o += s[i];
		}
		return o;
	}
	std::string loaded_name(Sym const& s) {
		if (!s.named) return "";
		std::string n = s.name;
		if (!n.empty() && n[0] == '\xff') n[0] = '$';
		return n;
	}
	bool by_address(Sym const& s) {
		return !(s.flags & F_MEMBER) && (s.type == T_PROTO || s.type == T_INST || (s.type == T_FUNC && (s.flags & F_CONST)));
	}

	void compare_symbol(DaedalusSymbol const& y, Sym const& s, uint32_t i, bool values) {
		auto ctx = mc::fmt("symbol %u (%s, type %u, flags %u, count %u)", i, esc(s.name).c_str(), s.type, s.flags, s.count);
		auto eq = [&](char const* what, uint64_t got, uint64_t want) { MCD_CHECK(got == want, what, mc::fmt("%s of ", what) + ctx + mc::fmt(" is %llu, stored %llu", (unsigned long long) got, (unsigned long long) want)); };
		MCD_CHECK(y.name() == loaded_name(s), "name", "name of " + ctx + " is " + esc(y.name()));
		eq("index", y.index(), i);
		eq("type", uint32_t(y.type()), s.type);
		eq("count", y.count(), s.count);
		eq("const", y.is_const(), (s.flags & F_CONST) != 0);
		eq("return", y.has_return(), (s.flags & F_RETURN) != 0);
		eq("member", y.is_member(), (s.flags & F_MEMBER) != 0);
		eq("external", y.is_external(), (s.flags & F_EXTERNAL) != 0);
		eq("merged", y.is_merged(), (s.flags & F_MERGED) != 0);
		eq("generated", y.is_generated(), s.named && !s.name.empty() && s.name[0] == '\xff');
		eq("file", y.file_index(), s.file & 0x7ffff);
		eq("line start", y.line_start(), s.ls & 0x7ffff);
		eq("line count", y.line_count(), s.lc & 0x7ffff);
		eq("char start", y.char_start(), s.cs & 0xffffff);
		eq("char count", y.char_count(), s.cc & 0xffffff);
		eq("parent", y.parent(), static_cast<uint32_t>(s.parent));
		bool member = s.flags & F_MEMBER;
		if (member) eq("member offset", y.offset_as_member(), s.vary);
		if (!member && s.type == T_CLASS) eq("class size", y.class_size(), s.vary);
		if (!member && s.type == T_FUNC) eq("return type", uint32_t(y.rtype()), s.vary);
		if (!member && (s.type == T_FUNC || s.type == T_PROTO || s.type == T_INST)) eq("address", y.address(), static_cast<uint32_t>(s.addr));
		if (!values || member) return;
		for (uint32_t k = 0; k < s.count; ++k) {
			if (s.type == T_INT) eq("value", static_cast<uint32_t>(y.get_int(static_cast<uint16_t>(k))), static_cast<uint32_t>(k < s.ints.size() ? s.ints[k] : 0));
			if (s.type == T_FLOAT) {
				float g = y.get_float(static_cast<uint16_t>(k)), w = k < s.floats.size() ? s.floats[k] : 0;
				MCD_CHECK(memcmp(&g, &w, 4) == 0, "value", mc::fmt("value %u of ", k) + ctx + mc::fmt(" is %g, stored %g", double(g), double(w)));
			}
			if (s.type == T_STRING) {
				auto g = y.get_string(static_cast<uint16_t>(k));
				auto w = unescape(k < s.strs.size() ? s.strs[k] : "");
				MCD_CHECK(g == w, "value", mc::fmt("value %u of ", k) + ctx + " is " + esc(g) + ", stored " + esc(w));
			}
			if (s.type == T_FUNC && !(s.flags & F_CONST)) eq("value", static_cast<uint32_t>(y.get_int(static_cast<uint16_t>(k))), 0);
		}
		if (s.type == T_INST) MCD_CHECK(const_cast<DaedalusSymbol&>(y).get_instance() == nullptr, "value", "an instance exists in " + ctx);
	}

	void compare_script(DaedalusScript& s, std::vector<Sym> const& syms, std::string const& code, bool vm) {
		MCD_CHECK(vm ? s.symbols().size() >= syms.size() : s.symbols().size() == syms.size(), "count", mc::fmt("%zu symbols, stored %zu", s.symbols().size(), syms.size()));
		MCD_CHECK(s.size() == code.size(), "code", mc::fmt("code size is %u, stored %zu", s.size(), code.size()));
		std::map<std::string, uint32_t> names;
		std::map<uint32_t, uint32_t> addrs;
		std::set<std::string> dup;
		std::set<uint32_t> dupa;
		auto& cs = static_cast<DaedalusScript const&>(s);
		for (uint32_t i = 0; i < syms.size(); ++i) {
			compare_symbol(s.symbols()[i], syms[i], i, true);
			MCD_CHECK(s.find_symbol_by_index(i) == &s.symbols()[i] && cs.find_symbol_by_index(i) == &s.symbols()[i], "by-index", mc::fmt("symbol %u is not found by its index", i));
			if (syms[i].named) {
				auto n = upper(loaded_name(syms[i]));
				if (!names.emplace(n, i).second) dup.insert(n);
			}
			if (by_address(syms[i]) && !addrs.emplace(static_cast<uint32_t>(syms[i].addr), i).second) dupa.insert(static_cast<uint32_t>(syms[i].addr));
		}
		for (auto& [n, i] : names) {
			if (dup.count(n)) continue;
			for (auto& c : cases(n)) {
				auto* y = s.find_symbol_by_name(c);
				MCD_CHECK(y == &s.symbols()[i] && cs.find_symbol_by_name(c) == y, "by-name", "symbol " + esc(n) + " is not found as " + esc(c));
			}
			for (auto& c : {n + "X", n + ".", " " + n, n.substr(0, n.size() ? n.size() - 1 : 0)})
				if (!names.count(upper(c)) && !c.empty()) MCD_CHECK(s.find_symbol_by_name(c) == nullptr && cs.find_symbol_by_name(c) == nullptr, "absent", "a symbol is found as " + esc(c));
		}
		for (auto& [a, i] : addrs)
			if (!dupa.count(a)) MCD_CHECK(s.find_symbol_by_address(a) == &s.symbols()[i] && cs.find_symbol_by_address(a) == &s.symbols()[i], "by-address", mc::fmt("symbol %u is not found by its address %u", i, a));
		for (uint32_t a : {0u, 1u, 2u, 77u, 0x7fffffffu})
			if (!addrs.count(a)) MCD_CHECK(s.find_symbol_by_address(a) == nullptr && cs.find_symbol_by_address(a) == nullptr, "absent", mc::fmt("a symbol is found at address %u", a));
		if (!vm)
			for (uint32_t i : {uint32_t(syms.size()), uint32_t(syms.size() + 1), 0x7fffffffu, 0xffffffffu})
				MCD_CHECK(s.find_symbol_by_index(i) == nullptr && cs.find_symbol_by_index(i) == nullptr, "absent", mc::fmt("a symbol is found with index %u", i));
		for (auto n : {"NOT THERE", "", "NOT.THERE"})
			if (!names.count(n) && !(*n == 0)) MCD_CHECK(s.find_symbol_by_name(n) == nullptr, "absent", std::string("a symbol is found as ") + n);
	}
	void both(std::vector<Sym> const& syms, std::string const& code = std::string(8, char(RSR))) {
		auto s = mcd::load(syms, code);
		compare_script(s, syms, code, false);
		DaedalusVm vm {std::move(s)};
		compare_script(vm, syms, code, true);
	}

	/// one symbol of every shape between two others
	void shapes(mc::Run& r) {
		for (uint32_t type = 0; type < 8; ++type)
			for (uint32_t flags = 0; flags < 32; ++flags)
				for (uint32_t count : {0u, 1u, 2u, 3u, 255u, 256u, 4095u})
					for (int name = 0; name < 4; ++name)
						for (int parent : {-1, 0, 9, 10, 13, 32, 255, 256, 2570, 0x0a0a0a0a}) {
							if (count > 3 && (name || parent > 0)) continue;
							r.run_case(
							    "shapes",
							    [&] {
								    Sym a {"FIRST", T_INT, 1};
								    a.ints = {-1};
								    Sym b {name == 1 ? "\xFFINSTANCE_HELP" : name == 2 ? "A.B.C" : name == 3 ? std::string(300, 'N') : "X", type, count, flags};
								    b.parent = parent;
								    b.vary = type == T_FUNC && !(flags & F_MEMBER) ? (flags & F_RETURN ? uint32_t(T_INT) : 0) : 0x12345;
								    b.addr = 5;
								    for (uint32_t i = 0; i < count; ++i) {
									    b.ints.push_back(i % 3 == 0 ? INT_MIN : i % 3 == 1 ? -1 : int32_t(i));
									    b.floats.push_back(i % 2 ? -0.0f : 1e30f);
									    b.strs.push_back(i % 4 == 0 ? "" : i % 4 == 1 ? "text" : i % 4 == 2 ? "a longer text \\n with \\t escapes" : " ");
								    }
								    b.file = 0xffffffff, b.ls = 1, b.lc = 0x7ffff, b.cs = 0xffffff, b.cc = 0x80000;
								    Sym c {"LAST", T_STRING, 2};
								    c.strs = {"x", "y"};
								    both({a, b, c});
								    both({a, c, b});
								    r.trans(2);
							    },
							    [&] { return mc::fmt("type %u flags %u count %u name %d parent %d", type, flags, count, name, parent); });
						}
	}

	/// every table of three symbols from a list of kinds
	void tables(mc::Run& r) {
		std::vector<Sym> kinds;
		auto add = [&](uint32_t type, uint32_t count, uint32_t flags, int parent = -1) {
			Sym s {"", type, count, flags};
			s.parent = parent;
			s.ints = {7, 8};
			s.floats = {1.5f, 2.5f};
			s.strs = {"one", "two"};
			s.vary = 4;
			if (type == T_FUNC) s.vary = flags & F_RETURN ? uint32_t(T_STRING) : 0;
			kinds.push_back(s);
		};
		add(T_INT, 1, 0);
		add(T_INT, 2, F_CONST);
		add(T_FLOAT, 2, 0);
		add(T_STRING, 1, F_CONST);
		add(T_STRING, 2, 0);
		add(T_STRING, 1, F_CONST, 10);
		add(T_CLASS, 2, 0);
		add(T_INT, 1, F_MEMBER, 0);
		add(T_STRING, 2, F_MEMBER, 0);
		add(T_FUNC, 0, F_CONST);
		add(T_FUNC, 0, F_CONST | F_RETURN);
		add(T_FUNC, 0, F_CONST | F_EXTERNAL);
		add(T_FUNC, 1, 0);
		add(T_PROTO, 0, F_CONST, 0);
		add(T_INST, 0, F_CONST, 0);
		add(T_INST, 1, 0, 0);
		kinds.push_back(kinds[0]);
		kinds.back().named = false;
		char const* names[] = {"A", "ab", "A.b", "B_1", "\xFFSTRINGS"};
		for (int n = 0; n <= r.tier(3, 4); ++n)
			tuples(n, int(kinds.size()), [&](std::vector<int> const& ix) {
				r.run_case(
				    "tables",
				    [&] {
					    std::vector<Sym> syms;
					    for (size_t i = 0; i < ix.size(); ++i) {
						    syms.push_back(kinds[size_t(ix[i])]);
						    syms.back().name = names[i];
						    syms.back().addr = static_cast<int32_t>(i) + 1;
					    }
					    both(syms);
					    std::string sig;
					    for (auto i : ix) sig += mc::fmt("%d,", i);
					    r.state(mc::hash_str(sig));
					    r.trans(2);
				    },
				    [&] {
					    std::string s;
					    for (auto i : ix) s += mc::fmt("kind %d; ", i);
					    return s;
				    });
			});

		// a script object used before: nothing of the first script is left when the second is loaded
		auto table = [&](int k, int which) {
			// no symbol, one of each kind, or two
			int n = int(kinds.size());
			std::vector<Sym> syms;
			if (k > 0) syms.push_back(kinds[size_t((k - 1) % n)]);
			if (k > n) syms.push_back(kinds[size_t((k * 7 + 3) % n)]);
			for (size_t i = 0; i < syms.size(); ++i) {
				syms[i].name = mc::fmt("%s%zu", which == 2 ? "SAME" : which ? "second" : "FIRST", i);
				syms[i].addr = static_cast<int32_t>(i) + (which == 1 ? 4 : 1);
			}
			return syms;
		};
		for (int k1 = 0; k1 <= 2 * int(kinds.size()); ++k1)
			for (int k2 = 0; k2 <= 2 * int(kinds.size()); ++k2)
				for (int same = 0; same < 2; ++same)
					r.run_case(
					    "loaded twice",
					    [&] {
						    auto a = table(k1, same ? 2 : 0), b = table(k2, same ? 2 : 1);
						    std::string code1(9, char(NOP)), code2(7, char(RSR));
						    DaedalusScript s;
						    auto r1 = rd(encode(a, code1)), r2 = rd(encode(b, code2));
						    s.load(r1.get());
						    compare_script(s, a, code1, false);
						    s.load(r2.get());
						    compare_script(s, b, code2, false);
						    for (size_t i = 0; i < a.size(); ++i) {
							    if (same && i < b.size()) continue;
							    MCD_CHECK(s.find_symbol_by_name(a[i].name) == nullptr, "left-over", "the symbol " + a[i].name + " of the script before is still found");
							    MCD_CHECK(s.find_symbol_by_address(static_cast<uint32_t>(a[i].addr)) == nullptr, "left-over", "the address of " + a[i].name + " of the script before is still found");
						    }
						    MCD_CHECK(uint8_t(s.instruction_at(0).op) == RSR, "code", "the code is the one of the script before");
						    r.trans(2);
					    },
					    [&] { return mc::fmt("table %d, then table %d%s", k1, k2, same ? " with the same names" : ""); });
	}

	/// string constants: all texts up to a length over the characters that matter, and surplus line ends behind them
	void texts(mc::Run& r) {
		char const alphabet[] = {'n', 't', '\\', 'x', ' ', '"'};
		for (int n = 0; n <= r.tier(5, 6); ++n)
			tuples(n, 6, [&](std::vector<int> const& ix) {
				r.run_case(
				    "texts",
				    [&] {
					    std::string t;
					    for (auto i : ix) t += alphabet[i];
					    Sym a {"A", T_STRING, 2, F_CONST};
					    a.strs = {t, t + "\\n"};
					    Sym b {"B", T_INT, 1};
					    b.ints = {99};
					    both({a, b});
					    r.outcome(unescape(t) == t ? "plain" : "escaped");
				    },
				    [&] {
					    std::string t;
					    for (auto i : ix) t += alphabet[i];
					    return esc(t);
				    });
			});
		for (int extra = 1; extra <= 4; ++extra)
			tuples(extra, 3, [&](std::vector<int> const& ix) {
				for (uint32_t count : {1u, 2u})
					r.run_case(
					    "surplus line ends",
					    [&] {
						    char const ws[] = {'\n', '\r', ' '};
						    std::string tail;
						    for (auto i : ix) tail += ws[i];
						    Sym a {"A", T_STRING, count, F_CONST};
						    a.strs = {"text", "more"};
						    Sym b {"B", T_INT, 1};
						    b.ints = {99};
						    // built by hand: the surplus characters are in front of the parent of A
						    Out sa, sb, o;
						    encode_sym(sa, a);
						    encode_sym(sb, b);
						    sa.s = sa.s.substr(0, sa.s.size() - 4) + tail + sa.s.substr(sa.s.size() - 4);
						    o.u8(50).u32(2).u32(0).u32(1).str(sa.s).str(sb.s).u32(1).u8(RSR);
						    auto in = rd(o.s);
						    DaedalusScript s;
						    s.load(in.get());
						    compare_script(s, {a, b}, std::string(1, char(RSR)), false);
					    },
					    [&] {
						    std::string s = mc::fmt("%u strings, then ", count);
						    for (auto i : ix) s += mc::fmt("%d ", i);
						    return s;
					    });
			});
	}

	/// functions with parameters and local variables, classes with members, instances of classes
	void relations(mc::Run& r) {
		std::vector<std::string> after {"", "G", "F2.X", "F.", "FX", "E.F.X", "f.low"};
		for (uint32_t params = 0; params < 4; ++params)
			for (int locals = 0; locals < 4; ++locals)
				for (size_t af = 0; af < after.size(); ++af)
					for (int before = 0; before < 2; ++before)
						r.run_case(
						    "functions",
						    [&] {
							    std::vector<Sym> syms;
							    if (before) syms.push_back({"F0", T_INT, 1}), syms.push_back({"F.Z", T_INT, 1});
							    uint32_t fi = static_cast<uint32_t>(syms.size());
							    Sym f {"F", T_FUNC, params, F_CONST};
							    f.addr = 3;
							    syms.push_back(f);
							    for (uint32_t i = 0; i < params; ++i) syms.push_back({mc::fmt("F.P%u", i), i % 2 ? T_STRING : T_INT, 1});
							    for (int i = 0; i < locals; ++i) syms.push_back({mc::fmt("F.L%d", i), i % 2 ? T_FLOAT : T_INT, 1});
							    bool dot = after[af] == "F.";
							    if (af) syms.push_back({after[af], T_INT, 1});
							    auto s = mcd::load(syms, "<<");
							    for (int round = 0; round < 2; ++round) {
								    auto verify = [&](DaedalusScript& sc) {
									    auto* y = sc.find_symbol_by_name("F");
									    auto p = sc.find_parameters_for_function(y);
									    auto cp = static_cast<DaedalusScript const&>(sc).find_parameters_for_function(y);
									    MCD_CHECK(p.size() == params && cp.size() == params, "parameters", mc::fmt("%zu parameters, expected %u", p.size(), params));
									    for (uint32_t i = 0; i < params; ++i) MCD_CHECK(p[i].index() == fi + 1 + i && &cp[i] == &p[i], "parameters", mc::fmt("parameter %u is wrong", i));
									    auto l = sc.find_locals_for_function(y);
									    MCD_CHECK(l.size() == size_t(locals) + (dot ? 1 : 0), "locals", mc::fmt("%zu local variables, expected %d", l.size(), locals));
									    for (size_t i = 0; i < l.size(); ++i) MCD_CHECK(l[i].index() == fi + 1 + params + i, "locals", mc::fmt("local variable %zu is wrong", i));
								    };
								    if (round == 0)
									    verify(s);
								    else {
									    DaedalusVm vm {std::move(s)};
									    verify(vm);
								    }
							    }
						    },
						    [&] { return mc::fmt("%u parameters, %d locals, followed by '%s', before %d", params, locals, after[af].c_str(), before); });
		// classes, prototypes and instances: every table of up to 5 symbols with every choice of parents
		int n = r.tier(5, 6);
		struct Node {
			int kind; // 0 class, 1 prototype, 2 const instance, 3 instance variable, 4 int member, 5 string member
			int parent;
		};
		std::vector<Node> t;
		std::function<void()> rec = [&] {
			r.run_case(
			    "classes",
			    [&] {
				    std::vector<Sym> syms;
				    uint32_t types[] = {T_CLASS, T_PROTO, T_INST, T_INST, T_INT, T_STRING};
				    uint32_t flags[] = {0, F_CONST, F_CONST, 0, F_MEMBER, F_MEMBER};
				    for (size_t i = 0; i < t.size(); ++i) {
					    Sym s {mc::fmt("N%zu", i), types[t[i].kind], t[i].kind == 2 ? 0u : 1u, flags[t[i].kind]};
					    s.parent = t[i].parent;
					    s.addr = static_cast<int32_t>(i);
					    syms.push_back(s);
				    }
				    auto s = mcd::load(syms, "<<<<<<<<");
				    for (size_t c = 0; c < t.size(); ++c) {
					    if (t[c].kind != 0) continue;
					    std::vector<uint32_t> want, got, wm, gm;
					    for (size_t i = 0; i < t.size(); ++i) {
						    int p = t[i].parent;
						    if (t[i].kind == 2 && (p == int(c) || (p >= 0 && t[size_t(p)].kind == 1 && t[size_t(p)].parent == int(c)))) want.push_back(uint32_t(i));
						    if (t[i].kind >= 4 && p == int(c)) wm.push_back(uint32_t(i));
					    }
					    s.enumerate_instances_by_class_name(mc::fmt("n%zu", c), [&](DaedalusSymbol& y) { got.push_back(y.index()); });
					    MCD_CHECK(got == want, "instances", mc::fmt("%zu instances of class %zu are enumerated, expected %zu", got.size(), c, want.size()));
					    for (auto* y : s.find_class_members(*s.find_symbol_by_index(uint32_t(c)))) gm.push_back(y->index());
					    MCD_CHECK(gm == wm, "members", mc::fmt("%zu members of class %zu are found, expected %zu", gm.size(), c, wm.size()));
				    }
				    bool called = false;
				    s.enumerate_instances_by_class_name("NOPE", [&](DaedalusSymbol&) { called = true; });
				    MCD_CHECK(!called, "instances", "instances of an unknown class are enumerated");
				    r.trans();
			    },
			    [&] {
				    std::string s;
				    for (auto& x : t) s += mc::fmt("(%d,%d) ", x.kind, x.parent);
				    return s;
			    });
			if (int(t.size()) == n) return;
			for (int k = 0; k < 6; ++k) {
				if (k == 0) {
					t.push_back({0, -1});
					rec();
					t.pop_back();
					continue;
				}
				for (int p = k < 4 ? -1 : 0; p < int(t.size()); ++p) {
					if (p >= 0 && t[size_t(p)].kind > 1) continue;
					if (p >= 0 && t[size_t(p)].kind == 1 && (k == 1 || k >= 4)) continue; // prototypes and members belong to classes
					if (p == -1 && k != 2) continue;
					t.push_back({k, p});
					rec();
					t.pop_back();
				}
			}
		};
		rec();
	}

	/// every instruction with every kind of operand, decoded at every address
	void code(mc::Run& r) {
		uint32_t args[] = {0, 1, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304};
		for (int op = 0; op < 256; ++op)
			for (auto arg : args)
				for (int idx : {0, 1, 255})
					r.run_case(
					    "instructions",
					    [&] {
						    Ins in {static_cast<uint8_t>(op), arg, static_cast<uint8_t>(idx)};
						    Out o;
						    std::vector<std::pair<uint32_t, Ins>> at;
						    for (auto& i : {Ins {PUSHI, 5}, in, Ins {RSR}, in, Ins {B, 3}}) {
							    at.push_back({uint32_t(o.s.size()), i});
							    emit(o, i);
						    }
						    auto s = mcd::load({{"A", T_INT, 1}}, o.s);
						    for (int dir = 0; dir < 2; ++dir) {
							    for (auto& [a, i] : at) {
								    auto g = s.instruction_at(a);
								    MCD_CHECK(uint8_t(g.op) == i.op && g.size == ins_size(i), "instruction", mc::fmt("opcode %u has size %u", unsigned(g.op), g.size));
								    uint32_t wa = i.op == BL || i.op == BZ || i.op == B ? i.arg : 0, wi = i.op == PUSHI ? i.arg : 0,
								             ws = i.op == BE || i.op == PUSHV || i.op == PUSHVI || i.op == GMOVI || i.op == PUSHVV ? i.arg : 0;
								    MCD_CHECK(g.address == wa && uint32_t(g.immediate) == wi && g.symbol == ws && g.index == (i.op == PUSHVV ? i.idx : 0), "operand",
								              mc::fmt("opcode %u has operands %u %d %u %u", i.op, g.address, g.immediate, g.symbol, g.index));
								    MCD_CHECK(s.size() == o.s.size(), "size", "the code size changed");
							    }
							    std::reverse(at.begin(), at.end());
						    }
						    r.trans(10);
					    },
					    [&] { return mc::fmt("opcode %d argument %u index %d", op, arg, idx); });
	}

	/// the machine's global symbols are the ones of these names, wherever they are in the table
	void globals(mc::Run& r) {
		static char const* const N[] = {"SELF", "OTHER", "VICTIM", "HERO", "ITEM"};
		static char const* const L[] = {"self", "other", "victim", "hero", "item"};
		for (int present = 0; present < 32; ++present)
			for (int rot = 0; rot < 5; ++rot)
				for (int style = 0; style < 3; ++style)
					for (int decoys = 0; decoys < 2; ++decoys)
						r.run_case(
						    "globals",
						    [&] {
							    std::vector<Sym> syms;
							    if (decoys)
								    for (auto d : {"SELF.NAME", "SELFISH", "MYSELF", "OTHERS", "ITEMS", "HER"}) syms.push_back({d, T_INT, 1, 0});
							    for (int i = 0; i < 5; ++i) {
								    int k = (i + rot) % 5;
								    if (!(present >> k & 1)) continue;
								    std::string n = style == 0 ? N[k] : style == 1 ? L[k] : std::string(1, N[k][0]) + (L[k] + 1);
								    Sym s {n, T_INST, 1, 0};
								    s.parent = -1;
								    syms.push_back(s);
							    }
							    DaedalusVm vm {mcd::load(syms, std::string(1, char(RSR)))};
							    auto held = [&](DaedalusVm& m, char const* when) {
								    DaedalusSymbol* got[] = {m.global_self(), m.global_other(), m.global_victim(), m.global_hero(), m.global_item()};
								    for (int k = 0; k < 5; ++k) {
									    r.trans();
									    if (!(present >> k & 1)) {
										    MCD_CHECK(got[k] == nullptr, "global", std::string(when) + "there is a global " + N[k] + " although the script has none");
										    continue;
									    }
									    MCD_CHECK(got[k] != nullptr, "global", std::string(when) + "the global " + N[k] + " is missing");
									    MCD_CHECK(got[k] == m.find_symbol_by_name(L[k]) && got[k] == m.find_symbol_by_index(got[k]->index()) && iequals(got[k]->name(), N[k]), "global", std::string(when) + "the global " + N[k] + " is " + got[k]->name());
								    }
							    };
							    held(vm, "");
							    DaedalusVm moved {std::move(vm)};
							    held(moved, "after moving the machine: ");
							    auto o = std::make_shared<DaedalusInstance>();
							    if (moved.global_self()) {
								    moved.global_self()->set_instance(o);
								    MCD_CHECK(moved.find_symbol_by_name("SELF")->get_instance() == o, "global", "the global is not the script's variable");
							    }
						    },
						    [&] { return mc::fmt("names %x rotated %d style %d decoys %d", present, rot, style, decoys); });
	}

	/// many symbols: nothing depends on the size of the table
	void large(mc::Run& r) {
		for (uint32_t n : {10u, 100u, 1000u, 5000u, 70000u})
			r.run_case(
			    "large tables",
			    [&] {
				    std::vector<Sym> syms;
				    for (uint32_t i = 0; i < n; ++i) {
					    Sym s {mc::fmt("SYMBOL_%u", i * 7919 % n), i % 3 == 0 ? T_FUNC : i % 3 == 1 ? T_INT : T_INST, i % 3 == 1 ? 1u : 0u, i % 3 == 1 ? 0u : F_CONST};
					    s.addr = static_cast<int32_t>(i);
					    s.ints = {int32_t(i)};
					    s.parent = i % 3 == 2 ? 0 : -1;
					    syms.push_back(s);
				    }
				    std::string code(n, char(RSR));
				    auto s = mcd::load(syms, code);
				    compare_script(s, syms, code, false);
				    r.trans(n);
			    },
			    [&] { return mc::fmt("%u symbols", n); });
	}
}

void explore(mc::Run& r) {
	quiet_log();
	r.case_cpu_s = 20;
	shapes(r);
	tables(r);
	texts(r);
	relations(r);
	code(r);
	large(r);
	globals(r);
}
MC_MAIN(explore)
