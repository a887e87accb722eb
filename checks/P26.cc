// P26: dialogue libraries: every line is found by exactly its name, with its contents, whatever order the lines were stored in.
// Libraries are enumerated, stored through bare archive entries (independent of CutsceneLibrary::save) or the library itself,
// loaded by the real code and asked for every name of the alphabet and for the neighbours of these names.
// config: asan
#include "common.hh"
#include <algorithm>
#include <set>
#include "zenkit/Archive.hh"
#include "zenkit/CutsceneLibrary.hh"
using namespace mcz;
using namespace zenkit;

namespace {
	char const* FMTS[] = {"BINARY", "BINSAFE", "ASCII"};

	struct Line {
		std::string name, text, sound;
		uint32_t type = 0;
		bool prio = false, used = false, deleted = false;
		/// blocks around the innermost one
		int depth = 0;
	};
	using Lib = std::vector<Line>;

	struct Store {
		int f = 0, save = 0, g = 0, how = 0;
		std::string str() const {
			return mc::fmt("%s%s G%d %s", FMTS[f], save ? " save" : "", g + 1, how ? "saved by the library" : "stored entry by entry");
		}
		GameVersion ver() const {
			return g ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		}
	};

	std::shared_ptr<CutsceneBlock> block(Line const& l) {
		auto atom = std::make_shared<CutsceneAtomicBlock>();
		atom->message->type = l.type;
		atom->message->text = l.text;
		atom->message->name = l.sound;
		atom->message->high_priority = l.prio;
		atom->message->used = l.used;
		atom->message->deleted = l.deleted;
		auto cur = std::make_shared<CutsceneBlock>();
		cur->block = atom;
		for (int i = 0; i < l.depth; ++i) {
			cur->name = mc::fmt("inner%d", i);
			auto outer = std::make_shared<CutsceneBlock>();
			outer->block = cur;
			cur = outer;
		}
		cur->name = l.name;
		return cur;
	}

	Bytes store(Lib const& lib, Store const& st) {
		Bytes out;
		auto w = Write::to(&out);
		auto ar = st.save ? WriteArchive::to_save(w.get(), static_cast<ArchiveFormat>(st.f)) : WriteArchive::to(w.get(), static_cast<ArchiveFormat>(st.f));
		if (st.how) {
			CutsceneLibrary l;
			for (auto& x : lib) l.blocks.push_back(block(x));
			ar->write_object("%", &l, st.ver());
		} else {
			ar->write_object_begin("%", "zCCSLib", 0);
			ar->write_int("NumOfItems", static_cast<int>(lib.size()));
			for (auto& l : lib) {
				for (int i = l.depth; i >= 0; --i) {
					ar->write_object_begin("%", "zCCSBlock", 0);
					ar->write_string("blockName", i == l.depth ? l.name : mc::fmt("inner%d", i));
					ar->write_int("numOfBlocks", 1);
					ar->write_float("subBlock0", 0);
				}
				ar->write_object_begin("%", "zCCSAtomicBlock", 0);
				ar->write_object_begin("%", "oCMsgConversation:oCNpcMessage:zCEventMessage", 0);
				ar->write_enum("subType", l.type);
				if (st.save) {
					ar->write_bool("highPriority", l.prio);
					ar->write_bool("inUse", l.used);
					ar->write_bool("deleted", l.deleted);
				}
				ar->write_string("text", l.text);
				ar->write_string("name", l.sound);
				ar->write_object_end();
				ar->write_object_end();
				for (int i = l.depth; i >= 0; --i) ar->write_object_end();
			}
			ar->write_object_end();
		}
		ar->write_header();
		return out;
	}

	std::shared_ptr<CutsceneLibrary> load(Bytes const& b, Store const& st) {
		auto in = Read::from(b);
		auto ar = ReadArchive::from(in.get());
		return ar->read_object<CutsceneLibrary>(st.ver());
	}

	std::string show(Line const& l, bool save) {
		auto s = mc::fmt("%u '%s' '%s' depth %d", l.type, esc(l.text).c_str(), esc(l.sound).c_str(), l.depth);
		if (save) s += mc::fmt(" %d%d%d", l.prio, l.used, l.deleted);
		for (int i = l.depth; i-- > 0;) s += mc::fmt(" > inner%d", i);
		return s;
	}
	std::string show(CutsceneBlock const& b, bool save) {
		Line l;
		std::string inner;
		auto* cur = &b;
		for (;;) {
			if (auto* in = std::get_if<std::shared_ptr<CutsceneBlock>>(&cur->block)) {
				if (!*in) return "no inner block";
				cur = in->get();
				++l.depth;
				inner += " > " + cur->name;
				continue;
			}
			auto& at = std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block);
			if (!at || !at->message) return "no message";
			if (b.get_message() != at->message) return "get_message gives another message";
			l.type = at->message->type, l.text = at->message->text, l.sound = at->message->name;
			l.prio = at->message->high_priority, l.used = at->message->used, l.deleted = at->message->deleted;
			auto s = mc::fmt("%u '%s' '%s' depth %d", l.type, esc(l.text).c_str(), esc(l.sound).c_str(), l.depth);
			if (save) s += mc::fmt(" %d%d%d", l.prio, l.used, l.deleted);
			return s + inner;
		}
	}

	/// checks every question that can be asked of the loaded library
	void ask(mc::Run& r, CutsceneLibrary const& lib, Lib const& want, std::vector<std::string> const& questions, bool save) {
		check(lib.blocks.size() == want.size(), "count", mc::fmt("%zu lines instead of %zu", lib.blocks.size(), want.size()));
		for (auto& q : questions) {
			r.trans();
			auto got = lib.block_by_name(q);
			std::vector<std::string> possible;
			for (auto& l : want)
				if (l.name == q) possible.push_back(show(l, save));
			if (possible.empty()) {
				check(got == nullptr, "found-unknown", "the unknown name '" + esc(q) + "' gives the line '" + (got ? esc(got->name) : "") + "'");
				continue;
			}
			check(got != nullptr, "not-found", "the line '" + esc(q) + "' is not found");
			check(got->name == q, "wrong-line", "'" + esc(q) + "' gives the line '" + esc(got->name) + "'");
			auto s = show(*got, save);
			check(std::find(possible.begin(), possible.end(), s) != possible.end(), "contents", "'" + esc(q) + "' has " + s + " instead of " + possible[0]);
		}
	}

	std::vector<std::string> neighbours(std::vector<std::string> const& names) {
		std::vector<std::string> q = names;
		for (auto& n : names) {
			if (!n.empty()) {
				q.push_back(n.substr(0, n.size() - 1));
				q.push_back(n.substr(1));
				auto c = n;
				c[0] = static_cast<char>(c[0] ^ 0x20);
				q.push_back(c);
				c = n;
				c.back() = static_cast<char>(c.back() + 1);
				q.push_back(c);
				c = n;
				c.back() = static_cast<char>(c.back() - 1);
				q.push_back(c);
			}
			q.push_back(n + "A");
			q.push_back(n + " ");
			q.push_back(" " + n);
			q.push_back(n + std::string(1, '\0'));
		}
		q.push_back("");
		q.push_back("\xff\xff");
		std::sort(q.begin(), q.end());
		q.erase(std::unique(q.begin(), q.end()), q.end());
		return q;
	}

	std::string names(Lib const& l) {
		std::string s;
		for (auto& x : l) s += "'" + esc(x.name) + "' ";
		return s.size() > 300 ? s.substr(0, 300) + "..." : s;
	}

	void explore(mc::Run& r) {
		quiet_log();
		std::vector<std::string> const alpha {"", "A", "AA", "AB", "B", "a", "DIA_1", "DIA_10", "DIA_2", "\xe4", "A B"};
		auto line = [](std::string n, size_t i) {
			Line l;
			l.name = std::move(n);
			l.text = mc::fmt("text %zu", i);
			l.sound = mc::fmt("SND_%zu.WAV", i);
			l.type = static_cast<uint32_t>(i % 5);
			l.depth = static_cast<int>(i % 3);
			l.prio = i & 1, l.used = i & 2, l.deleted = i & 4;
			return l;
		};
		auto run = [&](char const* fam, Lib const& lib, Store const& st, std::vector<std::string> const& q) {
			r.run_case(
			    fam,
			    [&] {
				    auto b = store(lib, st);
				    auto l = load(b, st);
				    check(l != nullptr, "no-library", "the library is not loaded");
				    ask(r, *l, lib, q, st.save);
				    r.outcome(mc::hash_bytes(b.data(), b.size()));
				    // saved again, it answers the same
				    Bytes out;
				    auto w = Write::to(&out);
				    auto ar = st.save ? WriteArchive::to_save(w.get(), static_cast<ArchiveFormat>(st.f)) : WriteArchive::to(w.get(), static_cast<ArchiveFormat>(st.f));
				    ar->write_object("%", l.get(), st.ver());
				    ar->write_header();
				    auto l2 = load(out, st);
				    check(l2 != nullptr, "no-library", "the library is not loaded after saving it again");
				    ask(r, *l2, lib, q, st.save);
			    },
			    [&] { return st.str() + ": " + names(lib); });
		};
		auto q = neighbours(alpha);
		auto orders = [&](size_t n, bool repeat, std::vector<Store> const& sts, char const* fam) {
			tuples(static_cast<int>(n), static_cast<int>(alpha.size()), [&](std::vector<int> const& v) {
				std::set<int> s(v.begin(), v.end());
				if ((s.size() != v.size()) != repeat) return;
				Lib lib;
				for (size_t i = 0; i < v.size(); ++i) lib.push_back(line(alpha[static_cast<size_t>(v[i])], i));
				for (auto& st : sts) run(fam, lib, st, q);
			});
		};
		std::vector<Store> all;
		for (int f = 0; f < 3; ++f)
			for (int save = 0; save < 2; ++save)
				for (int g = 0; g < 2; ++g)
					for (int how = 0; how < 2; ++how) all.push_back({f, save, g, how});
		std::vector<Store> some {{0, 0, 1, 0}, {1, 1, 0, 1}, {2, 0, 1, 1}};
		for (size_t n = 0; n <= 2; ++n) orders(n, false, all, "orders");
		orders(2, true, all, "repeated-names");
		orders(3, false, r.tier(some, all), "orders");
		orders(3, true, r.tier(some, all), "repeated-names");
		orders(4, false, r.tier(std::vector<Store> {some[0]}, some), "orders");
		if (!r.quick_) orders(5, false, {some[0]}, "orders");

		// every contents of one line between two others
		std::vector<std::string> const texts {"", " ", "a", "Hello, world!", "\xdc\x62\x65r", "a=b:c", "[x]", std::string(300, 't')};
		for (size_t t = 0; t < texts.size(); ++t)
			for (size_t s = 0; s < texts.size(); ++s)
				for (uint32_t type : {0u, 1u, 2u, 65535u})
					for (int flags = 0; flags < 8; ++flags)
						for (int depth = 0; depth < 4; ++depth) {
							auto i = (t * 8 + s + type + static_cast<size_t>(flags + depth));
							std::vector<Store> sts;
							if (flags == 0 || !r.quick_)
								sts = all;
							else
								sts = {all[i % all.size()]};
							Lib lib {line("C", 0), line("B", 1), line("A", 2)};
							lib[1].text = texts[t], lib[1].sound = texts[s], lib[1].type = type, lib[1].depth = depth;
							lib[1].prio = flags & 1, lib[1].used = flags & 2, lib[1].deleted = flags & 4;
							for (auto& st : sts) {
								if (st.f == 0 && type > 255) continue; // binary archives hold enumerations in one byte
								if (st.f == 2 && t == 1) continue;
								run("contents", lib, st, {"A", "B", "C", "D"});
							}
						}

		// larger libraries: every size, several stored orders
		auto sizes = r.tier(70ul, 300ul);
		for (size_t n = 5; n <= sizes; ++n)
			for (int order = 0; order < 4; ++order)
				for (int style = 0; style < 2; ++style) {
					std::vector<std::string> ns;
					for (size_t i = 0; i < n; ++i) ns.push_back(style ? mc::fmt("DIA_%zu", i) : mc::fmt("DIA_%c%c_%zu", static_cast<char>('A' + i % 26), static_cast<char>(i % 3 ? 'a' : 'B'), i / 26));
					auto qs = neighbours(ns);
					std::vector<size_t> p(n);
					for (size_t i = 0; i < n; ++i) p[i] = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i + n / 2) % n : (i % 2 ? n - 1 - i / 2 : i / 2);
					Lib lib;
					for (auto i : p) lib.push_back(line(ns[i], i));
					run("large", lib, some[(n + static_cast<size_t>(order)) % 3], qs);
				}

		// a library object used before: nothing of the first library is left
		for (size_t n1 = 0; n1 <= 4; ++n1)
			for (size_t n2 = 0; n2 <= 4; ++n2)
				for (size_t shift = 0; shift < alpha.size(); ++shift)
					for (auto& st : all)
						r.run_case(
						    "loaded twice",
						    [&] {
							    Lib a, b;
							    for (size_t i = 0; i < n1; ++i) a.push_back(line(alpha[(i * 7 + 3) % alpha.size()], i));
							    for (size_t i = 0; i < n2; ++i) b.push_back(line(alpha[(i * 4 + shift) % alpha.size()], i + 1));
							    CutsceneLibrary l;
							    for (auto* x : {&a, &b}) {
								    auto bytes = store(*x, st);
								    auto in = Read::from(bytes);
								    auto ar = ReadArchive::from(in.get());
								    ArchiveObject o;
								    check(ar->read_object_begin(o), "no-library", "no object in the archive");
								    l.load(*ar, st.ver());
								    check(ar->read_object_end(), "object-end", "the library ends elsewhere");
								    ask(r, l, *x, q, st.save);
							    }
						    },
						    [&] { return st.str() + mc::fmt(": %zu lines, then %zu lines from name %zu on", n1, n2, shift); });

		// replacing the message of any line of any library of up to four lines
		for (size_t n = 1; n <= 4; ++n)
			for (size_t k = 0; k < n; ++k)
				for (int depth = 0; depth < 4; ++depth)
					for (auto& st : all)
						r.run_case(
						    "replace",
						    [&] {
							    Lib lib;
							    for (size_t i = 0; i < n; ++i) lib.push_back(line(alpha[(i * 7 + 3) % alpha.size()], i));
							    lib[k].depth = depth;
							    auto l = load(store(lib, st), st);
							    check(l != nullptr, "no-library", "the library is not loaded");
							    auto b = l->block_by_name(lib[k].name);
							    check(b != nullptr, "not-found", "the line '" + esc(lib[k].name) + "' is not found");
							    auto m = std::make_shared<ConversationMessageEvent>();
							    m->text = lib[k].text = "replaced";
							    m->name = lib[k].sound = "REPLACED.WAV";
							    m->type = lib[k].type = 3;
							    lib[k].prio = lib[k].used = lib[k].deleted = false;
							    b->set_message(m);
							    check(b->get_message() == m, "set-message", "the message set is not the message got");
							    ask(r, *l, lib, q, st.save);
							    Bytes out;
							    auto w = Write::to(&out);
							    auto ar = st.save ? WriteArchive::to_save(w.get(), static_cast<ArchiveFormat>(st.f)) : WriteArchive::to(w.get(), static_cast<ArchiveFormat>(st.f));
							    ar->write_object("%", l.get(), st.ver());
							    ar->write_header();
							    auto l2 = load(out, st);
							    check(l2 != nullptr, "no-library", "the library is not loaded after saving it again");
							    ask(r, *l2, lib, q, st.save);
						    },
						    [&] { return st.str() + mc::fmt(": line %zu of %zu (depth %d) replaced", k, n, depth); });
	}
} // namespace
MC_MAIN(explore)
