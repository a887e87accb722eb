// P10: object graphs keep their identity through archives. Every small reference graph (sharing, cycles, null, weak
// references, temporaries) is saved and loaded; the loaded graph must be isomorphic to the saved one.
#include "vobmodel.hh"
using namespace mcz;

namespace {
	using Ref = std::shared_ptr<Object>;
	ArchiveFormat const FORMATS[] = {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII};

	/// outgoing references of an object, in a fixed order
	std::vector<std::pair<std::string, Ref>> refs(Object& o) {
		std::vector<std::pair<std::string, Ref>> r;
		if (auto* v = dynamic_cast<VirtualObject*>(&o)) {
			if (v->visual && v->visual->type != VisualType::UNKNOWN) r.emplace_back("visual", v->visual);
			else r.emplace_back("visual", nullptr);
			r.emplace_back("ai", v->ai);
			r.emplace_back("event_manager", v->event_manager);
		}
		if (auto* n = dynamic_cast<VNpc*>(&o)) {
			for (auto& x : n->talents)
				r.emplace_back("talent", x);
			r.emplace_back("carry", n->carry_vob);
			r.emplace_back("enemy", n->enemy);
			r.emplace_back(mc::fmt("%zu items", n->items.size()), nullptr);
			for (auto& x : n->items)
				r.emplace_back("item", x);
			r.emplace_back(mc::fmt("%zu slots", n->slots.size()), nullptr);
			for (auto& x : n->slots)
				if (x->used) r.emplace_back("slot", x->item);
		}
		if (auto* c = dynamic_cast<VContainer*>(&o)) {
			r.emplace_back(mc::fmt("%zu s_items", c->s_items.size()), nullptr);
			for (auto& x : c->s_items)
				r.emplace_back("s_item", x);
		}
		if (auto* t = dynamic_cast<VTrigger*>(&o)) r.emplace_back("other", t->s_other_vob);
		if (auto* c = dynamic_cast<VCutsceneCamera*>(&o)) {
			for (auto& x : c->trajectory_frames)
				r.emplace_back("trajectory", x);
			for (auto& x : c->target_frames)
				r.emplace_back("target", x);
		}
		if (auto* a = dynamic_cast<AiHuman*>(&o)) r.emplace_back("npc", a->npc.lock());
		if (auto* a = dynamic_cast<AiMove*>(&o)) {
			r.emplace_back("vob", a->vob.lock());
			r.emplace_back("owner", a->owner.lock());
		}
		if (auto* e = dynamic_cast<EventManager*>(&o)) r.emplace_back("cutscene", e->cutscene.lock());
		if (auto* c = dynamic_cast<CutscenePlayer*>(&o))
			for (auto& x : c->playlists)
				r.emplace_back("playlist", x.lock());
		if (auto* b = dynamic_cast<CutsceneBlock*>(&o)) {
			if (b->block.index() == 0) r.emplace_back("atomic", std::get<0>(b->block));
			else r.emplace_back("block", std::get<1>(b->block));
		}
		if (auto* b = dynamic_cast<CutsceneAtomicBlock*>(&o)) r.emplace_back("message", b->message);
		if (auto* c = dynamic_cast<CutsceneContext*>(&o)) {
			r.emplace_back("props", c->props);
			r.emplace_back("npc", c->npc.lock());
			r.emplace_back("main_role", c->main_role.lock());
			r.emplace_back("alt_stage", c->alt_stage);
			r.emplace_back("stage", c->stage);
		}
		return r;
	}

	std::string label(Object& o) {
		std::string s = std::to_string(static_cast<int>(o.get_object_type())) + ":";
		if (auto* v = dynamic_cast<VirtualObject*>(&o)) s += v->vob_name;
		if (auto* v = dynamic_cast<VItem*>(&o)) s += "/" + v->instance;
		if (auto* v = dynamic_cast<AiHuman*>(&o)) s += std::to_string(v->walk_mode);
		if (auto* v = dynamic_cast<Visual*>(&o)) s += v->name;
		if (auto* v = dynamic_cast<VNpc::Talent*>(&o)) s += std::to_string(v->value);
		if (auto* v = dynamic_cast<CutsceneBlock*>(&o)) s += v->name;
		if (auto* v = dynamic_cast<ConversationMessageEvent*>(&o)) s += v->text;
		if (auto* v = dynamic_cast<CutsceneProps*>(&o)) s += v->name;
		return s;
	}

	struct Iso {
		std::map<Object*, Object*> fwd, bwd;
		size_t edges = 0;
		void match(Ref const& a, Ref const& b, std::string const& path) {
			++edges;
			check((a == nullptr) == (b == nullptr), "null", mc::fmt("%s: saved %s, loaded %s", path.c_str(), a ? label(*a).c_str() : "null", b ? label(*b).c_str() : "null"));
			if (!a) return;
			check(label(*a) == label(*b), "partner", mc::fmt("%s: saved a reference to %s, loaded one to %s", path.c_str(), label(*a).c_str(), label(*b).c_str()));
			auto f = fwd.find(a.get());
			auto g = bwd.find(b.get());
			if (f != fwd.end()) {
				check(f->second == b.get(), "split", mc::fmt("%s: %s was one object and is now several", path.c_str(), label(*a).c_str()));
				return;
			}
			check(g == bwd.end(), "merged", mc::fmt("%s: %s was distinct from another object and is now the same", path.c_str(), label(*a).c_str()));
			fwd[a.get()] = b.get();
			bwd[b.get()] = a.get();
			auto ra = refs(*a), rb = refs(*b);
			check(ra.size() == rb.size(), "degree", mc::fmt("%s: %s has %zu references, loaded %zu", path.c_str(), label(*a).c_str(), ra.size(), rb.size()));
			for (size_t i = 0; i < ra.size(); ++i) {
				check(ra[i].first == rb[i].first, "degree", mc::fmt("%s: %s: %s became %s", path.c_str(), label(*a).c_str(), ra[i].first.c_str(), rb[i].first.c_str()));
				match(ra[i].second, rb[i].second, path + "." + ra[i].first);
			}
		}
	};

	void round(mc::Run& r, std::vector<Ref> const& roots, ArchiveFormat f, bool save = true, GameVersion g = GameVersion::GOTHIC_2) {
		Bytes out;
		auto w = Write::to(&out);
		auto ar = save ? WriteArchive::to_save(w.get(), f) : WriteArchive::to(w.get(), f);
		ar->write_int("n", static_cast<int32_t>(roots.size()));
		for (size_t i = 0; i < roots.size(); ++i)
			ar->write_object(i % 2 ? "%" : "root", roots[i], g);
		ar->write_int("sentinel", 77);
		ar->write_header();
		auto in = Read::from(&out);
		auto ra = ReadArchive::from(in.get());
		check(ra->read_int() == static_cast<int32_t>(roots.size()), "count", "root count");
		std::vector<Ref> got;
		for (size_t i = 0; i < roots.size(); ++i)
			got.push_back(ra->read_object(g));
		check(ra->read_int() == 77, "sentinel", "entry behind the objects not reached");
		Iso iso;
		for (size_t i = 0; i < roots.size(); ++i)
			iso.match(roots[i], got[i], mc::fmt("root%zu", i));
		r.trans(iso.edges);
		r.state(mc::hash_bytes(out.data(), out.size()));
		r.outcome(iso.edges * 64 + iso.fwd.size());
	}

	std::shared_ptr<VNpc> npc(int i) {
		auto n = std::make_shared<VNpc>();
		n->vob_name = mc::fmt("NPC%d", i);
		return n;
	}
	std::shared_ptr<VItem> item(int i) {
		auto n = std::make_shared<VItem>();
		n->vob_name = mc::fmt("ITEM%d", i);
		n->instance = mc::fmt("INST%d", i);
		n->s_flags = i == 1 ? 0x200 : 0;
		return n;
	}
	template <typename T>
	std::shared_ptr<T> pick(std::vector<std::shared_ptr<T>> const& v, int i) {
		return i == 0 ? nullptr : v[static_cast<size_t>(i - 1)];
	}

	/// hands out the same memory again as soon as it is free, as ordinary allocators may
	template <typename T>
	struct Reuse {
		using value_type = T;
		Reuse() = default;
		template <typename U>
		Reuse(Reuse<U> const&) {}
		static std::pair<bool, std::aligned_storage_t<8192, 64>>* slots() {
			static std::pair<bool, std::aligned_storage_t<8192, 64>> s[8];
			return s;
		}
		T* allocate(size_t n) {
			static_assert(sizeof(T) <= 8192);
			if (n != 1) throw std::bad_alloc();
			for (int i = 0; i < 8; ++i)
				if (!Reuse<char>::slots()[i].first) {
					Reuse<char>::slots()[i].first = true;
					return reinterpret_cast<T*>(&Reuse<char>::slots()[i].second);
				}
			throw std::bad_alloc();
		}
		void deallocate(T* p, size_t) {
			for (int i = 0; i < 8; ++i)
				if (reinterpret_cast<T*>(&Reuse<char>::slots()[i].second) == p) Reuse<char>::slots()[i].first = false;
		}
		template <typename U>
		bool operator==(Reuse<U> const&) const {
			return true;
		}
		template <typename U>
		bool operator!=(Reuse<U> const&) const {
			return false;
		}
	};

	std::string digits(std::vector<int> const& d) {
		std::string s;
		for (int x : d)
			s += std::to_string(x) + " ";
		return s;
	}

	/// breaks strong cycles so that cases don't leak
	struct Breaker {
		std::vector<Ref> all;
		~Breaker() {
			for (auto& o : all) {
				if (auto* n = dynamic_cast<VNpc*>(o.get())) {
					n->enemy = n->carry_vob = nullptr;
					n->items.clear();
					n->slots.clear();
				}
				if (auto* t = dynamic_cast<VTrigger*>(o.get())) t->s_other_vob = nullptr;
				if (auto* t = dynamic_cast<VirtualObject*>(o.get())) {
					t->ai = nullptr;
					t->event_manager = nullptr;
				}
				if (auto* c = dynamic_cast<CutsceneContext*>(o.get())) c->stage = c->alt_stage = nullptr;
			}
		}
	};

	void explore(mc::Run& r) {
		quiet_log();
		// strong references among NPCs: every enemy/carry assignment x every root sequence
		int N = r.tier(2, 3);
		for (int nroots = 1; nroots <= 3; ++nroots)
			tuples(nroots, N + 1, [&](std::vector<int> const& roots) {
				tuples(2 * N, N + 1, [&](std::vector<int> const& d) {
					for (auto f : FORMATS)
						r.run_case(
						    "npc-refs",
						    [&] {
							    std::vector<std::shared_ptr<VNpc>> n;
							    Breaker br;
							    for (int i = 0; i < N; ++i) {
								    n.push_back(npc(i));
								    br.all.push_back(n.back());
							    }
							    for (int i = 0; i < N; ++i) {
								    n[static_cast<size_t>(i)]->enemy = pick(n, d[static_cast<size_t>(2 * i)]);
								    n[static_cast<size_t>(i)]->carry_vob = pick(n, d[static_cast<size_t>(2 * i + 1)]);
							    }
							    std::vector<Ref> rs;
							    for (int x : roots)
								    rs.push_back(pick(n, x));
							    round(r, rs, f, (d[0] + roots[0]) % 2 == 0, nroots == 2 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2);
						    },
						    [&] { return mc::fmt("%s roots %s enemy/carry per npc %s", FMT[static_cast<int>(f)], digits(roots).c_str(), digits(d).c_str()); });
				});
			});

		// quick: three objects with one reference each, every sequence of two roots
		tuples(2, 4, [&](std::vector<int> const& roots) {
			tuples(3, 4, [&](std::vector<int> const& d) {
				tuples(3, 2, [&](std::vector<int> const& which) {
					for (auto f : FORMATS)
						r.run_case(
						    "npc-chain",
						    [&] {
							    std::vector<std::shared_ptr<VNpc>> n;
							    Breaker br;
							    for (int i = 0; i < 3; ++i) {
								    n.push_back(npc(i));
								    br.all.push_back(n.back());
							    }
							    for (size_t i = 0; i < 3; ++i)
								    (which[i] ? n[i]->enemy : n[i]->carry_vob) = pick(n, d[i]);
							    std::vector<Ref> rs;
							    for (int x : roots)
								    rs.push_back(pick(n, x));
							    round(r, rs, f);
						    },
						    [&] { return mc::fmt("%s roots %s refs %s which %s", FMT[static_cast<int>(f)], digits(roots).c_str(), digits(d).c_str(), digits(which).c_str()); });
				});
			});
		});

		// items shared between inventories, slots and containers
		// per owner: item list (13 combos over {null,i0,i1} up to length 2) and slot (none, null, i0, i1)
		std::vector<std::vector<int>> lists;
		for (int n = 0; n <= 2; ++n)
			tuples(n, 3, [&](std::vector<int> const& t) { lists.push_back(t); });
		for (auto const& la : lists)
			for (auto const& lb : lists)
				for (int sa = 0; sa < 4; ++sa)
					for (int sb = 0; sb < 4; ++sb)
						for (int kind = 0; kind < 3; ++kind) // owners: npc+npc, npc+container, container+npc
							for (auto f : FORMATS) {
								if (kind != 0 && sb != 0) continue;
								r.run_case(
								    "items",
								    [&] {
									    std::vector<std::shared_ptr<VItem>> it {item(0), item(1)};
									    auto own = [&](bool cont, int i, std::vector<int> const& l, int s) -> Ref {
										    if (cont) {
											    auto c = std::make_shared<VContainer>();
											    c->vob_name = mc::fmt("BOX%d", i);
											    for (int x : l)
												    c->s_items.push_back(pick(it, x));
											    return c;
										    }
										    auto n = npc(i);
										    for (int x : l)
											    n->items.push_back(pick(it, x));
										    if (s > 0) {
											    n->slots.push_back(std::make_unique<VNpc::Slot>());
											    n->slots[0]->used = true;
											    n->slots[0]->item = pick(it, s - 1);
										    }
										    return n;
									    };
									    Breaker br;
									    br.all = {own(kind == 2, 0, la, sa), own(kind == 1, 1, lb, sb)};
									    round(r, br.all, f);
								    },
								    [&] { return mc::fmt("%s owners kind %d lists [%s] [%s] slots %d %d", FMT[static_cast<int>(f)], kind, digits(la).c_str(), digits(lb).c_str(), sa, sb); });
							}

		// AIs: two NPCs; the AI of each is none, human(npc), move(vob, owner), or the other's AI object
		// choices: 0 none; 1..3 human -> null,n0,n1; 4..15 move: vob in {null,n0,n1,item} x owner in {null,n0,n1}; 16 shared
		for (int a = 0; a < 16; ++a)
			for (int b = 0; b < 17; ++b)
				for (int en = 0; en < 3; ++en)
					for (auto f : FORMATS)
						for (bool save : {false, true})
							r.run_case(
							    "ai",
							    [&] {
								    std::vector<std::shared_ptr<VNpc>> n {npc(0), npc(1)};
								    auto it = item(0);
								    auto mk = [&](int c) -> std::shared_ptr<Ai> {
									    if (c == 0) return nullptr;
									    if (c < 4) {
										    auto h = std::make_shared<AiHuman>();
										    h->walk_mode = c;
										    h->npc = pick(n, c - 1);
										    return h;
									    }
									    auto m = std::make_shared<AiMove>();
									    int v = (c - 4) % 4, o = (c - 4) / 4;
									    if (v == 3)
										    m->vob = it;
									    else if (v > 0)
										    m->vob = n[static_cast<size_t>(v - 1)];
									    m->owner = pick(n, o);
									    return m;
								    };
								    Breaker br;
								    br.all = {n[0], n[1], it};
								    n[0]->ai = mk(a);
								    n[1]->ai = b == 16 ? n[0]->ai : mk(b);
								    n[0]->enemy = pick(n, en);
								    round(r, br.all, f, save);
							    },
							    [&] { return mc::fmt("%s ai0 %d ai1 %d enemy %d save %d", FMT[static_cast<int>(f)], a, b, en, save); });

		// triggers pointing at triggers/items, cameras sharing key frames, shared visuals, talents
		for (auto f : FORMATS) {
			tuples(3, 5, [&](std::vector<int> const& d) { // other_vob of three triggers: null, t0, t1, t2, item
				r.run_case(
				    "triggers",
				    [&] {
					    std::vector<std::shared_ptr<VirtualObject>> t;
					    Breaker br;
					    for (int i = 0; i < 3; ++i) {
						    t.push_back(i == 1 ? std::static_pointer_cast<VirtualObject>(std::make_shared<VMover>()) : std::make_shared<VTrigger>());
						    t.back()->vob_name = mc::fmt("TRG%d", i);
						    br.all.push_back(t.back());
					    }
					    t.push_back(item(0));
					    for (size_t i = 0; i < 3; ++i)
						    dynamic_cast<VTrigger&>(*t[i]).s_other_vob = pick(t, d[i]);
					    round(r, br.all, f);
				    },
				    [&] { return mc::fmt("%s other %s", FMT[static_cast<int>(f)], digits(d).c_str()); });
			});
			for (int n = 0; n <= 4; ++n)
				tuples(n, 3, [&](std::vector<int> const& d) {
					for (int split = 0; split <= n; ++split)
						r.run_case(
						    "frames",
						    [&] {
							    std::vector<std::shared_ptr<VCameraTrajectoryFrame>> fr;
							    for (int i = 0; i < 2; ++i) {
								    fr.push_back(std::make_shared<VCameraTrajectoryFrame>());
								    fr.back()->vob_name = mc::fmt("FRAME%d", i);
							    }
							    auto c = std::make_shared<VCutsceneCamera>();
							    c->vob_name = "CAM";
							    for (int i = 0; i < n; ++i)
								    (i < split ? c->trajectory_frames : c->target_frames).push_back(pick(fr, d[static_cast<size_t>(i)]));
							    c->position_count = split;
							    c->target_count = n - split;
							    round(r, {c, fr[1], nullptr, c}, f, (n & 1) != 0);
						    },
						    [&] { return mc::fmt("%s frames %s split %d", FMT[static_cast<int>(f)], digits(d).c_str(), split); });
				});
			tuples(4, 3, [&](std::vector<int> const& d) { // visuals of four vobs
				for (int type = 0; type < 7; ++type)
					r.run_case(
					    "visuals",
					    [&] {
						    std::vector<std::shared_ptr<Visual>> vs {make_visual(type), make_visual((type + 3) % 7)};
						    vs[0]->name = "A.3DS";
						    vs[1]->name = "B.3DS";
						    std::vector<Ref> roots;
						    for (int x : d) {
							    auto v = std::make_shared<VirtualObject>();
							    v->vob_name = mc::fmt("VOB%zu", roots.size());
							    v->visual = pick(vs, x);
							    roots.push_back(v);
						    }
						    round(r, roots, f, (type & 1) != 0, type > 3 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2);
					    },
					    [&] { return mc::fmt("%s visuals %s type %d", FMT[static_cast<int>(f)], digits(d).c_str(), type); });
			});
			tuples(4, 3, [&](std::vector<int> const& d) {
				r.run_case(
				    "talents",
				    [&] {
					    std::vector<std::shared_ptr<VNpc::Talent>> t;
					    for (int i = 0; i < 2; ++i) {
						    t.push_back(std::make_shared<VNpc::Talent>());
						    t.back()->value = i;
					    }
					    auto a = npc(0), b = npc(1);
					    a->talents = {pick(t, d[0]), pick(t, d[1])};
					    b->talents = {pick(t, d[2]), pick(t, d[3])};
					    round(r, {a, b}, f, d[0] != 0);
				    },
				    [&] { return mc::fmt("%s talents %s", FMT[static_cast<int>(f)], digits(d).c_str()); });
			});
		}

		// cutscenes: event managers and a player sharing contexts, contexts pointing back at NPCs and stages
		tuples(4, 3, [&](std::vector<int> const& em) {     // event manager of npc0/npc1 (none, e0, e1), context of e0/e1
			tuples(4, 3, [&](std::vector<int> const& cx) { // npc of ctx0, main role of ctx0, npc of ctx1, stage of ctx1
				for (int pl = 0; pl < 3; ++pl)
					for (auto f : FORMATS)
						r.run_case(
						    "cutscenes",
						    [&] {
							    std::vector<std::shared_ptr<VNpc>> n {npc(0), npc(1)};
							    std::vector<std::shared_ptr<EventManager>> e {std::make_shared<EventManager>(), std::make_shared<EventManager>()};
							    std::vector<std::shared_ptr<CutsceneContext>> c;
							    auto prop = std::make_shared<CutsceneProps>();
							    prop->name = "PROPS";
							    for (int i = 0; i < 2; ++i) {
								    c.push_back(std::make_shared<CutsceneContext>());
								    c.back()->name = mc::fmt("CTX%d", i);
								    auto ab = std::make_shared<CutsceneAtomicBlock>();
								    ab->message->text = mc::fmt("MSG%d", i);
								    c.back()->block = ab;
								    c.back()->props = pl == 2 ? nullptr : prop;
							    }
							    if (pl == 1) std::get<0>(c[1]->block)->message = std::get<0>(c[0]->block)->message;
							    e[0]->active = true;
							    n[0]->event_manager = pick(e, em[0]);
							    n[1]->event_manager = pick(e, em[1]);
							    e[0]->cutscene = pick(c, em[2]);
							    e[1]->cutscene = pick(c, em[3]);
							    c[0]->npc = pick(n, cx[0]);
							    c[0]->main_role = pick(n, cx[1]);
							    c[1]->npc = pick(n, cx[2]);
							    c[1]->stage = pick(n, cx[3]);
							    auto p = std::make_shared<CutscenePlayer>();
							    for (int i = 0; i < pl; ++i)
								    p->playlists.push_back(c[static_cast<size_t>(i)]);
							    Breaker br;
							    br.all = {n[0], p, n[1]};
							    br.all.push_back(c[0]);
							    br.all.push_back(c[1]);
							    round(r, br.all, f);
						    },
						    [&] { return mc::fmt("%s managers %s contexts %s playlists %d", FMT[static_cast<int>(f)], digits(em).c_str(), digits(cx).c_str(), pl); });
			});
		});

		// every object type: an object directly shared by two roots, one root only, or two equal objects
		{
			struct T {
				char const* n;
				Ref (*mk)();
			};
#define X(T) {#T, [] { return std::static_pointer_cast<Object>(std::make_shared<T>()); }},
			std::vector<T> const types = {MCZ_OBJECTS(X)};
#undef X
			for (auto& t : types)
				tuples(4, 3, [&](std::vector<int> const& d) {
					for (auto f : FORMATS)
						r.run_case(
						    "every-type",
						    [&] {
							    std::vector<Ref> o {t.mk(), t.mk()};
							    for (auto& x : o)
								    if (auto* b = dynamic_cast<CutsceneBlock*>(x.get())) b->block = std::make_shared<CutsceneAtomicBlock>();
							    std::vector<Ref> roots;
							    for (int x : d)
								    roots.push_back(pick(o, x));
							    round(r, roots, f, d[3] != 1, d[2] == 1 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2);
						    },
						    [&] { return mc::fmt("%s %s roots %s", t.n, FMT[static_cast<int>(f)], digits(d).c_str()); });
				});
		}

		// objects which only live while they are being written stay distinct, whatever address the next one gets
		for (int n = 2; n <= 5; ++n)
			for (int kind = 0; kind < 4; ++kind)
				for (bool raw : {false, true})
					for (auto f : FORMATS)
						r.run_case(
						    "temporaries",
						    [&] {
							    Bytes out;
							    auto w = Write::to(&out);
							    auto ar = WriteArchive::to_save(w.get(), f);
							    auto mk = [&](int i) -> Ref {
								    if (kind == 0 || (kind == 2 && i % 2)) {
									    auto x = std::allocate_shared<VItem>(Reuse<VItem> {});
									    x->vob_name = mc::fmt("ITEM%d", i);
									    return x;
								    }
								    if (kind == 3) {
									    auto x = std::allocate_shared<WayPoint>(Reuse<WayPoint> {});
									    x->name = mc::fmt("WP%d", i);
									    return x;
								    }
								    auto x = std::allocate_shared<VNpc>(Reuse<VNpc> {});
								    x->vob_name = mc::fmt("NPC%d", i);
								    return x;
							    };
							    for (int i = 0; i < n; ++i) {
								    if (raw) {
									    auto o = mk(i);
									    ar->write_object("o", o.get(), GameVersion::GOTHIC_2);
								    } else {
									    ar->write_object("o", mk(i), GameVersion::GOTHIC_2);
								    }
							    }
							    ar->write_header();
							    auto in = Read::from(&out);
							    auto ra = ReadArchive::from(in.get());
							    std::set<Object*> seen;
							    std::vector<Ref> keep;
							    for (int i = 0; i < n; ++i) {
								    auto o = ra->read_object(GameVersion::GOTHIC_2);
								    check(o != nullptr, "lost", "object lost");
								    keep.push_back(o);
								    check(seen.insert(o.get()).second, "merged", mc::fmt("object %d is the same as an earlier one", i));
								    std::string want = label(*mk(i)), have = label(*o);
								    if (kind == 3) {
									    want = mc::fmt("WP%d", i);
									    have = dynamic_cast<WayPoint&>(*o).name;
								    }
								    check(want == have, "partner", mc::fmt("object %d is %s, want %s", i, have.c_str(), want.c_str()));
							    }
							    r.trans(static_cast<uint64_t>(2 * n));
						    },
						    [&] { return mc::fmt("%s %d temporaries kind %d %s", FMT[static_cast<int>(f)], n, kind, raw ? "raw pointer" : "shared pointer"); });

		// more objects than fit into 16 bits, with references to objects from all over the file
		for (int n : {255, 257, 32769, 65537, 66000})
			for (auto f : FORMATS)
				for (int step : {1, 777})
					r.run_case(
					    "many",
					    [&] {
						    std::vector<Ref> roots;
						    for (int i = 0; i < n; ++i) {
							    auto t = std::make_shared<VNpc::Talent>();
							    t->value = i;
							    roots.push_back(t);
						    }
						    if (step == 1)
							    for (int i : {n - 1, 0, 1, 127, 128, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, n - 2})
								    if (i < n) roots.push_back(roots[static_cast<size_t>(i)]);
						    if (step > 1)
							    for (int i = 0; i < n; i += step) roots.push_back(roots[static_cast<size_t>(n - 1 - i)]), roots.push_back(roots[static_cast<size_t>(i)]);
						    round(r, roots, f);
					    },
					    [&] { return mc::fmt("%s: %d objects, references to %s", FMT[static_cast<int>(f)], n, step == 1 ? "the corners" : "objects all over"); });
	}
} // namespace
MC_MAIN(explore)
