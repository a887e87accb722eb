// P03: chunk framing -- every layout of chunks, every consumer behaviour, every truncation point.
#include "common.hh"
#include <fstream>
using namespace zenkit;
using namespace mcz;

namespace {
	enum class Tag : uint16_t {};

	struct Chunk {
		uint16_t tag;
		std::string data;                // payload of a leaf
		std::vector<Chunk> sub;          // or nested chunks
	};

	std::string payload(size_t n, int salt) {
		std::string s;
		for (size_t i = 0; i < n; ++i)
			s += static_cast<char>(salt * 31 + static_cast<int>(i) * 5 + 1);
		return s;
	}

	void ref_write(Out& o, Chunk const& c) {
		o.u16(c.tag);
		size_t at = o.s.size();
		o.u32(0);
		o.str(c.data);
		for (auto& s : c.sub) ref_write(o, s);
		o.put32(at, static_cast<uint32_t>(o.s.size() - at - 4));
	}
	void lib_write(Write* w, Chunk const& c) {
		proto::write_chunk<Tag>(w, static_cast<Tag>(c.tag), [&](Write* x) {
			x->write_string(c.data);
			for (auto& s : c.sub) lib_write(x, s);
		});
	}

	enum Eat { NOTHING, ONE, HALF, ALL, OVER, SEEKY, N_EAT };
	char const* EAT[] = {"nothing", "one byte", "half", "all", "more than the payload", "back and forth"};

	/// reads `cs` with consumer behaviours `eat`; both callback flavours
	void consume(mc::Run& r, Read* rd, std::vector<Chunk> const& cs, std::vector<int> const& eat, int stop_after, bool sized, char const* src, size_t tail) {
		size_t i = 0;
		auto start = rd->tell();
		std::vector<size_t> ends;
		{
			Out o;
			for (auto& c : cs) {
				ref_write(o, c);
				ends.push_back(start + o.s.size());
			}
		}
		auto body = [&](Read* x, uint16_t tag, size_t end) -> bool {
			r.trans();
			check(i < cs.size(), "extra-chunk", mc::fmt("%s: chunk #%zu (tag %04x) delivered but only %zu were written", src, i, tag, cs.size()));
			auto& c = cs[i];
			check(tag == c.tag, "tag", mc::fmt("%s: chunk #%zu has tag %04x want %04x", src, i, tag, c.tag));
			if (sized) check(end == ends[i], "end", mc::fmt("%s: chunk #%zu end %zu want %zu", src, i, end, ends[i]));
			Out full;
			full.str(c.data);
			for (auto& s : c.sub) ref_write(full, s);
			size_t n = full.s.size();
			check(x->tell() + n == ends[i], "start", mc::fmt("%s: chunk #%zu payload starts at %zu want %zu", src, i, x->tell(), ends[i] - n));
			size_t want = n;
			switch (eat[i]) {
			case NOTHING: want = 0; break;
			case ONE: want = std::min<size_t>(1, n); break;
			case HALF: want = n / 2; break;
			case ALL: break;
			case OVER: {
				(void) !x->read_string(n).size();
				(void) !x->read_string(std::min<size_t>(3, ends.back() + tail - x->tell())).size();
				want = 0;
				break;
			}
			case SEEKY:
				x->seek(static_cast<ssize_t>(n), Whence::CUR);
				x->seek(static_cast<ssize_t>(ends[i] - n), Whence::BEG);
				break;
			}
			if (want) {
				auto got = x->read_string(want);
				check(got == full.s.substr(0, want), "payload", mc::fmt("%s: chunk #%zu payload [%s] want [%s]", src, i, mc::hex(got.data(), got.size()).c_str(), mc::hex(full.s.data(), want).c_str()));
			}
			return static_cast<int>(i++) == stop_after;
		};
		if (sized)
			proto::read_chunked<Tag>(rd, "mc", std::function<bool(Read*, Tag, size_t&)>([&](Read* x, Tag t, size_t& e) { return body(x, static_cast<uint16_t>(t), e); }));
		else
			proto::read_chunked<Tag>(rd, "mc", std::function<bool(Read*, Tag)>([&](Read* x, Tag t) { return body(x, static_cast<uint16_t>(t), 0); }));
		size_t expect = stop_after < 0 || stop_after >= static_cast<int>(cs.size()) ? cs.size() : static_cast<size_t>(stop_after) + 1;
		check(i == expect, "missing-chunk", mc::fmt("%s: %zu chunks delivered, want %zu", src, i, expect));
		if (expect) check(rd->tell() == ends[expect - 1], "final-position", mc::fmt("%s: reader at %zu after the last chunk, want %zu", src, rd->tell(), ends[expect - 1]));
	}

	std::string show(std::vector<Chunk> const& cs) {
		std::string s = "[";
		for (auto& c : cs)
			s += mc::fmt(" %04x/%zu%s", c.tag, c.data.size(), c.sub.empty() ? "" : show(c.sub).c_str());
		return s + " ]";
	}

	void explore(mc::Run& r) {
		quiet_log();
		std::filesystem::create_directories(r.scratch);
		size_t const sizes[] = {0, 1, 2, 7, 6, 300};
		uint16_t const tags[] = {0x0001, 0xB000, 0xffff};
		std::vector<Chunk> menu;
		for (size_t i = 0; i < std::size(sizes); ++i)
			menu.push_back({tags[i % 3], payload(sizes[i], static_cast<int>(i) + 3), {}});
		menu.push_back({0x1234, "", {{0x1000, payload(2, 9), {}}, {0x1010, "", {}}}});        // nested
		menu.push_back({0x0110, payload(3, 7), {{0x1000, payload(1, 2), {}}}});               // payload followed by nested
		int M = static_cast<int>(menu.size());
		std::string fp = r.scratch + "/c.bin";

		// 0. payloads around every power-of-two boundary a length field could be cut at, plain and nested,
		//    with a small chunk behind
		for (int bit = 7; bit <= r.tier(24, 26); ++bit)
			for (int delta : {-7, -6, -1, 0, 1})
				for (int nested = 0; nested < 2; ++nested) {
					if (bit > 17 && (delta < -1 || nested)) continue;
					size_t n = (size_t {1} << bit) + static_cast<size_t>(static_cast<ssize_t>(delta));
					auto make = [&] {
						Chunk big {0xB030, payload(n, 5), {}};
						std::vector<Chunk> cs;
						if (nested) cs.push_back({0x0110, payload(3, 7), {big, {0x1000, payload(2, 9), {}}}});
						else cs.push_back(big);
						cs.push_back({0x0001, payload(4, 2), {}});
						return cs;
					};
					r.run_case(
					    "large",
					    [&] {
						    auto cs = make();
						    Out ref;
						    for (auto& c : cs) ref_write(ref, c);
						    Bytes v;
						    auto w = Write::to(&v);
						    for (auto& c : cs) lib_write(w.get(), c), r.trans();
						    check(w->tell() == ref.s.size(), "write-position", "writer not behind the last chunk");
						    check(to_str(v) == ref.s, "write-bytes", mc::fmt("the %zu bytes written for a payload of %zu differ from the reference framing", v.size(), n));
						    for (int e : {NOTHING, ONE, HALF, ALL, SEEKY})
							    for (bool sized : {false, true}) {
								    auto mem = rd(ref.s);
								    consume(r, mem.get(), cs, {e, ALL}, -1, sized, "memory", 0);
								    if (bit > 17 && e != ALL) continue;
								    std::istringstream is(ref.s);
								    auto sr = Read::from(&is);
								    consume(r, sr.get(), cs, {e, ALL}, -1, sized, "istream", 0);
							    }
						    r.outcome(mc::hash_str("large", n * 2 + static_cast<size_t>(nested)));
					    },
					    [&] { return mc::fmt("payload of %zu bytes%s", n, nested ? ", nested" : ""); });
				}

		for (int n = 0; n <= r.tier(3, 4); ++n)
			tuples(n, n <= 3 ? M : 5, [&](std::vector<int> const& pick) {
				std::vector<Chunk> cs;
				for (int i : pick) cs.push_back(menu[static_cast<size_t>(i)]);
				Out ref;
				for (auto& c : cs) ref_write(ref, c);
				// 1. the writer produces exactly the framing
				r.run_case(
				    "write",
				    [&] {
					    for (int lead : {0, 3}) {
						    Bytes v;
						    std::ostringstream os;
						    FILE* f = fopen(fp.c_str(), "wb+");
						    auto wv = Write::to(&v), ws = Write::to(&os), wf = Write::to(f);
						    std::string pre(static_cast<size_t>(lead), 'L');
						    for (Write* w : {wv.get(), ws.get(), wf.get()}) {
							    w->write_string(pre);
							    for (auto& c : cs) lib_write(w, c), r.trans();
							    check(w->tell() == pre.size() + ref.s.size(), "write-position", "writer not behind the last chunk");
							    w->write_string("T");
						    }
						    wf.reset();
						    fclose(f);
						    std::ifstream in(fp, std::ios::binary);
						    std::stringstream ss;
						    ss << in.rdbuf();
						    auto want = pre + ref.s + "T";
						    for (auto& got : {to_str(v), os.str(), ss.str()})
							    check(got == want, "write-bytes", mc::fmt("wrote [%s] want [%s]", mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str()));
					    }
					    r.outcome(ref.s);
				    },
				    [&] { return "write " + show(cs); });
				// 1b. written over what a sink already holds: exactly the chunk's place changes, and the sink stands behind it
				r.run_case(
				    "overwrite",
				    [&] {
					    for (size_t extra : {size_t {0}, size_t {1}, size_t {40}}) {
						    std::string old(3 + ref.s.size() + extra, '#');
						    Bytes v;
						    std::stringstream os;
						    FILE* f = fopen(fp.c_str(), "wb+");
						    auto wv = Write::to(&v), ws = Write::to(&os), wf = Write::to(f);
						    auto want = "###" + ref.s + "T";
						    if (want.size() < old.size()) want += old.substr(want.size());
						    for (Write* w : {wv.get(), ws.get(), wf.get()}) {
							    w->write_string(old);
							    w->seek(3, Whence::BEG);
							    for (auto& c : cs) lib_write(w, c), r.trans();
							    check(w->tell() == 3 + ref.s.size(), "write-position", mc::fmt("writer at %zu, want %zu, behind chunks written over old content", w->tell(), 3 + ref.s.size()));
							    w->write_string("T");
						    }
						    wf.reset();
						    fclose(f);
						    std::ifstream in(fp, std::ios::binary);
						    std::stringstream ss;
						    ss << in.rdbuf();
						    for (auto& got : {to_str(v), os.str(), ss.str()})
							    check(got == want, "write-bytes", mc::fmt("wrote [%s] want [%s]", mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str()));
					    }
				    },
				    [&] { return "over old content " + show(cs); });
				if (n == 0) return;
				// 2. reading with every consumer behaviour, stopping after every chunk
				tuples(n, N_EAT, [&](std::vector<int> const& eat) {
					for (int stop = -1; stop < n; ++stop)
						for (int tail : {0, 9}) {
							if (stop < 0 && tail) continue; // an unbounded reader continues into whatever follows
							r.run_case(
							    "read",
							    [&] {
								    std::string d = ref.s + std::string(static_cast<size_t>(tail), '\x11');
								    for (bool sized : {false, true}) {
									    auto mem = rd(d);
									    consume(r, mem.get(), cs, eat, stop, sized, "memory", static_cast<size_t>(tail));
									    if (n <= 2) {
										    std::istringstream is(d);
										    auto sr = Read::from(&is);
										    consume(r, sr.get(), cs, eat, stop, sized, "istream", static_cast<size_t>(tail));
									    }
								    }
								    r.outcome(mc::hash_str(ref.s, static_cast<uint64_t>(stop + 7)));
							    },
							    [&] {
								    std::string s = "read " + show(cs) + " consumer:";
								    for (int e : eat) s += mc::fmt(" %s,", EAT[e]);
								    return s + mc::fmt(" stop after #%d, %d trailing bytes", stop, tail);
							    });
						}
				});
				// 3. every prefix terminates; complete chunks in front of the cut are delivered unchanged
				for (size_t cut = 0; cut < ref.s.size(); ++cut) {
					if (cut > 40 && cut + 12 < ref.s.size()) continue;
					for (int e : {NOTHING, ONE, ALL})
						r.run_case(
						    "truncated",
						    [&] {
							    std::string d = ref.s.substr(0, cut);
							    std::istringstream is(d);
							    auto mem = rd(d);
							    auto str = Read::from(&is);
							    for (Read* x : {mem.get(), str.get()}) {
								    size_t i = 0;
								    size_t end = 0, calls = 0;
								    proto::read_chunked<Tag>(x, "mc", std::function<bool(Read*, Tag)>([&](Read* y, Tag t) {
									                             check(++calls <= d.size() + 2, "no-progress", "more chunks than bytes");
									                             Out one;
									                             if (i < cs.size()) ref_write(one, cs[i]);
									                             if (i < cs.size() && end + one.s.size() <= cut) {
										                             check(static_cast<uint16_t>(t) == cs[i].tag, "trunc-tag", "complete chunk lost in a truncated file");
										                             check(y->tell() == end + 6, "trunc-pos", "complete chunk misplaced");
									                             }
									                             end += one.s.size();
									                             ++i;
									                             if (e == ONE) (void) y->read_char();
									                             if (e == ALL && i <= cs.size()) (void) !y->read_string(one.s.size() - 6).size();
									                             return false;
								                             }));
								    r.trans(calls);
							    }
							    r.outcome(mc::hash_str(d));
						    },
						    [&] { return mc::fmt("prefix of %zu bytes of ", cut) + show(cs) + " consumer " + EAT[e]; });
				}
			});
	}
} // namespace
MC_MAIN(explore)
