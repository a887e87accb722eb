// P22: the contents of an archive do not depend on the clock: not on the date it is written at, nor on the clock moving while it
// is being written. The clock is a controlled environment: time(), gettimeofday() and clock_gettime() are answered from a script.
// config: fast
// ldflags: -rdynamic
#include "armodel.hh"
#include <ctime>
#include <sys/time.h>
using namespace mcz;

namespace {
	time_t g_now = 1000000000;
	uint64_t g_asked = 0;
	/// moves the clock to `next` when it is asked for the `at`-th time (script of the environment)
	uint64_t g_at = UINT64_MAX;
	time_t g_next = 0;
	time_t now() {
		if (g_asked++ == g_at) g_now = g_next;
		return g_now;
	}
} // namespace

extern "C" time_t time(time_t* t) noexcept {
	auto v = now();
	if (t) *t = v;
	return v;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
	tv->tv_sec = now();
	tv->tv_usec = 0;
	return 0;
}
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept {
	ts->tv_sec = now();
	ts->tv_nsec = 0;
	return 0;
}

namespace {
	time_t utc(int y, int m, int d, int h, int mi, int s) {
		y -= m <= 2;
		int64_t era = (y >= 0 ? y : y - 399) / 400;
		auto yoe = static_cast<unsigned>(y - era * 400);
		unsigned doy = (153u * static_cast<unsigned>(m + (m > 2 ? -3 : 9)) + 2) / 5 + static_cast<unsigned>(d) - 1;
		unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
		return (era * 146097 + static_cast<int64_t>(doe) - 719468) * 86400 + h * 3600 + mi * 60 + s;
	}
	Item begin(std::string name, std::string cls, int ver) {
		return {BEGIN, std::move(cls), ver, {}, std::move(name)};
	}
	Item const END_ {END, ""};

	struct When {
		time_t t;
		std::string n;
	};

	void read_back(mc::Run& r, Bytes const& b, std::vector<Item> const& seq, ArchiveFormat f, bool save) {
		auto rd = Read::from(b);
		auto a = ReadArchive::from(rd.get());
		check(a->is_save_game() == save && a->get_header().format == f, "header", "the header lost its format or save-game flag");
		Checker c {*a, f, false};
		for (auto& i : seq) {
			c.item(i);
			r.trans();
		}
		// behind the last entry there is nothing but the end
		ArchiveObject o;
		if (f != ArchiveFormat::BINSAFE) check(!a->read_object_begin(o), "extra", "an object appears behind the last one");
	}

	void explore(mc::Run& r) {
		quiet_log();
		std::vector<When> w;
		auto add = [&](int y, int mo, int d, int h = 12, int mi = 0, int s = 0) { w.push_back({utc(y, mo, d, h, mi, s), mc::fmt("%d-%d-%d %d:%d:%d", y, mo, d, h, mi, s)}); };
		for (int mo : {1, 9, 10, 12})
			for (int d : {1, 9, 10, 28}) add(2024, mo, d);
		add(2024, 9, 30, 23, 59, 59), add(2024, 12, 31, 23, 59, 59), add(2025, 1, 1, 0, 0, 0), add(1970, 1, 1, 0, 0, 1), add(1999, 12, 31, 23, 59, 59), add(9999, 12, 31, 23, 59, 59), add(2038, 1, 19, 3, 14, 8), add(2024, 2, 29, 1, 2, 3);
		std::vector<std::vector<Item>> seqs {
		    {},
		    {Item {INT, "", 10}},
		    {begin("o", "c", 1), Item {STR, "value"}, Item {INT, "", 5}, END_},
		    {begin("o", "c", 1), begin("p", "d", 2), Item {RAW, std::string("\n\n[]\0\x1", 6)}, END_, Item {FLT, "", 0, {0.5f}}, END_, Item {NIL, "", 0, {}, "%"}},
		    {begin("\n", "c", 1), END_},
		};
		seqs.pop_back();
		char const* users[] = {"u", "a rather long user name with blanks", nullptr};
		auto run = [&](char const* fam, size_t a, size_t b, size_t q, int f, int save, size_t step, int mode, int user) {
			r.run_case(
			    fam,
			    [&] {
				    auto const& seq = seqs[q];
				    if (users[user])
					    setenv("USER", users[user], 1);
				    else
					    unsetenv("USER"), unsetenv("USERNAME");
				    g_now = w[a].t;
				    g_asked = 0;
				    g_at = UINT64_MAX;
				    if (mode == 1) {
					    // the clock moves at the k-th time it is asked
					    g_at = step;
					    g_next = w[b].t;
				    }
				    Bytes out;
				    auto wr = Write::to(&out);
				    {
					    auto ar = save ? WriteArchive::to_save(wr.get(), static_cast<ArchiveFormat>(f)) : WriteArchive::to(wr.get(), static_cast<ArchiveFormat>(f));
					    for (size_t i = 0; i <= seq.size(); ++i) {
						    if (mode == 0 && i == step) g_now = w[b].t;
						    if (i < seq.size()) put(*ar, seq[i]);
					    }
					    ar->write_header();
				    }
				    r.counters["clock-questions"] += g_asked;
				    r.outcome(mc::hash_bytes(out.data(), out.size()));
				    g_at = UINT64_MAX;
				    read_back(r, out, seq, static_cast<ArchiveFormat>(f), save != 0);
			    },
			    [&] { return mc::fmt("%s save=%d created at %s, the clock reads %s from %s %zu on, user '%s', entries: %s", FMT[f], save, w[a].n.c_str(), w[b].n.c_str(), mode ? "question" : "entry", step, users[user] ? users[user] : "(none)", show(seqs[q]).c_str()); });
		};
		for (size_t a = 0; a < w.size(); ++a)
			for (size_t b = 0; b < w.size(); ++b)
				for (size_t q = 0; q < seqs.size(); ++q)
					for (int f = 0; f < 3; ++f)
						for (int save = 0; save < 2; ++save) {
							for (size_t step = 0; step <= seqs[q].size(); ++step) run("clock-moves-between-entries", a, b, q, f, save, step, 0, 0);
							for (size_t step = 0; step < r.tier(4ul, 8ul); ++step) run("clock-moves-at-question", a, b, q, f, save, step, 1, static_cast<int>(step % 3));
						}
		// every day of a leap year and the next one: written at noon, finished a day later, at every hour boundary of the last day
		for (int day = 0; day < 366 + 365; ++day)
			for (int f = 0; f < 3; ++f)
				for (int delta : {0, 1, 43200, 86400, -86400, 31 * 86400})
					r.run_case(
					    "every-day",
					    [&] {
						    auto const& seq = seqs[2];
						    g_now = utc(2024, 1, 1, 12, 0, 0) + day * 86400;
						    g_at = UINT64_MAX;
						    setenv("USER", "u", 1);
						    auto out = write_items(seq, static_cast<ArchiveFormat>(f), false, [&](size_t i) {
							    if (i == 2) g_now += delta;
						    });
						    r.outcome(mc::hash_bytes(out.data(), out.size()));
						    read_back(r, out, seq, static_cast<ArchiveFormat>(f), false);
					    },
					    [&] { return mc::fmt("%s created on day %d of 2024, clock moves by %d s", FMT[f], day, delta); });
	}
} // namespace
MC_MAIN(explore)
