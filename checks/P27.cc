// P27: log messages reach exactly the receiver chosen last, complete and once, if their level passes.
// All histories of choices up to a depth are executed on the real logger in lockstep with a model of (receiver, level); the
// default receiver is observed at the file descriptor of the standard error stream.
// config: asan
#include "common.hh"
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mcz;
using namespace zenkit;

namespace {
	struct Got {
		int who;
		int level;
		std::string name, text;
	};
	std::vector<Got> g_got;

	enum Who { NONE, A, B, OLD, DEFAULT };
	char const* const WHO[] = {"none", "A", "B", "old", "default"};
	char const* const LVL[] = {"ERROR", "WARNING", "INFO", "DEBUG", "TRACE"};

	struct Choice {
		Who who;
		int level;
		bool legacy = false;
		std::string str() const {
			return mc::fmt("%s/%s%s", WHO[who], LVL[level], legacy ? " (old call)" : "");
		}
	};

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
	void choose(Choice const& c) {
		auto l = static_cast<LogLevel>(c.level);
		auto receiver = [](int who) {
			return [who](LogLevel lv, char const* n, char const* t) { g_got.push_back({who, static_cast<int>(lv), n, t}); };
		};
		switch (c.who) {
		case NONE: Logger::set(l, {}); break;
		case A: Logger::set(l, receiver(A)); break;
		case B: Logger::set(l, receiver(B)); break;
		case OLD:
			Logger::use_logger([](LogLevel lv, std::string const& s) {
				auto k = s.find(": ");
				g_got.push_back({OLD, static_cast<int>(lv), k == std::string::npos ? "?" : s.substr(0, k), k == std::string::npos ? s : s.substr(k + 2)});
			});
			break;
		case DEFAULT:
			if (c.legacy)
				Logger::use_default_logger();
			else
				Logger::set_default(l);
			break;
		}
	}
#pragma GCC diagnostic pop

	/// runs f with the standard error stream redirected and returns what was written there
	template <typename F>
	std::string captured(F&& f) {
		fflush(stderr);
		static int file = memfd_create("stderr", MFD_CLOEXEC);
		static int saved = dup(2);
		(void) !ftruncate(file, 0);
		lseek(file, 0, SEEK_SET);
		dup2(file, 2);
		try {
			f();
		} catch (...) {
			fflush(stderr);
			dup2(saved, 2);
			throw;
		}
		fflush(stderr);
		dup2(saved, 2);
		struct stat st {};
		fstat(file, &st);
		std::string s(static_cast<size_t>(st.st_size), 0);
		(void) !pread(file, s.data(), s.size(), 0);
		return s;
	}

	void expect(Choice const& c, int level, std::string const& name, std::string const& text, std::string const& err, bool cut = false) {
		bool due = c.who != NONE && level <= c.level;
		auto what = "a message of level " + std::string(LVL[level]) + " after choosing " + c.str();
		if (c.who == DEFAULT && due) {
			check(g_got.empty(), "wrong-receiver", what + " reaches an earlier receiver");
			check(!err.empty(), "lost", what + " is not printed");
			check(err.back() == '\n' && std::count(err.begin(), err.end(), '\n') == 1 + std::count(text.begin(), text.end(), '\n'), "lines", what + ": '" + esc(err, 300) + "'");
			auto p = err.find(name + ": ");
			check(p != std::string::npos, "origin", what + ": no origin in '" + esc(err, 300) + "'");
			auto t = err.substr(p + name.size() + 2);
			t.pop_back();
			check(t == text || (cut && t.size() >= 4000 && text.compare(0, t.size(), t) == 0), "text", what + ": printed '" + esc(t, 100) + mc::fmt("' (%zu bytes) instead of '", t.size()) + esc(text, 100) + mc::fmt("' (%zu bytes)", text.size()));
			for (int i = 0; i < 5; ++i) check((err.substr(0, p).find(LVL[i]) != std::string::npos) == (i == level), "level", what + ": '" + esc(err, 300) + "'");
			return;
		}
		check(err.empty(), "printed", what + " is printed: '" + esc(err, 300) + "'");
		if (!due) {
			check(g_got.empty(), "not-due", what + " is delivered");
			return;
		}
		check(!g_got.empty(), "lost", what + " is not delivered");
		check(g_got.size() == 1, "repeated", what + " is delivered more than once");
		auto& g = g_got[0];
		check(g.who == c.who, "wrong-receiver", what + " reaches " + WHO[g.who]);
		check(g.level == level, "level", what + " arrives with another level");
		check(g.name == name, "origin", what + " comes from '" + esc(g.name) + "'");
		check(g.text == text || (cut && g.text.size() >= 4000 && text.compare(0, g.text.size(), g.text) == 0), "text", what + mc::fmt(": text of %zu bytes instead of %zu: '", g.text.size(), text.size()) + esc(g.text) + "'");
	}

	void logv(LogLevel l, char const* n, char const* f, ...) {
		va_list ap;
		va_start(ap, f);
		Logger::logv(l, n, f, ap);
		va_end(ap);
	}

	void explore(mc::Run& r) {
		std::vector<Choice> choices;
		for (auto w : {NONE, A, B, DEFAULT})
			for (int l = 0; l < 5; ++l) choices.push_back({w, l});
		choices.push_back({OLD, 2, true});
		choices.push_back({DEFAULT, 2, true});
		auto depth = r.tier(3, 4);
		for (int n = 1; n <= depth; ++n)
			tuples(n, static_cast<int>(choices.size()), [&](std::vector<int> const& v) {
				r.run_case(
				    "histories",
				    [&] {
					    for (size_t i = 0; i < v.size(); ++i) {
						    auto& c = choices[static_cast<size_t>(v[i])];
						    choose(c);
						    r.trans();
						    // all levels after the last choice, one in between
						    for (int l = 0; l < 5; ++l) {
							    if (i + 1 < v.size() && l != v[i] % 5) continue;
							    g_got.clear();
							    auto err = captured([&] {
								    if (l % 2)
									    Logger::log(static_cast<LogLevel>(l), "Origin", "number %d, %s", l, "text");
								    else
									    logv(static_cast<LogLevel>(l), "Origin", "number %d, %s", l, "text");
							    });
							    expect(c, l, "Origin", mc::fmt("number %d, text", l), err);
							    r.state(static_cast<uint64_t>(c.who * 25 + c.level * 5 + l));
						    }
					    }
				    },
				    [&] {
					    std::string s;
					    for (auto i : v) s += choices[static_cast<size_t>(i)].str() + ", ";
					    return s;
				    });
			});
		// every length
		for (size_t n = 0; n <= 4200; ++n)
			for (auto& c : {Choice {A, 4}, Choice {OLD, 2, true}, Choice {DEFAULT, 4}})
				for (int part = 0; part < 3; ++part) {
					if (r.quick_ && n > 64 && n < 4000 && (n + static_cast<size_t>(part)) % 16) continue;
					r.run_case(
					    "lengths",
					    [&] {
						    std::string t(n, 'x');
						    for (size_t i = 0; i < n; ++i) t[i] = static_cast<char>('!' + (i * 7 + n) % 90);
						    choose(c);
						    g_got.clear();
						    auto err = captured([&] {
							    if (part == 0)
								    Logger::log(LogLevel::WARNING, "N", "%s", t.c_str());
							    else if (part == 1)
								    Logger::log(LogLevel::WARNING, "N", "%s%s", t.substr(0, n / 2).c_str(), t.substr(n / 2).c_str());
							    else {
								    std::string f;
								    for (char ch : t) f += ch == '%' ? std::string("%%") : std::string(1, ch);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
								    Logger::log(LogLevel::WARNING, "N", f.c_str());
#pragma GCC diagnostic pop
							    }
						    });
						    expect(c, 1, "N", t, err, n >= 4094);
					    },
					    [&] { return mc::fmt("text of %zu bytes to %s, kind %d", n, c.str().c_str(), part); });
				}
		// origins and texts which look like formats, and every printable byte
		std::vector<std::string> odd {"", "%s", "%d%n", "100%", "a\nb", "\xe4\xf6", "x: y", " "};
		for (auto& name : odd)
			for (auto& text : odd)
				for (auto& c : choices)
					for (int l = 0; l < 5; ++l) {
						if (c.who == OLD && name.find(": ") != std::string::npos) continue;
						if (c.who == DEFAULT && (name.find('\n') != std::string::npos || name.empty())) continue;
						r.run_case(
						    "odd-texts",
						    [&] {
							    choose(c);
							    g_got.clear();
							    auto err = captured([&] { Logger::log(static_cast<LogLevel>(l), name.c_str(), "%s", text.c_str()); });
							    expect(c, l, name, text, err);
						    },
						    [&] { return c.str() + mc::fmt(": level %d, origin '%s', text '%s'", l, esc(name).c_str(), esc(text).c_str()); });
					}
		// a receiver which fails or logs itself: the choice stays as it was
		for (auto& c : choices)
			for (int l = 0; l < 5; ++l)
				for (int fails = 0; fails < 2; ++fails)
					r.run_case(
					    "receiver-fails",
					    [&] {
						    int calls = 0;
						    Logger::set(static_cast<LogLevel>(l), [&](LogLevel, char const*, char const*) {
							    ++calls;
							    if (fails) throw std::runtime_error("receiver");
							    if (calls == 1) Logger::log(LogLevel::ERROR, "inner", "inner");
						    });
						    for (int m = 0; m < 5; ++m) {
							    calls = 0;
							    bool threw = false;
							    try {
								    Logger::log(static_cast<LogLevel>(m), "N", "t");
							    } catch (std::runtime_error const&) {
								    threw = true;
							    }
							    check(calls == (m <= l ? 2 - fails : 0), "calls", mc::fmt("%d calls", calls));
							    check(threw == (fails && m <= l), "exception", "the receiver's exception is swallowed or invented");
						    }
						    choose(c);
						    for (int m = 0; m < 5; ++m) {
							    g_got.clear();
							    auto err = captured([&] { Logger::log(static_cast<LogLevel>(m), "N", "t"); });
							    expect(c, m, "N", "t", err);
						    }
					    },
					    [&] { return mc::fmt("%s after a receiver of level %d which %s", c.str().c_str(), l, fails ? "throws" : "logs"); });
		quiet_log();
	}
} // namespace
MC_MAIN(explore)
