// Minimal bounded-exhaustive exploration runtime.
//
// An explorer enumerates a finite, deterministically ordered set of executions ("cases") of the real ZenKit code. Every
// case has a global index (its position in the enumeration); shards run the cases with index % n == i. The index of the
// running case is mirrored into a small mmapped status file, so a crash or hang is attributed to the exact case, which
// `--only IDX` replays alone.
#pragma once
#include <algorithm>
#include <array>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {
	struct Status {
		uint64_t idx;
		uint64_t running;
		uint64_t hang;
		char family[104];
	};

	inline Status* g_status = nullptr;
	inline Status g_dummy_status {};

	inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
	inline std::string fmt(char const* f, ...) {
		va_list ap, ap2;
		va_start(ap, f);
		va_copy(ap2, ap);
		int n = vsnprintf(nullptr, 0, f, ap);
		va_end(ap);
		std::string s(static_cast<size_t>(n), '\0');
		vsnprintf(s.data(), s.size() + 1, f, ap2);
		va_end(ap2);
		return s;
	}

	inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull) {
		auto const* b = static_cast<unsigned char const*>(p);
		for (size_t i = 0; i < n; ++i) {
			h ^= b[i];
			h *= 1099511628211ull;
		}
		h ^= h >> 29;
		return h;
	}
	inline uint64_t hash_str(std::string_view s, uint64_t h = 1469598103934665603ull) {
		return hash_bytes(s.data(), s.size(), h);
	}

	inline std::string jstr(std::string_view s) {
		std::string o = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') {
				o += '\\';
				o += static_cast<char>(c);
			} else if (c < 0x20 || c >= 0x7f) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", c);
				o += b;
			} else
				o += static_cast<char>(c);
		}
		return o + "\"";
	}

	inline std::string hex(void const* p, size_t n, size_t max = 96) {
		std::string s;
		auto const* b = static_cast<unsigned char const*>(p);
		char t[4];
		for (size_t i = 0; i < n && i < max; ++i) {
			snprintf(t, sizeof t, "%02x", b[i]);
			s += t;
		}
		if (n > max) s += fmt("...(%zu bytes)", n);
		return s;
	}

	struct Failure : std::exception {
		std::string sig, msg;
		Failure(std::string s, std::string m) : sig(std::move(s)), msg(std::move(m)) {}
		char const* what() const noexcept override {
			return msg.c_str();
		}
	};

	/// Abort the running case with a violation. `sig` is a stable identity of what failed.
	[[noreturn]] inline void fail(std::string sig, std::string msg) {
		throw Failure(std::move(sig), std::move(msg));
	}

	class Run {
	public:
		int shard = 0, shards = 1;
		uint64_t from = 0, upto = UINT64_MAX;
		bool only_mode = false;
		// development aid (mutation campaigns): stop at the first violation that is not a known one
		bool first_mode = getenv("MC_FIRST") != nullptr;
		std::string first_ignore = getenv("MC_FIRST") ? getenv("MC_FIRST") : "";
		uint64_t only = 0;
		bool describe = false, quick_ = true;
		double case_cpu_s = 4.0;
		std::string out, status_path, scratch;

		uint64_t next_idx = 0;
		uint64_t evaluations = 0, transitions = 0, nontrivial = 0, validated = 0;
		std::unordered_set<uint64_t> states, outcomes;
		std::map<std::string, uint64_t> families, counters;
		std::vector<std::string> samples;
		std::map<std::string, std::string> sample_by_family;
		struct V {
			uint64_t idx;
			std::string family, sig, msg, desc;
		};
		std::vector<V> violations;
		std::map<std::string, uint64_t> viol_by_sig;
		bool stop = false;

		bool quick() const {
			return quick_;
		}
		/// bound selection helper
		template <typename T>
		T tier(T q, T t) const {
			return quick_ ? q : t;
		}

		/// One execution. `desc` describes it for samples and replay artefacts (evaluated lazily).
		template <typename Body, typename Desc>
		void run_case(char const* family, Body&& body, Desc&& desc) {
			uint64_t idx = next_idx++;
			if (stop) return;
			if (only_mode) {
				if (idx != only) return;
			} else if (idx % static_cast<uint64_t>(shards) != static_cast<uint64_t>(shard) || idx < from || idx >= upto)
				return;
			g_status->idx = idx;
			strncpy(g_status->family, family, sizeof g_status->family - 1);
			g_status->running = 1;
			if (describe) {
				printf("case %" PRIu64 " family=%s\n%s\n", idx, family, std::string(desc()).c_str());
				fflush(stdout);
			}
			arm();
			try {
				body();
			} catch (Failure const& f) {
				report(idx, family, f.sig, f.msg, desc());
			} catch (std::exception const& e) {
				report(idx, family, "unexpected-exception", std::string("unexpected exception: ") + e.what(), desc());
			} catch (...) {
				report(idx, family, "unexpected-exception", "unexpected non-standard exception", desc());
			}
			disarm();
			g_status->running = 0;
			++evaluations;
			++families[family];
			if (sample_by_family.size() < 24 && !sample_by_family.count(family)) sample_by_family[family] = desc();
		}

		void report(uint64_t idx, std::string const& family, std::string const& sig, std::string const& msg, std::string const& desc) {
			std::string full = family + ":" + sig;
			if (viol_by_sig[full]++ == 0) {
				violations.push_back({idx, family, full, msg, desc});
				if (only_mode || describe) printf("VIOLATED %s: %s\n", full.c_str(), msg.c_str());
				if (violations.size() >= 40) stop = true;
				if (first_mode && first_ignore.find("|" + full + "|") == std::string::npos) stop = true;
			}
		}

		void state(uint64_t h) {
			states.insert(h);
		}
		void outcome(uint64_t h) {
			outcomes.insert(h);
		}
		void outcome(std::string_view s) {
			outcomes.insert(hash_str(s));
		}
		void trans(uint64_t n = 1) {
			transitions += n;
		}
		void nontriv(uint64_t n = 1) {
			nontrivial += n;
		}

		double cpu_limit = 4.0;

		void arm() {
			itimerval t {};
			t.it_value.tv_sec = static_cast<long>(case_cpu_s);
			t.it_value.tv_usec = static_cast<long>((case_cpu_s - static_cast<double>(t.it_value.tv_sec)) * 1e6);
			setitimer(ITIMER_PROF, &t, nullptr);
		}
		void disarm() {
			itimerval t {};
			setitimer(ITIMER_PROF, &t, nullptr);
		}

		void write_json(bool complete) {
			if (out.empty()) return;
			FILE* f = fopen((out + ".tmp").c_str(), "w");
			if (!f) return;
			fprintf(f, "{\"complete\":%s,\"total\":%" PRIu64 ",\"evaluations\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"validated\":%" PRIu64 ",",
			        complete ? "true" : "false", next_idx, evaluations, transitions, nontrivial, validated);
			auto dump = [&](char const* n, std::unordered_set<uint64_t> const& s) {
				// the sets are merged by the driver through a binary side file
				std::string p = out + "." + n;
				FILE* g = fopen(p.c_str(), "wb");
				if (g) {
					std::vector<uint64_t> v(s.begin(), s.end());
					fwrite(v.data(), 8, v.size(), g);
					fclose(g);
				}
			};
			dump("states", states);
			dump("outcomes", outcomes);
			auto mp = [&](char const* n, std::map<std::string, uint64_t> const& m) {
				fprintf(f, "\"%s\":{", n);
				bool first = true;
				for (auto& [k, v] : m) {
					fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(k).c_str(), v);
					first = false;
				}
				fprintf(f, "},");
			};
			mp("families", families);
			mp("counters", counters);
			mp("viol_by_sig", viol_by_sig);
			fprintf(f, "\"samples\":{");
			bool first = true;
			for (auto& [k, v] : sample_by_family) {
				fprintf(f, "%s%s:%s", first ? "" : ",", jstr(k).c_str(), jstr(v.substr(0, 600)).c_str());
				first = false;
			}
			fprintf(f, "},\"violations\":[");
			first = true;
			for (auto& v : violations) {
				fprintf(f, "%s{\"idx\":%" PRIu64 ",\"family\":%s,\"sig\":%s,\"msg\":%s,\"desc\":%s}", first ? "" : ",", v.idx,
				        jstr(v.family).c_str(), jstr(v.sig).c_str(), jstr(v.msg.substr(0, 4000)).c_str(), jstr(v.desc.substr(0, 8000)).c_str());
				first = false;
			}
			fprintf(f, "]}\n");
			fclose(f);
			rename((out + ".tmp").c_str(), out.c_str());
		}
	};

	inline void on_prof(int) {
		g_status->hang = 1;
		static char const m[] = "MC-HANG: case exceeded its CPU budget\n";
		(void) !write(2, m, sizeof m - 1);
		_exit(77);
	}

	inline int run_main(int argc, char** argv, std::function<void(Run&)> const& explore) {
		Run r;
		g_status = &g_dummy_status;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--shard") {
				auto v = val();
				sscanf(v.c_str(), "%d/%d", &r.shard, &r.shards);
			} else if (a == "--only") {
				r.only_mode = true;
				r.only = strtoull(val().c_str(), nullptr, 10);
			} else if (a == "--from")
				r.from = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--upto")
				r.upto = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--describe")
				r.describe = true;
			else if (a == "--tier")
				r.quick_ = val() != "thorough";
			else if (a == "--out")
				r.out = val();
			else if (a == "--status")
				r.status_path = val();
			else if (a == "--scratch")
				r.scratch = val();
			else if (a == "--cpu")
				r.case_cpu_s = atof(val().c_str());
		}
		if (!r.status_path.empty()) {
			int fd = open(r.status_path.c_str(), O_RDWR | O_CREAT, 0644);
			if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
				void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
				if (p != MAP_FAILED) g_status = static_cast<Status*>(p);
			}
			if (fd >= 0) close(fd);
		}
		memset(g_status, 0, sizeof(Status));
		if (r.scratch.empty()) r.scratch = fmt("/tmp/mc-scratch-%d", static_cast<int>(getpid()));
		signal(SIGPROF, on_prof);
		explore(r);
		r.write_json(true);
		if (r.out.empty()) {
			printf("total=%" PRIu64 " evaluations=%" PRIu64 " states=%zu transitions=%" PRIu64 " outcomes=%zu nontrivial=%" PRIu64 " violations=%zu\n", r.next_idx,
			       r.evaluations, r.states.size(), r.transitions, r.outcomes.size(), r.nontrivial, r.violations.size());
			for (auto& [k, v] : r.families)
				printf("  family %s: %" PRIu64 "\n", k.c_str(), v);
			for (auto& [k, v] : r.counters)
				printf("  counter %s: %" PRIu64 "\n", k.c_str(), v);
			for (auto& v : r.violations)
				printf("  VIOLATION idx=%" PRIu64 " x%" PRIu64 " sig=%s\n    %s\n    case: %s\n", v.idx, r.viol_by_sig[v.sig], v.sig.c_str(), v.msg.c_str(), v.desc.c_str());
		}
		return r.violations.empty() ? 0 : 3;
	}
} // namespace mc

#define MC_MAIN(fn)                                                                                                     \
	int main(int argc, char** argv) {                                                                                   \
		return mc::run_main(argc, argv, fn);                                                                            \
	}

#ifdef MC_LIMIT_ALLOC
// Hostile sizes must surface as std::bad_alloc (as they would on a real system), not as an allocator abort.
#include <new>
static inline void* mc_alloc(std::size_t n) {
	if (n > (static_cast<std::size_t>(MC_LIMIT_ALLOC) << 20)) throw std::bad_alloc {};
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc {};
	return p;
}
void* operator new(std::size_t n) {
	return mc_alloc(n);
}
void* operator new[](std::size_t n) {
	return mc_alloc(n);
}
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
	return n > (static_cast<std::size_t>(MC_LIMIT_ALLOC) << 20) ? nullptr : malloc(n ? n : 1);
}
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept {
	return n > (static_cast<std::size_t>(MC_LIMIT_ALLOC) << 20) ? nullptr : malloc(n ? n : 1);
}
void operator delete(void* p) noexcept {
	free(p);
}
void operator delete[](void* p) noexcept {
	free(p);
}
void operator delete(void* p, std::size_t) noexcept {
	free(p);
}
void operator delete[](void* p, std::size_t) noexcept {
	free(p);
}
#endif
