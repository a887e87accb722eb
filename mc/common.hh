// Helpers shared by the explorers (public ZenKit API only).
#pragma once
#include "mc.hh"
#include "zenkit/Logger.hh"
#include "zenkit/Misc.hh"
#include "zenkit/Stream.hh"

#include <cmath>
#include <cstring>
#include <filesystem>
#include <optional>
#include <sstream>

namespace mcz {
	using Bytes = std::vector<std::byte>;

	inline Bytes to_bytes(std::string_view s) {
		Bytes b(s.size());
		memcpy(b.data(), s.data(), s.size());
		return b;
	}
	inline std::string to_str(Bytes const& b) {
		return std::string(reinterpret_cast<char const*>(b.data()), b.size());
	}
	inline std::string esc(std::string_view s, size_t max = 80) {
		std::string o;
		for (unsigned char c : s.substr(0, max)) {
			if (c >= 0x20 && c < 0x7f && c != '\\')
				o += static_cast<char>(c);
			else
				o += mc::fmt("\\x%02x", c);
		}
		if (s.size() > max) o += "...";
		return o;
	}

	/// Formats every log line (so formatting code runs) but discards it.
	inline void quiet_log() {
		zenkit::Logger::set(zenkit::LogLevel::TRACE, [](zenkit::LogLevel, char const*, char const* m) {
			static thread_local volatile size_t sink;
			sink = strlen(m);
		});
	}

	inline void check(bool c, char const* sig, std::string const& msg) {
		if (!c) mc::fail(sig, msg);
	}

	/// Little-endian byte builder, written independently of the library's Write class.
	struct Out {
		std::string s;
		Out& u8(uint32_t v) {
			s.push_back(static_cast<char>(v & 0xff));
			return *this;
		}
		Out& u16(uint32_t v) {
			return u8(v).u8(v >> 8);
		}
		Out& u32(uint32_t v) {
			return u16(v).u16(v >> 16);
		}
		Out& f32(float f) {
			uint32_t v;
			memcpy(&v, &f, 4);
			return u32(v);
		}
		Out& str(std::string_view t) {
			s += t;
			return *this;
		}
		Out& str0(std::string_view t) {
			s += t;
			s.push_back('\0');
			return *this;
		}
		Out& line(std::string_view t) {
			s += t;
			s.push_back('\n');
			return *this;
		}
		Out& zeros(size_t n) {
			s.append(n, '\0');
			return *this;
		}
		void put32(size_t off, uint32_t v) {
			for (int i = 0; i < 4; ++i)
				s[off + static_cast<size_t>(i)] = static_cast<char>(v >> (8 * i));
		}
		Bytes bytes() const {
			return to_bytes(s);
		}
	};

	inline std::unique_ptr<zenkit::Read> rd(std::string const& s) {
		return zenkit::Read::from(to_bytes(s));
	}

	/// enumerates all index tuples of `n` digits in base `b` (simplest first): calls f(vector<int>)
	template <typename F>
	void tuples(int n, int b, F&& f) {
		std::vector<int> v(static_cast<size_t>(n), 0);
		if (n > 0 && b <= 0) return;
		for (;;) {
			f(v);
			int i = n - 1;
			for (; i >= 0; --i) {
				if (++v[static_cast<size_t>(i)] < b) break;
				v[static_cast<size_t>(i)] = 0;
			}
			if (i < 0) break;
		}
	}
} // namespace mcz
