// Independent UTF-8 oracle (well-formed sequences of Unicode scalar values; U+FFFE and U+FFFF excluded as the library documents in core.hpp).
#pragma once
#include "common.hpp"
namespace spec {
	static bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && c != 0xFFFE && c != 0xFFFF; }
	static bool decode(const S & s, W & out) {
		out.clear();
		for (size_t i = 0; i < s.size();) {
			unsigned b = (unsigned char) s[i];
			int n = b < 0x80 ? 1 : b >= 0xC0 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF7 ? 4 : 0;
			if (!n || i + n > s.size()) return false;
			uint32_t c = n == 1 ? b : b & (0x7F >> n);
			for (int k = 1; k < n; k++) { unsigned t = (unsigned char) s[i + k]; if (t < 0x80 || t > 0xBF) return false; c = c * 64 + (t - 0x80); }
			static const uint32_t min[] = {0, 0, 0x80, 0x800, 0x10000};
			if (c < min[n] || !scalar(c)) return false;
			out += (wchar_t) c;
			i += n;
		}
		return true;
	}
	static bool encode(const W & w, S & out) {
		out.clear();
		for (wchar_t x : w) {
			uint32_t c = (uint32_t) x;
			if (!scalar(c)) return false;
			if (c < 0x80) out += (char) c;
			else if (c < 0x800) { out += (char) (0xC0 + c / 64); out += (char) (0x80 + c % 64); }
			else if (c < 0x10000) { out += (char) (0xE0 + c / 4096); out += (char) (0x80 + c / 64 % 64); out += (char) (0x80 + c % 64); }
			else { out += (char) (0xF0 + c / 262144); out += (char) (0x80 + c / 4096 % 64); out += (char) (0x80 + c / 64 % 64); out += (char) (0x80 + c % 64); }
		}
		return true;
	}
}
struct CBuf {
	char * p;
	explicit CBuf(const S & w, bool nul = false) { p = (char *) malloc(w.size() + (nul ? 1 : 0) + (w.empty() && !nul ? 1 : 0)); memcpy(p, w.data(), w.size()); if (nul) p[w.size()] = 0; }
	~CBuf() { free(p); }
	CBuf(const CBuf &) = delete;
};
