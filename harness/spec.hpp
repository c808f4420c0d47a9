// Independent oracle for character tables.
#pragma once
#include "common.hpp"
namespace spec {
	struct Rng2 { int lo, hi, step, delta; };
	// upper-case range, step, distance to lower case
	static const Rng2 PAIRS[] = {
		{0x41, 0x5A, 1, 0x20}, {0xC0, 0xD6, 1, 0x20}, {0xD8, 0xDE, 1, 0x20}, {0x100, 0x136, 2, 1}, {0x139, 0x147, 2, 1}, {0x14A, 0x176, 2, 1},
		{0x179, 0x17D, 2, 1}, {0x1B7, 0x1B7, 1, 0xDB}, {0x1DE, 0x1EE, 2, 1}, {0x1F8, 0x21E, 2, 1}, {0x400, 0x40F, 1, 0x50}, {0x410, 0x42F, 1, 0x20},
		{0x460, 0x480, 2, 1}, {0x48A, 0x526, 2, 1}};
	static wchar_t lower(wchar_t c) { for (auto & p : PAIRS) if (c >= p.lo && c <= p.hi && (c - p.lo) % p.step == 0) return c + p.delta; return c; }
	static wchar_t upper(wchar_t c) { for (auto & p : PAIRS) if (c >= p.lo + p.delta && c <= p.hi + p.delta && (c - p.delta - p.lo) % p.step == 0) return c - p.delta; return c; }
	static bool isUpper(wchar_t c) { return lower(c) != c || c == 0x18F; }
	static bool isLower(wchar_t c) { return upper(c) != c; }
	static bool isDigit(wchar_t c) { return c >= '0' && c <= '9'; }
	static bool isWs(wchar_t c) {
		static const wchar_t l[] = {0x20, 0x85, 0xA0, 0x1680, 0x180E, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000};
		if ((c >= 9 && c <= 13) || (c >= 0x2000 && c <= 0x200A)) return true;
		for (wchar_t x : l) if (x == c) return true;
		return false;
	}
	enum { UNK, LETTER, DIGIT, WS, PUNCT };
	static bool quote(wchar_t c) { return c == 0 || c == '"' || c == 0xBB || c == 0x201D; }
	static int type(wchar_t c) {
		static const int L[][2] = {{0x41, 0x5A}, {0x61, 0x7A}, {0xC1, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2AF}, {0x400, 0x481}, {0x48A, 0x527}, {0x1400, 0x15C3}, {0xFB00, 0xFB04}};
		for (auto & r : L) if (c >= r[0] && c <= r[1]) return LETTER;
		if (isWs(c)) return WS;
		static const wchar_t * P = L".,;-!?:'()[]{}/&\u00AD\u2019\u2010\u2011\u2013\u2014\u201C\u2026";
		if (quote(c) || (c && wcschr(P, c))) return PUNCT;
		if (isDigit(c)) return DIGIT;
		return UNK;
	}
	enum { CT_NO_LETTERS, CT_ALL_LOWER, CT_FIRST_UPPER, CT_COMPLEX, CT_ALL_UPPER };
	static int casetype(const W & w) {
		bool u0 = !w.empty() && isUpper(w[0]), ur = false, lo = false;
		for (size_t i = 0; i < w.size(); i++) { if (i && isUpper(w[i])) ur = true; if (isLower(w[i])) lo = true; }
		if (!u0 && !ur && !lo) return CT_NO_LETTERS;
		if (!lo) return CT_ALL_UPPER;
		if (ur) return CT_COMPLEX;
		return u0 ? CT_FIRST_UPPER : CT_ALL_LOWER;
	}
	static W setcase(int t, W w) {
		for (size_t i = 0; i < w.size(); i++) {
			if (t == CT_ALL_LOWER) w[i] = lower(w[i]);
			else if (t == CT_ALL_UPPER) w[i] = upper(w[i]);
			else if (t == CT_FIRST_UPPER) w[i] = i ? lower(w[i]) : upper(w[i]);
		}
		return w;
	}
	static bool nonword(const W & w) {
		size_t n = w.size();
		if (n < 4) return false;
		size_t i = w.find(L'/');
		if (i != W::npos && i < n - 3 && w[i + 1] == L'/') { size_t d = w.find(L'.', i + 1); if (d != W::npos && d < n - 1) return true; }
		i = w.find(L'@');
		if (i != W::npos && i < n - 3 && w[i + 1] != L'.') { size_t d = w.find(L'.', i + 1); if (d != W::npos && d < n - 1) return true; }
		if (n < 7) return false;
		if (w.compare(0, 4, L"www.") == 0 && w[4] != L'.') { size_t d = w.find(L'.', 5); if (d != W::npos) return true; }
		return false;
	}
}
