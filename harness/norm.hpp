// Independent oracle for normalisation.
#pragma once
#include "common.hpp"
namespace spec {
	static const int COMB[][3] = {{0x41, 0x300, 0xc0}, {0x45, 0x300, 0xc8}, {0x49, 0x300, 0xcc}, {0x4f, 0x300, 0xd2}, {0x55, 0x300, 0xd9}, {0x61, 0x300, 0xe0}, {0x65, 0x300, 0xe8}, {0x69, 0x300, 0xec}, {0x6f, 0x300, 0xf2}, {0x75, 0x300, 0xf9}, {0x415, 0x300, 0x400}, {0x435, 0x300, 0x450}, {0x41, 0x301, 0xc1}, {0x45, 0x301, 0xc9}, {0x49, 0x301, 0xcd}, {0x4f, 0x301, 0xd3}, {0x55, 0x301, 0xda}, {0x59, 0x301, 0xdd}, {0x61, 0x301, 0xe1}, {0x65, 0x301, 0xe9}, {0x69, 0x301, 0xed}, {0x6f, 0x301, 0xf3}, {0x75, 0x301, 0xfa}, {0x79, 0x301, 0xfd}, {0x413, 0x301, 0x403}, {0x433, 0x301, 0x453}, {0x41, 0x302, 0xc2}, {0x45, 0x302, 0xca}, {0x49, 0x302, 0xce}, {0x4f, 0x302, 0xd4}, {0x55, 0x302, 0xdb}, {0x61, 0x302, 0xe2}, {0x65, 0x302, 0xea}, {0x69, 0x302, 0xee}, {0x6f, 0x302, 0xf4}, {0x75, 0x302, 0xfb}, {0x41, 0x303, 0xc3}, {0x4e, 0x303, 0xd1}, {0x4f, 0x303, 0xd5}, {0x61, 0x303, 0xe3}, {0x6e, 0x303, 0xf1}, {0x6f, 0x303, 0xf5}, {0x418, 0x306, 0x419}, {0x438, 0x306, 0x439}, {0x41, 0x308, 0xc4}, {0x45, 0x308, 0xcb}, {0x49, 0x308, 0xcf}, {0x4f, 0x308, 0xd6}, {0x55, 0x308, 0xdc}, {0x61, 0x308, 0xe4}, {0x65, 0x308, 0xeb}, {0x69, 0x308, 0xef}, {0x6f, 0x308, 0xf6}, {0x75, 0x308, 0xfc}, {0x79, 0x308, 0xff}, {0x415, 0x308, 0x401}, {0x435, 0x308, 0x451}, {0x41e, 0x308, 0x4e6}, {0x43e, 0x308, 0x4e7}, {0x41, 0x30a, 0xc5}, {0x61, 0x30a, 0xe5}, {0x53, 0x30c, 0x160}, {0x73, 0x30c, 0x161}, {0x5a, 0x30c, 0x17d}, {0x7a, 0x30c, 0x17e}, {0x43, 0x327, 0xc7}, {0x63, 0x327, 0xe7}};
	static wchar_t compose(wchar_t a, wchar_t b) { for (auto & r : COMB) if (r[0] == a && r[1] == b) return r[2]; return 0; }
	static W expand(wchar_t c) {
		switch (c) {
			case 0x2019: return L"'"; case 0x2010: case 0x2011: return L"-"; case 0x2103: return L"\u00b0C"; case 0x2109: return L"\u00b0F";
			case 0xFB00: return L"ff"; case 0xFB01: return L"fi"; case 0xFB02: return L"fl"; case 0xFB03: return L"ffi"; case 0xFB04: return L"ffl";
		}
		return W(1, c);
	}
	static W norm(const W & w) {
		W r;
		for (size_t i = 0; i < w.size(); i++) {
			wchar_t c = i + 1 < w.size() ? compose(w[i], w[i + 1]) : 0;
			if (c) { r += c; i++; } else r += expand(w[i]);
		}
		return r;
	}
	static bool same(wchar_t o, wchar_t m) { return o == m || (o == 0x2019 && m == L'\'') || ((o == 0x2010 || o == 0x2011) && m == L'-'); }
	static W reformat(const W & o, W m) {
		size_t n = std::min(o.size(), m.size()), i = 0;
		for (; i < n && same(o[i], m[i]); i++) m[i] = o[i];
		for (size_t d = 1; d <= n - i && same(o[o.size() - d], m[m.size() - d]); d++) m[m.size() - d] = o[o.size() - d];
		return m;
	}
	/** sprinkles base+mark pairs, typographic characters and ligatures */
	static W decorate(W w) {
		size_t k = H::rng.below(4);
		while (k--) {
			W s;
			int c = H::rng.range(0, 5);
			if (c <= 2) { auto & r = COMB[H::rng.below(sizeof COMB / sizeof COMB[0])]; s = W(1, (wchar_t) r[0]) + W(1, (wchar_t) r[1]); }
			else if (c == 3) { auto & r = COMB[H::rng.below(sizeof COMB / sizeof COMB[0])]; s = W(1, G::letter()) + W(1, (wchar_t) r[1]); }
			else s = W(1, H::rng.pickc(L"\u2019\u2010\u2011\u2103\u2109\ufb00\ufb01\ufb02\ufb03\ufb04\u0300\u0308"));
			w.insert(H::rng.below(w.size() + 1), s);
		}
		return w;
	}
}
