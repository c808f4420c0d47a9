#include "spec.hpp"
#include "utf8.hpp"
#include "comp.hpp"
#include "voikko.h"
#include "utils/StringUtils.hpp"
using namespace libvoikko;
using libvoikko::utils::StringUtils;
static wchar_t cp() {
	switch (H::rng.range(0, 9)) {
		case 0: return H::rng.range(1, 0x7F);
		case 1: return H::rng.range(0x80, 0x7FF);
		case 2: return H::rng.range(0x800, 0xFFFF);
		case 3: return H::rng.range(0x10000, 0x10FFFF);
		case 4: { static const int b[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, -1, 0x3F, 0x40, 0xFFF, 0x1000, 0x3FFFF, 0x40000, 0x1FFFE, 0x7FFFFFFF}; return b[H::rng.below(sizeof b / sizeof b[0])]; }
		default: return G::ch();
	}
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "all code points; random byte strings, valid strings with damaged bytes, random code-point strings, and words given to the UTF-8 and wide-character variants of each function; non-trivial: not plain ASCII");
	MockHandle mh;
	MockHyphenator hy;
	MockGenerator gen;
	mh.h.hyphenator = &hy;
	mh.h.suggestionGenerator = &gen;
	gen.f = [](const W & w) { std::vector<std::pair<W, int>> v; size_t n = hashw(w, 3) % 9; for (size_t i = 0; i < n; i++) { W x = w; x[hashw(w, i) % x.size()] = L"abc\u00e4\u00f6\ufffe"[hashw(w, i + 20) % 6]; v.push_back({x, (int) (hashw(w, i + 40) % 100)}); } return v; };
	mh.analyzer.f = [](const W & w) { std::vector<W> v; if (hashw(w, 9) % 3) v.push_back(L"=" + W(w.size(), L'p')); if (hashw(w, 9) % 3 == 2) v.push_back(L"\u00e4=" + w); return v; };
	if (H::part == 0) for (long c = 1; c < 0x111000; c++) {
		W w(1, (wchar_t) c);
		H::begin([=] { return show(w); });
		S e;
		bool ok = spec::encode(w, e);
		char * r = StringUtils::utf8FromUcs4(w.c_str(), 1);
		CHECK((r != 0) == ok && (!ok || S(r) == e), "encoded character differs", show(r));
		delete[] r;
		if (ok) { wchar_t * b = StringUtils::ucs4FromUtf8(e.c_str(), e.size()); CHECK(b && W(b) == w, "decoded character differs", show(b)); delete[] b; }
	}
	while (H::more()) for (int k = 0; k < 100; k++) {
		int mode = H::rng.range(0, 9);
		if (mode < 4) {
			S s;
			if (H::rng.chance(60)) { W w; size_t n = G::len(40); while (w.size() < n) { wchar_t c = cp(); if (spec::scalar(c)) w += c; } spec::encode(w, s); }
			else { size_t n = G::len(20); while (s.size() < n) s += (char) (H::rng.chance(50) ? H::rng.range(1, 255) : H::rng.range(0x7e, 0xc3)); }
			if (s.size() && H::rng.chance(40)) { size_t p = H::rng.below(s.size()); int d = H::rng.range(0, 3); if (d == 0) s[p] = (char) H::rng.range(1, 255); else if (d == 1) s.erase(p, 1); else if (d == 2) s.resize(p); else s.insert(p, 1, (char) H::rng.range(0x80, 0xff)); }
			size_t mx = H::rng.chance(50) ? H::rng.below(s.size() / 6 + 2) : H::rng.below(60);
			H::begin([=] { return "decode " + show(s) + " max " + show(mx); });
			W e;
			bool ok = spec::decode(s, e);
			CBuf b(s);
			wchar_t * r = StringUtils::ucs4FromUtf8(b.p, s.size());
			CHECK((r != 0) == ok && (!ok || W(r) == e), "decoded text differs", show(r));
			delete[] r;
			wchar_t * q = StringUtils::ucs4FromUtf8(b.p, s.size(), mx);
			if (ok) CHECK(q && W(q) == e.substr(0, mx), "beginning of the decoded text differs", show(q));
			if (!ok && mx * 6 + 1 >= s.size()) CHECK(!q, "ill-formed text decoded", show(q));
			delete[] q;
			if (s.find('\0') == S::npos) {
				CBuf z(s, true);
				wchar_t * t = StringUtils::ucs4FromUtf8(z.p);
				CHECK((t != 0) == ok && (!ok || W(t) == e), "decoded terminated text differs", show(t));
				delete[] t;
			}
			if (s.size()) {
				CBuf z(s, true);
				int sr = voikkoSpellCstr(&mh.h, z.p);
				char ** sg = voikkoSuggestCstr(&mh.h, z.p);
				char * hp = voikkoHyphenateCstr(&mh.h, z.p);
				if (!ok && s.size() <= 255) { CHECK(sr == VOIKKO_CHARSET_CONVERSION_FAILED, "ill-formed text checked", show(sr)); CHECK(!sg, "suggestions for ill-formed text", ""); CHECK(!hp, "hyphenation of ill-formed text", ""); }
				voikkoFreeCstrArray(sg);
				voikkoFreeCstr(hp);
			}
		} else if (mode < 6) {
			W w;
			size_t n = G::len(40);
			bool bad = H::rng.chance(30);
			while (w.size() < n) { wchar_t c = cp(); if (c && (bad || spec::scalar(c))) w += c; }
			size_t bl = H::rng.below(60) + 1;
			W skip = H::rng.chance(50) ? W(L"") : W(L"\u00ad");
			if (skip.size() && w.size()) w[H::rng.below(w.size())] = 0xAD;
			bool usenull = skip.empty() && H::rng.chance(50);
			H::begin([=] { return "encode " + show(w) + " buffer " + show(bl); });
			S e;
			bool ok = spec::encode(w, e);
			Buf b(w);
			char * r = StringUtils::utf8FromUcs4(b.p, w.size());
			CHECK((r != 0) == ok && (!ok || S(r) == e), "encoded text differs", show(r));
			delete[] r;
			Buf z(w, true);
			r = StringUtils::utf8FromUcs4(z.p);
			CHECK((r != 0) == ok && (!ok || S(r) == e), "encoded terminated text differs", show(r));
			delete[] r;
			W stripped;
			for (wchar_t c : w) if (skip.find(c) == W::npos) stripped += c;
			CBuf t(S(bl, 'x'));
			size_t sk = 99;
			size_t used = StringUtils::utf8FromUcs4(b.p, w.size(), t.p, bl, usenull ? 0 : skip.c_str(), &sk);
			ok = spec::encode(stripped, e);
			if (used <= bl) { CHECK(ok && S(t.p, used) == e && sk == w.size() - stripped.size(), "text encoded into the buffer differs", show(used)); }
			else { CHECK(used == bl + 1, "wrong overflow mark", show(used)); CHECK(!ok || e.size() + 7 >= bl, "buffer reported too small although the text fits", show(e.size())); }
		} else {
			W w = H::rng.chance(50) ? G::word(30) : G::text(30);
			for (auto & c : w) if (!spec::scalar(c)) c = L'x';
			S s;
			spec::encode(w, s);
			if (mode == 6 && s.size() <= 255) {
				H::begin([=] { return "both variants, word " + show(w); });
				mh.h.ignore_dot = H::rng.range(0, 1);
				mh.speller.salt = H::rng.below(50);
				int a = voikkoSpellCstr(&mh.h, s.c_str()), b = voikkoSpellUcs4(&mh.h, w.c_str());
				CHECK(a == b, "spelling differs between UTF-8 and wide characters", show(a) + " / " + show(b));
				char ** x = voikkoSuggestCstr(&mh.h, s.c_str());
				wchar_t ** y = voikkoSuggestUcs4(&mh.h, w.c_str());
				std::vector<S> xs, ys;
				for (char ** p = x; p && *p; p++) xs.push_back(*p);
				for (wchar_t ** p = y; p && *p; p++) { S t; if (spec::encode(*p, t)) ys.push_back(t); }
				CHECK(xs == ys, "suggestions differ between UTF-8 and wide characters", show(xs.size()) + " / " + show(ys.size()));
				voikkoFreeCstrArray(x);
				voikko_free_suggest_ucs4(y);
				char * h1 = voikkoHyphenateCstr(&mh.h, s.c_str());
				char * h2 = voikkoHyphenateUcs4(&mh.h, w.c_str());
				CHECK(S(h1 ? h1 : "?") == S(h2 ? h2 : "?"), "hyphenation differs between UTF-8 and wide characters", show(h1));
				voikkoFreeCstr(h1);
				voikkoFreeCstr(h2);
				if (w.size()) {
					auto ** m1 = voikkoAnalyzeWordCstr(&mh.h, s.c_str());
					auto ** m2 = voikkoAnalyzeWordUcs4(&mh.h, w.c_str());
					size_t i = 0;
					for (; m1 && m2 && m1[i] && m2[i]; i++) {
						char * c = voikko_mor_analysis_value_cstr(m1[i], "STRUCTURE");
						const wchar_t * d = voikko_mor_analysis_value_ucs4(m2[i], "STRUCTURE");
						S t;
						CHECK(c && d && spec::encode(d, t) && t == c, "analysis differs between UTF-8 and wide characters", show(c));
						voikko_free_mor_analysis_value_cstr(c);
					}
					CHECK(m1 && m2 && !m1[i] && !m2[i], "number of analyses differs between UTF-8 and wide characters", "");
					voikko_free_mor_analysis(m1);
					voikko_free_mor_analysis(m2);
				}
			} else {
				W t = w;
				if (H::rng.chance(50)) { size_t n = H::rng.range(20, 140); while (t.size() < n) t += G::text(30); }
				if (H::rng.chance(30)) { size_t n = H::rng.range(1, 120); W a(n, L'k'); if (H::rng.chance(50)) a[H::rng.below(n)] = L'@'; if (H::rng.chance(50)) a[H::rng.below(n)] = L'.'; t = H::rng.chance(50) ? a + t : t.substr(0, t.size() / 2) + a + t; }
				if (H::rng.chance(10)) t = L"http://" + W(H::rng.range(1, 100), L'u') + t;
				for (auto & c : t) if (!spec::scalar(c)) c = L'x';
				H::begin([=] { return "both variants, text " + show(t); });
				mh.h.ignore_dot = H::rng.range(0, 1);
				mh.speller.salt = H::rng.below(50);
				size_t pos = 0;
				int n = 0;
				while (pos < t.size() && n++ < 30) {
					W rest = t.substr(pos);
					S u;
					spec::encode(rest, u);
					CBuf cb(u);
					Buf wb(rest);
					size_t l1 = 7777, l2 = 8888;
					int a = voikkoNextTokenCstr(&mh.h, cb.p, u.size(), &l1), b = voikkoNextTokenUcs4(&mh.h, wb.p, rest.size(), &l2);
					CHECK(a == b && l1 == l2, "token differs between UTF-8 and wide characters", show(a) + " " + show(l1) + " / " + show(b) + " " + show(l2) + " at " + show(pos));
					if (!l2) break;
					pos += l2;
				}
				S u;
				spec::encode(t, u);
				CBuf cb(u);
				Buf wb(t);
				size_t l1 = 7777, l2 = 8888;
				int a = voikkoNextSentenceStartCstr(&mh.h, cb.p, u.size(), &l1), b = voikkoNextSentenceStartUcs4(&mh.h, wb.p, t.size(), &l2);
				CHECK(a == b && l1 == l2, "sentence differs between UTF-8 and wide characters", show(a) + " " + show(l1) + " / " + show(b) + " " + show(l2));
			}
		}
	}
	H::finish();
}
