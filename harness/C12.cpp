#include "spec.hpp"
#include "norm.hpp"
#include "comp.hpp"
#include "voikko.h"
#include "spellchecker/suggestion/SuggestionStatus.hpp"
#include "spellchecker/suggestion/SuggestionStrategyTyping.hpp"
#include "spellchecker/suggestion/SuggestionStrategyOcr.hpp"
using namespace libvoikko;
using namespace libvoikko::spellchecker::suggestion;
static const W INS = L"aitesnulko\u00e4mrvpyhjd\u00f6gfbcw:xzq\u00e5'.";
static W low(const W & w) { return spec::setcase(spec::CT_ALL_LOWER, w); }
/** is s (lower case) reachable from w (lower case) by one of the documented edits? */
static bool near1(const W & w, const W & s, bool ocr) {
	if (w == s) return true;
	W h;
	for (wchar_t c : w) if (c != 0xAD) h += c;
	if (h == s) return true;
	size_t n = w.size(), m = s.size();
	auto rest = [&](size_t i, size_t j) { return w.substr(std::min(i, n)) == s.substr(std::min(j, m)); };
	size_t p = 0;
	while (p < n && p < m && w[p] == s[p]) p++;
	if (m == n + 1) return rest(p, p + 1);                                  // one character added
	if (m + 1 == n) return rest(p + 1, p);                                  // one removed
	if (m + 2 == n) return rest(p + 2, p) ;                                 // a repeated pair removed
	if (m != n) return false;
	std::vector<size_t> d;
	for (size_t i = 0; i < n; i++) if (w[i] != s[i]) d.push_back(i);
	if (d.size() == 1) return true;                                         // one replaced
	if (d.size() == 2 && (ocr || (w[d[0]] == s[d[1]] && w[d[1]] == s[d[0]]) || (d[1] == d[0] + 1 && w[d[0]] == w[d[1]] && s[d[0]] == s[d[1]]))) return true;
	static const W B = L"aou", F = L"\u00e4\u00f6y";
	for (size_t i : d) { size_t a = B.find(w[i]), b = F.find(w[i]); if (!((a != W::npos && s[i] == F[a]) || (b != W::npos && s[i] == B[b]))) return false; }
	return d.size() <= 7;                                                   // vowels exchanged
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words and dictionaries given to the two suggestion strategies through a mock analyzer: every suggestion is near the word and known, a single known word at a documented edit is found; non-trivial: two or more characters");
	MockAnalyzer an;
	std::set<W> dict;
	bool rnd = false;
	int mod = 3;
	uint64_t salt = 1;
	auto known = [&](const W & w) { W l = low(w); return dict.count(l) || (rnd && hashw(l, salt) % mod == 0); };
	an.f = [&](const W & w) {
		std::vector<W> v;
		if (!known(w)) return v;
		uint64_t h = hashw(low(w), salt + 7);
		for (size_t k = 0; k <= h % 2; k++) { W s = L"="; for (size_t i = 0; i < w.size(); i++) { s += (rnd && (h >> ((8 + i + k) % 50)) % 5 == 0) ? L'i' : L'p'; if ((h >> ((3 + i) % 50)) % 11 == 0) s += L'='; } if (h % 13 == 0) s.resize(s.size() / 2); v.push_back(s); }
		return v;
	};
	MockHandle mh;
	SuggestionStrategyTyping ty800(&an, 800);
	SuggestionStrategyOcr oc2000(&an, 2000);
	while (H::more()) for (int k = 0; k < 20; k++) {
		if (k % 4 == 0) {
			W w = spec::decorate(H::rng.chance(60) ? G::word(8) : G::text(12));
			bool ocr = H::rng.chance(30), dot = H::rng.chance(50);
			rnd = true;
			dict.clear();
			mod = H::rng.pick(std::vector<int>{1, 2, 5, 20, 60});
			salt = H::rng.below(1000);
			H::begin([=, &mod, &salt] { return S("voikkoSuggestUcs4 ") + (ocr ? "ocr " : "typing ") + show(w) + " ignore_dot " + show((int) dot) + " random dictionary " + show(mod) + "/" + show((unsigned long) salt); }, w.size() > 1);
			mh.h.suggestionGenerator = ocr ? (SuggestionGenerator *) &oc2000 : &ty800;
			mh.h.ignore_dot = dot;
			Buf b(w, true);
			size_t cnt = 0;
			long lk = leaked([&] { wchar_t ** r = voikkoSuggestUcs4(&mh.h, b.p); cnt = 0; for (wchar_t ** p = r; p && *p; p++) { cnt++; CHECK(wcslen(*p) <= 3 * w.size() + 2, "suggestion too long", show(*p)); } voikko_free_suggest_ucs4(r); });
			CHECK(lk == 0, "memory is not released", show(lk));
			CHECK(cnt <= 5, "too many suggestions", show(cnt));
			continue;
		}
		W w = spec::norm(H::rng.chance(80) ? G::word(20) : G::text(24));
		if (H::rng.chance(10)) { w = W(H::rng.range(1, 4), G::letter()) + W(H::rng.range(0, 4), L'\u00ad'); }
		if (H::rng.chance(4)) { w = G::word(3); while (w.size() < 255) w += w + G::word(9) + L"a"; w.resize(H::rng.range(200, 255)); }
		if (H::rng.chance(5)) w = W(H::rng.range(1, 50), H::rng.pickc(L"aou\u00e4\u00f6yAO"));
		if (H::rng.chance(15) && w.size() > 3) { size_t p = H::rng.below(w.size() - 2); w.insert(p, w.substr(p, 2)); }
		if (H::rng.chance(10) && w.size() > 3) { w[H::rng.below(w.size())] = L'-'; }
		bool ocr = H::rng.chance(25);
		size_t cost = H::rng.chance(50) ? (ocr ? 2000 : 800) : H::rng.below(300);
		dict.clear();
		rnd = H::rng.chance(60);
		mod = H::rng.pick(std::vector<int>{1, 2, 5, 20, 60});
		salt = H::rng.below(1000);
		W target;
		W l = low(w);
		size_t n = w.size();
		if (!rnd && n >= 2) {
			// one known word at a documented edit, enough time: it has to be found
			cost = 60000;
			W t = l;
			int e = H::rng.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 9});
			size_t p = H::rng.below(n);
			if (ocr) e = H::rng.chance(50) ? 0 : 8;
			static const W B = L"aou", F = L"\u00e4\u00f6y";
			if (e == 0) { }
			else if (e == 1) { if (p && l[p] == l[p - 1]) t.clear(); else t.erase(p, 1); }
			else if (e == 2) { size_t q = H::rng.below(n + 1); wchar_t c = INS[H::rng.below(INS.size())]; if ((q && l[q - 1] == c) || (q < n && l[q] == c)) t.clear(); else t.insert(q, 1, c); }
			else if (e == 9) { if ((p && l[p - 1] == l[p]) || (p + 1 < n && l[p + 1] == l[p]) || l[p] == L'-' || l[p] == L'\'') t.clear(); else t.insert(p, 1, l[p]); }
			else if (e == 3) { size_t q = H::rng.below(n), dist = p > q ? p - q : q - p, mx = n <= 8 ? 10 : 50 / n; if (dist <= mx) std::swap(t[p], t[q]); else t.clear(); }
			else if (e == 4) { size_t cnt = 0; for (auto & c : t) { size_t a = B.find(c), b = F.find(c); if (a != W::npos || b != W::npos) { cnt++; if (H::rng.chance(50)) c = a != W::npos ? F[a] : B[b]; } } if (cnt > 7) t.clear(); }
			else if (e == 5) { if (n > 5 && p + 3 < n && w[p] == w[p + 2] && w[p + 1] == w[p + 3]) t.erase(p, 2); else t.clear(); }
			else if (e == 6) { if (p >= 2 && p + 2 <= n && l[p - 2] != L'-' && l[p - 1] != L'-' && l[p] != L'-' && l[p + 1] != L'-' && w[p - 1] != L'.') t = l.substr(0, p) + L" " + l.substr(p); else t.clear(); }
			else if (e == 7) { t.clear(); for (wchar_t c : l) if (c != 0xAD) t += c; }
			else { static const wchar_t * const R[] = {L"0o", L"li", L"uo", L"qo", L"uv", L"_z", L"\u00e4a", L"bh"}; W r = R[H::rng.below(8)]; size_t q = l.find(r[0]); if (q == W::npos) t.clear(); else t[q] = r[1]; }
			if (t.find(L'\u00ad') != W::npos && e != 0) t.clear();
			target = t;
			if (t.find(L' ') != W::npos && e == 6) { dict.insert(t.substr(0, p)); dict.insert(t.substr(p + 1)); }
			else if (t.size()) dict.insert(t);
			// upper-case letters outside the table of the generators are matched as they are
		}
		if (l.find(L'\u018f') != W::npos) target.clear();
		if (l != w && target.size() && target != l) target.clear();
		H::begin([=] { return S(ocr ? "ocr " : "typing ") + show(w) + " cost " + show(cost) + (rnd ? " random dictionary " + show(mod) + "/" + show(salt) : " dictionary of " + show(target)); }, w.size() > 1);
		if (w.size() < 2) continue;
		an.calls = 0;
		std::vector<W> got;
		{
			SuggestionStrategyTyping ty(&an, cost);
			SuggestionStrategyOcr oc(&an, cost);
			wchar_t * b = new wchar_t[n + 1];
			wcscpy(b, w.c_str());
			SuggestionStatus s(b, n, 15);
			if (ocr) oc.generate(&s); else ty.generate(&s);
			CHECK(W(b, n) == w && b[n] == 0, "word changed", show(b));
			for (size_t i = 0; i < s.getSuggestionCount(); i++) got.push_back(s.getSuggestions()[i].word);
			delete[] b;
		}
		CHECK(got.size() <= 15, "too many suggestions", show(got.size()));
		CHECK(an.calls <= 2 * cost + 2 * n + 12, "cost limit ignored", show(an.calls));
		bool found = false;
		for (auto & x : got) {
			W lx = low(x);
			if (lx == target) found = true;
			bool ok = known(x) && near1(l, lx, ocr);
			size_t q = W::npos;
			while (!ok && !ocr && (q = lx.find(L' ', q + 1)) != W::npos) {
				W a = lx.substr(0, q), b = lx.substr(q + 1);
				bool ka = known(a) || (a.size() && a.back() == L'.' && known(a.substr(0, a.size() - 1)));
				if (ka && known(b) && (a + b == l || a + L"-" + b == l)) ok = true;
			}
			CHECK(ok, "suggestion is not a known word near the original", show(x));
		}
		if (target.size()) CHECK(found, "known word at a documented edit is not suggested", show(got.size()));
	}
	H::finish();
}
