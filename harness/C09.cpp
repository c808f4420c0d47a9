#include "spec.hpp"
#include "utf8.hpp"
#include "comp.hpp"
#include "spellchecker/SpellUtils.hpp"
#include "spellchecker/AnalyzerToSpellerAdapter.hpp"
#include "spellchecker/SpellWithPriority.hpp"
#include "spellchecker/FinnishSpellerTweaksWrapper.hpp"
#include "hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp"
using namespace sp;
typedef Analysis::Key K;
struct An { W structure, cls, sija; int vapaa; };
static uint64_t salt;
static int density;
static const wchar_t * CLS[] = {L"nimisana", L"laatusana", L"nimisana_laatusana", L"asemosana", L"etunimi", L"sukunimi", L"paikannimi", L"nimi", L"teonsana", L"seikkasana", L"", L"nimisana"};
static const wchar_t * SIJA[] = {L"nimento", L"omanto", L"osanto", L"sisaolento", L"sisaeronto", L"sisatulento", L"ulkoolento", L"ulkoeronto", L"ulkotulento", L"olento", L"tulento", L"vajanto", L"seuranto", L"keinonto", L"kerrontosti", L""};
static const int PRIO[] = {2, 3, 5, 8, 12, 8, 12, 30, 20, 20, 20, 60, 60, 20, 4, 4};
// the lexicon: a function of the lower-case word
static std::vector<An> lexicon(const W & word) {
	W x;
	for (wchar_t c : word) x += spec::lower(c);
	std::vector<An> r;
	uint64_t h0 = hashw(x, salt);
	if ((int) (h0 % 100) >= density || x.empty()) return r;
	int n = 1 + h0 / 100 % 3;
	for (int a = 0; a < n; a++) {
		Rng g(h0 + a);
		W s = L"=";
		int mode = g.range(0, 3), dens = g.range(0, 2);
		for (size_t i = 0; i < x.size(); i++) {
			if (x[i] == L'-') { s += L'-'; if (i + 1 < x.size() && g.chance(70)) s += L'='; continue; }
			if (i > 0 && s.back() != L'=' && g.chance(12 * dens)) s += g.chance(8) ? L"==" : L"=";
			if (spec::upper(x[i]) == x[i]) { s += g.chance(50) ? L'p' : L'q'; continue; }
			if ((i == 0 && mode == 1) || mode == 2 || (mode == 3 && g.chance(25))) s += g.chance(80) ? L'i' : L'j';
			else s += g.chance(85) ? L'p' : L'q';
		}
		if (g.chance(6)) { s.resize(g.below(s.size()) + 1); while (s.size() > 1 && s.back() == L'=') s.pop_back(); }
		r.push_back({s, CLS[g.below(12)], SIJA[g.below(16)], g.range(0, 2)});
	}
	return r;
}
static spellresult match(const W & w, const W & structure) {
	W s;
	for (wchar_t c : structure) if (c != L'=') s += c;
	spellresult r = SPELL_OK;
	for (size_t i = 0; i < w.size() && i < s.size(); i++) {
		bool up = s[i] == L'i' || s[i] == L'j', low = s[i] == L'p' || s[i] == L'q';
		if (spec::isUpper(w[i]) && low) return SPELL_CAP_ERROR;
		if (spec::isLower(w[i]) && !spec::isUpper(w[i]) && up) { if (i) return SPELL_CAP_ERROR; r = SPELL_CAP_FIRST; }
	}
	return r;
}
static spellresult best(const W & w) {
	spellresult r = SPELL_FAILED;
	for (auto & a : lexicon(w)) { spellresult x = match(w, a.structure); if (r == SPELL_FAILED || x < r) r = x; }
	return r;
}
static int prio(const W & w, const An & a, spellresult m) {
	int p = 4;
	for (int i = 0; i < 8; i++) if (a.cls == CLS[i]) { for (int j = 0; j < 16; j++) if (a.sija == SIJA[j]) p = PRIO[j]; }
	int parts = std::min<int>(5, std::count(a.structure.begin(), a.structure.end(), L'='));
	if (parts) for (int i = 1; i < parts; i++) p *= 8;
	return p * (m == SPELL_CAP_FIRST ? 2 : m == SPELL_CAP_ERROR ? 3 : 1);
}
static bool vow(wchar_t c) { return c && wcschr(L"aeiouy\u00e4\u00f6", c); }
static bool con(wchar_t c) { return c && wcschr(L"bcdfghjklmnpqrstvwxz\u0161\u017e", c); }
static MockHandle * MH;
static libvoikko::hyphenator::AnalyzerToFinnishHyphenatorAdapter * HY;
static spellresult tweaks(int extra, const W & w);
static spellresult noshy(int extra, const W & w) {
	spellresult r = best(w);
	if (r == SPELL_OK || w.size() <= 3) return r;
	size_t h = w.find(L'-', 1);
	if (h == W::npos || h > w.size() - 2) return r;
	W joined = w.substr(0, h) + w.substr(h + 1);
	if (extra && h > 1 && joined[h] != L'-' && noshy(extra, joined) == SPELL_OK) return SPELL_OK;
	if (h >= 2 && w.size() - h >= 3) {
		W l;
		for (wchar_t c : w) l += spec::lower(c);
		if (vow(l[h - 2]) && con(l[h - 1]) && l[h + 1] == l[h - 2] && l[h + 2] == l[h - 1]) {
			spellresult x = best(joined);
			if (x != SPELL_FAILED && (r == SPELL_FAILED || x < r)) return x;
		}
	}
	size_t last = w.rfind(L'-', w.size() - 2);
	spellresult lead = tweaks(extra, w.substr(0, last));
	if (lead != SPELL_FAILED) for (auto & a : lexicon(w.substr(last + 1))) if (a.vapaa == 1) return lead;
	spellresult with = SPELL_FAILED, without = SPELL_FAILED;
	for (auto & a : lexicon(joined)) {
		size_t j = 0, i = 0;
		for (; i < h; i++) {
			while (j < a.structure.size() && a.structure[j] == L'=') j++;
			if (j == a.structure.size()) break;
			j++;
		}
		if (i < h) continue;
		spellresult m = match(joined, a.structure);
		spellresult & t = j < a.structure.size() && a.structure[j] == L'=' ? with : without;
		if (t == SPELL_FAILED || m < t) t = m;
	}
	if (with != SPELL_FAILED && without != SPELL_FAILED && (r == SPELL_FAILED || with < r)) return with;
	return r;
}
static spellresult tweaks(int extra, const W & w) {
	if (w.find(0xAD) == W::npos) return noshy(extra, w);
	W b;
	std::vector<size_t> pos;
	if (w[0] == 0xAD || w.back() == 0xAD || w.find(L"\u00ad\u00ad") != W::npos) return SPELL_FAILED;
	for (wchar_t c : w) if (c == 0xAD) pos.push_back(b.size()); else b += c;
	spellresult r = noshy(extra, b);
	if (r == SPELL_FAILED) return r;
	char * p = HY->allPossibleHyphenPositions(b.c_str(), b.size());
	bool ok = true;
	for (size_t x : pos) if (p[x] != '-') ok = false;
	delete[] p;
	return ok ? r : SPELL_FAILED;
}
static wchar_t * dup(const W & s) { wchar_t * v = new wchar_t[s.size() + 1]; wcscpy(v, s.c_str()); return v; }
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words with random case patterns, hyphens and soft hyphens against random lexicons with capital letter requirements; non-trivial: at least one analysis");
	MockHandle mh;
	MH = &mh;
	mh.analyzer.f = [](const W & w) { std::vector<W> r; for (auto & a : lexicon(w)) r.push_back(a.structure); return r; };
	mh.analyzer.extra = [](const W & w, size_t i, Analysis * a) {
		An x = lexicon(w)[i];
		if (!x.cls.empty()) a->addAttribute(K::CLASS, dup(x.cls));
		if (!x.sija.empty()) a->addAttribute(K::SIJAMUOTO, dup(x.sija));
		if (x.vapaa) a->addAttribute(K::MALAGA_VAPAA_JALKIOSA, dup(x.vapaa == 1 ? L"true" : L"false"));
	};
	HY = new libvoikko::hyphenator::AnalyzerToFinnishHyphenatorAdapter(&mh.analyzer);
	HY->setUglyHyphenation(true);
	HY->setHyphenateUnknown(true);
	HY->setMinHyphenatedWordLength(3);
	HY->setIgnoreDot(true);
	AnalyzerToSpellerAdapter ad(&mh.analyzer);
	FinnishSpellerTweaksWrapper tw(new AnalyzerToSpellerAdapter(&mh.analyzer), &mh.analyzer, &mh.h);
	while (H::more()) for (int k = 0; k < 40; k++) {
		salt = H::rng.below(100000);
		density = H::rng.range(20, 100);
		W w;
		if (H::rng.chance(40)) w = G::word(14);
		else {
			int n = H::rng.range(1, 4);
			while (n--) {
				const wchar_t * f[] = {L"pop", L"op", L"isto", L"ja", L"sana", L"-", L"-", L"-", L"\u00ad", L"syy", L"s", L"ilta", L"Kissa", L"EU", L"a", L"--", L"ka", L"ta"};
				int m = H::rng.range(1, 3);
				while (m--) w += f[H::rng.below(18)];
			}
		}
		if (H::rng.chance(25)) w = spec::setcase(H::rng.range(1, 4), w);
		for (auto & c : w) if (!spec::scalar(c)) c = L'x';
		int hyphens = 0;
		for (size_t i = 0; i < w.size();) if (w[i] == L'-' && ++hyphens > 6) w.erase(i, 1); else i++;
		if (w.empty()) w = L"a";
		int extra = H::rng.chance(50);
		mh.h.accept_extra_hyphens = extra;
		uint64_t s0 = salt;
		int d0 = density;
		H::begin([=] { S s = show(w) + " extra=" + show(extra) + " lexicon " + std::to_string(s0) + "/" + std::to_string(d0); for (auto & a : lexicon(w)) s += " " + show(a.structure); return s; }, !lexicon(w).empty());
		Buf b(w);
		for (auto & a : lexicon(w)) {
			Buf st(a.structure, true);
			spellresult m = SpellUtils::matchWordAndAnalysis(b.p, w.size(), st.p);
			CHECK(m == match(w, a.structure), "capitalisation of the word against one analysis", show((int) m) + " / " + show((int) match(w, a.structure)) + " for " + show(a.structure));
		}
		for (int v = 0; v < 4; v++) {
			W st;
			static const wchar_t SC[] = L"====pppqiijj-:.xv";
			int n = H::rng.range(0, (int) w.size() + 4);
			bool high = H::rng.chance(30), low = H::rng.chance(60);
			for (int i = 0; i < n; i++) st += low && !H::rng.chance(15) ? (H::rng.chance(30) ? L'=' : L'p') : high && !H::rng.chance(15) ? (H::rng.chance(30) ? L'=' : L'i') : SC[H::rng.below(17)];
			Buf sb(st, true);
			spellresult m = SpellUtils::matchWordAndAnalysis(b.p, w.size(), sb.p);
			CHECK(m == match(w, st), "capitalisation of the word against any structure", show((int) m) + " / " + show((int) match(w, st)) + " for " + show(st));
		}
		spellresult r = ad.spell(b.p, w.size());
		CHECK(r == best(w), "best result over the analyses", show((int) r) + " / " + show((int) best(w)));
		int p = -1, ep = 0;
		spellresult q = SpellWithPriority::spellWithPriority(&mh.analyzer, b.p, w.size(), &p);
		bool any = false;
		for (auto & a : lexicon(w)) if (match(w, a.structure) == best(w)) { int x = prio(w, a, best(w)); if (!any || x < ep) ep = x; any = true; }
		CHECK(q == best(w), "result with priority", show((int) q));
		CHECK(p == ep, "priority of the word", show(p) + " / " + show(ep));
		spellresult t = tw.spell(b.p, w.size()), et = tweaks(extra, w);
		CHECK(t == et, "result with optional hyphens and soft hyphens", show((int) t) + " / " + show((int) et));
		if (k == 0) { long lk = leaked([&] { tw.spell(b.p, w.size()); int z; SpellWithPriority::spellWithPriority(&mh.analyzer, b.p, w.size(), &z); }); CHECK(lk == 0, "memory is not released", show(lk)); }
	}
	H::finish();
}
