#include "spellspec.hpp"
#include "comp.hpp"
#include "spellchecker/SpellerCache.hpp"
using libvoikko::spellchecker::SpellerCache;
int main(int argc, char ** argv) {
	H::init(argc, argv, "random histories of spelling requests, option changes and cache sizes, answered with and without the result cache; random histories of the cache itself against a map; non-trivial: two or more steps");
	MockHandle mh, plain;
	MockHyphenator hy;
	MockGenerator gen;
	mh.h.hyphenator = plain.h.hyphenator = &hy;
	while (H::more()) for (int k = 0; k < 20; k++) {
		std::vector<S> log;
		if (k % 3 == 0) {
			int size = H::rng.chance(60) ? 0 : H::rng.range(0, 5);
			H::begin([&] { S s = "cache of size " + show(size) + ":"; for (auto & x : log) s += " " + x; return s; });
			SpellerCache c(size);
			CHECK(c.getSizeParam() == size, "size differs", show(c.getSizeParam()));
			std::map<W, sp::spellresult> m;
			std::vector<W> words;
			size_t nw = H::rng.range(1, 60);
			for (size_t i = 0; i < nw; i++) { W w = G::word(13); if (H::rng.chance(30)) { w.clear(); size_t n = H::rng.range(1, 11); while (w.size() < n) w += L"ab\u00e4\u0448"[H::rng.below(4)]; } if (H::rng.chance(10) && w.size()) w[H::rng.below(w.size())] = (wchar_t) H::rng.next(); for (auto & x : w) if (!x) x = 1; if (w.empty()) w = L"x"; words.push_back(w); }
			for (int i = 0; i < 150; i++) {
				W w = H::rng.pick(words);
				Buf b(w, H::rng.chance(30));
				if (H::rng.chance(40)) {
					static const sp::spellresult R[] = {sp::SPELL_OK, sp::SPELL_CAP_FIRST, sp::SPELL_CAP_ERROR, sp::SPELL_FAILED};
					sp::spellresult r = m.count(w) ? m[w] : R[H::rng.below(4)];
					m[w] = r;
					log.push_back("set " + show(w) + " " + show((int) r));
					c.setSpellResult(b.p, w.size(), r);
					if (w.size() <= 10 && (r == sp::SPELL_OK || r == sp::SPELL_CAP_FIRST)) CHECK(c.isInCache(b.p, w.size()), "word just stored is not in the cache", show(w));
				} else {
					log.push_back("get " + show(w));
					if (c.isInCache(b.p, w.size())) {
						sp::spellresult r = c.getSpellResult(b.p, w.size());
						CHECK(m.count(w) && m[w] == r, "cache answers what was not stored", show(w) + " " + show((int) r));
					}
				}
			}
			continue;
		}
		uint64_t salt = H::rng.below(1000);
		int mode = H::rng.range(0, 2);
		auto f = [&](const W & x) {
			static const sp::spellresult R[] = {sp::SPELL_OK, sp::SPELL_CAP_FIRST, sp::SPELL_CAP_ERROR, sp::SPELL_FAILED};
			uint64_t h = hashw(x, salt);
			if (mode == 0) return R[h % 4];
			if (mode == 1) return h % 5 ? sp::SPELL_FAILED : R[h / 5 % 4];
			// depends on the option, as the Finnish speller does
			return mh.h.accept_extra_hyphens && x.find(L'-') != W::npos ? R[h % 2] : R[h / 5 % 4];
		};
		mh.speller.f = plain.speller.f = f;
		std::vector<W> words;
		size_t nw = H::rng.range(1, 25);
		for (size_t i = 0; i < nw; i++) { W w = spellword(); if (w.size() > 12 && H::rng.chance(70)) w.resize(H::rng.range(1, 11)); if (H::rng.chance(3) && w.size()) w[H::rng.below(w.size())] = (wchar_t) (H::rng.next() | 1); for (auto & x : w) if (!x) x = 1; words.push_back(w); if (H::rng.chance(30)) words.push_back(spec::setcase(H::rng.range(1, 4), w)); }
		H::begin([&] { S s = "speller " + show(mode) + "/" + show((unsigned long) salt) + ":"; for (auto & x : log) s += " " + x; return s; });
		delete mh.h.spellerCache;
		mh.h.spellerCache = new SpellerCache(0);
		for (VoikkoHandle * h : {&mh.h, &plain.h}) { h->ignore_dot = h->ignore_numbers = h->ignore_uppercase = h->accept_missing_hyphens = h->accept_extra_hyphens = 0; h->ignore_nonwords = h->accept_first_uppercase = h->accept_all_uppercase = 1; }
		for (int i = 0; i < 60; i++) {
			int a = H::rng.range(0, 9);
			if (a == 0) {
				static const int O[] = {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, VOIKKO_OPT_IGNORE_NONWORDS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS};
				int op = O[H::rng.below(8)], v = H::rng.range(0, 1);
				log.push_back("option " + show(op) + "=" + show(v));
				voikkoSetBooleanOption(&mh.h, op, v);
				voikkoSetBooleanOption(&plain.h, op, v);
			} else if (a == 1 && H::rng.chance(30)) {
				int v = H::rng.range(-1, 3);
				log.push_back("cache size " + show(v));
				CHECK(voikkoSetIntegerOption(&mh.h, VOIKKO_SPELLER_CACHE_SIZE, v) == 1, "option refused", show(v));
				CHECK((mh.h.spellerCache != 0) == (v >= 0) && (v < 0 || mh.h.spellerCache->getSizeParam() == v), "cache size option ignored", show(v));
			} else {
				W w = H::rng.pick(words);
				log.push_back("spell " + show(w));
				Buf b(w, true);
				int x = voikkoSpellUcs4(&mh.h, b.p), y = voikkoSpellUcs4(&plain.h, b.p);
				CHECK(x == y, "result depends on the cache", show(w) + " " + show(x) + " / " + show(y));
			}
		}
	}
	H::finish();
}
