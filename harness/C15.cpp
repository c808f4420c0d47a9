#include "spec.hpp"
#include "comp.hpp"
#include "voikko.h"
#include "grammar/GrammarChecker.hpp"
#include "grammar/CacheEntry.hpp"
#include "spellchecker/SpellerCache.hpp"
#include "spellchecker/suggestion/SuggestionStrategyOcr.hpp"
#include "spellchecker/suggestion/SuggestionStrategyTyping.hpp"
#include "spellchecker/suggestion/SuggestionGeneratorNull.hpp"
namespace sg = sp::suggestion;
namespace gr = libvoikko::grammar;
using libvoikko::setup::BackendProperties;
using libvoikko::setup::Dictionary;
struct Gc : gr::GrammarChecker { ~Gc() override {} };
static int terminated, deleted;
struct Gen : sg::SuggestionGenerator {
	bool t = false;
	void generate(sg::SuggestionStatus *) const override {}
	void terminate() override { t = true; terminated++; }
	~Gen() override { deleted++; }
};
struct State {
	int dot = 0, num = 0, upp = 0, nonw = 1, first = 1, all = 1, extra = 0, missing = 0, titles = 0, unfin = 0, bullets = 0;
	bool operator==(const State & o) const { return !memcmp(this, &o, sizeof o); }
};
static State read(const VoikkoHandle & h) {
	return State{h.ignore_dot, h.ignore_numbers, h.ignore_uppercase, h.ignore_nonwords, h.accept_first_uppercase, h.accept_all_uppercase, h.accept_extra_hyphens, h.accept_missing_hyphens, h.accept_titles_in_gc, h.accept_unfinished_paragraphs_in_gc, h.accept_bulleted_lists_in_gc};
}
static S show(const State & s) { S r; for (const int * p = (const int *) &s; p < (const int *) (&s + 1); p++) r += std::to_string(*p); return r; }
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
// a new handle has the documented settings and releases everything when terminated
static void defaults() {
	char dir[] = "/tmp/voikko-c15-XXXXXX";
	if (!mkdtemp(dir)) return;
	S d = dir;
	mkdir((d + "/5").c_str(), 0700);
	mkdir((d + "/5/mor-x").c_str(), 0700);
	{ std::ofstream f(d + "/5/mor-x/index.txt"); f << "Voikko-Dictionary-Format: 5\nLanguage: fi-x-x\nDescription: d\nMorphology-Backend: null\nSpeller-Backend: AnalyzerToSpellerAdapter(currentAnalyzer)\nSuggestion-Backend: null\nHyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)\nGrammar-Backend: null\n"; }
	H::begin([&] { return S("voikkoInit with a dictionary whose back ends are null, then voikkoTerminate"); });
	const char * err = 0;
	VoikkoHandle * h = voikkoInit(&err, "fi-x-x", dir);
	CHECK(h != 0, "dictionary is not loaded", err ? err : "");
	if (h) {
		CHECK(read(*h) == State(), "settings of a new handle differ from the documented defaults", show(read(*h)));
		CHECK(h->spellerCache && h->spellerCache->getSizeParam() == 0, "a new handle has no speller cache of the default size", "");
		CHECK(!err, "error text without an error", err);
		voikkoTerminate(h);
	}
	for (const char * x : {"/5/mor-x/index.txt"}) unlink((d + x).c_str());
	rmdir((d + "/5/mor-x").c_str());
	rmdir((d + "/5").c_str());
	rmdir(dir);
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "random histories of option changes (valid and unknown identifiers, arbitrary values) on a handle with recording components; non-trivial: every history");
	defaults();
	while (H::more()) for (int k = 0; k < 20; k++) {
		MockHandle mh;
		MockHyphenator hy;
		mh.h.hyphenator = &hy;
		BackendProperties none("null", false), sug(H::rng.chance(80) ? "FinnishSuggestionStrategy(currentAnalyzer)" : "null", true);
		bool nullgen = sug.getBackend() == "null";
		mh.h.dictionary = Dictionary(none, none, none, none, sug, none, libvoikko::setup::LanguageTag(), "");
		mh.h.suggestionGenerator = new Gen;
		terminated = deleted = 0;
		Gc * gc = new Gc;
		mh.h.grammarChecker = gc;
		mh.h.spellerCache = H::rng.chance(50) ? new sp::SpellerCache(0) : 0;
		int cacheSize = mh.h.spellerCache ? 0 : -1;
		State want;
		std::map<S, int> hopts;
		int gen = 0;   // 0: initial, 1: typing, 2: OCR
		std::vector<S> log;
		unsigned long id = H::rng.below(1000000000);
		H::begin([&] { S s = "history " + std::to_string(id) + ": "; for (auto & x : log) s += x + " "; return s; });
		wchar_t * word = new wchar_t[6];
		wcscpy(word, L"kissa");
		for (int i = 0; i < 25; i++) {
			// something to lose
			if (!gc->cache.paragraph) { gc->cache.paragraph = new wchar_t[2]; gc->cache.paragraph[0] = L'a'; gc->cache.paragraph[1] = 0; gr::CacheEntry * e = new gr::CacheEntry(0); e->error.setErrorCode(1); gc->cache.appendError(e); }
			if (mh.h.spellerCache) mh.h.spellerCache->setSpellResult(word, 5, sp::SPELL_OK);
			bool isInt = H::rng.chance(15);
			int v = H::rng.chance(70) ? H::rng.range(0, 1) : H::rng.range(-3, 300);
			sp::SpellerCache * oldc = mh.h.spellerCache;
			libvoikko::morphology::Analyzer * oa = mh.h.morAnalyzer;
			sp::Speller * os = mh.h.speller;
			sg::SuggestionGenerator * og = mh.h.suggestionGenerator;
			bool cacheValid = true, gcValid = true, replaceGen = false;
			int rc, exp = 1;
			if (isInt) {
				static const int O[] = {VOIKKO_MIN_HYPHENATED_WORD_LENGTH, VOIKKO_SPELLER_CACHE_SIZE};
				int op = H::rng.chance(85) ? O[H::rng.below(2)] : H::rng.range(-2, 40);
				if (op == VOIKKO_SPELLER_CACHE_SIZE) v = H::rng.range(-2, 3);
				log.push_back("int" + std::to_string(op) + "=" + std::to_string(v));
				rc = voikkoSetIntegerOption(&mh.h, op, v);
				if (op == VOIKKO_MIN_HYPHENATED_WORD_LENGTH) hopts["min"] = v;
				else if (op == VOIKKO_SPELLER_CACHE_SIZE) {
					int n = v < 0 ? -1 : v;
					if (n != cacheSize) cacheValid = false;
					cacheSize = n;
				}
				else exp = 0;
			} else {
				static const int O[] = {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, VOIKKO_OPT_NO_UGLY_HYPHENATION, VOIKKO_OPT_OCR_SUGGESTIONS, VOIKKO_OPT_IGNORE_NONWORDS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_ACCEPT_TITLES_IN_GC, VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC};
				int op = H::rng.chance(92) ? O[H::rng.below(14)] : H::rng.range(-2, 40);
				int b = v ? 1 : 0;
				log.push_back("bool" + std::to_string(op) + "=" + std::to_string(v));
				rc = voikkoSetBooleanOption(&mh.h, op, v);
				switch (op) {
					case VOIKKO_OPT_IGNORE_DOT: want.dot = b; hopts["dot"] = b; break;
					case VOIKKO_OPT_IGNORE_NUMBERS: want.num = b; break;
					case VOIKKO_OPT_IGNORE_UPPERCASE: want.upp = b; break;
					case VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE: want.first = b; break;
					case VOIKKO_OPT_ACCEPT_ALL_UPPERCASE: want.all = b; break;
					case VOIKKO_OPT_NO_UGLY_HYPHENATION: hopts["ugly"] = !b; break;
					case VOIKKO_OPT_OCR_SUGGESTIONS: gen = b ? 2 : 1; replaceGen = true; break;
					case VOIKKO_OPT_IGNORE_NONWORDS: want.nonw = b; break;
					case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS: if (want.extra != b) cacheValid = false; want.extra = b; break;
					case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS: if (want.missing != b) cacheValid = false; want.missing = b; break;
					case VOIKKO_OPT_ACCEPT_TITLES_IN_GC: if (want.titles != b) gcValid = false; want.titles = b; break;
					case VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC: if (want.unfin != b) gcValid = false; want.unfin = b; break;
					case VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC: if (want.bullets != b) gcValid = false; want.bullets = b; break;
					case VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS: hopts["unknown"] = b; break;
					default: exp = 0;
				}
			}
			CHECK((rc != 0) == (exp != 0), "known options are accepted and unknown ones refused", show(rc));
			CHECK(read(mh.h) == want, "options of the handle differ", show(read(mh.h)) + " / " + show(want));
			CHECK(hy.opts == hopts, "options given to the hyphenator differ", "");
			CHECK(mh.h.morAnalyzer == oa && mh.h.speller == os && mh.h.grammarChecker == gc && mh.h.hyphenator == &hy, "a component changed", "");
			if (!gcValid) CHECK(!gc->cache.firstError && !gc->cache.paragraph, "grammar results of old options kept", "");
			CHECK((mh.h.spellerCache != 0) == (cacheSize >= 0), "speller cache present exactly when enabled", show(cacheSize));
			if (mh.h.spellerCache) {
				CHECK(mh.h.spellerCache->getSizeParam() == cacheSize, "speller cache size differs", show(mh.h.spellerCache->getSizeParam()));
				if (!cacheValid) CHECK(!mh.h.spellerCache->isInCache(word, 5), "spelling results of old options kept", "");
			}
			if (replaceGen) {
				if (nullgen) CHECK(dynamic_cast<sg::SuggestionGeneratorNull *>(mh.h.suggestionGenerator) != 0, "suggestion generator differs", "null");
				else if (gen == 2) CHECK(dynamic_cast<sg::SuggestionStrategyOcr *>(mh.h.suggestionGenerator) != 0, "suggestion generator differs", "OCR");
				else CHECK(dynamic_cast<sg::SuggestionStrategyTyping *>(mh.h.suggestionGenerator) != 0, "suggestion generator differs", "typing");
				CHECK(deleted == 1 && terminated == 1, "old suggestion generator is not released", show(deleted) + show(terminated));
			} else CHECK(mh.h.suggestionGenerator == og, "suggestion generator replaced", "");
		}
		delete[] word;
		mh.h.suggestionGenerator->terminate();
		delete mh.h.suggestionGenerator;
		delete mh.h.spellerCache;
		delete gc;
	}
	H::finish();
}
