#include "spec.hpp"
#include "utf8.hpp"
#include "comp.hpp"
#include "voikko.h"
#include "voikko_deprecated.h"
#include "grammar/GrammarChecker.hpp"
#include "grammar/CacheEntry.hpp"
namespace gr = libvoikko::grammar;
struct Err { size_t start, len; int code; std::vector<S> sugg; };
static W current;
static unsigned long checks;
static std::function<std::vector<Err>(const W &)> rules;
struct MockAnalysis : gr::Analysis {
	gr::Paragraph * analyseParagraph(const wchar_t * t, size_t n) override { current = W(t, n); return new gr::Paragraph; }
	void analyseToken(gr::Token *) override {}
	gr::Sentence * analyseSentence(const wchar_t *, size_t, size_t) override { return 0; }
};
struct MockChecker;
struct MockRules : gr::RuleEngine {
	MockChecker * c;
	void check(const gr::Paragraph *) override;
	~MockRules() override {}
};
struct MockChecker : gr::GrammarChecker {
	MockAnalysis a;
	MockRules r;
	MockChecker() { r.c = this; ruleEngine = &r; analyser = 0; paragraphAnalyser = &a; }
	~MockChecker() override {}
};
void MockRules::check(const gr::Paragraph *) {
	checks++;
	for (auto & e : rules(current)) {
		gr::CacheEntry * n = new gr::CacheEntry(e.sugg.size());
		n->error.setErrorCode(e.code);
		n->error.setStartPos(e.start);
		n->error.setErrorLen(e.len);
		for (size_t i = 0; i < e.sugg.size(); i++) { n->error.getSuggestions()[i] = new char[e.sugg[i].size() + 1]; strcpy(n->error.getSuggestions()[i], e.sugg[i].c_str()); }
		c->cache.appendError(n);
	}
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "random histories of grammar error requests and option changes over random paragraphs with a rule engine of random errors, given in exactly sized buffers; non-trivial: at least one error");
	MockHandle mh;
	MockHyphenator hy;
	mh.h.hyphenator = &hy;
	while (H::more()) for (int k = 0; k < 20; k++) {
		uint64_t salt = H::rng.below(1000);
		std::vector<S> log;
		int bias = 0;
		MockChecker * ck = new MockChecker;
		mh.h.grammarChecker = ck;
		mh.h.accept_titles_in_gc = mh.h.accept_unfinished_paragraphs_in_gc = mh.h.accept_bulleted_lists_in_gc = 0;
		rules = [&](const W & t) {
			std::vector<Err> v;
			uint64_t h = hashw(t, salt + bias);
			size_t n = h % 7;
			for (size_t i = 0; i < n; i++) {
				uint64_t g = hashw(t, salt + bias + 1 + i);
				Err e{(size_t) (g % (t.size() + 1)), (size_t) (g / 7 % 5), (int) (g / 11 % 17 + 1), {}};
				if (i % 2 && g % 3) e.start = v.back().start;
				for (size_t j = 0; j < g / 31 % 4; j++) e.sugg.push_back("s" + std::to_string(g % 100 + j) + S(g / 5 % 9, 'x'));
				v.push_back(e);
			}
			return v;
		};
		std::vector<W> texts;
		for (int i = 0; i < 4; i++) { W t = G::text(40); for (auto & c : t) if (!spec::scalar(c)) c = L'x'; if (t.empty()) t = L"a"; texts.push_back(t); if (t.size() > 2 && H::rng.chance(50)) texts.push_back(t.substr(0, H::rng.range(1, t.size() - 1))); }
		H::begin([&] { S s = "rules " + show((unsigned long) salt) + ":"; for (auto & x : log) s += " " + x; return s; });
		for (int i = 0; i < 30; i++) {
			if (H::rng.chance(15)) {
				static const int O[] = {VOIKKO_OPT_ACCEPT_TITLES_IN_GC, VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC};
				int op = H::rng.below(3), v = H::rng.range(0, 3);
				log.push_back("option " + show(O[op]) + "=" + show(v));
				voikkoSetBooleanOption(&mh.h, O[op], v);
				bias = 1000 * (mh.h.accept_titles_in_gc + 2 * mh.h.accept_unfinished_paragraphs_in_gc + 4 * mh.h.accept_bulleted_lists_in_gc);
				continue;
			}
			W t = H::rng.pick(texts);
			std::vector<Err> es = rules(t);
			std::stable_sort(es.begin(), es.end(), [](const Err & a, const Err & b) { return a.start < b.start; });
			size_t start = H::rng.chance(50) ? 0 : H::rng.below(t.size() + 3);
			int skip = H::rng.chance(40) ? 0 : H::rng.range(-1, 8);
			const Err * e = 0;
			for (size_t j = 0; j < es.size(); j++) if ((int) j >= skip && es[j].start >= start) { e = &es[j]; break; }
			VoikkoGrammarError * g;
			bool cstr = H::rng.chance(30);
			log.push_back(S(cstr ? "utf8 " : "wide ") + show(t) + " from " + show(start) + " skip " + show(skip));
			if (cstr) { S u; spec::encode(t, u); CBuf b(u); g = voikkoNextGrammarErrorCstr(&mh.h, b.p, u.size(), start, skip); }
			else { Buf b(t); g = voikkoNextGrammarErrorUcs4(&mh.h, b.p, t.size(), start, skip); }
			CHECK((g != 0) == (e != 0), "an error is reported exactly when the rules found one", show((int) (g != 0)) + " / " + show((int) (e != 0)));
			if (g && e) {
				CHECK(voikkoGetGrammarErrorCode(g) == e->code && voikkoGetGrammarErrorStartPos(g) == e->start && voikkoGetGrammarErrorLength(g) == e->len, "reported error differs", show(voikkoGetGrammarErrorStartPos(g)) + " / " + show(e->start));
				std::vector<S> s;
				for (const char ** p = voikkoGetGrammarErrorSuggestions(g); p && *p; p++) s.push_back(*p);
				CHECK(s == e->sugg, "suggestions of the error differ", show(s.size()) + " / " + show(e->sugg.size()));
			}
			voikkoFreeGrammarError(g);
		}
		if (k % 5 == 0) {
			W t = texts[0];
			Buf b(t, true);
			long lk = leaked([&] { ck->cache.clear(); current.clear(); current.shrink_to_fit(); voikkoFreeGrammarError(voikkoNextGrammarErrorUcs4(&mh.h, b.p, t.size(), 0, 0)); ck->cache.clear(); current.clear(); current.shrink_to_fit(); });
			CHECK(lk == 0, "memory is not released", show(lk));
		}
		delete ck;
	}
	H::finish();
}
