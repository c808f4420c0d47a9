// More mock components: hyphenator and suggestion generator.
#pragma once
#include "handle.hpp"
#include "hyphenator/Hyphenator.hpp"
#include "spellchecker/suggestion/SuggestionGenerator.hpp"
struct MockHyphenator : libvoikko::hyphenator::Hyphenator {
	std::function<S(const W &)> f;
	std::map<S, int> opts;
	char * hyphenate(const wchar_t * word, size_t wlen) override {
		W w(word, wlen);
		S s = f ? f(w) : S(wlen, ' ');
		if (!f) for (size_t i = 1; i < wlen; i++) { uint64_t h = hashw(w, i) % 5; s[i] = h == 0 ? '-' : h == 1 ? '=' : ' '; }
		if (s == "null") return 0;
		char * r = new char[s.size() + 1];
		strcpy(r, s.c_str());
		return r;
	}
	void terminate() override {}
	void setUglyHyphenation(bool v) override { opts["ugly"] = v; }
	void setHyphenateUnknown(bool v) override { opts["unknown"] = v; }
	void setMinHyphenatedWordLength(int v) override { opts["min"] = v; }
	void setIgnoreDot(bool v) override { opts["dot"] = v; }
};
struct MockGenerator : sp::suggestion::SuggestionGenerator {
	std::function<std::vector<std::pair<W, int>>(const W &)> f;
	mutable W seen;
	void generate(sp::suggestion::SuggestionStatus * s) const override {
		seen = W(s->getWord(), s->getWordLength());
		if (!f) return;
		s->setMaxCost(1000);
		for (auto & x : f(seen)) {
			if (s->shouldAbort()) break;
			wchar_t * c = new wchar_t[x.first.size() + 1];
			wcscpy(c, x.first.c_str());
			s->addSuggestion(c, x.second);
		}
	}
};
