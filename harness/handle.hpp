// A VoikkoHandle with mock components whose answers are deterministic functions of the word.
#pragma once
#include "common.hpp"
#include "setup/setup.hpp"
#include "morphology/Analysis.hpp"
using libvoikko::morphology::Analysis;
using libvoikko::morphology::Analyzer;
namespace sp = libvoikko::spellchecker;

struct MockSpeller : sp::Speller {
	uint64_t salt = 1;
	unsigned long calls = 0;
	std::function<sp::spellresult(const W &)> f;
	sp::spellresult spell(const wchar_t * word, size_t wlen) override {
		calls++;
		W w(word, wlen);
		if (f) return f(w);
		static const sp::spellresult R[] = {sp::SPELL_OK, sp::SPELL_CAP_FIRST, sp::SPELL_CAP_ERROR, sp::SPELL_FAILED};
		return R[hashw(w, salt) % 4];
	}
	void terminate() override {}
};

struct MockAnalyzer : Analyzer {
	std::function<std::vector<W>(const W &)> f;   // structures, one analysis each
	std::function<void(const W &, size_t, Analysis *)> extra;   // further attributes
	unsigned long calls = 0;
	std::list<Analysis *> * analyze(const wchar_t * word, size_t wlen, bool full) override {
		calls++;
		auto * l = new std::list<Analysis *>();
		if (!f) return l;
		for (const W & s : f(W(word, wlen))) {
			Analysis * a = new Analysis();
			wchar_t * v = new wchar_t[s.size() + 1];
			wcscpy(v, s.c_str());
			a->addAttribute(Analysis::Key::STRUCTURE, v);
			if (extra) extra(W(word, wlen), l->size(), a);
			l->push_back(a);
		}
		return l;
	}
	std::list<Analysis *> * analyze(const char * word, bool full) override {
		std::wstring w;
		// decode (the drivers only pass valid UTF-8)
		for (const unsigned char * p = (const unsigned char *) word; *p;) {
			unsigned c = *p++;
			int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
			if (n) c &= (0x3F >> n);
			while (n--) c = (c << 6) | (*p++ & 0x3F);
			w += (wchar_t) c;
		}
		return analyze(w.c_str(), w.size(), full);
	}
	void terminate() override {}
};

struct MockHandle {
	VoikkoHandle h;
	MockSpeller speller;
	MockAnalyzer analyzer;
	MockHandle() {
		h.ignore_dot = h.ignore_numbers = h.ignore_uppercase = 0;
		h.ignore_nonwords = h.accept_first_uppercase = h.accept_all_uppercase = 1;
		h.accept_extra_hyphens = h.accept_missing_hyphens = h.accept_titles_in_gc = h.accept_unfinished_paragraphs_in_gc = h.accept_bulleted_lists_in_gc = 0;
		h.grammarChecker = 0;
		h.morAnalyzer = &analyzer;
		h.speller = &speller;
		h.spellerCache = 0;
		h.suggestionGenerator = 0;
		h.hyphenator = 0;
		h.hfst = 0;
	}
};
