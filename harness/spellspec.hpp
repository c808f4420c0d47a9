// Independent oracle for the spelling decision under options.
#pragma once
#include "spec.hpp"
#include "norm.hpp"
#include "handle.hpp"
#include "voikko.h"
struct Opts {
	int dot, numbers, upper, nonwords, first, all, missing;
	static Opts random() { auto r = [](int p) { return (int) H::rng.chance(p); }; return Opts{r(40), r(25), r(25), r(50), r(70), r(70), r(40)}; }
	void apply(VoikkoHandle & h) const { h.ignore_dot = dot; h.ignore_numbers = numbers; h.ignore_uppercase = upper; h.ignore_nonwords = nonwords; h.accept_first_uppercase = first; h.accept_all_uppercase = all; h.accept_missing_hyphens = missing; }
	S text() const { char b[120]; snprintf(b, sizeof b, " dot=%d numbers=%d upper=%d nonwords=%d first=%d all=%d missing=%d", dot, numbers, upper, nonwords, first, all, missing); return b; }
};
namespace spec {
	typedef std::function<sp::spellresult(const W &)> Sp;
	static sp::spellresult hyph(const Opts & o, const Sp & f, const W & w) {
		sp::spellresult r = f(w);
		if (r != sp::SPELL_FAILED || !o.missing || w.size() < 2) return r;
		W x = w;
		if (x[0] != L'-') x = L"-" + x;
		if (x.back() != L'-') x += L"-";
		return x == w ? sp::SPELL_FAILED : f(x);
	}
	static int spell(const Opts & o, const Sp & f, const W & word) {
		if (word.empty()) return 1;
		if (word.size() > 255) return 0;
		W n = norm(word);
		if (o.numbers) for (wchar_t c : n) if (isDigit(c)) return 1;
		int ct = casetype(n);
		if (o.upper && ct == CT_ALL_UPPER) return 1;
		if (o.nonwords && nonword(n)) return 1;
		if (ct == CT_ALL_UPPER && !o.all) ct = CT_COMPLEX;
		std::vector<W> forms = {n};
		if (o.dot && n.back() == L'.') forms.push_back(n.substr(0, n.size() - 1));
		for (W x : forms) {
			if (ct == CT_COMPLEX || ct == CT_NO_LETTERS) {
				if (x.size()) x[0] = lower(x[0]);
				sp::spellresult r = hyph(o, f, x);
				if (r == sp::SPELL_OK || (r == sp::SPELL_CAP_FIRST && o.first && isUpper(n[0]))) return 1;
			} else {
				for (auto & c : x) c = lower(c);
				sp::spellresult r = hyph(o, f, x);
				if (ct == CT_ALL_LOWER && r == sp::SPELL_OK) return 1;
				if (ct == CT_FIRST_UPPER && ((r == sp::SPELL_OK && o.first) || r == sp::SPELL_CAP_FIRST)) return 1;
				if (ct == CT_ALL_UPPER && r != sp::SPELL_FAILED) return 1;
			}
		}
		return 0;
	}
}
static W spellword() {
	W w = H::rng.chance(75) ? G::word(14) : G::text(16);
	if (H::rng.chance(20)) w = spec::decorate(w);
	if (H::rng.chance(25)) w = spec::setcase(H::rng.range(1, 4), w);
	if (H::rng.chance(15)) w = L"-" + w;
	if (H::rng.chance(15)) w += L"-";
	if (H::rng.chance(20)) w += L".";
	if (H::rng.chance(2)) w += W(H::rng.range(220, 260), G::letter());
	if (H::rng.chance(3)) w += L"@" + G::word(5) + L"." + G::word(3);
	return w;
}
