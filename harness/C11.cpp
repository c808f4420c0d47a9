#include "spec.hpp"
#include "norm.hpp"
#include "comp.hpp"
#include "voikko.h"
#include "utils/utils.hpp"
#include "spellchecker/suggestion/SuggestionStatus.hpp"
using namespace libvoikko;
using sp::suggestion::SuggestionStatus;
typedef std::vector<std::pair<W, int>> Cands;
static wchar_t * dup(const W & w) { wchar_t * c = new wchar_t[w.size() + 1]; wcscpy(c, w.c_str()); return c; }
/** the candidates kept, weighted and ordered */
static Cands collect(const Cands & in, size_t max) {
	Cands r;
	for (auto & x : in) if (r.size() < max) r.push_back({x.first, (int) (x.second * (long) (r.size() + 5))});
	std::stable_sort(r.begin(), r.end(), [](auto & a, auto & b) { return a.second < b.second; });
	return r;
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words given to voikkoSuggestUcs4 with a generator of random candidates, and random sequences of additions to a suggestion status; non-trivial: at least one candidate");
	MockHandle mh;
	MockGenerator gen;
	mh.h.suggestionGenerator = &gen;
	while (H::more()) for (int k = 0; k < 200; k++) {
		int n = H::rng.range(0, 3) ? H::rng.range(0, 8) : H::rng.range(0, 25);
		int wide = H::rng.range(0, 2);
		Cands c;
		W w = H::rng.chance(70) ? G::word(24) : G::text(24);
		if (H::rng.chance(30)) w = spec::decorate(w);
		if (H::rng.chance(25)) w += L'.';
		if (H::rng.chance(25)) { W u = spec::setcase(H::rng.range(1, 4), w); w = u; }
		for (int i = 0; i < n; i++) {
			W x;
			int m = H::rng.range(0, 5);
			if (m == 0) x = G::word(12);
			else { x = spec::norm(w); size_t p = H::rng.below(x.size() + 1); if (m == 1) x.insert(p, 1, G::letter()); else if (m == 2 && x.size()) x.erase(p, 1); else if (m == 3 && p < x.size()) x[p] = G::letter(); else if (m == 4) x = spec::setcase(spec::CT_ALL_LOWER, x); else x.insert(p, L" "); }
			if (x.empty()) x = L"a";
			c.push_back({x, wide == 0 ? H::rng.range(0, 3) : wide == 1 ? H::rng.range(1, 60) : H::rng.range(0, 100000)});
		}
		if (k % 5 == 0) {
			size_t max = H::rng.below(18), mc = H::rng.below(10);
			H::begin([=] { S s = "status max " + show(max) + " cost " + show(mc); for (auto & x : c) s += " " + show(x.first) + ":" + show(x.second); return s; }, n > 0);
			Cands e = collect(c, max);
			long lk = leaked([&] {
				Buf b(w, true);
				SuggestionStatus s(b.p, w.size(), max);
				CHECK(s.getSuggestionCount() == 0 && s.getMaxSuggestionCount() == max && s.getWord() == b.p && s.getWordLength() == w.size(), "new status differs", "");
				s.setMaxCost(mc);
				size_t cost = 0, cnt = 0;
				for (auto & x : c) {
					CHECK(s.shouldAbort() == (cnt == max || (cost >= mc && (cnt > 0 || cost >= 2 * mc))), "abort condition differs", show(cost) + " " + show(cnt));
					s.addSuggestion(dup(x.first), x.second);
					if (cnt < max) cnt++;
					CHECK(s.getSuggestionCount() == cnt, "number of suggestions differs", show(s.getSuggestionCount()));
					if (hashw(x.first, cnt) % 2) { s.charge(); cost++; }
				}
				s.sortSuggestions();
				bool ok = s.getSuggestionCount() == e.size();
				for (size_t i = 0; ok && i < e.size(); i++) ok = e[i].first == s.getSuggestions()[i].word && e[i].second == s.getSuggestions()[i].priority;
				CHECK(ok, "sorted suggestions differ", "");
			});
			CHECK(lk == 0, "memory is not released", show(lk));
			continue;
		}
		bool dot = H::rng.chance(50), up = H::rng.chance(70);
		mh.h.ignore_dot = dot;
		mh.h.accept_all_uppercase = up;
		gen.f = [&](const W &) { return c; };
		gen.seen = L"\uffff";
		H::begin([=] { S s = "suggest " + show(w) + " ignore_dot " + show((int) dot) + " accept_all_uppercase " + show((int) up); for (auto & x : c) s += " " + show(x.first) + ":" + show(x.second); return s; }, n > 0);
		Buf b(w, true);
		W nw = spec::norm(w);
		bool none = w.size() <= 1 || w.size() > 255 || nw.size() <= 1, added = false;
		if (dot) { if (nw.size() == 2) none = true; else if (nw.size() && nw.back() == L'.') { nw.pop_back(); added = true; } }
		std::vector<W> e;
		Cands r = collect(c, 15);
		if (r.size() > 5) r.resize(5);
		int oc = spec::casetype(nw);
		if (!none) for (auto & x : r) {
			W s = x.first;
			if (added && s.back() != L'.') s += L'.';
			if ((oc == spec::CT_FIRST_UPPER || (oc == spec::CT_COMPLEX && spec::isUpper(nw[0]))) && spec::casetype(s) == spec::CT_ALL_LOWER) s = spec::setcase(spec::CT_FIRST_UPPER, s);
			if (oc == spec::CT_ALL_UPPER && up) s = spec::setcase(spec::CT_ALL_UPPER, s);
			e.push_back(spec::reformat(w, s));
		}
		wchar_t ** got = voikkoSuggestUcs4(&mh.h, b.p);
		std::vector<W> g;
		for (wchar_t ** p = got; p && *p; p++) g.push_back(*p);
		voikko_free_suggest_ucs4(got);
		CHECK((got != 0) == !e.empty(), "suggestions exactly when there are candidates", show(g.size()) + " / " + show(e.size()));
		if (!none) CHECK(gen.seen == nw, "word given to the generator differs", show(gen.seen));
		CHECK(g == e, "suggestions differ", (g.empty() ? S("none") : show(g[0])) + " / " + (e.empty() ? S("none") : show(e[0])) + " counts " + show(g.size()) + " / " + show(e.size()));
		if (k % 8 == 1) { c.clear(); gen.f = nullptr; W keep = w; long lk = leaked([&] { gen.seen.clear(); gen.seen.shrink_to_fit(); voikko_free_suggest_ucs4(voikkoSuggestUcs4(&mh.h, b.p)); gen.seen.clear(); gen.seen.shrink_to_fit(); }); CHECK(lk == 0, "memory is not released by a call without suggestions", show(lk)); }
	}
	H::finish();
}
