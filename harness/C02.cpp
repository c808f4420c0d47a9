#include "spec.hpp"
#include "norm.hpp"
#include "handle.hpp"
#include "voikko.h"
#include "character/charset.hpp"
using namespace libvoikko;
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words with decomposed letters, ligatures and typographic characters, and random pairs of words for restoring them; every base letter and mark of the table; non-trivial: at least one character");
	MockHandle mh;
	for (wchar_t a = 0x20; a < 0x500; a++) for (wchar_t b : {0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x30a, 0x30b, 0x30c, 0x327, 0x328}) {
		W w = W(1, a) + W(1, b);
		H::begin([=] { return show(w); });
		wchar_t * r = voikko_normalise(w.c_str(), 2);
		CHECK(r && W(r) == spec::norm(w), "normalised pair differs", show(r));
		delete[] r;
	}
	while (H::more()) for (int k = 0; k < 200; k++) {
		W w = spec::decorate(H::rng.chance(30) ? G::text(30) : G::word(25));
		W e = spec::norm(w);
		{
			H::begin([=] { return "normalise " + show(w); }, !w.empty());
			Buf b(w);
			wchar_t * r = voikko_normalise(b.p, w.size());
			if (!r) { H::fail("no normalised form", ""); continue; }
			CHECK(W(r) == e, "normalised form differs", show(r));
			CHECK(wcslen(r) <= 3 * w.size(), "normalised form too long", "");
			Buf b2(e);
			wchar_t * r2 = voikko_normalise(b2.p, e.size());
			if (spec::norm(e) == e) CHECK(W(r2) == e, "normalising twice differs", show(r2));
			delete[] r2;
			delete[] r;
		}
		if (w.size() < 250 && e.size() < 250 && k % 2 == 0 && spec::norm(e) == e) {
			H::begin([=] { return "spell " + show(w); }, !w.empty());
			mh.speller.salt = H::rng.below(50);
			mh.h.ignore_dot = H::rng.range(0, 1);
			Buf b(w, true), b2(e, true);
			int x = voikkoSpellUcs4(&mh.h, b.p);
			int y = voikkoSpellUcs4(&mh.h, b2.p);
			CHECK(x == y, "spelling differs between a word and its normalised form", show(x) + " / " + show(y));
		}
		{
			W o = w, m;
			int c = H::rng.range(0, 4);
			if (c == 0) m = G::word(20);
			else if (c == 1) m = e;
			else { m = e; if (m.size()) m.erase(H::rng.below(m.size()), H::rng.below(3)); m.insert(H::rng.below(m.size() + 1), G::word(3)); }
			H::begin([=] { return "reformat " + show(o) + " " + show(m); }, !o.empty() && !m.empty());
			Buf ob(o);
			wchar_t * mp = new wchar_t[m.size() + 1];
			wcscpy(mp, m.c_str());
			wchar_t * before = mp;
			voikko_cset_reformat(ob.p, o.size(), &mp, m.size());
			CHECK(mp == before, "buffer replaced", "");
			CHECK(W(mp, m.size()) == spec::reformat(o, m) && mp[m.size()] == 0, "restored word differs", show(W(mp, m.size())));
			delete[] mp;
		}
	}
	H::finish();
}
