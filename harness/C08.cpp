#include "spellspec.hpp"
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words, options and spellers given to voikkoSpellUcs4 and compared with an independent decision table; non-trivial: at least one character");
	MockHandle mh;
	while (H::more()) for (int k = 0; k < 200; k++) {
		W w = spellword();
		Opts o = Opts::random();
		uint64_t salt = H::rng.below(1000);
		int mode = H::rng.range(0, 3);
		H::begin([=] { return show(w) + o.text() + " speller " + show(mode) + "/" + show((unsigned long) salt); }, !w.empty());
		o.apply(mh.h);
		auto f = [&](const W & x) {
			static const sp::spellresult R[] = {sp::SPELL_OK, sp::SPELL_CAP_FIRST, sp::SPELL_CAP_ERROR, sp::SPELL_FAILED};
			uint64_t h = hashw(x, salt);
			if (mode == 0) return R[h % 4];
			if (mode == 1) return h % 5 ? sp::SPELL_FAILED : R[h / 5 % 4];
			if (mode == 2) return x.size() && x[0] == L'-' ? sp::SPELL_OK : sp::SPELL_FAILED;
			return x.size() % 2 ? R[h % 4] : sp::SPELL_FAILED;
		};
		mh.speller.f = f;
		Buf b(w, true);
		int got = 0;
		if (k % 16 == 0) { long lk = leaked([&] { got = voikkoSpellUcs4(&mh.h, b.p); }); CHECK(lk == 0, "memory is not released", show(lk)); }
		else got = voikkoSpellUcs4(&mh.h, b.p);
		int e = spec::spell(o, f, w);
		CHECK(got == e, "spelling decision differs", show(got) + " / " + show(e));
	}
	H::finish();
}
