#include "spec.hpp"
#include "utils/utils.hpp"
using namespace libvoikko;
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words over letters of both cases, digits, punctuation and literals of the source; non-trivial: at least one character");
	while (H::more()) for (int k = 0; k < 200; k++) {
		W w = H::rng.chance(25) ? G::text(30) : G::word(30);
		if (H::rng.chance(15)) { const wchar_t * f[] = {L"//", L"@", L"www.", L".", L"http://", L"/"}; size_t pos = H::rng.below(w.size() + 1); w.insert(H::rng.chance(50) ? 0 : pos, f[H::rng.below(6)]); if (H::rng.chance(60)) w.insert(H::rng.below(w.size() + 1), L"."); }
		H::begin([=] { return show(w); }, !w.empty());
		Buf b(w);
		int t = voikko_casetype(b.p, w.size());
		CHECK(t == spec::casetype(w), "case type differs", show(t));
		CHECK(voikko_is_nonword(b.p, w.size()) == spec::nonword(w), "non-word test differs", "");
		for (int ct = 0; ct < 5; ct++) {
			Buf c(w);
			voikko_set_case((casetype) ct, c.p, w.size());
			W r(c.p, w.size());
			CHECK(r == spec::setcase(ct, w), "set case " + show(ct) + " differs", show(r));
		}
	}
	H::finish();
}
