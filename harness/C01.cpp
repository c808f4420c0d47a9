#include "spec.hpp"
#include "character/SimpleChar.hpp"
#include "character/charset.hpp"
using namespace libvoikko;
using libvoikko::character::SimpleChar;
int main(int argc, char ** argv) {
	H::init(argc, argv, "every code point 0..0x110000 and a sample of other 32-bit values; strings for case-insensitive comparison");
	for (int c = -300; c < 0x110400; c++) {
		wchar_t x = (wchar_t) c;
		H::begin([=] { return show(x); }, c < 0x3000);
		CHECK(SimpleChar::lower(x) == spec::lower(x), "lower-case mapping differs", show(SimpleChar::lower(x)));
		CHECK(SimpleChar::upper(x) == spec::upper(x), "upper-case mapping differs", show(SimpleChar::upper(x)));
		CHECK(SimpleChar::isUpper(x) == spec::isUpper(x), "upper-case test differs", "");
		CHECK(SimpleChar::isLower(x) == spec::isLower(x), "lower-case test differs", "");
		CHECK(SimpleChar::isDigit(x) == spec::isDigit(x), "digit test differs", "");
		CHECK(SimpleChar::isWhitespace(x) == spec::isWs(x), "white-space test differs", "");
		CHECK((int) get_char_type(x) == spec::type(x), "classification differs", show((int) get_char_type(x)));
		CHECK(isFinnishQuotationMark(x) == spec::quote(x), "quotation-mark test differs", "");
	}
	while (H::more()) {
		W a = G::word(12), b = a;
		for (auto & c : b) if (H::rng.chance(40)) c = H::rng.chance(50) ? spec::lower(c) : spec::upper(c);
		if (H::rng.chance(30) && !b.empty()) b[H::rng.below(b.size())] = G::ch();
		if (H::rng.chance(10)) b += L'a';
		for (auto & c : b) if (!c) c = 1;
		H::begin([=] { return show(a) + " " + show(b); });
		Buf p(a, true), q(b, true);
		bool e = a.size() == b.size();
		for (size_t i = 0; e && i < a.size(); i++) e = spec::lower(a[i]) == spec::lower(b[i]);
		CHECK(SimpleChar::equalsIgnoreCase(p.p, q.p) == e, "case-insensitive comparison differs", show(!e));
	}
	H::finish();
}
