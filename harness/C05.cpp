#include "spec.hpp"
#include "handle.hpp"
#include "tokenizer/Tokenizer.hpp"
#include "voikko.h"
using namespace libvoikko;
using libvoikko::tokenizer::Tokenizer;
int main(int argc, char ** argv) {
	H::init(argc, argv, "random texts; every token of the text is checked; non-trivial: at least two tokens");
	MockHandle h;
	while (H::more()) for (int k = 0; k < 100; k++) {
		W w = H::rng.chance(80) ? G::text(60) : G::word(20) + L' ' + G::word(20);
		if (H::rng.chance(20)) { const wchar_t * f[] = {L"http://", L"https://", L"www.", L"a@b.fi", L"...", L"1.000,5", L"@", L"h\u00e4n@x.y", L"-", L"'", L":"}; w.insert(H::rng.below(w.size() + 1), f[H::rng.below(11)]); }
		int dot = H::rng.range(0, 1);
		h.h.ignore_dot = dot;
		H::begin([=] { return show(w) + " ignore_dot=" + show(dot); }, w.size() > 2);
		size_t pos = 0;
		Buf b(w);
		int n = 0;
		W joined;
		while (true) {
			size_t tl = 12345;
			voikko_token_type t = Tokenizer::nextToken(&h.h, b.p + pos, w.size() - pos, &tl);
			if (pos == w.size()) {
				CHECK(t == TOKEN_NONE && tl == 0, "token after the end of the text", show((int) t));
				break;
			}
			CHECK(t != TOKEN_NONE, "no token although text remains", show(pos));
			if (tl < 1 || tl > w.size() - pos) { H::fail("token length not within the text", show(tl)); break; }
			W tok = w.substr(pos, tl);
			bool anyws = false, allws = true;
			for (wchar_t c : tok) { if (spec::isWs(c)) anyws = true; else allws = false; }
			int t0 = spec::type(tok[0]);
			CHECK((t == TOKEN_WHITESPACE) == (t0 == spec::WS), "white-space token wrong", show(tok));
			if (t == TOKEN_WHITESPACE) {
				CHECK(allws, "white-space token contains other characters", show(tok));
				CHECK(pos + tl == w.size() || !spec::isWs(w[pos + tl]), "white-space token not maximal", show(tok));
			} else CHECK(!anyws, "token contains white space", show(tok));
			CHECK((t == TOKEN_UNKNOWN) == (t0 == spec::UNK), "unknown-character token wrong", show(tok));
			if (t == TOKEN_UNKNOWN) CHECK(tl == 1, "unknown-character token is not one character", show(tok));
			if (t0 == spec::LETTER || t0 == spec::DIGIT) CHECK(t == TOKEN_WORD, "letter or digit does not start a word", show(tok));
			if (t == TOKEN_PUNCTUATION) CHECK(t0 == spec::PUNCT && (tl == 1 || tok == L"..."), "punctuation token wrong", show(tok));
			if (t == TOKEN_WORD) CHECK(t0 == spec::LETTER || t0 == spec::DIGIT || tok[0] == L'-' || tok[0] == 0x2010 || tok[0] == 0x2011 || tok[0] == 0, "word starts with a wrong character", show(tok));
			joined += tok;
			pos += tl;
			n++;
		}
	}
	H::finish();
}
