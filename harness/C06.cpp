#include "spec.hpp"
#include "handle.hpp"
#include "utf8.hpp"
#include "tokenizer/Tokenizer.hpp"
#include "voikko.h"
using namespace libvoikko;
using libvoikko::tokenizer::Tokenizer;
struct Tok { voikko_token_type t; size_t pos, len; };
// Reference splitter over the token sequence of the text.
static voikko_sentence_type ref(MockHandle & h, const W & w, size_t & len) {
	std::vector<Tok> toks;
	Buf b(w);
	for (size_t p = 0; p < w.size();) {
		size_t n = 0;
		h.h.ignore_dot = 0;
		voikko_token_type t = Tokenizer::nextToken(&h.h, b.p + p, w.size() - p, &n);
		toks.push_back({t, p, n});
		p += n;
	}
	bool end = false, quoted = false, unsure = false, dotword = false;
	for (size_t i = 0; i < toks.size(); i++) {
		const Tok & k = toks[i];
		if (end && !quoted) {
			if (k.t == TOKEN_WHITESPACE) continue;
			len = k.pos;
			bool glued = toks[i - 1].t != TOKEN_WHITESPACE && k.t == TOKEN_WORD;
			return dotword || unsure || glued ? SENTENCE_POSSIBLE : SENTENCE_PROBABLE;
		}
		if (k.t != TOKEN_PUNCTUATION) continue;
		wchar_t c = w[k.pos];
		if (c == L'!' || c == L'?') { end = true; if (quoted) unsure = true; }
		else if (c == 0x2026 || c == L':' || (c == L'.' && k.len == 3)) end = unsure = true;
		else if (c == L'.') {
			end = true;
			if (i && toks[i - 1].t == TOKEN_WORD) {
				W d = w.substr(toks[i - 1].pos, toks[i - 1].len + 1);
				bool part = d.size() == 2 && spec::isUpper(d[0]);
				if (!part) {
					part = true;
					for (size_t j = 0; j + 1 < d.size(); j++) if (d[j] != L'.' && d[j] != L'-' && !spec::isDigit(d[j])) part = false;
				}
				if (!part) part = h.speller.spell(d.c_str(), d.size()) != sp::SPELL_FAILED;
				if (part) dotword = true;
			}
		}
		else if (spec::quote(c) || c == 0x201C) {
			quoted = !quoted;
			if (!quoted && k.pos + 1 < w.size() && w[k.pos + 1] == L',') end = unsure = false;
		}
	}
	len = w.size();
	return SENTENCE_NONE;
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "random paragraphs of words, abbreviations, numbers, quotations and end punctuation; all sentences of each are checked; non-trivial: at least three characters");
	MockHandle h;
	while (H::more()) for (int k = 0; k < 60; k++) {
		W w;
		if (H::rng.chance(35)) w = G::text(80);
		else {
			int n = H::rng.range(1, 14);
			while (n--) {
				const wchar_t * f[] = {L".", L".", L"!", L"?", L"...", L"\u2026", L":", L"\"", L"\u201d", L"\u00bb", L"\u201c", L",", L" ", L" ", L" ", L"  ", L"\n", L"K.", L"24.-26.", L"1.", L"ts.", L"?!", L"!!", L"-", L"(", L")", L"\",", L".\"", L"\". ", L"etc."};
				if (H::rng.chance(45)) { w += G::word(6); if (H::rng.chance(50)) w += L' '; }
				else w += f[H::rng.below(30)];
			}
		}
		for (auto & c : w) if (!spec::scalar(c)) c = L'x';
		int dot = H::rng.range(0, 1);
		h.speller.salt = H::rng.below(50);
		uint64_t salt = h.speller.salt;
		H::begin([=] { return show(w) + " ignore_dot=" + show(dot) + " lexicon " + show((unsigned long) salt); }, w.size() > 2);
		Buf b(w);
		size_t pos = 0;
		int guard = 0;
		while (pos <= w.size() && guard++ < 300) {
			W rest = w.substr(pos);
			size_t el = 0;
			voikko_sentence_type et = ref(h, rest, el);
			h.h.ignore_dot = dot;
			size_t sl = 98765;
			voikko_sentence_type t;
			bool cstr = H::rng.chance(30);
			if (cstr) { S u; spec::encode(rest, u); CBuf cb(u); t = voikkoNextSentenceStartCstr(&h.h, cb.p, u.size(), &sl); }
			else t = voikkoNextSentenceStartUcs4(&h.h, b.p + pos, w.size() - pos, &sl);
			CHECK(h.h.ignore_dot == dot, "option changed by sentence splitting", show(h.h.ignore_dot));
			CHECK(t == et && sl == el, "sentence boundary differs", S("at ") + show(pos) + ": type " + show((int) t) + " length " + show(sl) + ", expected " + show((int) et) + " " + show(el));
			if (t == SENTENCE_NONE) { CHECK(sl == rest.size(), "last sentence does not reach the end", show(sl)); break; }
			if (sl == 0 || sl > rest.size()) { H::fail("sentence length not within the text", show(sl)); break; }
			pos += sl;
		}
	}
	H::finish();
}
