#include "spec.hpp"
#include "utf8.hpp"
#include "comp.hpp"
#include "voikko.h"
#include "hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp"
using libvoikko::hyphenator::AnalyzerToFinnishHyphenatorAdapter;
struct Hy { bool ugly, unknown, dot; int min; };
static bool vow(wchar_t c) { return c && wcschr(L"aeiouy\u00e4\u00f6", c); }
static bool con(wchar_t c) { return c && wcschr(L"bcdfghjklmnpqrstvwxz\u0161\u017e", c); }
static bool mark(char c) { return c == '-' || c == '='; }
static bool allowed(const Hy & o, const W & w) {
	if (w.size() <= 1) return false;
	return o.ugly || (!spec::nonword(w) && !spec::isDigit(w.back()));
}
// a new break at p leaves a vowel on both sides (up to the neighbouring breaks; the first character of the part does not count)
static bool good(const W & w, const S & h, size_t p) {
	size_t n = w.size();
	if (p == 0 || p + 1 >= n) return false;
	bool l = false, r = false;
	for (size_t i = p - 1; i > 0 && !mark(h[i]); i--) if (vow(w[i])) l = true;
	for (size_t i = p; i < n && !mark(h[i]) && w[i] != L'.'; i++) if (vow(w[i])) r = true;
	return l && r;
}
// Finnish syllable rules for a simple part of a word
static void rules(const Hy & o, const W & part, S & h, size_t off) {
	if (!allowed(o, part) || h[off] == 'X') return;
	W w;
	for (wchar_t c : part) w += spec::lower(c);
	size_t n = w.size();
	S s = h.substr(off, n);
	size_t v = 0;
	while (v < n && con(w[v])) v++;
	for (size_t i = std::max<size_t>(v, 1); i + 1 < n; i++)
		if (con(w[i]) && vow(w[i + 1]) && !wcschr(L"/.:&%'", w[i - 1]) && (i <= 1 || o.ugly || w[i - 2] != L'\'')) s[i] = '-';
	for (size_t i = 1; i + 1 < n; i++) if (w[i] == L'\'' && vow(w[i + 1])) s[i] = '=';
	for (size_t i = 1; i + 1 < n; i++) if (vow(w[i]) && w[i] == w[i + 1]) {
		if (vow(w[i - 1]) && good(w, s, i)) s[i] = '-';
		if (good(w, s, i + 2)) s[i + 2] = '-';
	}
	static const std::set<W> split = {L"ae", L"ao", L"ea", L"eo", L"ia", L"io", L"oa", L"oe", L"ua", L"ue", L"ye", L"e\u00e4", L"e\u00f6", L"i\u00e4", L"i\u00f6", L"y\u00e4", L"\u00e4e", L"\u00f6e"};
	for (size_t i = 0; i + 1 < n; i++) if (s[i + 1] == ' ' && split.count(w.substr(i, 2))) s[i + 1] = '-';
	for (size_t i = 1; i + 1 < n; i++) for (const W & lc : {W(L"shtsh"), W(L"\u0161t\u0161"), W(L"tsh"), W(L"t\u0161"), W(L"zh")})
		if (i + lc.size() < n && w.compare(i, lc.size(), lc) == 0)
			for (size_t k = i + 1; k <= i + lc.size(); k++) if (s[k] == '-') { s[k] = ' '; s[i] = '-'; }
	if (!o.ugly) {
		s[1] = ' ';
		s[n - 1] = ' ';
		for (size_t i = 0; i + 1 < n; i++) if (vow(w[i]) && vow(w[i + 1])) s[i + 1] = ' ';
	} else {
		for (size_t i = 0; i + 3 < n; i++) for (int j = 0; j < 2; j++)
			if (s[i + 1] != '-' && w.compare(i, 2, j ? L"ai" : L"ie") == 0 && vow(w[i + 2]) && good(w, s, i + 2)) s[i + 2] = '-';
	}
	h.replace(off, n, s);
}
static std::vector<S> alternatives(const Hy & o, const W & w, const std::function<std::vector<W>(const W &)> & an) {
	size_t n = w.size(), len = n;
	std::vector<W> st = an(w);
	if (st.empty() && o.dot && n > 1 && w[n - 1] == L'.') { len = n - 1; st = an(w.substr(0, len)); }
	if (st.size() > 31) st.resize(31);
	std::vector<S> r;
	for (W s : st) {
		S h(n, ' ');
		size_t p = s[0] == L'=' ? 1 : 0;
		for (size_t i = 0; i < len && p < s.size(); i++) {
			if (s[p] == L'-' && p + 1 < s.size() && s[p + 1] == L'=') { if (i) h[i] = '='; p += 2; }
			else if (s[p] == L'=') { h[i] = '-'; p += 2; }
			else { if (s[p] == L'j' || s[p] == L'q') h[i] = 'X'; p++; }
		}
		r.push_back(h);
	}
	if (r.empty()) {
		S h(n, o.unknown ? ' ' : 'X');
		if (allowed(o, w)) for (size_t i = 1; i + 1 < n; i++) if (w[i] == L'-') h[i] = '=';
		r.push_back(h);
	}
	std::vector<S> simple;
	for (auto & h : r) if (h.find_first_not_of(" X") == S::npos) simple.push_back(h);
	if (!simple.empty()) r = simple;
	for (auto & h : r) {
		// simple parts between compound boundaries
		size_t start = 0;
		while (start < len && h[start] == '=') start++;
		size_t end = start + 1;
		while (end <= len) {
			bool last = end == len;
			if (last || mark(h[end])) {
				if (end - start >= (size_t) o.min && start < end) rules(o, w.substr(start, end - start), h, start);
				if (last) break;
				start = h[end] == '=' ? end + 1 : end;
				end = start + 1;
			} else end++;
		}
	}
	return r;
}
int main(int argc, char ** argv) {
	H::init(argc, argv, "random words with random morphological structures (up to 35 analyses, or none) under all option combinations; non-trivial: at least four characters");
	MockHandle mh;
	AnalyzerToFinnishHyphenatorAdapter * hy = new AnalyzerToFinnishHyphenatorAdapter(&mh.analyzer);
	mh.h.hyphenator = hy;
	while (H::more()) for (int k = 0; k < 40; k++) {
		W w;
		int wk = H::rng.range(0, 3);
		if (wk == 0) w = G::word(24);
		else {
			int n = H::rng.range(0, 9);
			while (n-- > 0) {
				const wchar_t * f[] = {L"aa", L"ie", L"ai", L"ia", L"uo", L"tsh", L"shtsh", L"\u0161t\u0161", L"t\u0161", L"zh", L"'", L"-", L"k", L"e", L"\u00e4", L"\u00f6e", L"ea", L"st", L"oo", L".", L"1", L"ka", L"is", L"T", L"A", L"/", L":", L"iea", L"aio", L"\u2019"};
				w += H::rng.chance(80) ? f[H::rng.below(30)] : W(1, G::letter());
			}
			if (H::rng.chance(12)) w += L'.';
		}
		for (auto & c : w) if (!spec::scalar(c)) c = L'x';
		Hy o{H::rng.chance(50), H::rng.chance(60), H::rng.chance(50), H::rng.chance(60) ? 2 : H::rng.range(0, 7)};
		uint64_t salt = H::rng.below(100000);
		int cnt = H::rng.range(0, 4);
		if (H::rng.chance(3)) cnt = H::rng.range(29, 35);
		mh.analyzer.f = [=](const W & x) {
			std::vector<W> r;
			uint64_t h0 = hashw(x, salt);
			if (h0 % 3 == 0) return r;
			for (int a = 0; a < cnt; a++) {
				Rng g(h0 + a);
				W s;
				if (g.chance(90)) s += L'=';
				int dens = g.range(0, 3), xs = g.range(0, 3);
				for (size_t i = 0; i < x.size(); i++) {
					if (x[i] == L'-') { s += L'-'; if (i + 1 < x.size() && g.chance(70)) s += L'='; continue; }
					if (i > 1 && dens && s.back() != L'=' && g.chance(8 * dens)) s += L'=';
					s += spec::isUpper(x[i]) ? (xs == 0 && g.chance(20) ? L'j' : L'i') : (xs == 0 && g.chance(20) ? L'q' : L'p');
				}
				if (g.chance(5) && s.size() > 2) { s.resize(g.below(s.size())); while (!s.empty() && s.back() == L'=') s.pop_back(); }
				r.push_back(s);
			}
			return r;
		};
		auto an = mh.analyzer.f;
		voikkoSetBooleanOption(&mh.h, VOIKKO_OPT_NO_UGLY_HYPHENATION, !o.ugly);
		voikkoSetBooleanOption(&mh.h, VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, o.unknown);
		voikkoSetBooleanOption(&mh.h, VOIKKO_OPT_IGNORE_DOT, o.dot);
		voikkoSetIntegerOption(&mh.h, VOIKKO_MIN_HYPHENATED_WORD_LENGTH, o.min);
		H::begin([=] { S s = show(w) + " ugly=" + show(o.ugly) + " unknown=" + show(o.unknown) + " dot=" + show(o.dot) + " min=" + show(o.min) + " structures"; for (auto & x : an(w)) s += " " + show(x); return s; }, w.size() > 3);
		S u;
		spec::encode(w, u);
		std::vector<S> alt;
		if (w.size() < (size_t) o.min) alt.push_back(S(w.size(), ' '));
		else alt = alternatives(o, w, an);
		Buf b(w, true);
		char * p = 0;
		bool cstr = H::rng.chance(30) && u.size() <= 255;
		if (cstr) { CBuf cb(u, true); p = voikkoHyphenateCstr(&mh.h, cb.p); }
		else p = voikkoHyphenateUcs4(&mh.h, b.p);
		if (!p) { H::fail("no hyphenation pattern", ""); continue; }
		S r = p;
		voikkoFreeCstr(p);
		CHECK(r.size() == w.size(), "pattern length differs from the word", show(r));
		CHECK(r.find_first_not_of(" -=") == S::npos, "pattern has other characters", show(r));
		if (!r.empty()) CHECK(r[0] == ' ', "break before the first character", show(r));
		for (size_t i = 0; i < r.size() && i < w.size(); i++) {
			bool all = true, same = false;
			for (auto & a : alt) { if (!mark(a[i])) all = false; if (a[i] == r[i]) same = true; }
			CHECK(mark(r[i]) == all, "break does not match the rules on which all analyses agree", show(r) + " at " + show(i));
			if (mark(r[i])) CHECK(same, "kind of break differs", show(r) + " at " + show(i));
		}
		// all possible positions
		p = hy->allPossibleHyphenPositions(b.p, w.size());
		if (!p) { H::fail("no pattern of possible positions", ""); continue; }
		S q = p;
		voikkoFreeCstr(p);
		CHECK(q.size() == w.size() && q.find_first_not_of(" -=") == S::npos, "pattern of possible positions malformed", show(q));
		for (size_t i = 0; i < q.size() && i < w.size(); i++) {
			bool dash = false, eq = false, alleq = true;
			for (auto & a : alt) { dash |= a[i] == '-'; eq |= a[i] == '='; alleq &= a[i] == '='; }
			bool ok = dash ? q[i] == '-' || (eq && q[i] == '=') : alleq ? q[i] == '=' : eq ? q[i] != '-' : q[i] == ' ';
			CHECK(ok, "possible position differs", show(q) + " at " + show(i));
		}
		// inserted hyphens
		if (u.size() <= 255) {
			static const W HY[] = {L"-", L"\u00ad", L"", L"&shy;", L"\U0001f600"};
			W hyp = HY[H::rng.below(5)];
			int ctx = H::rng.range(0, 2);
			S hu;
			spec::encode(hyp, hu);
			CBuf cb(u, true), ch(hu, true);
			char * ins = voikkoInsertHyphensCstr(&mh.h, cb.p, ch.p, ctx);
			if (!ins) { H::fail("no hyphenated form", ""); continue; }
			W e;
			for (size_t i = 0; i < w.size() && i < r.size(); i++) {
				if (r[i] == '-') { e += hyp; e += w[i]; }
				else if (r[i] == ' ' || !ctx || w[i] == L'-') e += w[i];
				else e += hyp;
			}
			S eu;
			spec::encode(e, eu);
			CHECK(S(ins) == eu, "hyphenated form differs", show(ins) + " / " + show(eu) + " context " + show(ctx));
			voikkoFreeCstr(ins);
		}
		if (k == 0) {
			long lk = leaked([&] { voikkoFreeCstr(voikkoHyphenateUcs4(&mh.h, b.p)); });
			CHECK(lk == 0, "memory is not released", show(lk));
		}
	}
	H::finish();
}
