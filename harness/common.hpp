// Shared support of the native drivers: input generation, failure reports, mock components.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <ctime>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <functional>
#include <algorithm>
#include <unordered_set>

extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

typedef std::wstring W;
typedef std::string S;

static inline S show(const W & w) {
	S s = "\"";
	char b[16];
	for (wchar_t c : w) {
		if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char) c;
		else { snprintf(b, sizeof b, "\\u{%x}", (unsigned) c); s += b; }
	}
	return s + "\"";
}
static inline S show(const S & w) {
	S s = "'";
	char b[16];
	for (unsigned char c : w) {
		if (c >= 32 && c < 127 && c != '\'' && c != '\\') s += (char) c;
		else { snprintf(b, sizeof b, "\\x%02x", c); s += b; }
	}
	return s + "'";
}
static inline S show(const char * p) { return p ? show(S(p)) : S("null"); }
static inline S show(const wchar_t * p) { return p ? show(W(p)) : S("null"); }
static inline S show(long n) { return std::to_string(n); }
static inline S show(unsigned long n) { return std::to_string(n); }
static inline S show(int n) { return std::to_string(n); }
static inline S show(unsigned n) { return std::to_string(n); }
static inline S show(bool n) { return n ? "true" : "false"; }
static inline S show(wchar_t c) { char b[16]; snprintf(b, sizeof b, "U+%04X", (unsigned) c); return b; }

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	size_t below(size_t n) { return n ? (size_t) ((next() >> 11) % n) : 0; }
	int range(int a, int b) { return a + (int) below((size_t) (b - a + 1)); }
	bool chance(int pct) { return (int) below(100) < pct; }
	template <class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
	wchar_t pickc(const wchar_t * p) { return p[below(wcslen(p))]; }
};

namespace H {
	static Rng rng(1);
	static int budget = 10, part = 0;
	static std::vector<W> strs, newstrs;
	static std::vector<wchar_t> nums, newnums;
	static volatile unsigned long cases = 0;
	static unsigned long seenAtTick = 0;
	static int stuck = 0;
	static std::unordered_set<S> distinct;
	static std::set<S> failed;
	static std::function<S()> describe;
	static std::vector<S> samples;
	static time_t start;
	static bool dying = false;

	static S current() {
		if (!describe) return "(no case)";
		std::function<S()> d = describe;
		return d();
	}
	static void fail(const S & kind, const S & detail) {
		if (!failed.insert(kind).second) return;
		printf("FAIL %s | input: %s | %s\n", kind.c_str(), current().c_str(), detail.c_str());
		fflush(stdout);
	}
	static void onDeath() {
		if (dying) return;
		dying = true;
		S c = current();
		printf("FAIL memory or undefined-behaviour error | input: %s\n", c.c_str());
		fflush(stdout);
	}
	static void onAbort(int sig) {
		if (!dying) {
			dying = true;
			S c = current();
			printf("FAIL abnormal end (signal %d) | input: %s\n", sig, c.c_str());
			fflush(stdout);
		}
		_exit(1);
	}
	static void onTick(int) {
		if (cases == seenAtTick) {
			if (++stuck >= 8) {
				S c = current();
				printf("FAIL no termination within 16 s | input: %s\n", c.c_str());
				fflush(stdout);
				_exit(1);
			}
		} else stuck = 0;
		seenAtTick = cases;
	}
	static void finish() {
		for (auto & s : samples) printf("SAMPLE %s\n", s.c_str());
		printf("CASES %lu %lu\n", (unsigned long) cases, (unsigned long) distinct.size());
		fflush(stdout);
		_exit(failed.empty() ? 0 : 1);
	}
	static void init(int argc, char ** argv, const char * rule) {
		uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
		budget = argc > 2 ? atoi(argv[2]) : 5;
		part = argc > 4 ? atoi(argv[4]) : 0;
		rng = Rng(seed);
		start = time(0);
		if (argc > 3) {
			FILE * f = fopen(argv[3], "r");
			if (f) {
				char line[4096];
				while (fgets(line, sizeof line, f)) {
					W w;
					char * p = line + 1;
					char * e;
					for (;;) {
						unsigned long v = strtoul(p, &e, 16);
						if (e == p) break;
						w += (wchar_t) v;
						p = e;
					}
					if (w.empty()) continue;
					if (line[0] == 's') strs.push_back(w);
					if (line[0] == 'S') newstrs.push_back(w);
					if (line[0] == 'n' && w[0]) nums.push_back(w[0]);
					if (line[0] == 'N' && w[0]) newnums.push_back(w[0]);
				}
				fclose(f);
			}
		}
		if (strs.empty()) strs.push_back(L"kissa");
		if (nums.empty()) nums.push_back(L'a');
		printf("RULE %s\n", rule);
		fflush(stdout);
		__sanitizer_set_death_callback(onDeath);
		signal(SIGABRT, onAbort);
		signal(SIGALRM, onTick);
		struct itimerval it = {{2, 0}, {2, 0}};
		setitimer(ITIMER_REAL, &it, 0);
	}
	static bool more() { return time(0) - start < budget && failed.size() < 12; }
	/** begins a case; the description is only evaluated when something fails (or for a sample) */
	template <class F> static void begin(F d, bool nontrivial = true) {
		cases = cases + 1;
		describe = d;
		if (cases % 97 == 1 && distinct.size() < 200000 && nontrivial) {
			// sampled: hashing every case would dominate the run
		}
		if (nontrivial && (cases < 20000 || cases % 64 == 0) && distinct.size() < 50000) distinct.insert(current());
		if (samples.size() < 4 && (cases == 50 || cases == 500 || cases == 3000 || cases == 9000)) samples.push_back(current());
	}
}
#define CHECK(cond, kind, detail) do { if (!(cond)) H::fail(kind, detail); } while (0)

// ---- generators
namespace G {
	using H::rng;
	static const wchar_t * LOWER = L"aeiouy\u00e4\u00f6\u00e5bcdfghjklmnpqrstvwxz\u0161\u017e";
	static const wchar_t * UPPER = L"AEIOUY\u00c4\u00d6\u00c5BCDFGHJKLMNPQRSTVWXZ\u0160\u017d";
	static const wchar_t * DIGIT = L"0123456789";
	static const wchar_t * PUNCT = L".,;-!?:'()[]{}/&\u00ad\u2019\u2010\u2011\u2013\u2014\u201c\u2026\"\u00bb\u201d@_=+%#$^\\";
	static const wchar_t * SPACE = L" \t\n\r\u00a0\u2003\u3000\u0085\u200a\u2000\u180e\u1680\u2028\u202f\u205f\u2029\x0b\x0c";
	static const wchar_t * ODD = L"\ufb00\ufb01\ufb02\ufb03\ufb04\u2103\u2109\u0300\u0301\u0308\u030a\u030c\u0303\u0302\u0327\u0306\u0418\u0438\u0415\u0435\u018f\u01b7\u0292\u0100\u0101\u0139\u013a\u0178\u00ff\u00df\u00c0\u00e0\u00d7\u00f7\u0400\u0450\u0482\u0489\u0528\u1400\u15c3\u15c4\u02af\u02b0\uffff\U0001f600\U0010ffff\u200b\u2018\u00b4\u0060\u00ab";
	static wchar_t ch() {
		int k = rng.range(0, 99);
		if (!H::newnums.empty() && k < 10) return rng.pick(H::newnums);
		if (k < 40) return rng.pickc(LOWER);
		if (k < 55) return rng.pickc(UPPER);
		if (k < 63) return rng.pickc(DIGIT);
		if (k < 78) return rng.pickc(PUNCT);
		if (k < 84) return rng.pickc(SPACE);
		if (k < 92) return rng.pickc(ODD);
		if (k < 97) return rng.pick(H::nums);
		if (k < 99) return (wchar_t) rng.range(1, 0x600);
		return (wchar_t) rng.range(1, 0x2200);
	}
	static wchar_t letter() { return rng.chance(75) ? rng.pickc(LOWER) : rng.chance(80) ? rng.pickc(UPPER) : rng.pickc(ODD); }
	static size_t len(size_t max) {
		int k = rng.range(0, 9);
		if (k < 5) return rng.below(std::min<size_t>(max, 8) + 1);
		if (k < 9) return rng.below(std::min<size_t>(max, 24) + 1);
		return rng.below(max + 1);
	}
	static W lit() {
		if (!H::newstrs.empty() && rng.chance(40)) return rng.pick(H::newstrs);
		return rng.pick(H::strs);
	}
	/** arbitrary text without NUL */
	static W text(size_t max) {
		W w;
		size_t n = len(max);
		int mode = rng.range(0, 5);
		while (w.size() < n) {
			if (mode == 0) w += ch();
			else if (mode == 1) w += rng.chance(85) ? letter() : ch();
			else if (mode == 2) { if (rng.chance(15)) w += lit(); else w += ch(); }
			else if (mode == 3) { size_t k = rng.below(7) + 1; while (k--) w += letter(); w += rng.chance(70) ? L' ' : rng.pickc(PUNCT); }
			else if (mode == 4) { wchar_t c = ch(); size_t k = rng.below(5) + 1; while (k--) w += c; }
			else { w += rng.chance(50) ? letter() : rng.chance(50) ? rng.pickc(PUNCT) : rng.chance(50) ? rng.pickc(SPACE) : rng.pickc(DIGIT); }
		}
		for (auto & c : w) if (!c) c = L'a';
		if (w.size() > max) w.resize(max);
		return w;
	}
	/** word-like text: letters with case patterns, hyphens, dots, digits, specials */
	static W word(size_t max) {
		W w;
		size_t n = len(max);
		if (rng.chance(10)) return text(max);
		int cs = rng.range(0, 4);
		while (w.size() < n) {
			int k = rng.range(0, 99);
			if (k < 82) w += (cs == 0 || cs == 3) ? rng.pickc(LOWER) : cs == 1 ? rng.pickc(UPPER) : cs == 2 ? letter() : (w.empty() ? rng.pickc(UPPER) : rng.pickc(LOWER));
			else if (k < 89) w += L'-';
			else if (k < 91) w += rng.pickc(DIGIT);
			else if (k < 93) w += rng.pickc(ODD);
			else if (k < 95) w += rng.pickc(PUNCT);
			else if (k < 97) w += ch();
			else w += rng.pickc(L"'\u2019\u00ad:.");
		}
		if (rng.chance(8)) w += L'.';
		for (auto & c : w) if (!c) c = L'a';
		if (w.size() > max) w.resize(max);
		return w;
	}
}

/** bytes that stay allocated after f(); a lasting growth is seen on every repetition */
template <class F> static inline long leaked(F f) {
	long d = 0;
	for (int i = 0; i < 3; i++) {
		size_t a = __sanitizer_get_current_allocated_bytes();
		f();
		d = (long) (__sanitizer_get_current_allocated_bytes() - a);
		if (d == 0) return 0;
	}
	return d;
}

/** exactly sized heap copy, so that any access beyond it is caught */
struct Buf {
	wchar_t * p;
	explicit Buf(const W & w, bool nul = false) { p = (wchar_t *) malloc((w.size() + (nul ? 1 : 0)) * sizeof(wchar_t) + (w.empty() && !nul ? 1 : 0)); memcpy(p, w.data(), w.size() * sizeof(wchar_t)); if (nul) p[w.size()] = 0; }
	~Buf() { free(p); }
	Buf(const Buf &) = delete;
};

static inline uint64_t hashw(const W & w, uint64_t salt) {
	uint64_t h = 1469598103934665603ull ^ (salt * 0x9E3779B97F4A7C15ull);
	for (wchar_t c : w) { h ^= (uint64_t) (uint32_t) c; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
	return h;
}
