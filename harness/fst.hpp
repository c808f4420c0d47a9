// Random transducers in AT&T form, compiled with the real voikkovfstc, and a reference interpreter.
#pragma once
#include "spec.hpp"
#include "utf8.hpp"
#include <iostream>
#include <sstream>
#include <cmath>
#include <sys/stat.h>
#include <tuple>
struct Arc { int to; S in, out; int w; bool fin; };
struct Fst {
	std::vector<std::vector<Arc>> st;
	bool weighted = false;
	S att() const {
		std::ostringstream o;
		o.precision(12);
		auto nm = [](const S & s) { return s.empty() ? S("@0@") : s; };
		for (size_t i = 0; i < st.size(); i++) for (auto & a : st[i]) {
			// the weight type "log" is scaled by 1000 and truncated: half a unit keeps it exact
			double w = (a.w + (a.w < 0 ? -0.4 : 0.4)) / 1000.0;
			o << i;
			if (a.fin) { if (weighted) o << "\t" << w; }
			else { o << "\t" << a.to << "\t" << nm(a.in) << "\t" << nm(a.out); if (weighted) o << "\t" << w; }
			o << "\n";
		}
		return o.str();
	}
	bool compile(const S & file, bool be) const {
		FILE * o = fopen("t.att", "w");
		S t = att();
		fwrite(t.data(), 1, t.size(), o);
		fclose(o);
		unlink(file.c_str());
		int rc = system(("../voikkovfstc -o " + file + " -f " + (be ? "be" : "le") + (weighted ? " -w log" : "") + " <t.att >vfstc.out 2>&1").c_str());
		return rc == 0;
	}
	struct Hit { W out; int w; size_t used; bool operator<(const Hit & o) const { return std::tie(out, w, used) < std::tie(o.out, o.w, o.used); } bool operator==(const Hit & o) const { return out == o.out && w == o.w && used == o.used; } };
	std::vector<Hit> run(const W & in, bool prefix, size_t limit = 4000) const {
		std::vector<Hit> r;
		std::map<S, S> flags;
		size_t steps = 0;
		bool ok = true;
		std::function<void(int, size_t, W, int)> go = [&](int s, size_t pos, W out, int w) {
			if (++steps > limit) { ok = false; return; }
			for (auto & a : st[s]) {
				if (a.fin) { if (pos == in.size() || prefix) r.push_back({out, w + a.w, pos}); continue; }
				W oc;
				if (!a.out.empty() && a.out[0] != '@') spec::decode(a.out, oc);
				if (a.in.empty()) go(a.to, pos, out + oc, w + a.w);
				else if (a.in[0] == '@') {
					char op = a.in[1];
					S fv = a.in.substr(3, a.in.size() - 4), f = fv, v;
					size_t d = fv.find('.');
					bool has = d != S::npos;
					if (has) { f = fv.substr(0, d); v = fv.substr(d + 1); }
					S old = flags.count(f) ? flags[f] : S();
					bool pass = true;
					S nv = old;
					if (op == 'P') nv = v;
					else if (op == 'C') nv = "";
					else if (op == 'U') { if (old.empty()) nv = v; else pass = old == v; }
					else if (op == 'R') pass = has ? old == v : !old.empty();
					else if (op == 'D') pass = has ? old != v : old.empty();
					if (pass) { flags[f] = nv; go(a.to, pos, out + oc, w + a.w); flags[f] = old; }
				} else {
					W ic;
					spec::decode(a.in, ic);
					if (pos < in.size() && ic.size() == 1 && in[pos] == ic[0]) go(a.to, pos + 1, out + oc, w + a.w);
				}
			}
		};
		go(0, 0, L"", 0);
		if (!ok) r.assign(1, Hit{L"\x1", -1, 0});
		return r;
	}
	S text() const { S s; for (char c : att()) s += c == '\n' ? ';' : c == '\t' ? ' ' : c; return s.substr(0, 1500); }
};
static std::vector<S> ALPHA = {"a", "b", "c", "d", "e", "\xc3\xa4", "-", "A", "B"};
static Fst randomFst(bool weighted, bool flags, bool multi, bool identity) {
	Fst f;
	f.weighted = weighted;
	Rng & r = H::rng;
	int n = r.range(1, 6);
	f.st.resize(n);
	static const std::vector<S> FL = {"@P.F.X@", "@P.F.Y@", "@U.F.X@", "@U.F.Y@", "@R.F.X@", "@R.F@", "@D.F.X@", "@D.F@", "@C.F@", "@P.G.X@", "@U.G.Z@", "@R.G.Z@", "@D.G.Z@", "@D.G@", "@R.G.X@", "@C.G@"};
	int na = r.range(2, (int) ALPHA.size());
	bool wide = r.chance(4);   // a state with more than 255 transitions
	int fc = r.range(2, (int) FL.size());
	for (int i = 0; i < n; i++) {
		int k = r.range(1, 7);
		for (int j = 0; j < k; j++) {
			Arc a{r.range(0, n - 1), "", "", weighted ? r.range(0, 40) : 0, false};
			int m = r.range(0, 99);
			if (m < 60) { a.in = ALPHA[r.below(na)]; a.out = identity || r.chance(50) ? a.in : r.chance(20) ? S() : r.chance(30) && multi ? S(r.chance(50) ? "[Ln]" : "[Xab]") : ALPHA[r.below(na)]; }
			else if (i + 1 < n) {
				a.to = r.range(i + 1, n - 1);
				if (flags && m < 88) { a.in = FL[r.below(fc)]; a.out = r.chance(70) ? a.in : S(); }
				else a.out = multi && r.chance(60) ? S("[Lt]") : identity || r.chance(50) ? S() : ALPHA[r.below(na)];
			} else { a.in = ALPHA[r.below(na)]; a.out = a.in; }
			f.st[i].push_back(a);
		}
		if (r.chance(45) || i == n - 1) f.st[i].push_back({0, "", "", weighted ? r.range(0, 40) : 0, true});
		if (wide && i == n / 2) for (int c = 0; c < r.range(240, 300); c++) { S s; spec::encode(W(1, (wchar_t) (0x1000 + c)), s); f.st[i].push_back({r.range(0, n - 1), s, r.chance(50) ? s : S("a"), weighted ? r.range(0, 40) : 0, false}); }
	}
	bool normal = false;
	for (auto & s : f.st) for (auto & a : s) if (!a.fin && !a.in.empty() && a.in[0] != '@') normal = true;
	if (!normal) f.st[0].push_back({0, "a", "a", 0, false});
	for (auto & s : f.st) for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.below(i)]);
	return f;
}
static bool knows(const Fst & f, wchar_t c) { S s; spec::encode(W(1, c), s); for (auto & t : f.st) for (auto & a : t) if (!a.fin && (a.in == s || a.out == s)) return true; return false; }
/** an input that often leads somewhere: a random walk, sometimes damaged */
static W fstInput(const Fst & f) {
	W w;
	int s = 0;
	for (int i = 0; i < 14 && w.size() < 9; i++) {
		const Arc & a = f.st[s][H::rng.below(f.st[s].size())];
		if (a.fin) break;
		W c;
		if (!a.in.empty() && a.in[0] != '@') spec::decode(a.in, c);
		w += c;
		s = a.to;
	}
	if (H::rng.chance(25) && !w.empty()) w[H::rng.below(w.size())] = H::rng.chance(70) ? L"abcde\u00e4-AB"[H::rng.below(9)] : G::ch();
	if (H::rng.chance(5)) w += G::ch();
	for (auto & c : w) if (!c || !spec::scalar(c)) c = L'a';
	return w;
}
