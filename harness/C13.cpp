#include "fst.hpp"
#include "handle.hpp"
#include "fst/UnweightedTransducer.hpp"
#include "fst/WeightedTransducer.hpp"
#include "spellchecker/VfstSpeller.hpp"
#include "spellchecker/VfstSuggestion.hpp"
using namespace libvoikko::fst;
typedef std::vector<Fst::Hit> Hits;
static S show(const Hits & h) { S s; for (size_t i = 0; i < h.size() && i < 8; i++) s += show(h[i].out) + "/" + show(h[i].w) + "/" + show(h[i].used) + " "; return s + "(" + show(h.size()) + ")"; }
static const int BS = 300;
static wchar_t * out;
static Hits drainU(UnweightedTransducer & t, Configuration & c, const W & w, bool prefix, size_t stop, bool & known) {
	Buf b(w);
	Hits r;
	known = t.prepare(&c, b.p, w.size());
	size_t used = 0;
	while (r.size() < stop && (prefix ? t.nextPrefix(&c, out, BS, &used) : t.next(&c, out, BS))) r.push_back({W(out), 0, prefix ? used : w.size()});
	return r;
}
static Hits drainW(WeightedTransducer & t, WeightedConfiguration & c, const W & w, size_t stop, bool & known) {
	Buf b(w);
	Hits r;
	known = t.prepare(&c, b.p, w.size());
	if (!known) return r;
	int16_t wt = 0;
	while (r.size() < stop && t.next(&c, out, BS, &wt)) r.push_back({W(out), wt, w.size()});
	return r;
}
static bool subset(Hits a, Hits b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
int main(int argc, char ** argv) {
	H::init(argc, argv, "random transducers (with flag diacritics, epsilons, cycles, wide states) compiled with the real compiler in both byte orders; random lookups, some abandoned half way; non-trivial: at least one path");
	out = new wchar_t[BS];
	mkdir("d", 0700);
	while (H::more()) {
		bool weighted = H::rng.chance(50);
		Fst f = randomFst(weighted, H::rng.chance(70), true, false);
		H::begin([=] { return f.text(); });
		if (!f.compile("le.vfst", false) || !f.compile("be.vfst", true)) { H::fail("transducer could not be compiled", ""); continue; }
		UnweightedTransducer * u[2] = {0, 0};
		WeightedTransducer * x[2] = {0, 0};
		Configuration * uc[2] = {0, 0};
		WeightedConfiguration * xc[2] = {0, 0};
		for (int i = 0; i < 2; i++) {
			const char * n = i ? "be.vfst" : "le.vfst";
			if (weighted) { x[i] = new WeightedTransducer(n); xc[i] = new WeightedConfiguration(x[i]->getFlagDiacriticFeatureCount(), BS); }
			else { u[i] = new UnweightedTransducer(n); uc[i] = new Configuration(u[i]->getFlagDiacriticFeatureCount(), BS); }
		}
		std::vector<S> log;
		for (int k = 0; k < 25; k++) {
			W w = fstInput(f);
			bool prefix = !weighted && H::rng.chance(30);
			size_t stop = H::rng.chance(30) ? H::rng.below(3) : 100000;
			Hits e = f.run(w, prefix);
			if (e.size() == 1 && e[0].w == -1) continue;   // too many paths for the documented search limits
			bool ek = true;
			for (wchar_t c : w) if (!knows(f, c)) ek = false;
			if (weighted && !ek) e.clear();
			log.push_back(show(w) + (prefix ? " prefix" : "") + (stop < 100 ? " stop " + show(stop) : S()));
			auto lg = log;
			H::begin([=] { S s = f.text() + " lookups:"; for (auto & l : lg) s += " " + l; return s; }, !e.empty());
			for (int i = 0; i < 2; i++) {
				bool known = false;
				Hits g = weighted ? drainW(*x[i], *xc[i], w, stop, known) : drainU(*u[i], *uc[i], w, prefix, stop, known);
				S tag = i ? " (swapped byte order)" : "";
				CHECK(known == ek, "known symbols" + tag, show(known));
				if (e.size() <= stop) { Hits a = g, b = e; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "set of outputs differs" + tag, show(a) + " / " + show(b)); }
				else CHECK(g.size() == stop && subset(g, e), "partial set of outputs differs" + tag, show(g) + " / " + show(e));
			}
		}
		for (int i = 0; i < 2; i++) {
			delete uc[i]; delete xc[i];
			if (u[i]) { u[i]->terminate(); delete u[i]; }
			if (x[i]) { x[i]->terminate(); delete x[i]; }
		}
		if (weighted) {
			f.compile("d/spl.vfst", false);
			sp::VfstSpeller s("d");
			for (int k = 0; k < 12; k++) {
				W w = fstInput(f);
				if (w.empty()) continue;
				auto acc = [&](const W & v) { for (wchar_t c : v) if (!knows(f, c)) return 0; Hits e = f.run(v, false); if (e.size() == 1 && e[0].w == -1) return 2; return e.empty() ? 0 : 1; };
				W up = w;
				up[0] = spec::upper(up[0]);
				int a = acc(w), b = acc(up);
				if (a == 2 || b == 2) continue;
				H::begin([=] { return f.text() + " spell " + show(w); });
				Buf bw(w);
				sp::spellresult r = s.spell(bw.p, w.size()), e = a ? sp::SPELL_OK : b && spec::isLower(w[0]) ? sp::SPELL_CAP_FIRST : sp::SPELL_FAILED;
				CHECK(r == e, "spelling result of the transducer differs", show((int) r) + " / " + show((int) e));
			}
			// suggestions: outputs of the error model that the speller accepts, cheapest first
			Fst em = randomFst(true, H::rng.chance(40), false, false);
			if (em.compile("d/err.vfst", false)) {
				sp::suggestion::VfstSuggestion gen(s.transducer, "d");
				for (int k = 0; k < 6; k++) {
					W w = fstInput(em);
					if (w.empty()) continue;
					bool known = true;
					for (wchar_t c : w) if (!knows(em, c)) known = false;
					Hits e = em.run(w, false, 600);
					if (e.size() == 1 && e[0].w == -1) continue;
					std::map<W, int> want;
					bool big = false;
					if (known) for (auto & h : e) {
						bool kn = true;
						for (wchar_t c : h.out) if (!knows(f, c)) kn = false;
						if (!kn) continue;
						Hits a = f.run(h.out, false, 600);
						if (a.size() == 1 && a[0].w == -1) { big = true; break; }
						if (a.empty()) continue;
						// the weight of the first path found counts; which one that is depends on the order of equal arcs
						if (!want.count(h.out)) want[h.out] = 0;
					}
					if (big || want.size() > 80) continue;
					H::begin([=] { return f.text() + " error model " + em.text() + " suggest " + show(w); }, !want.empty());
					Buf bw(w, true);
					sp::suggestion::SuggestionStatus st(bw.p, w.size(), 100);
					gen.generate(&st);
					std::set<W> got;
					for (size_t i = 0; i < st.getSuggestionCount(); i++) {
						W g = st.getSuggestions()[i].word;
						CHECK(want.count(g), "suggestion is not an accepted output of the error model", show(g));
						CHECK(got.insert(g).second, "suggestion given twice", show(g));
					}
					CHECK(got.size() == want.size(), "an accepted output of the error model is missing", show(got.size()) + " / " + show(want.size()));
				}
				gen.terminate();
			}
			s.terminate();
		}
	}
	H::finish();
}
