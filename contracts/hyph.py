"""Hyphenation patterns: syllable rules on the parts of a word, compound boundaries, agreement of all analyses."""
from .base import *
from .chars import *
from .case import LV, nonword_spec, nonword_hints

HA = 'libvoikko::hyphenator::AnalyzerToFinnishHyphenatorAdapter'
VOWELS = [ord(x) for x in 'aeiouy\u00e4\u00f6']
SP, DASH, EQ, X = 0x20, 0x2D, 0x3D, 0x58
ALPHA = (SP, DASH, EQ, X)


def mark(x):
    return isin(x, (DASH, EQ))


def vowel(x):
    return isin(x, VOWELS)


ANYV = AnyFold('any_vowel', lambda c: vowel(c))
ANYV.prove_split('C10')
# nearest break (or the first cell) before p; nearest break, dot or end at or after p
LSTOP = z3.Function('spec_part_start', AI, INT, INT, INT)
RSTOP = z3.Function('spec_part_end', AI, INT, AI, INT, INT, INT, INT)


def lstop_def(h, k, p):
    s, m = LSTOP(h, k, p), z3.Int('mq')
    return [z3.Implies(p > 0, z3.And(0 <= s, s < p, z3.Or(s == 0, mark(h[k + s])), z3.ForAll([m], z3.Implies(z3.And(k + s < m, m < k + p), z3.Not(mark(h[m]))), patterns=[h[m]])))]


def rstop_def(h, k, w, kw, p, n):
    s, m = RSTOP(h, k, w, kw, p, n), z3.Int('mq')
    return [z3.Implies(p <= n, z3.And(p <= s, s <= n, z3.Or(s == n, mark(h[k + s]), w[kw + s] == 0x2E),
                                      z3.ForAll([m], z3.Implies(z3.And(p <= m, m < s), z3.And(z3.Not(mark(h[k + m])), w[kw + m] != 0x2E)), patterns=[h[k + m]]),
                                      z3.ForAll([m], z3.Implies(z3.And(kw + p <= m, m < kw + s), w[m] != 0x2E), patterns=[w[m]])))]


def flag(c, st, name):
    return c.enc.load_field(st, c.p(0), HA, name)


def this_ok(c):
    p = c.p(0)
    return [('hyphenator', z3.And(c.enc.isalive(c.pre, p.base), p.off.z() >= 0, p.off.z() + c.structs[HA]['size'] <= sz(p.base), *[isin(flag(c, c.pre, f), (0, 1)) for f in ('uglyHyphenation', 'hyphenateUnknown', 'ignoreDot')]))]


def good_parts(c):
    w, kw, h, k, p, n = arr(c, c.pre, 1, 4), c.idx(1, 4), arr(c, c.pre, 2, 1), c.idx(2, 1), c.i(3), c.i(4)
    return w, kw, h, k, p, n


def good_spec(w, kw, h, k, p, n):
    return z3.And(p != 0, p + 1 < n, ANYV(w, kw + LSTOP(h, k, p) + 1, kw + p), ANYV(w, kw + p, kw + RSTOP(h, k, w, kw, p, n)))


def good_hints(c):
    w, kw, h, k, p, n = good_parts(c)
    return lstop_def(h, k, p) + rstop_def(h, k, w, kw, p, n)


def good_inv(enc, info):
    c = enc.defctx
    w, kw, h, k, p, n = good_parts(c)
    L, R = LSTOP(h, k, p), RSTOP(h, k, w, kw, p, n)
    for f in lstop_def(h, k, p) + rstop_def(h, k, w, kw, p, n):
        enc.fact(f)
    for x in (p - 1, p):
        enc.fact(ANYV.base(w, kw + x + 1, kw + p))
        enc.fact(ANYV.base(w, kw + x, kw + p))
    for lab, ix in index_phis(enc, info):
        i = ix(LV(info, 'hv'))
        enc.fact(ANYV.split(w, kw + i, kw + p))
        enc.fact(ANYV.split(w, kw + i - 1, kw + p))
        enc.fact(ANYV.step(w, kw + p, kw + i))
        yield 'left(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= L, ix(v) < p)
        yield 'left1(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) > L, ix(v) <= p)
        yield 'right(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= p, ix(v) <= R)
        for b in bool_phis(info):
            for d in (0, 1):
                yield 'vowel left%d(%s,%s)' % (d, enc.pname(b), lab), lambda v, b=b, ix=ix, d=d: as_bool(v, b) == ANYV(w, kw + ix(v) + d, kw + p)
            yield 'vowel right(%s,%s)' % (enc.pname(b), lab), lambda v, b=b, ix=ix: as_bool(v, b) == ANYV(w, kw + p, kw + ix(v))


contract(HA + '::isGoodHyphenPosition(wchar_t const*, char const*, unsigned long, unsigned long) const', props=['C10'], elem={0: 8, 1: 4, 2: 1}, bounds={3: (0, MAXLEN), 4: (0, MAXLEN)},
         requires=lambda c: [('word readable', Or(c.i(4) == 0, valid(c, c.pre, 1, 4, c.i(4)))), ('pattern readable', Or(c.i(4) == 0, valid(c, c.pre, 2, 1, c.i(4)))), ('no terminator in the word', forall_idx(arr(c, c.pre, 1, 4), c.idx(1, 4), c.idx(1, 4) + c.i(4), lambda m: arr(c, c.pre, 1, 4)[m] != 0))],
         ensures=lambda c: [('a break is allowed exactly when both parts keep a vowel', c.r == good_spec(*good_parts(c)))], hints=good_hints, invariants=good_inv)


# ---- which parts are hyphenated at all
def allow_spec(c, wk=1, nk=2):
    a, k, n = arr(c, c.pre, wk, 4), c.idx(wk, 4), c.i(nk)
    return z3.And(n > 1, z3.Or(flag(c, c.pre, 'uglyHyphenation') != 0, z3.And(z3.Not(nonword_spec(a, k, n)), z3.Not(rng(a[k + n - 1], 0x30, 0x39)))))


contract(HA + '::allowRuleHyphenation(wchar_t const*, unsigned long) const', props=['C10'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN)},
         requires=lambda c: this_ok(c) + [('word readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))],
         ensures=lambda c: [('rules apply exactly to parts of two or more characters that are not exempt', c.r == allow_spec(c))])


# ---- syllable rules on one part
def rule_parts(c):
    return arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(3), arr(c, c.pre, 2, 1), arr(c, c.post if c.post else c.pre, 2, 1), c.idx(2, 1)


def word_pat_req(c):
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(3)
    h, j = arr(c, c.pre, 2, 1), c.idx(2, 1)
    return this_ok(c) + [('word readable', Or(n == 0, valid(c, c.pre, 1, 4, n))), ('pattern writable', Or(n == 0, valid(c, c.pre, 2, 1, n))), ('separate', z3.And(c.base(1) != c.base(2), c.base(0) != c.base(2))),
                         ('no terminator in the word', forall_idx(a, k, k + n, lambda m: a[m] != 0)), ('pattern characters', forall_idx(h, j, j + n, lambda m: isin(h[m], ALPHA)))]


def rule_post(c):
    a, k, n, h0, h1, j = rule_parts(c)
    m = z3.Int('mq')
    allow = z3.And(allow_spec(c, 1, 3), h0[j] != X)
    low = lambda i: LOW(a[k + i])
    ugly = flag(c, c.pre, 'uglyHyphenation') != 0
    return [('only cells of the part after its first are written', z3.ForAll([m], z3.Implies(z3.Not(z3.And(j < m, m < j + n)), h1[m] == h0[m]), patterns=[h1[m]])),
            ('parts that are exempt or without hyphenation stay', z3.Implies(z3.Not(allow), z3.ForAll([m], h1[m] == h0[m], patterns=[h1[m]]))),
            ('pattern characters', z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n), isin(h1[m], ALPHA)), patterns=[h1[m]])),
            ('only an apostrophe before a vowel is replaced', z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n, h1[m] == EQ), z3.Or(h0[m] == EQ, z3.And(low(m - j) == 0x27, vowel(low(m - j + 1)), m + 1 < j + n))), patterns=[h1[m]])),
            ('without ugly hyphenation no break next to the ends', z3.Implies(z3.And(allow, z3.Not(ugly)), z3.And(h1[j + 1] == SP, h1[j + n - 1] == SP))),
            ('without ugly hyphenation no break between vowels', z3.Implies(z3.And(allow, z3.Not(ugly)), z3.ForAll([m], z3.Implies(z3.And(j < m, m < j + n, vowel(low(m - j - 1)), vowel(low(m - j))), h1[m] == SP), patterns=[h1[m]])))]


def rule_inv(enc, info):
    c = enc.defctx
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(3)
    h0, j, hb = arr(c, c.pre, 2, 1), c.idx(2, 1), c.base(2)
    m, b = z3.Int('mq'), z3.Int('bq')
    low = lambda i: LOW(a[k + i])
    cp = z3.simplify(enc.st0.next)         # the lower-cased copy
    yield 'part', lambda v: z3.And(n > 1, allow_spec(c, 1, 3), h0[j] != X)
    yield 'n>=3', lambda v: n >= 3
    yield 'ugly', lambda v: flag(c, c.pre, 'uglyHyphenation') != 0
    yield 'not ugly', lambda v: flag(c, c.pre, 'uglyHyphenation') == 0
    yield 'buffer', lambda v: z3.And(enc.isalive(v.st, cp), sz(cp) == 4 * (n + 1), hk(cp) == 1, v.st.next > cp)
    yield 'no other', lambda v: z3.ForAll([b], z3.Select(v.st.alive, b) == z3.Or(z3.Select(enc.st0.alive, b), b == cp), patterns=[z3.Select(v.st.alive, b)])
    yield 'copied', lambda v: z3.And(v.st.obj('4', cp)[n] == 0, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), z3.And(v.st.obj('4', cp)[m] == LOW(a[k + m]), v.st.obj('4', cp)[m] != 0)), patterns=[v.st.obj('4', cp)[m]]))
    if '4' in info['mods'] and info['mods']['4']:
        for lab, ix in index_phis(enc, info):
            yield 'copy(%s)' % lab, lambda v, ix=ix: z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ix(v)), z3.And(v.st.obj('4', cp)[m] == LOW(a[k + m]), v.st.obj('4', cp)[m] != 0)), patterns=[v.st.obj('4', cp)[m]])
    H = lambda v: v.st.obj('1', hb)
    if info['mods']['1']:
        yield 'outside', lambda v: z3.ForAll([m], z3.Implies(z3.Not(z3.And(j < m, m < j + n)), H(v)[m] == h0[m]), patterns=[H(v)[m]])
        yield 'alpha', lambda v: z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n), isin(H(v)[m], ALPHA)), patterns=[H(v)[m]])
        yield 'apostrophe', lambda v: z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n, H(v)[m] == EQ), z3.Or(h0[m] == EQ, z3.And(low(m - j) == 0x27, vowel(low(m - j + 1)), m + 1 < j + n))), patterns=[H(v)[m]])
        yield 'ends', lambda v: z3.And(H(v)[j + 1] == SP, H(v)[j + n - 1] == SP)
        for lab, ix in index_phis(enc, info):
            yield 'vowels(%s)' % lab, lambda v, ix=ix: z3.ForAll([m], z3.Implies(z3.And(j < m, m <= j + ix(v), m < j + n, vowel(low(m - j - 1)), vowel(low(m - j))), H(v)[m] == SP), patterns=[H(v)[m]])


contract(HA + '::ruleHyphenation(wchar_t const*, char*, unsigned long) const', props=['C10'], elem={0: 8, 1: 4, 2: 1}, bounds={3: (0, MAXLEN)}, allocates=True,
         requires=word_pat_req, ensures=rule_post, assigns=[('arg', 2, ('1',))], invariants=rule_inv, slice=True, after_call=lambda enc, key, q: [LOW.unfold(q.i(0))] if key == P + 'lower(wchar_t)' else [])


# ---- parts of a compound
def comp_post(c):
    a, k, n, h0, h1, j = rule_parts(c)
    m = z3.Int('mq')
    low = lambda i: LOW(a[k + i])
    return [('only the pattern is written', z3.ForAll([m], z3.Implies(z3.Not(z3.And(j < m, m < j + n)), h1[m] == h0[m]), patterns=[h1[m]])),
            ('pattern characters', z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n), isin(h1[m], ALPHA)), patterns=[h1[m]])),
            ('boundaries of the compound stay', z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n, mark(h0[m])), h1[m] == h0[m]), patterns=[h1[m]])),
            ('only an apostrophe before a vowel is replaced', z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n, h1[m] == EQ), z3.Or(h0[m] == EQ, z3.And(low(m - j) == 0x27, vowel(low(m - j + 1))))), patterns=[h1[m]]))]


def comp_inv(enc, info):
    c = enc.defctx
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(3)
    h0, j, hb = arr(c, c.pre, 2, 1), c.idx(2, 1), c.base(2)
    m = z3.Int('mq')
    low = lambda i: LOW(a[k + i])
    H = lambda v: v.st.obj('1', hb)
    if not info['mods']['1']:
        return
    yield 'outside', lambda v: z3.ForAll([m], z3.Implies(z3.Not(z3.And(j < m, m < j + n)), H(v)[m] == h0[m]), patterns=[H(v)[m]])
    yield 'alpha', lambda v: z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n), isin(H(v)[m], ALPHA)), patterns=[H(v)[m]])
    yield 'marks', lambda v: z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n, mark(h0[m])), H(v)[m] == h0[m]), patterns=[H(v)[m]])
    yield 'apostrophe', lambda v: z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n, H(v)[m] == EQ), z3.Or(h0[m] == EQ, z3.And(low(m - j) == 0x27, vowel(low(m - j + 1))))), patterns=[H(v)[m]])
    for lab, ix in index_phis(enc, info):
        yield 'later(%s)' % lab, lambda v, ix=ix: z3.ForAll([m], z3.Implies(m >= j + ix(v), H(v)[m] == h0[m]), patterns=[H(v)[m]])
        for lab2, ix2 in index_phis(enc, info):
            if lab2 != lab:
                yield 'between(%s,%s)' % (lab2, lab), lambda v, ix=ix, ix2=ix2: z3.And(ix2(v) < ix(v), z3.ForAll([m], z3.Implies(z3.And(j + ix2(v) < m, m < j + ix(v)), z3.Not(mark(H(v)[m]))), patterns=[H(v)[m]]))


contract(HA + '::compoundHyphenation(wchar_t const*, char*, unsigned long) const', props=['C10'], elem={0: 8, 1: 4, 2: 1}, bounds={3: (0, MAXLEN)},
         requires=word_pat_req, ensures=comp_post, assigns=[('arg', 2, ('1',))], invariants=comp_inv, slice=True)

# ---- pattern of an analysis
AN = 'libvoikko::morphology::Analysis'
MA = 'voikko_mor_analysis'
STRUCTURE = 16
# position in the structure reached after i characters of the word
SPOS = z3.Function('spec_structure_position', AI, INT, INT, INT)


def spos_step(a, k, i):
    p = SPOS(a, k, i)
    two = z3.Or(z3.And(a[p] == DASH, a[p + 1] == EQ), a[p] == EQ)
    return z3.Implies(i >= 0, SPOS(a, k, i + 1) == z3.If(a[p] == 0, p, z3.If(two, p + 2, p + 1)))


def spos_base(a, k):
    return SPOS(a, k, 0) == z3.If(a[k] == EQ, k + 1, k)


def spos_stay(a, k, i):
    """lemma by induction: once the structure ends its position stays"""
    m = z3.Int('mq')
    return z3.Implies(z3.And(i >= 0, a[SPOS(a, k, i)] == 0), z3.ForAll([m], z3.Implies(m >= i, SPOS(a, k, m) == SPOS(a, k, i)), patterns=[SPOS(a, k, m)]))


_a, _k, _i, _m = z3.Const('a', AI), z3.Int('k'), z3.Int('i'), z3.Int('m')
_stay = lambda m: z3.Implies(z3.And(_i >= 0, _m >= _i, _a[SPOS(_a, _k, _i)] == 0), SPOS(_a, _k, m) == SPOS(_a, _k, _i))
lemma('C10', 'end of the structure stays, base', _stay(_i))
lemma('C10', 'end of the structure stays, step', _stay(_m + 1), [_stay(_m), spos_step(_a, _k, _m)])


def struct_cell(a, k, i):
    p = SPOS(a, k, i)
    return z3.If(z3.And(a[p] == DASH, a[p + 1] == EQ), z3.If(i != 0, z3.IntVal(EQ), z3.IntVal(SP)), z3.If(a[p] == EQ, z3.IntVal(DASH), z3.If(isin(a[p], 'jq'), z3.IntVal(X), z3.IntVal(SP))))


STR = z3.Function('structure_of', INT, INT)      # the object that holds the STRUCTURE of an analysis


def structure_ok(c, st, b):
    """terminated, and every boundary is followed by a character that is not a boundary"""
    a, m = st.obj('4', b), z3.Int('mq')
    t = WL4(a, 0)
    return z3.And(c.enc.isalive(st, b), t >= 0, t <= MAXLEN, 4 * (t + 1) <= sz(b), a[t] == 0, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < t, a[m] == EQ), z3.And(a[m + 1] != 0, a[m + 1] != EQ)), patterns=[a[m]]))


def value_ok(c, st, r):
    a = c.enc.name_arr(st.obj('4', r.base))
    t = WL4(a, 0)
    return z3.And(c.enc.isalive(st, r.base), r.off.z() == 0, t >= 0, t <= MAXLEN, 4 * (t + 1) <= sz(r.base), a[t] == 0)


contract(MA + '::getValue(' + MA + '::Key) const', trusted=True, elem={0: 8}, ret_elem=4, requires=lambda c: [('analysis', c.enc.isalive(c.pre, c.base(0)))],
         ensures=lambda c: [('the structure', z3.Implies(c.i(1) == STRUCTURE, z3.And(c.ret.base == STR(c.base(0)), c.ret.off.z() == 0, c.ret.base != 0))), ('null or a terminated string', Or(c.ret.base == 0, value_ok(c, c.pre, c.ret)))])


def ia_req(c):
    return [('analysis with a structure', z3.And(c.enc.isalive(c.pre, c.base(1)), structure_ok(c, c.pre, STR(c.base(1))), STR(c.base(1)) != c.base(2))), ('buffer writable', Or(c.i(3) == 0, valid(c, c.pre, 2, 1, c.i(3))))]


def ia_parts(c):
    return c.pre.obj('4', STR(c.base(1))), arr(c, c.pre, 2, 1), c.idx(2, 1), c.i(3)


def ia_post(c):
    a, h0, j, n = ia_parts(c)
    h1, m = arr(c, c.post, 2, 1), z3.Int('mq')
    return [('one pattern character for every character of the word', z3.ForAll([m], h1[m] == z3.If(z3.And(j <= m, m < j + n), struct_cell(a, 0, m - j), h0[m]), patterns=[h1[m]])),
            ('pattern characters', z3.ForAll([m], z3.Implies(z3.And(j <= m, m < j + n), isin(h1[m], ALPHA)), patterns=[h1[m]])),
            ('no break before the first character', z3.Implies(n > 0, z3.Not(mark(h1[j]))))]


def ia_inv(enc, info):
    c = enc.defctx
    a, h0, j, n = ia_parts(c)
    m = z3.Int('mq')
    H = lambda v: v.st.obj('1', c.base(2))
    enc.fact(spos_base(a, 0))
    for lab, ix in index_phis(enc, info):
        i = ix(LV(info, 'hv'))
        enc.fact(spos_step(a, 0, i))
        enc.fact(spos_stay(a, 0, i))
        for q in ptr_phis(info):
            yield 'position(%s)' % enc.pname(q), lambda v, q=q, ix=ix: z3.And(v.phis[q].idx(4) == SPOS(a, 0, ix(v)), v.phis[q].idx(4) >= 0, v.phis[q].idx(4) <= WL4(a, 0))
        yield 'cells(%s)' % lab, lambda v, ix=ix: z3.ForAll([m], H(v)[m] == z3.If(z3.And(j <= m, m < j + n), z3.If(m < j + ix(v), struct_cell(a, 0, m - j), z3.IntVal(SP)), h0[m]), patterns=[H(v)[m]])


contract(HA + '::interpretAnalysis(' + MA + ' const*, char*, unsigned long) const', props=['C10'], elem={0: 8, 1: 8, 2: 1}, bounds={3: (0, MAXLEN)}, requires=ia_req, ensures=ia_post, assigns=[('arg', 2)], invariants=ia_inv,
         hints=lambda c: [spos_base(ia_parts(c)[0], 0)])


# ---- lists of alternative patterns: a null-terminated array of pointers to patterns of the same length
class Pats:
    def __init__(self, c, st, p, n):
        self.c, self.st, self.p, self.n = c, st, p, n
        self.k = c.enc.exact_idx(p, 8)
        self.B, self.O = st.obj('pb', p.base), st.obj('po', p.base)
        self.cnt = PCNT(self.B, self.k)

    def e(self, j):
        return self.B[self.k + j]

    def cell(self, j, i):
        return z3.Select(z3.Select(self.st.m['1'], self.e(j)), i)

    def defn(self):
        """number of pointers before the first null pointer"""
        m = z3.Int('mq')
        return z3.ForAll([m], z3.Implies(z3.And(self.k <= m, m < self.k + self.cnt), self.B[m] != 0), patterns=[self.B[m]])

    def ok(self, cells=True):
        c, st, j, i = self.c, self.st, z3.Int('jq'), z3.Int('iq')
        b = self.B[j]
        each = z3.And(c.enc.isalive(st, b), b != 0, b != self.p.base, sz(b) == self.n + 1, hk(b) == 1, self.O[j] == 0, z3.Select(z3.Select(st.m['1'], b), self.n) == 0)
        q = [z3.ForAll([j], z3.Implies(z3.And(self.k <= j, j < self.k + self.cnt), each), patterns=[b]),
             z3.ForAll([j, i], z3.Implies(z3.And(self.k <= j, j < self.k + self.cnt, 0 <= i, i < self.n), isin(z3.Select(z3.Select(st.m['1'], b), i), ALPHA)), patterns=[z3.Select(z3.Select(st.m['1'], b), i)])]
        return z3.And(self.cnt >= 1, self.k >= 0, self.k % 1 == 0, 8 * (self.k + self.cnt + 1) <= sz(self.p.base), c.enc.isalive(st, self.p.base), self.e(self.cnt) == 0, *q)

    def distinct(self):
        i, j = z3.Int('iq'), z3.Int('jq')
        return z3.ForAll([i, j], z3.Implies(z3.And(self.k <= i, i < j, j < self.k + self.cnt), self.B[i] != self.B[j]), patterns=[z3.MultiPattern(self.B[i], self.B[j])])


PCNT = z3.Function('pattern_count', AI, INT, INT)
MEM = z3.ArraySort(INT, AI)
# some of the patterns 1..j has no break at i
NOBRK = z3.Function('some_pattern_without_break', MEM, AI, INT, INT, INT, z3.BoolSort())


def nobrk(l, j, i):
    return NOBRK(l.st.m['1'], l.B, l.k, j, i)


def nobrk_base(l):
    i = z3.Int('iq')
    return z3.ForAll([i], z3.Not(nobrk(l, 1, i)), patterns=[nobrk(l, 1, i)])


def nobrk_step(l, j):
    i = z3.Int('iq')
    return z3.Implies(j >= 1, z3.ForAll([i], nobrk(l, j + 1, i) == z3.Or(nobrk(l, j, i), isin(l.cell(j, i), (SP, X))), patterns=[nobrk(l, j + 1, i)]))


def plain(x):
    return z3.If(x == X, z3.IntVal(SP), x)


def inter_len(c):
    a = c.pre.obj('1', c.pre.obj('pb', c.base(1))[c.idx(1, 8)])
    return WL1(a, 0)


def inter_req(c):
    l = Pats(c, c.pre, c.p(1), inter_len(c))
    return [('patterns', z3.And(l.n >= 0, l.n <= MAXLEN, l.ok()))]


def inter_post(c):
    l = Pats(c, c.pre, c.p(1), inter_len(c))
    i = z3.Int('iq')
    o = c.post.obj('1', c.ret.base)
    r = c.ret
    return [('a new pattern of the same length', z3.And(r.base >= c.pre.next, r.base > 0, c.enc.isalive(c.post, r.base), r.off.z() == 0, sz(r.base) == l.n + 1, hk(r.base) == 1, o[l.n] == 0)),
            ('a break where all alternatives have one, of the kind of the first', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), o[i] == z3.If(nobrk(l, l.cnt, i), z3.IntVal(SP), plain(l.cell(0, i)))), patterns=[o[i]])),
            ('pattern characters', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), isin(o[i], (SP, DASH, EQ))), patterns=[o[i]]))]


def inter_inv(enc, info):
    c = enc.defctx
    l = Pats(c, c.pre, c.p(1), inter_len(c))
    out = z3.simplify(enc.st0.next)
    H = lambda v: v.st.obj('1', out)
    i = z3.Int('iq')
    enc.fact(nobrk_base(l))
    yield 'result', lambda v: z3.And(enc.isalive(v.st, out), sz(out) == l.n + 1, hk(out) == 1, v.st.next > out, H(v)[l.n] == 0)
    for q in ptr_phis(info):
        J = lambda v, q=q: v.phis[q].idx(8) - l.k
        hj = J(LV(info, 'hv'))
        enc.fact(nobrk_step(l, hj))
        yield 'walk(%s)' % enc.pname(q), lambda v, J=J: z3.And(J(v) >= 1, J(v) <= l.cnt)
        yield 'combined(%s)' % enc.pname(q), lambda v, J=J: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), H(v)[i] == z3.If(nobrk(l, J(v), i), z3.IntVal(SP), plain(l.cell(0, i)))), patterns=[H(v)[i]])
    outer = [x for x in enc.loopinfo.values() if x is not info and info['header'] in x['l']['blocks']]
    for lab, ix in index_phis(enc, info):
        yield 'first(%s)' % lab, lambda v, ix=ix: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), H(v)[i] == z3.If(i < ix(v), plain(l.cell(0, i)), l.cell(0, i))), patterns=[H(v)[i]])
        for x in outer:
            for q in ptr_phis(x):
                hj = x['hv'][q].idx(8) - l.k
                yield 'row(%s)' % lab, lambda v, ix=ix, hj=hj: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), H(v)[i] == z3.If(nobrk(l, z3.If(i < ix(v), hj + 1, hj), i), z3.IntVal(SP), plain(l.cell(0, i)))), patterns=[H(v)[i]])


contract(HA + '::intersectHyphenations(char**) const', props=['C10'], elem={0: 8, 1: 8}, allocates=True, owned=lambda c: [c.ret.base], requires=inter_req, ensures=inter_post, invariants=inter_inv,
         hints=lambda c: [nobrk_base(Pats(c, c.pre, c.p(1), inter_len(c)))], slice=False)
