"""Normalisation of words: voikko_normalise, voikko_cset_reformat."""
import unicodedata
from .base import *

MARKS = {0x300: 'AEIOUaeiou\u0415\u0435', 0x301: 'AEIOUYaeiouy\u0413\u0433', 0x302: 'AEIOUaeiou', 0x303: 'ANOano', 0x306: '\u0418\u0438',
         0x308: 'AEIOUaeiouy\u0415\u0435\u041e\u043e', 0x30a: 'Aa', 0x30c: 'SsZz', 0x327: 'Cc'}
COMBS = [(ord(b), m, ord(unicodedata.normalize('NFC', b + chr(m)))) for m in MARKS for b in MARKS[m]]
EXPAND = {0x2019: "'", 0x2010: '-', 0x2011: '-', 0x2103: '\u00b0C', 0x2109: '\u00b0F', 0xFB00: 'ff', 0xFB01: 'fi', 0xFB02: 'fl', 0xFB03: 'ffi', 0xFB04: 'ffl'}
ONE = [(0x2019, 0x27), (0x2010, 0x2d), (0x2011, 0x2d)]      # typographic character <-> plain character


def comb_def(x, y):
    e = z3.IntVal(0)
    for a, b, c in COMBS:
        e = z3.If(z3.And(x == a, y == b), z3.IntVal(c), e)
    return e


def cnt_def(x):
    e = z3.IntVal(1)
    for c, s in EXPAND.items():
        if len(s) > 1:
            e = z3.If(x == c, z3.IntVal(len(s)), e)
    return e


def exp_def(j):
    def f(x):
        e = x if j == 0 else z3.IntVal(0)
        for c, s in EXPAND.items():
            if len(s) > j:
                e = z3.If(x == c, z3.IntVal(ord(s[j])), e)
        return e
    return f


COMB = SpecFun('spec_comb', [INT, INT], INT, comb_def)
CNT = SpecFun('spec_cnt', INT, INT, cnt_def)
EXP = [SpecFun('spec_exp%d' % j, INT, INT, exp_def(j)) for j in range(3)]
# length and m-th character of the normalised form of a[k+i .. k+n)
NL = z3.Function('spec_norm_len', AI, INT, INT, INT, INT)
NC = z3.Function('spec_norm_char', AI, INT, INT, INT, INT, INT)


def norm_unfold(a, k, n, i):
    """definition of NL and NC at position i"""
    x, y = a[k + i], a[k + i + 1]
    pair = z3.And(i + 1 < n, COMB(x, y) != 0)
    w = z3.If(pair, z3.IntVal(2), z3.IntVal(1))
    c = z3.If(pair, z3.IntVal(1), CNT(x))
    m = z3.Int('mq')
    ch = z3.If(pair, COMB(x, y), z3.If(m == 0, EXP[0](x), z3.If(m == 1, EXP[1](x), EXP[2](x))))
    return [z3.Implies(i >= n, NL(a, k, n, i) == 0), z3.Implies(i < n, NL(a, k, n, i) == c + NL(a, k, n, i + w)), CNT.unfold(x), COMB.unfold(x, y)] + [e.unfold(x) for e in EXP] + \
        [z3.Implies(i < n, z3.ForAll([m], NC(a, k, n, i, m) == z3.If(m < c, ch, NC(a, k, n, i + w, m - c)), patterns=[NC(a, k, n, i, m)]))]


def norm_bound(a, k, n, i):
    """lemma by induction from the end: 0 <= NL <= 3 (n - i)"""
    return z3.Implies(z3.And(0 <= i, i <= n), z3.And(NL(a, k, n, i) >= 0, NL(a, k, n, i) <= 3 * (n - i)))


_a, _k, _n, _i = z3.Const('a', AI), z3.Int('k'), z3.Int('n'), z3.Int('i')
lemma('C02', 'normalised length bound, base', norm_bound(_a, _k, _n, _n), norm_unfold(_a, _k, _n, _n)[:1])
lemma('C02', 'normalised length bound, step', z3.Implies(_i < _n, norm_bound(_a, _k, _n, _i)),
      norm_unfold(_a, _k, _n, _i)[:4] + [norm_bound(_a, _k, _n, _i + 1), z3.Implies(_i + 2 <= _n, norm_bound(_a, _k, _n, _i + 2))])


def norm_nz(a, k, n, i):
    """lemma by induction from the end: the normalised form of characters other than NUL has no NUL"""
    m = z3.Int('mq')
    return z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < NL(a, k, n, i)), NC(a, k, n, i, m) != 0), patterns=[NC(a, k, n, i, m)])


_nz = [z3.ForAll([_m], z3.Implies(z3.And(_k <= _m, _m < _k + _n), _a[_m] != 0), patterns=[_a[_m]]) for _m in [z3.Int('mz')]]
lemma('C02', 'no terminator inside the normalised form, base', norm_nz(_a, _k, _n, _n), norm_unfold(_a, _k, _n, _n)[:1])
lemma('C02', 'no terminator inside the normalised form, step', z3.Implies(z3.And(0 <= _i, _i < _n), norm_nz(_a, _k, _n, _i)),
      norm_unfold(_a, _k, _n, _i) + [norm_nz(_a, _k, _n, _i + 1), z3.Implies(_i + 2 <= _n, norm_nz(_a, _k, _n, _i + 2)), norm_bound(_a, _k, _n, _i + 1), z3.Implies(_i + 2 <= _n, norm_bound(_a, _k, _n, _i + 2))] + _nz)
lemma('C02', 'a non-empty word has a non-empty normalised form', z3.Implies(_n > 0, NL(_a, _k, _n, 0) > 0), norm_unfold(_a, _k, _n, z3.IntVal(0))[:4] + [norm_bound(_a, _k, _n, z3.IntVal(1)), z3.Implies(_n >= 2, norm_bound(_a, _k, _n, z3.IntVal(2)))])


def norm_inv(enc, info):
    if not info['flags'] and False:
        return
    p = enc.argvals[0]
    a, k, n = enc.st0.obj('4', p.base), enc.exact_idx(p, 4), enc.argvals[1].e
    m = z3.Int('mq')
    for f in norm_unfold(a, k, n, z3.IntVal(0)):
        enc.fact(f)
    enc.fact(norm_bound(a, k, n, z3.IntVal(0)))
    lv = LVh(info)
    for lab, ix in index_phis(enc, info):
        i = ix(lv)
        for f in norm_unfold(a, k, n, i):
            enc.fact(f)
        for d in (0, 1, 2):
            enc.fact(norm_bound(a, k, n, i + d))
        outs = []
        for q in ptr_phis(info):
            outs.append((enc.pname(q), q, lambda v, q=q: v.phis[q].idx(4)))
        for lab2, ix2 in index_phis(enc, info):
            if lab2 != lab:
                outs.append((lab2, None, ix2))
        for lab2, q, o in outs:
            yield 'len(%s,%s)' % (lab, lab2), lambda v, ix=ix, o=o: z3.And(ix(v) >= 0, ix(v) <= n, o(v) >= 0, o(v) + NL(a, k, n, ix(v)) == NL(a, k, n, 0))
            yield 'rest(%s,%s)' % (lab, lab2), lambda v, ix=ix, o=o: z3.ForAll([m], z3.Implies(m >= o(v), NC(a, k, n, 0, m) == NC(a, k, n, ix(v), m - o(v))), patterns=[NC(a, k, n, 0, m)])
            yield 'out(%s,%s)' % (lab, lab2), lambda v, ix=ix, o=o, q=q: z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < o(v)), cur_out(enc, v, info, q)[m] == NC(a, k, n, 0, m)), patterns=[cur_out(enc, v, info, q)[m]])
            yield 'outcap(%s,%s)' % (lab, lab2), lambda v, ix=ix, o=o: o(v) <= 3 * ix(v)


class LVh:
    def __init__(self, info):
        self.phis, self.st = info['hv'], info['hst']

    def v(self, pid):
        x = self.phis[pid]
        return x.e if isinstance(x, IV) else x


def fresh_objs(enc):
    """the objects allocated by the function so far (by new/malloc)"""
    return [z3.simplify(enc.st0.next)]


def cur_out(enc, v, info, q):
    if q is not None:
        return v.st.obj('4', v.phis[q].base)
    return v.st.obj('4', fresh_objs(enc)[0])


def fresh_ret(c, w, n, kind=1):
    """result is a new array of n elements of width w"""
    r = c.ret
    return z3.And(r.base >= c.pre.next, r.base > 0, c.enc.isalive(c.post, r.base), r.off.z() == 0, sz(r.base) == w * n, hk(r.base) == kind)


def norm_post(c):
    a, k, n = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)
    o = c.post.obj('4', c.ret.base)
    m = z3.Int('mq')
    L = NL(a, k, n, 0)
    nz = z3.ForAll([m], z3.Implies(z3.And(k <= m, m < k + n), a[m] != 0), patterns=[a[m]])
    return [('a new buffer large enough', fresh_ret(c, 4, 3 * n + 1)), ('length', z3.And(L >= 0, L <= 3 * n, z3.Implies(n > 0, L > 0))), ('terminated', o[L] == 0),
            ('no terminator inside', z3.Implies(nz, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < L), o[m] != 0), patterns=[o[m]]))),
            ('every character is the composed, plain or expanded form', z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < L), o[m] == NC(a, k, n, 0, m)), patterns=[o[m]]))]


def norm_hints(c):
    a, k, n = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)
    return norm_unfold(a, k, n, z3.IntVal(0)) + norm_unfold(a, k, n, n)[:1] + [norm_bound(a, k, n, z3.IntVal(x)) for x in (0, 1, 2)] + [z3.Implies(forall_idx(a, k, k + n, lambda m: a[m] != 0), norm_nz(a, k, n, z3.IntVal(0)))]


contract('libvoikko::voikko_normalise(wchar_t const*, unsigned long)', props=['C02'], elem={0: 4}, bounds={1: (0, MAXLEN)}, allocates=True, ret_elem=4,
         requires=lambda c: [('word readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1))))], ensures=norm_post, hints=norm_hints, invariants=norm_inv,
         owned=lambda c: [c.ret.base])


# ---- voikko_cset_reformat: the common beginning and end of the words take the typographic characters of the original; nothing else changes
def match(o, x):
    """o is x, or the typographic character whose plain form is x"""
    return Or(o == x, *[z3.And(o == t, x == p) for t, p in ONE])


PRE = z3.Function('spec_common_prefix', AI, INT, AI, INT, INT)      # orig, start, modified, n: first m with no match, or n
SUF = z3.Function('spec_common_suffix', AI, INT, AI, INT, INT, INT)  # orig, end, modified, modified end, n: first distance d in 1..n with no match, or n+1


def pre_def(a, k, b, n):
    f, m = PRE(a, k, b, n), z3.Int('mq')
    return [z3.Implies(n >= 0, z3.And(0 <= f, f <= n)), z3.Implies(z3.And(0 <= f, f < n), z3.Not(match(a[k + f], b[f]))),
            z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < f), match(a[k + m], b[m])), patterns=[b[m]])]


def suf_def(a, e, b, eb, n):
    f, m = SUF(a, e, b, eb, n), z3.Int('mq')
    return [z3.Implies(n >= 0, z3.And(1 <= f, f <= n + 1)), z3.Implies(z3.And(1 <= f, f <= n), z3.Not(match(a[e - f], b[eb - f]))),
            z3.ForAll([m], z3.Implies(z3.And(eb - f < m, m < eb), match(a[e - (eb - m)], b[m])), patterns=[b[m]])]


def reformat_parts(a, k, n0, b, n1):
    minl = z3.If(n0 < n1, n0, n1)
    P = PRE(a, k, b, minl)
    S = SUF(a, k + n0, b, n1, minl - P)
    return P, S, pre_def(a, k, b, minl) + suf_def(a, k + n0, b, n1, minl - P)


def reformat_cell(a, k, n0, b, n1, P, S, m):
    return z3.If(z3.And(0 <= m, m < P), a[k + m], z3.If(z3.And(n1 - S < m, m < n1), a[k + n0 - (n1 - m)], b[m]))


def reformat_pre(c):
    mp = c.enc.load_as(c.pre, c.p(2), 8, True)
    return [('original readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1)))),
            ('modified pointer readable', valid(c, c.pre, 2, 8, 1)),
            ('modified writable', Or(c.i(3) == 0, z3.And(c.enc.isalive(c.pre, mp.base), mp.off.z() == 0, 4 * c.i(3) <= sz(mp.base), mp.base != c.base(0), mp.base != c.base(2))))]


def reformat_mod(c, st):
    mp = c.enc.load_as(c.pre, c.p(2), 8, True)
    return st.obj('4', mp.base)


def reformat_post(c):
    a, k, n0, n1 = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1), c.i(3)
    old, new = reformat_mod(c, c.pre), reformat_mod(c, c.post)
    P, S, _ = reformat_parts(a, k, n0, old, n1)
    m = z3.Int('mq')
    return [('typographic characters restored in the common beginning and end, nothing else changed',
             z3.ForAll([m], new[m] == z3.If(z3.And(n0 >= 1, n1 >= 1), reformat_cell(a, k, n0, old, n1, P, S, m), old[m]), patterns=[new[m]]))]


def reformat_hints(c):
    return reformat_parts(arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1), reformat_mod(c, c.pre), c.i(3))[2]


def reformat_inv(enc, info):
    p = enc.argvals[2]
    mp = enc.load_as(enc.st0, p, 8, True)
    old = enc.st0.obj('4', mp.base)
    a, k, n0, n1 = enc.st0.obj('4', enc.argvals[0].base), enc.exact_idx(enc.argvals[0], 4), enc.argvals[1].e, enc.argvals[3].e
    P, S, facts = reformat_parts(a, k, n0, old, n1)
    for f in facts:
        enc.fact(f)
    b, m = z3.Int('bq'), z3.Int('mq')
    yield 'mod-ptr', lambda v: z3.And(enc.load_as(v.st, p, 8, True).base == mp.base, enc.load_as(v.st, p, 8, True).off.z() == mp.off.z())
    yield 'only-mod', lambda v: z3.ForAll([b], z3.Implies(b != mp.base, z3.Select(v.st.m['4'], b) == z3.Select(enc.st0.m['4'], b)), patterns=[z3.Select(v.st.m['4'], b)])
    for lab, ix in index_phis(enc, info):
        yield 'prefix(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) <= P, z3.ForAll([m], v.st.obj('4', mp.base)[m] == z3.If(z3.And(0 <= m, m < ix(v)), a[k + m], old[m]), patterns=[v.st.obj('4', mp.base)[m]]))
        yield 'suffix(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) <= S, z3.ForAll([m], v.st.obj('4', mp.base)[m] == reformat_cell(a, k, n0, old, n1, P, ix(v), m), patterns=[v.st.obj('4', mp.base)[m]]))


contract('libvoikko::voikko_cset_reformat(wchar_t const*, unsigned long, wchar_t**, unsigned long)', props=['C02'], elem={0: 4, 2: 8}, bounds={1: (0, MAXLEN), 3: (0, MAXLEN)},
         requires=reformat_pre, ensures=reformat_post, assigns=[('deref', 2, ('4',))], invariants=reformat_inv, hints=reformat_hints)
