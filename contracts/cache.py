"""The speller cache: memory safety, and a table from words to results that never answers with the result of another word."""
from .base import *
from .case import LV

NS = 'libvoikko::spellchecker::'
SC = 'libvoikko::spellchecker::SpellerCache'
MAXSIZE = 18
ORD = [0, 3, 5, 6, 7, 7, 7, 7, 7, 7, 7]
OFF = [0, 0, 16, 80, 272, 784, 1424, 2192, 3088, 4112, 5264]
META = [0, 0, 16, 48, 112, 240, 368, 496, 624, 752, 880]
SPELL_FAILED, SPELL_OK, SPELL_CAP_FIRST = None, None, None     # set from the enumeration below
# enum spellresult { SPELL_FAILED, SPELL_OK, SPELL_CAP_FIRST, SPELL_CAP_ERROR }
SPELL_FAILED, SPELL_OK, SPELL_CAP_FIRST, SPELL_CAP_ERROR = 0, 1, 2, 3


def pow2(s, lo=0, hi=31):
    return P2(s)


def tab(t, n):
    e = z3.IntVal(t[-1])
    for j in range(len(t) - 2, -1, -1):
        e = z3.If(n == j, z3.IntVal(t[j]), e)
    return e


# value of the hash of a[k..k+n) of order o
HASH = z3.Function('spec_hash', AI, INT, INT, INT, INT)


def hash_step(a, k, n, o):
    h = HASH(a, k, n, o)
    x = (h * 37 + a[k + n]) % (1 << 32)
    return [HASH(a, k, 0, o) == 0, z3.Implies(n >= 0, HASH(a, k, n + 1, o) == UMOD(x, pow2(o)))]


def hash_range(a, k, n, o):
    return z3.And(HASH(a, k, n, o) >= 0, HASH(a, k, n, o) < pow2(o))


def hash_inv(argk, order=None):
    def gen(enc, info):
        p = enc.argvals[argk]
        a, k = enc.st0.obj('4', p.base), enc.exact_idx(p, 4)
        orders = [order(enc)] if order else [enc.argvals[2].e]
        for o in orders:
            enc.fact(P2(o) >= 1)
        for lab, ix in index_phis(enc, info):
            for o in orders:
                for f in hash_step(a, k, ix(LV(info, 'hv')), o) + hash_step(a, k, z3.IntVal(0), o):
                    enc.fact(f)
                for lab2, ix2 in index_phis(enc, info):
                    if lab2 != lab:
                        yield 'hash(%s,%s)' % (lab2, lab), lambda v, ix=ix, ix2=ix2, o=o: z3.And(ix(v) >= 0, u32(ix2(v)) == HASH(a, k, ix(v), o))
                        yield 'hashr(%s,%s)' % (lab2, lab), lambda v, ix2=ix2, o=o: z3.And(u32(ix2(v)) >= 0, u32(ix2(v)) < pow2(o))
    return gen


def u32(e):
    return z3.If(e < 0, e + (1 << 32), e)


contract(NS + 'voikko_hash(wchar_t const*, unsigned long, int)', props=['C07'], elem={0: 4}, bounds={1: (0, MAXLEN), 2: (0, 30)},
         requires=lambda c: [('word readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1))))],
         ensures=lambda c: [('below the table size', z3.And(c.r >= 0, c.r < pow2(c.i(2)))), ('the same for the same word', c.r == HASH(arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1), c.i(2)))],
         invariants=hash_inv(0), hints=lambda c: hash_step(arr(c, c.pre, 0, 4), c.idx(0, 4), z3.IntVal(0), c.i(2)) + [P2(c.i(2)) >= 1])


def s_add(s, j):
    return j + s


class CacheView:
    """the arrays of the cache that argument k points at, in the call's first state"""

    def __init__(self, c, k=0, ptr=None):
        e = c.enc
        self.p = ptr or c.p(k)
        self.s = e.load_field(c.pre, self.p, SC, 'sizeParam')
        self.words = e.load_ptr_field(c.pre, self.p, SC, 'words')
        self.results = e.load_ptr_field(c.pre, self.p, SC, 'spellResults')
        self.c = c

    def ok(self, st=None):
        e, st = self.c.enc, st or self.c.pre
        P = pow2(self.s, 0, MAXSIZE)
        size = self.c.structs[SC]['size']
        return z3.And(e.isalive(st, self.p.base), self.p.off.z() >= 0, self.p.off.z() + size <= sz(self.p.base), self.s >= 0, self.s <= MAXSIZE, P >= 1, P <= (1 << MAXSIZE), *[P2(s_add(self.s, j)) == (1 << j) * P for j in sorted(set(ORD))],
                      e.isalive(st, self.words.base), self.words.off.z() == 0, sz(self.words.base) == 4 * 6544 * P,
                      e.isalive(st, self.results.base), self.results.off.z() == 0, sz(self.results.base) == 1008 * P,
                      self.words.base != self.results.base, self.words.base != self.p.base, self.results.base != self.p.base)

    def W(self, st):
        return self.c.enc.name_arr(st.obj('4', self.words.base))

    def R(self, st):
        return self.c.enc.name_arr(st.obj('1', self.results.base))


def slot(a, k, n, s):
    """(first cell of the word slot, cell of the result) of the word a[k..k+n), n <= 10"""
    h = HASH(a, k, n, tab(ORD, n) + s)
    w, m = z3.IntVal(0), z3.IntVal(0)
    for j in range(10, -1, -1):
        w = z3.If(n == j, OFF[j] * pow2(s, 0, MAXSIZE) + h * j, w)
        m = z3.If(n == j, META[j] * pow2(s, 0, MAXSIZE) + h, m)
    return w, m


def cached(W, a, k, n, s):
    w, _ = slot(a, k, n, s)
    m = z3.Int('mq')
    return z3.And(n <= 10, z3.ForAll([m], z3.Implies(z3.And(k <= m, m < k + n), W[w + m - k] == a[m]), patterns=[a[m]]))


def word_pre(c, wi, ni):
    a, k = arr(c, c.pre, wi, 4), c.idx(wi, 4)
    return [('word readable', Or(c.i(ni) == 0, valid(c, c.pre, wi, 4, c.i(ni)))), ('no terminator inside the word', forall_idx(a, k, k + c.i(ni), lambda m: a[m] != 0))]


def cache_pre(c):
    v = CacheView(c)
    return [('cache object', v.ok()), ('word is not in the cache arrays', z3.And(c.base(1) != v.words.base, c.base(1) != v.results.base, c.base(1) != v.p.base))] + word_pre(c, 1, 2)


def in_post(c):
    v = CacheView(c)
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    w, _ = slot(a, k, n, v.s)
    W = v.W(c.pre)
    d = z3.Int('dq')
    m = z3.Int('mq')
    return [('found only if the slot holds exactly this word', z3.Implies(c.r, z3.And(n <= 10, forall_idx(a, k, k + n, lambda m: W[w + m - k] == a[m])))),
            ('not found only if the slot holds something else', z3.Implies(z3.And(n <= 10, z3.Not(c.r)), z3.Exists([d], z3.And(0 <= d, d < n, W[w + d] != a[k + d]))))]


contract(NS + 'SpellerCache::isInCache(wchar_t const*, unsigned long) const', props=['C07'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN)}, requires=cache_pre, ensures=in_post)
contract(NS + 'SpellerCache::getSpellResult(wchar_t const*, unsigned long) const', props=['C07'], elem={0: 8, 1: 4}, bounds={2: (0, 10)}, ret=(0, 3), requires=cache_pre,
         ensures=lambda c: [('result of the slot', c.r == z3.If(CacheView(c).R(c.pre)[slot(arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2), CacheView(c).s)[1]] == ord('i'), SPELL_CAP_FIRST, SPELL_OK))])


def set_post(c):
    v = CacheView(c)
    a, k, n, r = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2), c.i(3)
    w, m = slot(a, k, n, v.s)
    W0, W1, R0, R1 = v.W(c.pre), v.W(c.post), v.R(c.pre), v.R(c.post)
    stored = z3.And(n <= 10, z3.Or(r == SPELL_OK, r == SPELL_CAP_FIRST))
    j = z3.Int('mq')
    return [('word stored in its slot, nothing else overwritten', z3.ForAll([j], W1[j] == z3.If(z3.And(stored, w <= j, j < w + n), a[k + j - w], W0[j]), patterns=[W1[j]])),
            ('result stored in its slot, nothing else overwritten', z3.ForAll([j], R1[j] == z3.If(z3.And(stored, j == m), z3.If(r == SPELL_OK, ord('p'), ord('i')), R0[j]), patterns=[R1[j]]))]


contract(NS + 'SpellerCache::setSpellResult(wchar_t const*, unsigned long, libvoikko::spellchecker::spellresult)', props=['C07'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN), 3: (0, 3)},
         requires=cache_pre, ensures=set_post, assigns=[('fld', 0, SC, 'words', ('4',)), ('fld', 0, SC, 'spellResults', ('1',))])
contract(NS + 'SpellerCache::getSizeParam() const', props=['C07'], elem={0: 8}, requires=lambda c: [('cache object', CacheView(c).ok())], ensures=lambda c: [('size', c.r == CacheView(c).s)])


class PostView(CacheView):
    def __init__(self, c, k=0):
        e = c.enc
        self.p, self.c = c.p(k), c
        self.s = e.load_field(c.post, self.p, SC, 'sizeParam')
        self.words = e.load_ptr_field(c.post, self.p, SC, 'words')
        self.results = e.load_ptr_field(c.post, self.p, SC, 'spellResults')


def ctor_post(c):
    v = PostView(c)
    m = z3.Int('mq')
    W, R = v.W(c.post), v.R(c.post)
    P = P2(v.s)
    return [('cache object', v.ok(c.post)), ('size', v.s == c.i(1)), ('new arrays', z3.And(v.words.base >= c.pre.next, v.results.base >= c.pre.next, hk(v.words.base) == 1, hk(v.results.base) == 1)),
            ('every slot is empty', z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < 6544 * P), W[m] == 0), patterns=[W[m]]))]


def self_ok(c, struct, k=0):
    p = c.p(k)
    return [('object storage', z3.And(c.enc.isalive(c.pre, p.base), p.off.z() >= 0, p.off.z() + c.structs[struct]['size'] <= sz(p.base)))]


def released(c, *bases):
    """exactly these objects are released"""
    b = z3.Int('bq')
    return z3.ForAll([b], z3.Select(c.post.alive, b) == z3.And(z3.Select(c.pre.alive, b), *[b != x for x in bases]), patterns=[z3.Select(c.post.alive, b)])


contract(NS + 'SpellerCache::SpellerCache(int)', props=['C07'], elem={0: 8}, bounds={1: (0, MAXSIZE)}, requires=lambda c: self_ok(c, SC) + [('powers of two', z3.And(P2(c.i(1)) >= 1, *[P2(j + c.i(1)) == (1 << j) * P2(c.i(1)) for j in sorted(set(ORD))]))],
         ensures=ctor_post, assigns=[('arg', 0)], allocates=True, owned=lambda c: [PostView(c).words.base, PostView(c).results.base])
contract(NS + 'SpellerCache::~SpellerCache()', props=['C07'], elem={0: 8}, requires=lambda c: [('cache object', CacheView(c).ok()), ('arrays from new', z3.And(hk(CacheView(c).words.base) == 1, hk(CacheView(c).results.base) == 1))],
         ensures=lambda c: [('both arrays released, nothing else', released(c, CacheView(c).words.base, CacheView(c).results.base))], frees=True)


# ---- the table as a whole: lemmas over the contracts above
def same_slot_lemmas():
    a, b, W0, W1, R0, R1 = [z3.Const(x, AI) for x in 'a b W0 W1 R0 R1'.split()]
    k, l, n1, n2, s, r = z3.Ints('k l n1 n2 s r')
    j, m = z3.Int('mq'), z3.Int('mm')
    P = P2(s)
    base = [s >= 0, s <= MAXSIZE, P >= 1, 0 <= n1, n1 <= 10, 0 <= n2, n2 <= 10] + [P2(x + s) == (1 << x) * P for x in sorted(set(ORD))]
    base += [hash_range(a, k, n1, tab(ORD, n1) + s), hash_range(b, l, n2, tab(ORD, n2) + s)]
    w1, m1 = slot(a, k, n1, s)
    w2, m2 = slot(b, l, n2, s)
    h1, h2 = HASH(a, k, n1, tab(ORD, n1) + s), HASH(b, l, n2, tab(ORD, n2) + s)
    lemma('C07', 'slots lie inside the arrays', z3.And(w1 >= 0, w1 + n1 <= 6544 * P, m1 >= 0, m1 < 1008 * P), base)
    lemma('C07', 'slots of different words either coincide or are disjoint', z3.Implies(z3.And(n1 > 0, n2 > 0), z3.Or(z3.And(n1 == n2, h1 == h2, w1 == w2, m1 == m2), z3.And(m1 != m2, z3.Or(w1 + n1 <= w2, w2 + n2 <= w1)))), base)
    # storing word a with result r; then looking up word b
    setp = [z3.ForAll([j], W1[j] == z3.If(z3.And(w1 <= j, j < w1 + n1), a[k + j - w1], W0[j]), patterns=[W1[j]]),
            z3.ForAll([j], R1[j] == z3.If(j == m1, z3.If(r == SPELL_OK, z3.IntVal(ord('p')), z3.IntVal(ord('i'))), R0[j]), patterns=[R1[j]]), z3.Or(r == SPELL_OK, r == SPELL_CAP_FIRST)]
    disj = z3.Or(z3.And(n1 == n2, h1 == h2, w1 == w2, m1 == m2), z3.And(m1 != m2, z3.Or(w1 + n1 <= w2, w2 + n2 <= w1)))
    inb = lambda W: z3.ForAll([j], z3.Implies(z3.And(l <= j, j < l + n2), W[w2 + j - l] == b[j]), patterns=[b[j]])
    d = z3.Int('d')
    lemma('C07', 'a word that is found after storing another word was found before, with the same result',
          z3.Implies(z3.And(inb(W1), 0 <= d, d < n1, z3.Or(n1 != n2, a[k + d] != b[l + d])), z3.And(R1[m2] == R0[m2], z3.Implies(z3.And(0 <= m, m < n2), W0[w2 + m] == b[l + m]))), setp + [disj, n1 > 0, n2 > 0, W1[w2 + m] == W1[w2 + m], W1[w2 + d] == W1[w2 + d]])
    lemma('C07', 'a stored word is found with its result', z3.And(z3.Implies(z3.And(0 <= m, m < n1), W1[w1 + m] == a[k + m]), z3.If(R1[m1] == ord('i'), z3.IntVal(SPELL_CAP_FIRST), z3.IntVal(SPELL_OK)) == r), setp)


same_slot_lemmas()
