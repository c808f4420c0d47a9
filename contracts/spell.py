"""Spelling decision: hyphenAwareSpell, voikko_cached_spell, voikkoSpellUcs4, voikkoSpellCstr."""
from .base import *
from .chars import *
from .case import CASETYPE, casetype_spec, CT_NO_LETTERS, CT_ALL_LOWER, CT_FIRST_UPPER, CT_COMPLEX, CT_ALL_UPPER, ANYU, ANYL, LV
from .norm import NL, NC
from .token import handle_ok
from .cache import *
from .cache import SC

HD = 'VoikkoHandle'
# what the speller component answers for the word a[k..k+n): depends on the characters only
SPL = z3.Function('component_spell', AI, INT, INT, INT)


def same(a, k, b, j, n):
    m = z3.Int('mq')
    return z3.ForAll([m], z3.Implies(z3.And(k <= m, m < k + n), a[m] == b[j + m - k]), patterns=[a[m]])


def ext(F, a, k, b, j, n, *x):
    """F depends on the characters of the word only"""
    return z3.Implies(same(a, k, b, j, n), F(*x, a, k, n) == F(*x, b, j, n))


def spl_post(c):
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    out = [('an answer for these characters', c.r == SPL(a, k, n))]
    t = getattr(c.enc.contract, 'spell_targets', None)
    if t:
        for b, j, n2 in t(c.enc):
            out.append(('the answer depends on the characters only', z3.Implies(z3.And(n == n2, same(a, k, b, j, n)), SPL(a, k, n) == SPL(b, j, n2))))
    return out


contract('virtual libvoikko::spellchecker::Speller::spell(wchar_t const*, unsigned long)', trusted=True, elem={1: 4}, bounds={2: (0, 2 * MAXLEN)}, ret=(0, 3),
         requires=lambda c: [('word readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))], ensures=spl_post)

# the word with the missing hyphens added
HYPH = z3.Function('spec_with_hyphens', AI, INT, INT, AI)


def hyph_len(a, k, n):
    return n + z3.If(a[k] == 0x2D, 0, 1) + z3.If(a[k + n - 1] == 0x2D, 0, 1)


def hyph_def(a, k, n):
    H, m = HYPH(a, k, n), z3.Int('mq')
    lead = z3.If(a[k] == 0x2D, z3.IntVal(0), z3.IntVal(1))
    return [z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < hyph_len(a, k, n)), H[m] == z3.If(m < lead, 0x2D, z3.If(m - lead < n, a[k + m - lead], 0x2D))), patterns=[H[m]])]


HAS = z3.Function('spec_hyphen_aware', z3.BoolSort(), AI, INT, INT, INT)


def has_def(am, a, k, n):
    s = SPL(a, k, n)
    return HAS(am, a, k, n) == z3.If(z3.Or(s != SPELL_FAILED, z3.Not(am)), s,
                                     z3.If(z3.Or(n < 2, z3.And(a[k] == 0x2D, a[k + n - 1] == 0x2D)), z3.IntVal(SPELL_FAILED), SPL(HYPH(a, k, n), 0, hyph_len(a, k, n))))


def has_ext_lemma():
    a, b = z3.Const('a', AI), z3.Const('b', AI)
    k, j, n = z3.Ints('k j n')
    am = z3.Bool('am')
    Ha, Hb = HYPH(a, k, n), HYPH(b, j, n)
    la, lb = hyph_len(a, k, n), hyph_len(b, j, n)
    m = z3.Int('mq')
    lemma('C08', 'the hyphen-aware answer depends on the characters only', HAS(am, a, k, n) == HAS(am, b, j, n),
          [n >= 0, same(a, k, b, j, n), has_def(am, a, k, n), has_def(am, b, j, n), ext(SPL, a, k, b, j, n), a[k] == a[k], z3.Implies(n >= 1, z3.And(a[k] == b[j], a[k + n - 1] == b[j + n - 1])),
           z3.Implies(la == lb, ext(SPL, Ha, z3.IntVal(0), Hb, z3.IntVal(0), la))] + hyph_def(a, k, n) + hyph_def(b, j, n) +
          [z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < la), z3.And(Hb[m] == Hb[m], z3.Implies(z3.And(k <= k + m, k + m < k + n), a[k + m] == b[j + m]))), patterns=[Ha[m]])])


has_ext_lemma()


def opt(c, name, k=0):
    return c.enc.load_field(c.pre, c.p(k), HD, name) != 0


def word_ro(c, wi, ni):
    return [('word readable', Or(c.i(ni) == 0, valid(c, c.pre, wi, 4, c.i(ni))))]


def has_targets(enc):
    p = enc.argvals[1]
    a, k, n = enc.st0.obj('4', p.base), enc.exact_idx(p, 4), enc.argvals[2].e
    return [(HYPH(a, k, n), z3.IntVal(0), hyph_len(a, k, n))]


hc = contract('libvoikko::hyphenAwareSpell(VoikkoHandle*, wchar_t const*, unsigned long)', props=['C08'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN)}, ret=(0, 3),
              requires=lambda c: handle_ok(c, 0) + word_pre(c, 1, 2), axioms=None,
              ensures=lambda c: [('the answer for the word, or for the word with hyphens', c.r == HAS(opt(c, 'accept_missing_hyphens'), arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)))],
              hints=lambda c: [has_def(opt(c, 'accept_missing_hyphens'), arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2))] + hyph_def(arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)))
hc.spell_targets = has_targets


# ---- the cache answers like the speller: abstract predicate over the cache arrays
CINV = z3.Function('cache_consistent', z3.BoolSort(), INT, AI, AI, z3.BoolSort())


def cres(R, a, k, n, s):
    return z3.If(R[slot(a, k, n, s)[1]] == ord('i'), z3.IntVal(SPELL_CAP_FIRST), z3.IntVal(SPELL_OK))


def cinv_elim(am, s, W, R, a, k, n):
    """definition of CINV, used at one word"""
    return z3.Implies(z3.And(CINV(am, s, W, R), 1 <= n, n <= 10, cached(W, a, k, n, s)), cres(R, a, k, n, s) == HAS(am, a, k, n))


def stored(a, k, n, s, r, W0, R0, W1, R1):
    w, m = slot(a, k, n, s)
    j = z3.Int('mq')
    st = z3.And(n <= 10, z3.Or(r == SPELL_OK, r == SPELL_CAP_FIRST))
    return z3.And(z3.ForAll([j], W1[j] == z3.If(z3.And(st, w <= j, j < w + n), a[k + j - w], W0[j]), patterns=[W1[j]]),
                  z3.ForAll([j], R1[j] == z3.If(z3.And(st, j == m), z3.If(r == SPELL_OK, z3.IntVal(ord('p')), z3.IntVal(ord('i'))), R0[j]), patterns=[R1[j]]))


def cinv_intro(am, s, a, k, n, r, W0, R0, W1, R1):
    """proved below for an arbitrary looked-up word: storing a word with its own answer keeps the cache consistent"""
    return z3.Implies(z3.And(CINV(am, s, W0, R0), n >= 1, r == HAS(am, a, k, n), stored(a, k, n, s, r, W0, R0, W1, R1)), CINV(am, s, W1, R1))


def cinv_lemmas():
    a, b, W0, W1, R0, R1 = [z3.Const(x, AI) for x in 'a b W0 W1 R0 R1'.split()]
    k, l, n1, n2, s, r = z3.Ints('k l n1 n2 s r')
    am = z3.Bool('am')
    w1, m1 = slot(a, k, n1, s)
    w2, m2 = slot(b, l, n2, s)
    o1, o2 = tab(ORD, n1) + s, tab(ORD, n2) + s
    P = P2(s)
    d = z3.Int('d')
    base = [s >= 0, s <= MAXSIZE, P >= 1, 1 <= n1, n1 <= 10, 1 <= n2, n2 <= 10] + [P2(x + s) == (1 << x) * P for x in sorted(set(ORD))]
    base += [hash_range(a, k, n1, o1), hash_range(b, l, n2, o2)]
    differ = z3.And(0 <= d, d < n1, z3.Or(n1 != n2, a[k + d] != b[l + d]))
    st = stored(a, k, n1, s, r, W0, R0, W1, R1)
    m = z3.Int('mq')
    h1, h2 = HASH(a, k, n1, o1), HASH(b, l, n2, o2)
    disj = z3.Or(z3.And(n1 == n2, h1 == h2, w1 == w2, m1 == m2), z3.And(m1 != m2, z3.Or(w1 + n1 <= w2, w2 + n2 <= w1)))
    lemma('C08', 'storing an answer keeps the answers of all other words', z3.Implies(z3.And(cached(W1, b, l, n2, s), differ), cres(R1, b, l, n2, s) == HAS(am, b, l, n2)),
          [st, disj, n1 >= 1, n2 >= 1, n2 <= 10, W1[w2 + d] == W1[w2 + d], z3.Implies(cached(W0, b, l, n2, s), cres(R0, b, l, n2, s) == HAS(am, b, l, n2))])
    lemma('C08', 'a stored answer is the answer of its word', z3.Implies(z3.And(n1 == n2, same(a, k, b, l, n1), r == HAS(am, a, k, n1), z3.Or(r == SPELL_OK, r == SPELL_CAP_FIRST)), cres(R1, b, l, n2, s) == HAS(am, b, l, n2)),
          [st, n1 <= 10, ext(HAS, a, k, b, l, n1, am), z3.Implies(n1 == n2, HASH(a, k, n1, o1) == HASH(b, l, n2, o2)) if False else z3.Implies(same(a, k, b, l, n1), HASH(a, k, n1, o1) == HASH(b, l, n1, o1)), n1 >= 1])
    # equal words have equal hashes
    i = z3.Int('i')
    lemma('C08', 'equal words have equal hashes, step', z3.Implies(z3.And(i >= 0, HASH(a, k, i, o1) == HASH(b, l, i, o1), a[k + i] == b[l + i]), HASH(a, k, i + 1, o1) == HASH(b, l, i + 1, o1)), hash_step(a, k, i, o1) + hash_step(b, l, i, o1))
    # an empty cache answers nothing
    lemma('C08', 'an empty cache is consistent', z3.Not(z3.And(1 <= n1, n1 <= 10, cached(W0, a, k, n1, s), a[k] != 0)), [z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < 6544 * P), W0[m] == 0), patterns=[W0[m]]), a[k] == a[k]] + base)


cinv_lemmas()


def cache_of(c_or_enc, args, st):
    e = c_or_enc
    return e.load_ptr_field(st, args[0], HD, 'spellerCache')


class HView(CacheView):
    """cache of the handle in argument k"""

    def __init__(self, c, k=0):
        CacheView.__init__(self, c, ptr=c.enc.load_ptr_field(c.pre, c.p(k), HD, 'spellerCache'))
        self.some = self.p.base != 0

    def inv(self, st, am):
        return CINV(am, self.s, self.W(st), self.R(st))


def cache_assigns():
    def f(field):
        def g(enc, args, st):
            p = cache_of(enc, args, st)
            return z3.If(p.base != 0, enc.load_ptr_field(st, p, SC, field).base, z3.IntVal(0))
        return g
    return [('fn', f('words'), ('4',)), ('fn', f('spellResults'), ('1',))]


def cache_req(c, others=()):
    v = HView(c)
    am = opt(c, 'accept_missing_hyphens')
    sep = [b != x for b in others for x in (v.words.base, v.results.base, v.p.base)] + [c.base(0) != x for x in (v.words.base, v.results.base, v.p.base)]
    return [('no cache, or a consistent one', z3.Implies(v.some, z3.And(v.ok(), v.inv(c.pre, am), v.p.off.z() % 8 == 0, *sep)))]


def cached_post(c):
    v, am = HView(c), opt(c, 'accept_missing_hyphens')
    return [('the same answer as without the cache', c.r == HAS(am, arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2))), ('the cache stays consistent', z3.Implies(v.some, v.inv(c.post, am)))]


def cached_hints(c):
    v, am = HView(c), opt(c, 'accept_missing_hyphens')
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    out = [cinv_elim(am, v.s, v.W(c.pre), v.R(c.pre), a, k, n), cinv_intro(am, v.s, a, k, n, HAS(am, a, k, n), v.W(c.pre), v.R(c.pre), v.W(c.post), v.R(c.post))]
    return out


contract('libvoikko::voikko_cached_spell(VoikkoHandle*, wchar_t const*, unsigned long)', props=['C07', 'C08'], elem={0: 8, 1: 4}, bounds={2: (1, MAXLEN)}, ret=(0, 3),
         requires=lambda c: handle_ok(c, 0) + word_pre(c, 1, 2) + cache_req(c, [c.base(1)]), ensures=cached_post, hints=cached_hints, assigns=cache_assigns())


# ---- voikkoSpellUcs4
LOWA = z3.Function('spec_lower_word', AI, AI)          # all characters in lower case
FLOWA = z3.Function('spec_lower_first', AI, AI)        # first character in lower case
ANYD = AnyFold('any_digit', lambda c: rng(c, 0x30, 0x39))
ANYD.prove_mono('C08')


def form_defs(N):
    m = z3.Int('mq')
    return [z3.ForAll([m], LOWA(N)[m] == LOW(N[m]), patterns=[LOWA(N)[m]]), z3.ForAll([m], FLOWA(N)[m] == z3.If(m == 0, LOW(N[m]), N[m]), patterns=[FLOWA(N)[m]])]


def accepted(o, ct, r, N):
    """answer r of the speller for the lower-cased word is acceptable for a word of case type ct"""
    return z3.If(z3.Or(ct == CT_COMPLEX, ct == CT_NO_LETTERS), z3.Or(r == SPELL_OK, z3.And(r == SPELL_CAP_FIRST, o('accept_first_uppercase'), ISU(N[0]))),
                 z3.If(ct == CT_ALL_LOWER, r == SPELL_OK, z3.If(ct == CT_FIRST_UPPER, z3.Or(z3.And(r == SPELL_OK, o('accept_first_uppercase')), r == SPELL_CAP_FIRST), r != SPELL_FAILED)))


def decision(o, N, L):
    from .case import nonword_spec
    z = z3.IntVal(0)
    ct0 = CASETYPE(N, z, L)
    ct = z3.If(z3.And(ct0 == CT_ALL_UPPER, z3.Not(o('accept_all_uppercase'))), z3.IntVal(CT_COMPLEX), ct0)
    exact = z3.Or(ct == CT_COMPLEX, ct == CT_NO_LETTERS)
    am = o('accept_missing_hyphens')
    ans = lambda n: z3.If(exact, HAS(am, FLOWA(N), z, n), HAS(am, LOWA(N), z, n))
    dot = z3.And(o('ignore_dot'), N[L - 1] == 0x2E)
    return z3.Or(z3.And(o('ignore_numbers'), ANYD(N, z, L)), z3.And(o('ignore_uppercase'), ct0 == CT_ALL_UPPER), z3.And(o('ignore_nonwords'), nonword_spec(N, z, L)),
                 accepted(o, ct, ans(L), N), z3.And(dot, accepted(o, ct, ans(L - 1), N)))


NORMKEY = 'libvoikko::voikko_normalise(wchar_t const*, unsigned long)'


def witness(c, key, f, name):
    """a ghost value of the verified run: f(view of the last call to the function with that contract); fresh for a caller"""
    if c.isdef and c.enc.calls.get(key):
        return f(c.enc.calls[key][-1])
    if name not in c.memo:
        c.memo[name] = fresh('wit_' + name, AI)
    return c.memo[name]


def spell_parts(c):
    a, k = arr(c, c.pre, 1, 4), c.idx(1, 4)
    n = WL4(a, k)
    N = witness(c, NORMKEY, lambda x: x.post.obj('4', x.ret.base), 'normal form')
    return a, k, n, N, NL(a, k, n, 0)


def spell_post(c):
    a, k, n, N, L = spell_parts(c)
    m = z3.Int('mq')
    o = lambda x: opt(c, x)
    v, am = HView(c), opt(c, 'accept_missing_hyphens')
    return [('the decision', z3.If(n == 0, c.r == 1, z3.If(n > 255, c.r == 0, c.r == z3.If(decision(o, N, L), z3.IntVal(1), z3.IntVal(0))))),
            ('decided for the normal form of the word', z3.Implies(z3.And(n > 0, n <= 255), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < L), N[m] == NC(a, k, n, 0, m)), patterns=[N[m]]))),
            ('the cache stays consistent', z3.Implies(v.some, v.inv(c.post, am)))]


def spell_hints(c):
    a, k, n, N, L = spell_parts(c)
    z = z3.IntVal(0)
    return []


LOWNZ = z3.ForAll([_x], z3.Implies(_x != 0, LOW(_x) != 0), patterns=[LOW(_x)]) if (_x := z3.Int('xq')) is not None else None
lemma('C08', 'lower case of a character other than NUL is not NUL', z3.Implies(_x != 0, lower_def(_x) != 0))


def spell_after(enc, key, x):
    """the answers depend on the characters only: at every call, for the two forms of the normalised word"""
    z = z3.IntVal(0)
    if key == NORMKEY:
        N = x.post.obj('4', x.ret.base)
        a, k, n = arr(x, x.pre, 0, 4), x.idx(0, 4), x.i(1)
        L = NL(a, k, n, 0)
        return [LOWNZ] + form_defs(N) + [ANYD.base(N, z, z), ANYU.base(N, z3.IntVal(1), L), ANYL.base(N, z, z), ANYL.step(N, z, z), z3.Implies(L == 1, CASETYPE(N, z, L) == casetype_spec(N, z, L)), ISU.unfold(z3.IntVal(46)), ISL.unfold(z3.IntVal(46)), LOW.unfold(N[0]), LOW.unfold(N[L - 1])]
    if 'Spell(' in key or '_spell(' in key:
        y = enc.calls[NORMKEY][-1]
        N = y.post.obj('4', y.ret.base)
        a, k, n, am = arr(x, x.pre, 1, 4), x.idx(1, 4), x.i(2), opt(x, 'accept_missing_hyphens')
        return [ext(HAS, a, k, F(N), z, n, am) for F in (LOWA, FLOWA)]
    return []


def spell_inv(enc, info):
    z = z3.IntVal(0)
    calls = enc.calls.get(NORMKEY)
    if not calls:
        return
    x = calls[-1]
    N = x.post.obj('4', x.ret.base)
    m = z3.Int('mq')
    for f in form_defs(N):
        enc.fact(f)
    for lab, ix in index_phis(enc, info):
        h = ix(LV(info, 'hv'))
        enc.fact(ANYD.step(N, z, h))
        enc.fact(ANYD.base(N, z, z))
        enc.fact(ANYD.mono(N, z, h + 1, WL4(N, z)))
        yield 'nodigit(%s)' % lab, lambda v, ix=ix: z3.Not(ANYD(N, z, ix(v)))
        for s in info_new_bases(enc, info):
            yield 'lowered(%s)' % lab, lambda v, ix=ix, s=s: z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ix(v)), v.st.obj('4', s)[m] == LOW(N[m])), patterns=[v.st.obj('4', s)[m]])


def info_new_bases(enc, info):
    """bases of objects allocated by the function itself"""
    return [b for b in getattr(enc, 'allocated', [])]


contract('voikkoSpellUcs4', props=['C08'], elem={0: 8, 1: 4}, ret=(0, 2), requires=lambda c: handle_ok(c, 0) + [('word', zstr(c, c.pre, 1))] + cache_req(c, [c.base(1)]),
         ensures=spell_post, hints=spell_hints, invariants=spell_inv, assigns=cache_assigns(), allocates=True, after_call=spell_after)
