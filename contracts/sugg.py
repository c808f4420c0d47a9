"""Suggestions: the collection of candidates, its order, and the lists handed to the caller."""
from .base import *
from .gc import at, fptr, fint, freed_exactly, PLEN, PPOS
from .hyph import WL4
from .case import LV

NG = 'libvoikko::spellchecker::suggestion::'
SS, SG = NG + 'SuggestionStatus', NG + 'Suggestion'
MAXSUG = 1 << 20
# the array of candidates, one entry of 16 bytes each: word (pointer and its offset) and priority of entry k
EW = z3.Function('entry_word', AI, INT, INT)
EP = z3.Function('entry_priority', AI, INT, INT)
# position of a word in the array of candidates (array of pointers, word): the least k with EW(A, k) = word
SPOS = z3.Function('candidate_position', AI, INT, INT)
A_, i_, v_, k_ = z3.Const('A', AI), z3.Int('i'), z3.Int('v'), z3.Int('k')


def entry_axioms():
    """definitions, and what they say about a written cell (proved below)"""
    st = z3.Store(A_, i_, v_)
    return [z3.ForAll([A_, k_], EW(A_, k_) == A_[2 * k_], patterns=[EW(A_, k_)]), z3.ForAll([A_, k_], EP(A_, k_) == A_[4 * k_ + 2], patterns=[EP(A_, k_)]),
            z3.ForAll([A_, i_, v_, k_], EW(st, k_) == z3.If(2 * k_ == i_, v_, EW(A_, k_)), patterns=[EW(st, k_)]), z3.ForAll([A_, i_, v_, k_], EP(st, k_) == z3.If(4 * k_ + 2 == i_, v_, EP(A_, k_)), patterns=[EP(st, k_)])]


lemma('C11', 'writing a cell changes one entry at most (words)', z3.Store(A_, i_, v_)[2 * k_] == z3.If(2 * k_ == i_, v_, A_[2 * k_]))
lemma('C11', 'writing a cell changes one entry at most (priorities)', z3.Store(A_, i_, v_)[4 * k_ + 2] == z3.If(4 * k_ + 2 == i_, v_, A_[4 * k_ + 2]))


class Stat:
    """the candidates of a status object p"""

    def __init__(self, c, p, st):
        self.c, self.p, self.st = c, p, st
        f = lambda n, w=8: fint(c, st, p, at(c, SS, n), w)
        self.wlen, self.maxcost, self.max, self.n, self.cost = f('wlen'), f('maxCost'), f('maxSuggestions'), f('suggestionCount'), f('currentCost')
        self.word = fptr(c, st, p, at(c, SS, 'word'))
        self.s = fptr(c, st, p, at(c, SS, 'suggestions'))
        self.A, self.O, self.P = [c.enc.name_arr(st.obj(k, self.s.base)) for k in ('pb', 'po', '4')]

    def obj(self):
        c, p = self.c, self.p
        return z3.And(c.enc.isalive(self.st, p.base), p.off.z() >= 0, p.off.z() + c.structs[SS]['size'] <= sz(p.base))

    def array(self):
        s, c = self.s, self.c
        return z3.And(self.obj(), self.max >= 0, self.max <= MAXSUG, self.n >= 0, self.n <= self.max, c.enc.isalive(self.st, s.base), s.off.z() == 0, s.base != self.p.base, s.base != 0, hk(s.base) == 1, sz(s.base) == 16 * (self.max + 1))

    def each(self, f, lo=0, hi=None):
        k = z3.Int('kq')
        return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < (self.n if hi is None else hi)), f(k)), patterns=[EW(self.A, k)])

    def offs(self):
        k = z3.Int('kq')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), EW(self.O, k) == 0), patterns=[EW(self.O, k)])

    def owned(self, k):
        b = EW(self.A, k)
        return z3.And(b != 0, b != self.s.base, b != self.p.base, self.c.enc.isalive(self.st, b), hk(b) == 1, SPOS(self.A, b) == k)

    def ok(self):
        return z3.And(self.array(), self.each(self.owned), self.offs())

    def owns(self, b, hi=None):
        k = SPOS(self.A, b)
        return z3.And(0 <= k, k < (self.n if hi is None else hi), EW(self.A, k) == b)


def touch(s, *ks):
    """names the entries k: true by definition"""
    return [z3.And(EW(s.A, k) == s.A[2 * k], EW(s.O, k) == s.O[2 * k], EP(s.P, k) == s.P[4 * k + 2]) for k in ks]


def same_fields(c, a, b, *names):
    l = {'wlen': lambda s: s.wlen, 'maxCost': lambda s: s.maxcost, 'maxSuggestions': lambda s: s.max, 'suggestionCount': lambda s: s.n, 'currentCost': lambda s: s.cost}
    return z3.And(a.word.base == b.word.base, a.word.off.z() == b.word.off.z(), a.s.base == b.s.base, a.s.off.z() == b.s.off.z(), *[f(a) == f(b) for n, f in l.items() if n not in names])


contract(SG + '::Suggestion()', props=['C11'], elem={0: 8}, requires=lambda c: [('object', z3.And(valid(c, c.pre, 0, 8, 2)))], ensures=lambda c: [('null suggestion', z3.And(fptr(c, c.post, c.p(0), at(c, SG, 'word')).base == 0))], assigns=[('arg', 0, ('pb', 'po', '4', '8'))])


def ctor_post(c):
    s = Stat(c, c.p(0), c.post)
    return [('no candidates yet, the given word and limit', z3.And(s.n == 0, s.cost == 0, s.maxcost == 0, s.max == c.i(3), s.wlen == c.i(2), s.word.base == c.base(1), s.word.off.z() == c.p(1).off.z())),
            ('room for the candidates', z3.And(s.s.base >= c.pre.next, s.array()))]


def ctor_inv(enc, info):
    for pid in ptr_phis(info):
        yield 'array(%s)' % enc.pname(pid), lambda v, pid=pid: z3.And(v.phis[pid].base >= enc.st0.next, v.phis[pid].off.z() >= 0, v.phis[pid].off.z() % 16 == 0, v.phis[pid].off.z() + 16 <= sz(v.phis[pid].base))


contract(SS + '::SuggestionStatus(wchar_t const*, unsigned long, unsigned long)', props=['C11'], elem={0: 8, 1: 4}, bounds={2: (0, 4 * MAXLEN), 3: (0, MAXSUG)}, allocates=True, requires=lambda c: [('object', Stat(c, c.p(0), c.pre).obj())], ensures=ctor_post,
         assigns=[('arg', 0, ('pb', 'po', '8'))], invariants=ctor_inv, owned=lambda c: [Stat(c, c.p(0), c.post).s.base])


def dt_inv(enc, info):
    c = enc.defctx
    s = Stat(c, c.p(0), enc.st0)
    b = z3.Int('bq')
    for lab, ix in index_phis(enc, info):
        for f in touch(s, ix(LV(info, 'hv'))):
            enc.fact(f)
        yield 'range(%s)' % lab, lambda v, ix=ix: z3.And(0 <= ix(v), ix(v) <= s.n)
        yield 'released so far(%s)' % lab, lambda v, ix=ix: z3.ForAll([b], z3.Select(v.st.alive, b) == z3.And(z3.Select(enc.st0.alive, b), z3.Not(s.owns(b, ix(v)))), patterns=[z3.Select(v.st.alive, b)])


def dt_post(c):
    s = Stat(c, c.p(0), c.pre)
    return [('the candidates and their array are released, nothing else', freed_exactly(c, lambda b: z3.Or(b == s.s.base, s.owns(b))))]


contract(SS + '::~SuggestionStatus()', props=['C11'], elem={0: 8}, requires=lambda c: [('status', Stat(c, c.p(0), c.pre).ok())], ensures=dt_post, frees=True, invariants=dt_inv, axioms=entry_axioms)


def getter(name, f):
    contract(SS + '::' + name + '() const', props=['C11'], elem={0: 8}, requires=lambda c: [('status', Stat(c, c.p(0), c.pre).obj())], ensures=lambda c: [('field', f(c, Stat(c, c.p(0), c.pre)))], ret_elem=8 if name == 'getSuggestions' else 4)


getter('getSuggestionCount', lambda c, s: c.r == s.n)
getter('getMaxSuggestionCount', lambda c, s: c.r == s.max)
getter('getWordLength', lambda c, s: c.r == s.wlen)
getter('getWord', lambda c, s: z3.And(c.ret.base == s.word.base, c.ret.off.z() == s.word.off.z()))
getter('getSuggestions', lambda c, s: z3.And(c.ret.base == s.s.base, c.ret.off.z() == s.s.off.z()))


def abort_post(c):
    s = Stat(c, c.p(0), c.pre)
    return [('stop when full, or when the cost is used up (twice the cost while there is no candidate)', c.r == z3.Or(s.n == s.max, z3.And(s.cost >= s.maxcost, z3.Or(s.n > 0, s.cost >= 2 * s.maxcost))))]


contract(SS + '::shouldAbort() const', props=['C11'], elem={0: 8}, requires=lambda c: [('status', z3.And(Stat(c, c.p(0), c.pre).obj(), Stat(c, c.p(0), c.pre).n >= 0, *[z3.And(x >= 0, x < (1 << 62)) for x in (Stat(c, c.p(0), c.pre).cost, Stat(c, c.p(0), c.pre).maxcost)]))], ensures=abort_post)
contract(SS + '::charge()', props=['C11'], elem={0: 8}, requires=lambda c: [('status', Stat(c, c.p(0), c.pre).obj()), ('cost', z3.And(Stat(c, c.p(0), c.pre).cost >= 0, Stat(c, c.p(0), c.pre).cost < (1 << 62)))], assigns=[('arg', 0, ('8',))],
         ensures=lambda c: [('one more charged, nothing else changed', z3.And(Stat(c, c.p(0), c.post).cost == Stat(c, c.p(0), c.pre).cost + 1, same_fields(c, Stat(c, c.p(0), c.pre), Stat(c, c.p(0), c.post), 'currentCost')))])
contract(SS + '::setMaxCost(unsigned long)', props=['C11'], elem={0: 8}, bounds={1: (0, 1 << 61)}, requires=lambda c: [('status', Stat(c, c.p(0), c.pre).obj())], assigns=[('arg', 0, ('8',))],
         ensures=lambda c: [('the limit is set, nothing else changed', z3.And(Stat(c, c.p(0), c.post).maxcost == c.i(1), same_fields(c, Stat(c, c.p(0), c.pre), Stat(c, c.p(0), c.post), 'maxCost')))])


def add_pre(c):
    s = Stat(c, c.p(0), c.pre)
    b = c.base(1)
    return [('status', s.ok()), ('candidate is an array of its own', z3.And(c.enc.isalive(c.pre, b), c.p(1).off.z() == 0, hk(b) == 1, b != 0, b != c.base(0), b != s.s.base, s.each(lambda k: EW(s.A, k) != b)))]


def add_post(c):
    s, t = Stat(c, c.p(0), c.pre), Stat(c, c.p(0), c.post)
    b, x = c.base(1), z3.Int('bq')
    room = s.n < s.max
    m = z3.Int('mq')
    return [('status stays consistent', t.ok()), ('kept while there is room', t.n == z3.If(room, s.n + 1, s.n)),
            ('released when there is none', z3.ForAll([x], z3.Select(c.post.alive, x) == z3.And(z3.Select(c.pre.alive, x), z3.Or(room, x != b)), patterns=[z3.Select(c.post.alive, x)])),
            ('nothing else of the status changes', same_fields(c, s, t, 'suggestionCount')),
            ('the candidate comes last, its priority weighted by its turn', z3.Implies(room, z3.And(EW(t.A, s.n) == b, EW(t.O, s.n) == 0, EP(t.P, s.n) == c.i(2) * (s.n + 5)))),
            ('earlier candidates stay', z3.And(*[z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < s.n), F(y, m) == F(x, m)), patterns=[F(y, m)]) for F, x, y in ((EW, s.A, t.A), (EW, s.O, t.O), (EP, s.P, t.P))]))]


def pos_frame(A, B, b, n):
    """SPOS(A, b) is the least k with A[2k] = b; so it is the same for two arrays that agree on the first n entries when b is among them"""
    k = SPOS(A, b)
    return z3.Implies(z3.And(0 <= k, k < n, EW(A, k) == b), SPOS(B, b) == k)


def add_hints(c):
    s, t = Stat(c, c.p(0), c.pre), Stat(c, c.p(0), c.post)
    x = z3.Int('bq')
    return [z3.ForAll([x], pos_frame(s.A, t.A, x, s.n), patterns=[SPOS(t.A, x)]), z3.Implies(z3.And(s.n < s.max, s.each(lambda k: EW(s.A, k) != c.base(1)), EW(t.A, s.n) == c.base(1)), SPOS(t.A, c.base(1)) == s.n)]


contract(SS + '::addSuggestion(wchar_t const*, int)', props=['C11'], elem={0: 8, 1: 4}, bounds={2: (0, 1 << 30)}, requires=lambda c: add_pre(c) + [('weighted priority is an int', c.i(2) * (Stat(c, c.p(0), c.pre).max + 5) < (1 << 31))], ensures=add_post, hints=add_hints, axioms=entry_axioms, frees=True,
         assigns=[('arg', 0, ('8',)), ('fld', 0, SS, 'suggestions', ('4', 'pb', 'po'))])


def least(A, b, k):
    j = z3.Int('jq')
    return z3.And(0 <= k, A[2 * k] == b, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), A[2 * j] != b)))


B_, b_, n_ = z3.Const('B', AI), z3.Int('b'), z3.Int('n')
j_ = z3.Int('jq')
lemma('C11', 'the first position of a word is the same in arrays that agree up to it', least(B_, b_, k_), [least(A_, b_, k_), k_ < n_, z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n_), A_[2 * j_] == B_[2 * j_]))])
lemma('C11', 'a word that was not there has the position it was put to', least(A_, b_, n_), [n_ >= 0, A_[2 * n_] == b_, z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n_), A_[2 * j_] != b_))])


# ---- the order of the candidates: by priority, equal ones in the order they came
def sort_post(c):
    s, t = Stat(c, c.p(0), c.pre), Stat(c, c.p(0), c.post)
    k, l = z3.Int('kq'), z3.Int('lq')
    ev = lambda k: z3.And(0 <= k, k < s.n)
    return [('every place holds one of the candidates with its priority (%d)' % n, z3.ForAll([k], z3.Implies(ev(k), f(s, EW(t.A, k), EP(t.P, k), s.n)), patterns=[EW(t.A, k)])) for n, f in enumerate(CAME)] + [
            ('whole words', t.offs()),
            ('in order of priority, equal ones in the order they came', z3.ForAll([k, l], z3.Implies(z3.And(ev(k), ev(l), k < l), before(s, t, k, l)), patterns=[z3.MultiPattern(EP(t.P, k), EP(t.P, l))])),
            ('the status is unchanged', z3.And(same_fields(c, s, t)))]


CAME = [lambda s, b, p, n: z3.And(0 <= SPOS(s.A, b), SPOS(s.A, b) < n), lambda s, b, p, n: EW(s.A, SPOS(s.A, b)) == b, lambda s, b, p, n: EP(s.P, SPOS(s.A, b)) == p]


def before(s, t, k, l):
    """strictly: so no candidate is there twice, and none is lost"""
    return z3.Or(EP(t.P, k) < EP(t.P, l), z3.And(EP(t.P, k) == EP(t.P, l), SPOS(s.A, EW(t.A, k)) < SPOS(s.A, EW(t.A, l))))


def sort_inv(enc, info):
    c = enc.defctx
    s = Stat(c, c.p(0), enc.st0)
    k, l, b = z3.Int('kq'), z3.Int('lq'), z3.Int('bq')
    B = s.s.base

    class T:
        def __init__(self, st):
            self.A, self.O, self.P = [enc.name_arr(st.obj(x, B)) for x in ('pb', 'po', '4')]
    t_ = lambda v: T(v.st)
    views = lambda t: ((EW, t.A), (EW, t.O), (EP, t.P))
    yield 'fields', lambda v: same_fields(c, s, Stat(c, c.p(0), v.st))
    for x in KINDS:
        yield 'only the candidates are written (%s)' % x, lambda v, x=x: z3.ForAll([b], z3.Implies(z3.And(b < enc.st0.next, b != B), z3.Select(v.st.m[x], b) == z3.Select(enc.st0.m[x], b)), patterns=[z3.Select(v.st.m[x], b)])
    pre = info['pre']
    outer = [x for x in enc.loopinfo.values() if x is not info and info['header'] in x['l']['blocks']]
    stack = getattr(enc, 'stack', [])
    hv = T(LV(info, 'hv').st) if hasattr(LV(info, 'hv'), 'st') else None
    for lab, ix in index_phis(enc, info):
        h = ix(LV(info, 'hv'))
        if hv:
            for f in touch(hv, h, h + 1):
                enc.fact(f)
        for f in touch(s, h):
            enc.fact(f)
        if outer:
            p = T(pre)
            for base in stack:
                yield 'local object stays', lambda v, base=base: z3.And(*[v.st.obj(x, base) == pre.obj(x, base) for x in ('pb', 'po', '4')])
            for i in [z for x in outer for lab2, g in index_phis(enc, x) for z in [g(LV(x, 'hv'))]]:
                yield 'gap(%s)' % lab, lambda v, ix=ix, i=i: z3.And(-1 <= ix(v), ix(v) < i)
                for n in range(3):
                    F, P0 = views(p)[n]
                    yield 'moved up %d(%s)' % (n, lab), lambda v, ix=ix, i=i, n=n, F=F, P0=P0: z3.ForAll([k], F(views(t_(v))[n][1], k) == z3.If(z3.And(ix(v) + 2 <= k, k < i + 1), F(P0, k - 1), F(P0, k)), patterns=[F(views(t_(v))[n][1], k)])
                for base in stack:
                    yield 'moved ones are later(%s)' % lab, lambda v, ix=ix, i=i, base=base: z3.ForAll([k], z3.Implies(z3.And(ix(v) + 1 <= k, k < i), EP(p.P, k) > v.st.obj('4', base)[2]), patterns=[EP(p.P, k)])
            continue
        yield 'range(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= 0, ix(v) <= s.n)
        for n, f in enumerate(CAME):
            yield 'prefix of earlier ones %d(%s)' % (n, lab), lambda v, ix=ix, f=f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ix(v)), f(s, EW(t_(v).A, k), EP(t_(v).P, k), ix(v))), patterns=[EW(t_(v).A, k)])
        yield 'prefix of whole words(%s)' % lab, lambda v, ix=ix: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ix(v)), EW(t_(v).O, k) == 0), patterns=[EW(t_(v).O, k)])
        yield 'prefix in order(%s)' % lab, lambda v, ix=ix: z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < ix(v)), before(s, t_(v), k, l)), patterns=[z3.MultiPattern(EP(t_(v).P, k), EP(t_(v).P, l))])
        for n in range(3):
            yield 'rest as before %d(%s)' % (n, lab), lambda v, ix=ix, n=n: z3.ForAll([k], z3.Implies(z3.And(k >= ix(v), k < s.n), views(t_(v))[n][0](views(t_(v))[n][1], k) == views(s)[n][0](views(s)[n][1], k)), patterns=[views(t_(v))[n][0](views(t_(v))[n][1], k)])


sc_ = contract(SS + '::sortSuggestions()', props=['C11'], elem={0: 8}, requires=lambda c: [('status', Stat(c, c.p(0), c.pre).ok())], ensures=sort_post, assigns=[('fld', 0, SS, 'suggestions', KINDS)], invariants=sort_inv, axioms=entry_axioms)
sc_.skip = ('mem-frame', 'j>=init', 'i<=init')      # generic candidates that do not hold here


# ---- lists of strings handed to the caller: pointers up to a null pointer, all owned by the caller
class PList:
    def __init__(self, c, st, base):
        self.c, self.st, self.b = c, st, base
        self.A, self.O = c.enc.name_arr(st.obj('pb', base)), c.enc.name_arr(st.obj('po', base))
        self.n = PLEN(self.A)

    def each(self, f, hi=None):
        m = z3.Int('mq')
        return z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < (self.n if hi is None else hi)), f(m)), patterns=[self.A[m]])

    def ok(self, extra=None):
        al = lambda b: self.c.enc.isalive(self.st, b)
        m = z3.Int('mq')
        return z3.And(al(self.b), self.b != 0, hk(self.b) == 1, self.n >= 0, self.n < MAXSUG, 8 * (self.n + 1) <= sz(self.b), self.A[self.n] == 0,
                      self.each(lambda m: z3.And(self.A[m] != 0, al(self.A[m]), hk(self.A[m]) == 1, PPOS(self.A, self.A[m]) == m, self.A[m] != self.b, *(extra(m) if extra else []))),
                      z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < self.n), self.O[m] == 0), patterns=[self.O[m]]))

    def owns(self, b, hi=None):
        k = PPOS(self.A, b)
        return z3.Or(b == self.b, self.has(b, hi))

    def has(self, b, hi=None):
        k = PPOS(self.A, b)
        return z3.And(0 <= k, k < (self.n if hi is None else hi), self.A[k] == b)


def free_inv(enc, info):
    c = enc.defctx
    l = PList(c, enc.st0, c.base(0))
    b = z3.Int('bq')
    curs = [(enc.pname(pid), lambda v, pid=pid: enc.exact_idx(v.phis[pid], 8), lambda v, pid=pid: z3.And(v.phis[pid].base == c.base(0), v.phis[pid].off.z() == 8 * enc.exact_idx(v.phis[pid], 8))) for pid in ptr_phis(info)]
    curs += [(lab, ix, lambda v: z3.BoolVal(True)) for lab, ix in index_phis(enc, info)]
    for lab, cur, at_ in curs:
        yield 'in list(%s)' % lab, lambda v, cur=cur, at_=at_: z3.And(at_(v), 0 <= cur(v), cur(v) <= l.n)
        yield 'released so far(%s)' % lab, lambda v, cur=cur: z3.ForAll([b], z3.Select(v.st.alive, b) == z3.And(z3.Select(enc.st0.alive, b), z3.Not(l.has(b, cur(v)))), patterns=[z3.Select(v.st.alive, b)])


for _f, _w in (('voikko_free_suggest_ucs4', 4), ('voikkoFreeCstrArray', 1)):
    contract(_f, props=['C11'], elem={0: 8}, nonnull=False, frees=True, requires=lambda c: [('a list of strings or none', z3.Or(c.base(0) == 0, z3.And(c.p(0).off.z() == 0, PList(c, c.pre, c.base(0)).ok())))],
             ensures=lambda c: [('the strings and the list are released, nothing else', freed_exactly(c, lambda b: z3.And(c.base(0) != 0, PList(c, c.pre, c.base(0)).owns(b))))], invariants=free_inv)


# ---- the list of at most five best candidates, as copies of their words (with a dot when the word had one)
def word_text(st, b):
    """b holds a non-empty terminated word"""
    a = z3.Select(st.m['4'], b)
    t = WL4(a, 0)
    return z3.And(t >= 1, t < MAXLEN, 4 * (t + 1) <= sz(b), a[t] == 0)


def words_ok(s):
    return s.each(lambda k: word_text(s.st, EW(s.A, k)))


class Copies:
    """the first n strings of the list at base are copies of the words of the status s"""

    def __init__(self, c, s, st, base, dot):
        self.c, self.s, self.st, self.b, self.dot = c, s, st, base, dot
        self.R, self.O = c.enc.name_arr(st.obj('pb', base)), c.enc.name_arr(st.obj('po', base))

    def src(self, k):
        return z3.Select(self.s.st.m['4'], EW(self.s.A, k))

    def len(self, k):
        a = self.src(k)
        t = WL4(a, 0)
        return t, z3.If(z3.And(self.dot, a[t - 1] != ord('.')), t + 1, t)

    def parts(self, n, lo):
        k, l, m = z3.Int('kq'), z3.Int('lq'), z3.Int('mq')
        x = self.R[k]
        d = z3.Select(self.st.m['4'], x)
        t, u = self.len(k)
        q = lambda f, pat: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f), patterns=[pat])
        al = self.c.enc.isalive(self.st, x)
        return [('new strings', q(z3.And(x >= lo, x != 0, x > self.b, al, hk(x) == 1, x < self.st.next), x)), ('whole strings', q(self.O[k] == 0, self.O[k])),
                ('no string twice', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), self.R[k] < self.R[l]), patterns=[z3.MultiPattern(self.R[k], self.R[l])])),
                ('room and end', q(z3.And(sz(x) == 4 * (u + 1), d[u] == 0, z3.Implies(u > t, d[t] == ord('.'))), x)),
                ('copied', z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < n, 0 <= m, m < t), d[m] == self.src(k)[m]), patterns=[d[m]]))]


def gs_count(s):
    return z3.If(s.n > 5, z3.IntVal(5), s.n)


def gs_dot(c):
    x = c.args[1]
    return x.e != 0 if isinstance(x, IV) else x


def gs_post(c):
    s = Stat(c, c.p(0), c.pre)
    r = c.ret
    cp = Copies(c, s, c.post, r.base, gs_dot(c))
    n = gs_count(s)
    return [('a new list', z3.And(r.base >= c.pre.next, r.base > 0, r.off.z() == 0, c.enc.isalive(c.post, r.base), hk(r.base) == 1, sz(r.base) == 8 * (n + 1), cp.R[n] == 0))] + cp.parts(n, c.pre.next)


def gs_owned(c):
    r = c.ret
    s = Stat(c, c.p(0), c.pre)
    R = c.enc.name_arr(c.post.obj('pb', r.base))
    return [r.base, lambda b: z3.And(0 <= PPOS(R, b), PPOS(R, b) < gs_count(s), R[PPOS(R, b)] == b)]


def pos_def(R, n):
    """PPOS is the first position"""
    k, j = z3.Int('kq'), z3.Int('jq')
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), R[j] != R[k]))), PPOS(R, R[k]) == k), patterns=[R[k]])


def first(R, b, k):
    j = z3.Int('jq')
    return z3.And(0 <= k, R[k] == b, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), R[j] != b)))


def pos_axioms():
    """PPOS(R, b) is the first position of b in R, or -1: what follows for an array with one cell written (proved below)"""
    st, j = z3.Store(A_, i_, v_), z3.Int('jq')
    b = z3.Int('b')
    return [z3.ForAll([A_, i_, v_, b], z3.Implies(z3.And(0 <= PPOS(A_, b), PPOS(A_, b) < i_, A_[PPOS(A_, b)] == b), PPOS(st, b) == PPOS(A_, b)), patterns=[PPOS(st, b)]),
            z3.ForAll([A_, i_, v_], z3.Implies(z3.And(i_ >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i_), A_[j] != v_), patterns=[A_[j]])), PPOS(st, v_) == i_), patterns=[PPOS(st, v_)])]


lemma('C11', 'first position in a list after writing a later cell', first(z3.Store(A_, i_, v_), b_, k_), [first(A_, b_, k_), k_ < i_])
lemma('C11', 'first position of a new string is the cell it is written to', first(z3.Store(A_, i_, v_), v_, i_), [i_ >= 0, z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < i_), A_[j_] != v_))])


def gs_inv(enc, info):
    c = enc.defctx
    s = Stat(c, c.p(0), enc.st0)
    base = enc.allocated[0]
    b = z3.Int('bq')
    for lab, ix in index_phis(enc, info):
        for f in touch(s, ix(LV(info, 'hv'))):
            enc.fact(f)
        yield 'range(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= 0, ix(v) <= gs_count(s))
        names = [n for n, _ in Copies(c, s, enc.st0, base, gs_dot(c)).parts(z3.IntVal(0), z3.IntVal(0))]
        for n, nm in enumerate(names):
            yield '%s(%s)' % (nm, lab), lambda v, ix=ix, n=n: Copies(c, s, v.st, base, gs_dot(c)).parts(ix(v), enc.st0.next)[n][1]
        def R(v):
            return enc.name_arr(v.st.obj('pb', base))
        yield 'nothing else is new(%s)' % lab, lambda v, ix=ix: z3.ForAll([b], z3.Implies(z3.And(b >= enc.st0.next, z3.Select(v.st.alive, b)), z3.Or(b == base, z3.Select(enc.st0.alive, b), z3.And(0 <= PPOS(R(v), b), PPOS(R(v), b) < ix(v), R(v)[PPOS(R(v), b)] == b))), patterns=[z3.Select(v.st.alive, b)])


contract('libvoikko::getSuggestions(' + SS + '&, bool)', props=['C11'], elem={0: 8}, allocates=True, owned=gs_owned, requires=lambda c: [('status', Stat(c, c.p(0), c.pre).ok()), ('words', words_ok(Stat(c, c.p(0), c.pre)))], ensures=gs_post, invariants=gs_inv, axioms=lambda: entry_axioms() + pos_axioms(), ret_elem=8)
