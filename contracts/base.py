"""Shared specification vocabulary."""
import z3
from engine.vc import *

MAXLEN = 1 << 28      # text lengths are below 2^28 characters (1 GiB of wchar_t)

REG = []
ASSUMPTIONS = {}


def contract(key, **kw):
    c = Contract(key, **kw)
    REG.append(c)
    return c


def valid(c, st, k, w, n):
    """argument k points at n readable/writable cells of width w"""
    p = c.p(k)
    i = c.idx(k, w)
    return z3.And(c.enc.isalive(st, p.base), i >= 0, w * (i + n) <= sz(p.base))


def arr(c, st, k, w):
    return c.enc.name_arr(st.obj(str(w), c.base(k)))


def cell(c, st, k, w, j):
    return sel(arr(c, st, k, w), c.idx(k, w) + j)


def forall_idx(a, lo, hi, body):
    """forall m in [lo, hi): body(a[m]), triggered on a[m]"""
    m = z3.Int('mq')
    return z3.ForAll([m], z3.Implies(z3.And(lo <= m, m < hi), body(m)), patterns=[a[m]])


def Or(*l):
    return z3.Or(*l)


def isin(x, s):
    return z3.Or(*[x == (ord(y) if isinstance(y, str) else y) for y in s])


def rng(x, a, b):
    return z3.And(x >= a, x <= b)


class SpecFun:
    """opaque spec function with a definition; unfold(x) is the definitional equation at x"""

    def __init__(self, name, dom, ran, body):
        self.F, self.body, self.name = z3.Function(name, *(list(dom) if isinstance(dom, (list, tuple)) else [dom]), ran), body, name

    def __call__(self, *a):
        return self.F(*a)

    def unfold(self, *a):
        return self.F(*a) == self.body(*a)


def specfun(name, dom, ran, body):
    return SpecFun(name, dom, ran, body)


LEMMAS = []


def lemma(prop, name, f, hyps=()):
    LEMMAS.append((prop, name, f, list(hyps)))


class AnyFold:
    """ANY(a, lo, hi) <=> some cell m in [lo, hi) satisfies q(a[m]); defined by recursion on hi"""

    def __init__(self, name, q):
        self.F, self.q = z3.Function(name, AI, INT, INT, z3.BoolSort()), q

    def __call__(self, a, lo, hi):
        return self.F(a, lo, hi)

    def base(self, a, lo, hi):
        return z3.Implies(hi <= lo, z3.Not(self.F(a, lo, hi)))

    def step(self, a, lo, hi):
        """definition at hi+1"""
        return z3.Implies(hi >= lo, self.F(a, lo, hi + 1) == z3.Or(self.F(a, lo, hi), self.q(a[hi])))

    def split(self, a, lo, hi):
        """lemma, proved by induction on hi: the first cell can be split off"""
        return z3.Implies(hi > lo, self.F(a, lo, hi) == z3.Or(self.q(a[lo]), self.F(a, lo + 1, hi)))

    def mono(self, a, lo, h1, h2):
        """lemma, proved by induction on h2"""
        return z3.Implies(z3.And(lo <= h1, h1 <= h2, self.F(a, lo, h1)), self.F(a, lo, h2))

    def prove_mono(self, prop):
        a, lo, h1, h2 = z3.Const('a', AI), z3.Int('lo'), z3.Int('h1'), z3.Int('h2')
        lemma(prop, '%s: longer prefix, base' % self.F.name(), self.mono(a, lo, h1, h1))
        lemma(prop, '%s: longer prefix, step' % self.F.name(), self.mono(a, lo, h1, h2 + 1), [h1 <= h2, self.mono(a, lo, h1, h2), self.step(a, lo, h2)])

    def prove_split(self, prop):
        a, lo, hi = z3.Const('a', AI), z3.Int('lo'), z3.Int('hi')
        lemma(prop, '%s: split, base' % self.F.name(), self.split(a, lo, lo + 1), [self.step(a, lo, lo), self.base(a, lo, lo), self.base(a, lo + 1, lo + 1)])
        lemma(prop, '%s: split, step' % self.F.name(), self.split(a, lo, hi + 1), [hi > lo, self.split(a, lo, hi), self.step(a, lo, hi), self.step(a, lo + 1, hi)])


def int_phis(info):
    return [p['id'] for p in info['phis'] if p['ty'][0] == 'i' and p['ty'][1] > 1]


def bool_phis(info):
    return [p['id'] for p in info['phis'] if p['ty'][0] == 'i' and p['ty'][1] in (1, 8)]


def as_bool(v, pid):
    x = v.phis[pid]
    return x.e == 1 if isinstance(x, IV) else x


def index_phis(enc, info):
    """(label, function view -> element count k) for loop counters: integer phis, and pointer phis as distance from their start"""
    out = []
    for p in info['phis']:
        if p['ty'][0] == 'i' and p['ty'][1] > 8:
            out.append((enc.pname(p['id']), lambda v, pid=p['id']: v.v(pid)))
    return out


def ptr_phis(info):
    return [p['id'] for p in info['phis'] if p['ty'][0] == 'p']
