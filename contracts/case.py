"""Letter case of words: voikko_casetype, voikko_set_case, voikko_is_nonword."""
from .base import *
from .chars import *

ANYU = AnyFold('any_upper', lambda c: ISU(c))
ANYL = AnyFold('any_lower', lambda c: ISL(c))
ANYU.prove_split('C03')
ANYL.prove_split('C03')
CT_NO_LETTERS, CT_ALL_LOWER, CT_FIRST_UPPER, CT_COMPLEX, CT_ALL_UPPER = 0, 1, 2, 3, 4


def casetype_spec(a, k, n):
    """case type of the n characters a[k..k+n)"""
    up0, uprest, low = z3.And(n > 0, ISU(a[k])), ANYU(a, k + 1, k + n), ANYL(a, k, k + n)
    return z3.If(z3.Not(z3.Or(up0, uprest, low)), z3.IntVal(CT_NO_LETTERS),
                 z3.If(z3.Not(low), z3.IntVal(CT_ALL_UPPER),
                       z3.If(uprest, z3.IntVal(CT_COMPLEX),
                             z3.If(up0, z3.IntVal(CT_FIRST_UPPER), z3.IntVal(CT_ALL_LOWER)))))


CASETYPE = z3.Function('spec_casetype', AI, INT, INT, INT)


def fold_candidates(folds, argk, w=4):
    """for every flag of the loop and every fold: flag <=> fold over the cells seen so far"""
    def gen(enc, info):
        arr0 = info['pre'].obj(str(w), enc.argvals[argk].base)
        k = enc.exact_idx(enc.argvals[argk], w)
        for lab, ix in index_phis(enc, info):
            xs = [x for x in [ix]]
            h = ix(LV(info, 'hv'))
            for fname, f in folds:
                for lo in (0, 1):
                    enc.fact(f.step(arr0, k + lo, k + h))
                    enc.fact(f.base(arr0, k + lo, k + lo))
                    enc.fact(f.base(arr0, k + lo, k))
                    enc.fact(f.step(arr0, k + lo, k + lo))
            for b in bool_phis(info):
                for (n1, f1) in folds:
                    for lo in (0, 1):
                        yield '%s<=>%s%d(%s)' % (enc.pname(b), n1, lo, lab), lambda v, b=b, f1=f1, lo=lo, ix=ix: as_bool(v, b) == f1(arr0, k + lo, k + ix(v))
                        yield '%s<=>!%s%d(%s)' % (enc.pname(b), n1, lo, lab), lambda v, b=b, f1=f1, lo=lo, ix=ix: as_bool(v, b) == z3.Not(f1(arr0, k + lo, k + ix(v)))
                yield '%s<=>none(%s)' % (enc.pname(b), lab), lambda v, b=b, ix=ix: as_bool(v, b) == z3.Not(z3.Or(*[f(arr0, k, k + ix(v)) for _, f in folds]))
                yield '%s<=>some(%s)' % (enc.pname(b), lab), lambda v, b=b, ix=ix: as_bool(v, b) == z3.Or(*[f(arr0, k, k + ix(v)) for _, f in folds])
    return gen


class LV:
    def __init__(self, info, which):
        self.phis, self.st = info[which], info['hst']

    def v(self, pid):
        x = self.phis[pid]
        return x.e if isinstance(x, IV) else x


def casetype_hints(c):
    a, k, n = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)
    return [ANYU.base(a, k + 1, k + n), ANYL.base(a, k, k + n), ANYU.split(a, k, k + n), CASETYPE(a, k, n) == casetype_spec(a, k, n)]


contract('libvoikko::voikko_casetype(wchar_t const*, unsigned long)', props=['C03'], elem={0: 4}, bounds={1: (0, MAXLEN)}, ret=(0, 4),
         requires=lambda c: [('word readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1))))],
         ensures=lambda c: [('case type', c.r == CASETYPE(arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)))],
         hints=casetype_hints, invariants=fold_candidates([('up', ANYU), ('low', ANYL)], 0))


def setcase_cell(t, old, first):
    return z3.If(t == CT_ALL_LOWER, LOW(old), z3.If(t == CT_ALL_UPPER, UPP(old), z3.If(t == CT_FIRST_UPPER, z3.If(first, UPP(old), LOW(old)), old)))


def setcase_post(c):
    t, k, n = c.i(0), c.idx(1, 4), c.i(2)
    a0, a1 = arr(c, c.pre, 1, 4), arr(c, c.post, 1, 4)
    m = z3.Int('mq')
    return [('every character mapped to the requested case, nothing outside the word touched',
             z3.ForAll([m], a1[m] == z3.If(z3.And(k <= m, m < k + n), setcase_cell(t, a0[m], m == k), a0[m]), patterns=[a1[m]]))]


def setcase_inv(enc, info):
    t, k = enc.argvals[0].e, enc.exact_idx(enc.argvals[1], 4)
    b = enc.argvals[1].base
    a0 = enc.st0.obj('4', b)
    m = z3.Int('mq')
    for lab, ix in index_phis(enc, info):
        yield 'done(%s)' % lab, lambda v, ix=ix: z3.ForAll([m], v.st.obj('4', b)[m] == z3.If(z3.And(k <= m, m < k + ix(v)), setcase_cell(t, a0[m], m == k), a0[m]), patterns=[v.st.obj('4', b)[m]])


contract('libvoikko::voikko_set_case(libvoikko::casetype, wchar_t*, unsigned long)', props=['C03'], elem={1: 4}, bounds={2: (0, MAXLEN), 0: (0, 4)},
         requires=lambda c: [('word writable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))],
         ensures=setcase_post, assigns=[('arg', 1, ('4',))], invariants=setcase_inv)


def nonword_def(c):
    return nonword_spec(arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1))


def nonword_spec(a, k, n):
    from engine.lib import FIRST
    e = k + n
    s, t = FIRST(a, k, e - 3, 0x2F), FIRST(a, k, e - 3, 0x40)
    url = z3.And(s < e - 3, a[s + 1] == 0x2F, FIRST(a, s + 1, e - 1, 0x2E) < e - 1)
    mail = z3.And(t < e - 3, a[t + 1] != 0x2E, FIRST(a, t + 1, e - 1, 0x2E) < e - 1)
    www = z3.And(n >= 7, a[k] == 0x77, a[k + 1] == 0x77, a[k + 2] == 0x77, a[k + 3] == 0x2E, a[k + 4] != 0x2E, FIRST(a, k + 5, e, 0x2E) < e)
    return z3.And(n >= 4, z3.Or(url, mail, www))


def nonword_hints(c):
    from engine.lib import FIRST, first_facts
    a, k, n = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)
    e = k + n
    s, t = FIRST(a, k, e - 3, 0x2F), FIRST(a, k, e - 3, 0x40)
    return [f for lo, hi, ch in ((k, e - 3, 0x2F), (k, e - 3, 0x40), (s + 1, e - 1, 0x2E), (t + 1, e - 1, 0x2E), (k + 5, e, 0x2E)) for f in first_facts(a, lo, hi, ch)]


contract('libvoikko::voikko_is_nonword(wchar_t const*, unsigned long)', props=['C03'], elem={0: 4}, bounds={1: (0, MAXLEN)},
         requires=lambda c: [('word readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1))))],
         ensures=lambda c: [('exempt exactly for the documented shapes', c.r == nonword_def(c))], hints=nonword_hints)
