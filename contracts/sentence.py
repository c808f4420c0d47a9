"""Sentence splitting."""
from .base import *
from .chars import *
from .case import LV
from .token import handle_ok, text_pre
from .spell import SPL, word_pre, word_ro, HD, SPELL_FAILED
from .utf import *

NONE, PROBABLE, POSSIBLE = 0, 2, 3
ENDC = AnyFold('any_sentence_end', lambda c: isin(c, [0x21, 0x3F, 0x2E, 0x2026, 0x3A, 0]))
NND = AnyFold('any_not_ordinal', lambda c: z3.And(c != 0x2E, c != 0x2D, z3.Not(rng(c, 0x30, 0x39))))
ENDC.prove_mono('C06')
NND.prove_mono('C06')


def dot_spec(c):
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    return z3.And(n >= 2, Or(z3.And(n == 2, ISU(a[k])), z3.Not(NND(a, k, k + n - 1)), SPL(a, k, n) != SPELL_FAILED))


def dot_inv(enc, info):
    p, n = enc.argvals[1], enc.argvals[2].e
    a, k = enc.st0.obj('4', p.base), enc.exact_idx(p, 4)
    enc.fact(NND.base(a, k, k))
    for lab, ix in index_phis(enc, info):
        i = ix(LV(info, 'hv'))
        enc.fact(NND.step(a, k, k + i))
        enc.fact(NND.mono(a, k, k + i + 1, k + n - 1))
        yield 'ordinal(%s)' % lab, lambda v, ix=ix: z3.Not(NND(a, k, k + ix(v)))


contract('libvoikko::sentence::dot_part_of_word(VoikkoHandle*, wchar_t const*, unsigned long)', props=['C06'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN)},
         requires=lambda c: handle_ok(c, 0) + word_ro(c, 1, 2),
         ensures=lambda c: [('initials, ordinals and known words keep their dot', c.r == dot_spec(c))], invariants=dot_inv)


def next_post(c, ti=1, ni=2, si=3):
    a, k, n = arr(c, c.pre, ti, 4), c.idx(ti, 4), c.i(ni)
    sl = cell(c, c.post, si, 8, 0)
    h0, h1 = arr(c, c.pre, 0, 4), arr(c, c.post, 0, 4)
    return [('result', Or(c.r == NONE, c.r == PROBABLE, c.r == POSSIBLE)),
            ('without a boundary the sentence is the whole text', z3.Implies(c.r == NONE, sl == n)),
            ('a boundary lies inside the text', z3.Implies(c.r != NONE, z3.And(sl > 0, sl < n))),
            ('the next sentence does not start with white space', z3.Implies(c.r != NONE, CT(a[k + sl]) != T_WS)),
            ('a boundary needs a sentence ending character before it', z3.Implies(c.r != NONE, ENDC(a, k, k + sl))),
            ('the options are as before', h1 == h0)]


def next_inv(enc, info):
    h, t, n = enc.argvals[0], enc.argvals[1], enc.argvals[2].e
    a, k = enc.name_arr(enc.st0.obj('4', t.base)), enc.exact_idx(t, 4)
    enc.fact(ENDC.base(a, k, k))
    yield 'options', lambda v: v.st.obj('4', h.base) == enc.st0.obj('4', h.base)
    for lab, ix in index_phis(enc, info):
        i = ix(LV(info, 'hv'))
        enc.fact(ENDC.step(a, k, k + i))
        yield 'in(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= 0, ix(v) <= n)
        for b in bool_phis(info):
            yield '%s=>end(%s)' % (enc.pname(b), lab), lambda v, b=b, ix=ix: z3.Implies(as_bool(v, b), z3.And(ix(v) > 0, ENDC(a, k, k + ix(v))))
        for lab2, ix2 in index_phis(enc, info):
            if lab2 != lab:
                yield '%s<=%s' % (lab2, lab), lambda v, ix=ix, ix2=ix2: ix2(v) <= ix(v)
                yield '%s<%s or 0' % (lab2, lab), lambda v, ix=ix, ix2=ix2: Or(ix2(v) < ix(v), ix(v) == 0)


def next_after(enc, key, ctx):
    """after a token: an end character at its start is one of the sentence"""
    if not key.startswith('libvoikko::tokenizer::Tokenizer::nextToken'):
        return []
    t = enc.argvals[1]
    a, k = enc.name_arr(enc.st0.obj('4', t.base)), enc.exact_idx(t, 4)
    i, l = enc.exact_idx(ctx.args[1], 4), cell(ctx, ctx.post, 3, 8, 0)
    return [ENDC.step(a, k, i), ENDC.mono(a, k, i + 1, i + l), ENDC.mono(a, k, i, i + l)]


contract('libvoikko::sentence::Sentence::next(VoikkoHandle*, wchar_t const*, unsigned long, unsigned long*)', props=['C06'], elem={0: 8, 1: 4, 3: 8}, bounds={2: (0, MAXLEN)}, ret=(0, 3),
         requires=lambda c: text_pre(c, 1, 2) + handle_ok(c, 0) + [('sentencelen writable', valid(c, c.pre, 3, 8, 1)), ('separate', z3.Distinct(c.base(0), c.base(1), c.base(3)))],
         ensures=next_post, assigns=[('arg', 3, ('8',)), ('arg', 0, ('4',))], invariants=next_inv, after_call=next_after)

contract('voikkoNextSentenceStartUcs4', props=['C06'], elem={0: 8, 1: 4, 3: 8}, bounds={2: (0, MAXLEN)}, ret=(0, 3),
         requires=lambda c: text_pre(c, 1, 2) + handle_ok(c, 0) + [('sentencelen writable', valid(c, c.pre, 3, 8, 1)), ('separate', z3.Distinct(c.base(0), c.base(1), c.base(3)))],
         ensures=next_post, assigns=[('arg', 3, ('8',)), ('arg', 0, ('4',))])


def cstr_post(c):
    if not c.isdef:
        return []
    a, s, n = arr(c, c.pre, 1, 1), c.idx(1, 1), c.i(2)
    good = z3.And(c.base(1) != 0, VT(a, s, s + n))
    N = CNT(a, s, s + n)
    sl = cell(c, c.post, 3, 8, 0)

    def rest(q):
        w, i = q.pre.obj('4', q.base(1)), c.enc.exact_idx(q.args[1], 4)
        return z3.And(q.i(2) == WL4(w, i), q.base(3) == c.base(3), c.r == q.r, sl == cell(q, q.post, 3, 8, 0))
    return [('no sentence in invalid text', z3.Implies(z3.Not(good), c.r == NONE)), ('the sentence of the wide character form', z3.Implies(good, decoded_call(c, 'voikkoNextSentenceStartUcs4', 0, 1, a, s, N, rest))),
            ('the options are as before', arr(c, c.post, 0, 4) == arr(c, c.pre, 0, 4))]


contract('voikkoNextSentenceStartCstr', props=['C04', 'C06'], elem={0: 8, 1: 1, 3: 8}, bounds={2: (0, MAXLEN)}, ret=(0, 3), allocates=True,
         requires=lambda c: handle_ok(c, 0) + [('text null or readable', Or(c.base(1) == 0, bytes_valid(c, 1, c.i(2)))), ('sentencelen writable', valid(c, c.pre, 3, 8, 1)), ('separate', z3.Distinct(c.base(0), c.base(1), c.base(3)))],
         ensures=cstr_post, assigns=[('arg', 3, ('8',)), ('arg', 0, ('4',))])
