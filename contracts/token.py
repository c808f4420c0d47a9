"""Tokenizer."""
from .base import *
from .chars import *

TOKEN_NONE, TOKEN_WORD, TOKEN_PUNCTUATION, TOKEN_WHITESPACE, TOKEN_UNKNOWN = 0, 1, 2, 3, 4


def notws(a, lo, hi):
    return forall_idx(a, lo, hi, lambda m: CT(a[m]) != T_WS)


def text_pre(c, ti, ni):
    return [('text readable up to textlen', Or(c.i(ni) == 0, valid(c, c.pre, ti, 4, c.i(ni))))]


def handle_ok(c, k):
    p = c.p(k)
    return [('handle', z3.And(c.enc.isalive(c.pre, p.base), p.off.z() >= 0, p.off.z() + c.structs['VoikkoHandle']['size'] <= sz(p.base)))]


def scan_inv(argk):
    """characters scanned so far contain no white space"""
    def gen(enc, info):
        p = enc.argvals[argk]
        a, k = enc.st0.obj('4', p.base), enc.exact_idx(p, 4)
        for lab, ix in index_phis(enc, info):
            for d in (0, 1):
                yield 'no-ws(%s+%d)' % (lab, d), lambda v, ix=ix, d=d: notws(a, k, k + ix(v) + d)
                yield 'all-ws(%s+%d)' % (lab, d), lambda v, ix=ix, d=d: forall_idx(a, k, k + ix(v) + d, lambda m: CT(a[m]) == T_WS)
            yield '%s>0-or-first' % lab, lambda v, ix=ix: z3.Or(ix(v) > 0, CT(a[k]) != T_LETTER)
        for b in bool_phis(info):
            for lab, ix in index_phis(enc, info):
                for n in (1, 2, 3, 4, 5):
                    yield '%s=>%s>=%d' % (enc.pname(b), lab, n), lambda v, b=b, ix=ix, n=n: z3.Implies(as_bool(v, b), ix(v) >= n)
    return gen


def url_post(c):
    a, k, n = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)
    return [('length within the text', z3.And(c.r >= 0, c.r <= n)), ('no white space inside', notws(a, k, k + c.r))]


contract('libvoikko::tokenizer::findUrlOrEmail(wchar_t const*, unsigned long)', props=['C05'], elem={0: 4}, bounds={1: (0, MAXLEN)}, ret=(0, MAXLEN),
         requires=lambda c: text_pre(c, 0, 1), ensures=url_post, invariants=scan_inv(0), axioms=lambda: [CT.unfold(z3.IntVal(ord(x))) for x in 'htps:/'])


def wl_post(c):
    a, k, n = arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1)
    return [('length within the text', z3.And(c.r >= 0, c.r <= n)), ('no white space inside', notws(a, k, k + c.r)),
            ('a letter or digit starts a non-empty word', z3.Implies(z3.And(n > 0, Or(CT(a[k]) == T_LETTER, CT(a[k]) == T_DIGIT)), c.r > 0))]


contract('libvoikko::tokenizer::word_length(wchar_t const*, unsigned long, VoikkoHandle*)', props=['C05'], elem={0: 4, 2: 8}, bounds={1: (0, MAXLEN)}, ret=(0, MAXLEN),
         requires=lambda c: text_pre(c, 0, 1) + handle_ok(c, 2), ensures=wl_post, invariants=scan_inv(0))


def nt_post(c):
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    tl = cell(c, c.post, 3, 8, 0)
    t0 = CT(a[k])
    allws = forall_idx(a, k, k + tl, lambda m: CT(a[m]) == T_WS)
    return [('NONE exactly at the end of the text', (c.r == TOKEN_NONE) == (n == 0)),
            ('empty token only at the end', z3.Implies(n == 0, tl == 0)),
            ('progress inside the text', z3.Implies(n > 0, z3.And(tl >= 1, tl <= n))),
            ('white-space token exactly when the text starts with white space', z3.Implies(n > 0, (c.r == TOKEN_WHITESPACE) == (t0 == T_WS))),
            ('white-space token is only white space', z3.Implies(c.r == TOKEN_WHITESPACE, allws)),
            ('white-space token is maximal', z3.Implies(z3.And(c.r == TOKEN_WHITESPACE, tl < n), CT(a[k + tl]) != T_WS)),
            ('no other token contains white space', z3.Implies(z3.And(n > 0, c.r != TOKEN_WHITESPACE), notws(a, k, k + tl))),
            ('unknown token is one unknown character', z3.Implies(n > 0, (c.r == TOKEN_UNKNOWN) == (t0 == T_UNK))),
            ('unknown token has length one', z3.Implies(c.r == TOKEN_UNKNOWN, tl == 1)),
            ('a letter or digit starts a word', z3.Implies(z3.And(n > 0, Or(t0 == T_LETTER, t0 == T_DIGIT)), c.r == TOKEN_WORD)),
            ('punctuation token is one punctuation character or an ellipsis', z3.Implies(c.r == TOKEN_PUNCTUATION, z3.And(t0 == T_PUNCT, Or(tl == 1, z3.And(tl == 3, n >= 3, a[k] == 46, a[k + 1] == 46, a[k + 2] == 46))))),
            ('a word starts with a letter, digit or hyphen', z3.Implies(c.r == TOKEN_WORD, Or(t0 == T_LETTER, t0 == T_DIGIT, isin(a[k], [0x2D, 0x2010, 0x2011, 0]))))]


contract('libvoikko::tokenizer::Tokenizer::nextToken(VoikkoHandle*, wchar_t const*, unsigned long, unsigned long*)', props=['C05'], elem={0: 8, 1: 4, 3: 8}, bounds={2: (0, MAXLEN)}, ret=(0, 4),
         requires=lambda c: text_pre(c, 1, 2) + handle_ok(c, 0) + [('tokenlen writable', valid(c, c.pre, 3, 8, 1)), ('separate', z3.And(c.base(3) != c.base(1), c.base(3) != c.base(0)))],
         ensures=nt_post, assigns=[('arg', 3, ('8',))], invariants=scan_inv(1), hints=lambda c: [CT.unfold(z3.IntVal(46))])
