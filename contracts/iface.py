"""Interface functions: hyphenation and tokens of UTF-8 text."""
from .base import *
from .chars import *
from .token import handle_ok, nt_post, text_pre, scan_inv
from .utf import *


# ---- hyphenation
def freshz(c, st, base):
    return z3.And(base >= c.pre.next, c.enc.isalive(st, base), hk(base) == 1)


contract('virtual libvoikko::hyphenator::Hyphenator::hyphenate(wchar_t const*, unsigned long)', trusted=True, elem={1: 4}, bounds={2: (0, 8 * MAXLEN)}, allocates=True, owned=lambda c: [c.ret.base],
         requires=lambda c: [('word readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))],
         ensures=lambda c: [('null or a new array', Or(c.ret.base == 0, z3.And(freshz(c, c.post, c.ret.base), c.ret.off.z() == 0)))])


def hyph_ucs4_post(c):
    out = [('null or a new array', Or(c.ret.base == 0, z3.And(freshz(c, c.post, c.ret.base), c.ret.off.z() == 0))), ('no pattern without a word', z3.Implies(c.base(1) == 0, c.ret.base == 0))]
    if c.isdef:
        v = [k for k in c.enc.calls if k.startswith('virtual ') and 'hyphenate' in k]
        if not v:
            raise Unsupported('the hyphenator is not called')
        out.append(('the pattern the hyphenator gives for the word', z3.Implies(c.base(1) != 0, z3.Or(*[
            z3.And(q.pc, q.base(1) == c.base(1), q.args[1].off.z() == c.args[1].off.z(), q.i(2) == WL4(arr(c, c.pre, 1, 4), c.idx(1, 4)), c.ret.base == q.ret.base, c.ret.off.z() == q.ret.off.z()) for k in v for q in c.enc.calls[k]]))))
    return out


contract('voikkoHyphenateUcs4', props=['C04', 'C10'], elem={0: 8, 1: 4}, allocates=True, owned=lambda c: [c.ret.base], requires=lambda c: handle_ok(c, 0) + opt_zstr(c, 1, 4), ensures=hyph_ucs4_post)


def hyph_cstr_post(c):
    if not c.isdef:
        return []
    a, s, n, ok, N = cstr_parts(c, 1)
    good = z3.And(c.base(1) != 0, n <= 255, ok)
    return [('no pattern for over-long or invalid words', z3.Implies(z3.Not(good), c.ret.base == 0)),
            ('the pattern of the wide character form', z3.Implies(good, decoded_call(c, 'voikkoHyphenateUcs4', 0, 1, a, s, N, lambda q: z3.And(c.ret.base == q.ret.base, c.ret.off.z() == q.ret.off.z()))))]


contract('voikkoHyphenateCstr', props=['C04'], elem={0: 8, 1: 1}, allocates=True, owned=lambda c: [c.ret.base], requires=lambda c: handle_ok(c, 0) + opt_zstr(c, 1), ensures=hyph_cstr_post)

# ---- tokens
contract('voikkoNextTokenUcs4', props=['C05'], elem={0: 8, 1: 4, 3: 8}, bounds={2: (0, MAXLEN)}, ret=(0, 4),
         requires=lambda c: text_pre(c, 1, 2) + handle_ok(c, 0) + [('tokenlen writable', valid(c, c.pre, 3, 8, 1)), ('separate', z3.And(c.base(3) != c.base(1), c.base(3) != c.base(0)))],
         ensures=nt_post, assigns=[('arg', 3, ('8',))])


def u8c(c, k):
    """bool argument cell"""
    return cell(c, c.post, k, 1, 0)


def do_tok_post(c):
    a, s, n, mx = arr(c, c.pre, 1, 1), c.idx(1, 1), c.i(2), c.i(4)
    N = CNT(a, s, s + n)
    bad = z3.And(6 * mx + 1 >= n, z3.Not(VT(a, s, s + n)))
    tl = cell(c, c.post, 3, 8, 0)
    return [('invalid text has no token', z3.Implies(bad, z3.And(c.r == 0, u8c(c, 5) == 1, tl == cell(c, c.pre, 3, 8, 0)))),
            ('an answer that may change with more text is preliminary only when there is more text', Or(u8c(c, 5) == 1, z3.And(u8c(c, 5) == 0, mx <= n, z3.Not(bad), c.r != 0))),
            ('token inside the text', z3.Implies(z3.Not(bad), z3.And(tl >= 0, tl <= n, tl <= mx, z3.Implies(c.r != 0, tl >= 1))))]


contract('libvoikko::tokenizer::doVoikkoNextTokenCstr(VoikkoHandle*, char const*, unsigned long, unsigned long*, unsigned long, bool*)', props=['C04'], elem={0: 8, 1: 1, 3: 8, 5: 1}, bounds={2: (0, MAXLEN), 4: (1, 2 * MAXLEN + 50)}, ret=(0, 4), allocates=True,
         requires=lambda c: handle_ok(c, 0) + [('bytes readable', bytes_valid(c, 1, c.i(2))), ('tokenlen writable', valid(c, c.pre, 3, 8, 1)), ('flag writable', valid(c, c.pre, 5, 1, 1)),
                                               ('separate', z3.Distinct(c.base(0), c.base(1), c.base(3), c.base(5)))],
         ensures=do_tok_post, assigns=[('arg', 3, ('8',)), ('arg', 5, ('1',))])


def tok_cstr_post(c):
    a, s, n = arr(c, c.pre, 1, 1), c.idx(1, 1), c.i(2)
    tl = cell(c, c.post, 3, 8, 0)
    return [('no token without text', z3.Implies(c.base(1) == 0, c.r == 0)), ('token inside the text', z3.Implies(c.base(1) != 0, z3.And(tl >= 0, tl <= n, z3.Implies(c.r != 0, tl >= 1))))]


def tok_inv(enc, info):
    n = enc.argvals[2].e
    p = enc.argvals[3]
    yield 'tokenlen', lambda v: z3.And(enc.load_as(v.st, p, 8) >= 0, enc.load_as(v.st, p, 8) <= n)
    for lab, ix in index_phis(enc, info):
        yield 'chunk(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= 50, Or(ix(v) == 50, ix(v) <= 2 * n))


contract('voikkoNextTokenCstr', props=['C04'], elem={0: 8, 1: 1, 3: 8}, bounds={2: (0, MAXLEN)}, ret=(0, 4), allocates=True,
         requires=lambda c: handle_ok(c, 0) + [('text null or readable', Or(c.base(1) == 0, bytes_valid(c, 1, c.i(2)))), ('tokenlen writable', valid(c, c.pre, 3, 8, 1)), ('separate', z3.Distinct(c.base(0), c.base(1), c.base(3)))],
         ensures=tok_cstr_post, assigns=[('arg', 3, ('8',))], invariants=tok_inv)
