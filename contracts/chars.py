"""Character classification, case mapping, case type."""
from .base import *

# ---- spec functions (definitions; the code is checked against them)
# upper -> lower pairs: (first, last, stride, delta)
PAIRS = [(0x41, 0x5A, 1, 0x20), (0xC0, 0xD6, 1, 0x20), (0xD8, 0xDE, 1, 0x20), (0x100, 0x136, 2, 1), (0x139, 0x147, 2, 1), (0x14A, 0x176, 2, 1),
         (0x179, 0x17D, 2, 1), (0x1B7, 0x1B7, 1, 0x292 - 0x1B7), (0x1DE, 0x1EE, 2, 1), (0x1F8, 0x21E, 2, 1), (0x400, 0x40F, 1, 0x50),
         (0x410, 0x42F, 1, 0x20), (0x460, 0x480, 2, 1), (0x48A, 0x526, 2, 1)]


def in_pair_upper(c, p):
    a, b, s, d = p
    e = rng(c, a, b)
    return And(e, c % 2 == a % 2) if s == 2 else e


def in_pair_lower(c, p):
    a, b, s, d = p
    e = rng(c, a + d, b + d)
    return And(e, c % 2 == (a + d) % 2) if s == 2 else e


def lower_def(c):
    e = c
    for p in reversed(PAIRS):
        e = z3.If(in_pair_upper(c, p), c + p[3], e)
    return e


def upper_def(c):
    e = c
    for p in reversed(PAIRS):
        e = z3.If(in_pair_lower(c, p), c - p[3], e)
    return e


def isupper_def(c):
    return Or(c == 0x18F, *[in_pair_upper(c, p) for p in PAIRS])


def islower_def(c):
    return Or(*[in_pair_lower(c, p) for p in PAIRS])


def isws_def(c):
    return Or(rng(c, 9, 13), isin(c, [0x20, 0x85, 0xA0, 0x1680, 0x180E, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]), rng(c, 0x2000, 0x200A))


T_UNK, T_LETTER, T_DIGIT, T_WS, T_PUNCT = 0, 1, 2, 3, 4
LETTERS = [(0x41, 0x5A), (0x61, 0x7A), (0xC1, 0xD6), (0xD8, 0xF6), (0xF8, 0x2AF), (0x400, 0x481), (0x48A, 0x527), (0x1400, 0x15C3), (0xFB00, 0xFB04)]
QUOTES = [0, 0x22, 0xBB, 0x201D]
PUNCT = [ord(x) for x in ".,;-!?:'()[]{}/&"] + [0xAD, 0x2019, 0x2010, 0x2011, 0x2013, 0x2014, 0x201C, 0x2026] + QUOTES


def chartype_def(c):
    e = z3.If(rng(c, 0x30, 0x39), z3.IntVal(T_DIGIT), z3.IntVal(T_UNK))
    e = z3.If(isin(c, PUNCT), z3.IntVal(T_PUNCT), e)
    e = z3.If(isws_def(c), z3.IntVal(T_WS), e)
    return z3.If(Or(*[rng(c, a, b) for a, b in LETTERS]), z3.IntVal(T_LETTER), e)


LOW = specfun('spec_lower', INT, INT, lower_def)
UPP = specfun('spec_upper', INT, INT, upper_def)
ISU = specfun('spec_isUpper', INT, z3.BoolSort(), isupper_def)
ISL = specfun('spec_isLower', INT, z3.BoolSort(), islower_def)
CT = specfun('spec_chartype', INT, INT, chartype_def)

P = 'libvoikko::character::SimpleChar::'
contract(P + 'lower(wchar_t)', props=['C01'], ensures=lambda c: [('result is the lower-case mapping', c.r == LOW(c.i(0)))], hints=lambda c: [LOW.unfold(c.i(0))])
contract(P + 'upper(wchar_t)', props=['C01'], ensures=lambda c: [('result is the upper-case mapping', c.r == UPP(c.i(0)))], hints=lambda c: [UPP.unfold(c.i(0))])
contract(P + 'isUpper(wchar_t)', props=['C01'], ensures=lambda c: [('true exactly on upper-case characters', c.r == ISU(c.i(0)))],
         hints=lambda c: [ISU.unfold(c.i(0)), LOW.unfold(c.i(0))])
contract(P + 'isLower(wchar_t)', props=['C01'], ensures=lambda c: [('true exactly on lower-case characters', c.r == ISL(c.i(0)))],
         hints=lambda c: [ISL.unfold(c.i(0)), UPP.unfold(c.i(0))])
contract(P + 'isDigit(wchar_t)', props=['C01'], ensures=lambda c: [('true exactly on 0-9', c.r == rng(c.i(0), 0x30, 0x39))])
contract(P + 'isWhitespace(wchar_t)', props=['C01'], ensures=lambda c: [('true exactly on white space', c.r == isws_def(c.i(0)))])
contract('libvoikko::isFinnishQuotationMark(wchar_t)', props=['C01'], ensures=lambda c: [('true exactly on quotation marks', c.r == isin(c.i(0), QUOTES))])
contract('libvoikko::get_char_type(wchar_t)', props=['C01'], ret=(0, 4), ensures=lambda c: [('classification', c.r == CT(c.i(0)))], hints=lambda c: [CT.unfold(c.i(0))])


def eqi_arrs(c):
    return arr(c, c.pre, 0, 4), c.idx(0, 4), arr(c, c.pre, 1, 4), c.idx(1, 4)


def zstr(c, st, k, w=4):
    """argument k is a readable terminated string"""
    a, i = arr(c, st, k, w), c.idx(k, w)
    t = (WL4 if w == 4 else WL1)(a, i)
    return z3.And(c.enc.isalive(st, c.base(k)), i >= 0, t >= 0, t <= MAXLEN, w * (i + t + 1) <= sz(c.base(k)), a[i + t] == 0)


DIFF = z3.Function('differ_ignoring_case', AI, INT, AI, INT, INT, z3.BoolSort())      # some of the first k characters differ


def diff_base(a, i, b, j):
    return z3.Not(DIFF(a, i, b, j, 0))


def diff_step(a, i, b, j, k):
    return z3.Implies(k >= 0, DIFF(a, i, b, j, k + 1) == z3.Or(DIFF(a, i, b, j, k), LOW(a[i + k]) != LOW(b[j + k])))


def diff_mono(a, i, b, j, k, l):
    return z3.Implies(z3.And(0 <= k, k <= l, DIFF(a, i, b, j, k)), DIFF(a, i, b, j, l))


def eqi_spec(c):
    a, i, b, j = eqi_arrs(c)
    return z3.And(WL4(a, i) == WL4(b, j), z3.Not(DIFF(a, i, b, j, WL4(a, i))))


def eqi_inv(enc, info):
    from .case import LV
    p, q = enc.argvals
    a, i, b, j = enc.name_arr(enc.st0.obj('4', p.base)), enc.exact_idx(p, 4), enc.name_arr(enc.st0.obj('4', q.base)), enc.exact_idx(q, 4)
    enc.fact(diff_base(a, i, b, j))
    for lab, ix in index_phis(enc, info):
        h = ix(LV(info, 'hv'))
        enc.fact(diff_step(a, i, b, j, h))
        for n in (WL4(a, i), WL4(b, j)):
            enc.fact(diff_mono(a, i, b, j, h + 1, n))
        yield 'same(%s)' % lab, lambda v, ix=ix: z3.Not(DIFF(a, i, b, j, ix(v)))
        yield 'within(%s)' % lab, lambda v, ix=ix: ix(v) <= WL4(a, i)


contract(P + 'equalsIgnoreCase(wchar_t const*, wchar_t const*)', props=['C01'], elem={0: 4, 1: 4}, requires=lambda c: [('first string', zstr(c, c.pre, 0)), ('second string', zstr(c, c.pre, 1))],
         ensures=lambda c: [('true exactly for strings equal up to case', c.r == eqi_spec(c))], invariants=eqi_inv)

_c = z3.Int('c')
lemma('C01', 'lower is idempotent', lower_def(lower_def(_c)) == lower_def(_c))
lemma('C01', 'upper is idempotent', upper_def(upper_def(_c)) == upper_def(_c))
lemma('C01', 'lower after upper equals lower', lower_def(upper_def(_c)) == lower_def(_c))
lemma('C01', 'upper after lower equals upper', upper_def(lower_def(_c)) == upper_def(_c))
lemma('C01', 'no character is both upper and lower case', z3.Not(z3.And(isupper_def(_c), islower_def(_c))))
lemma('C01', 'lower-case results are never upper case', z3.Implies(_c != 0x18F, z3.Not(isupper_def(lower_def(_c)))))
lemma('C01', 'upper-case results are never lower case', z3.Not(islower_def(upper_def(_c))))
lemma('C01', 'case mapping never leaves the letters (outside U+00C0)', z3.Implies(z3.And(lower_def(_c) != _c, _c != 0xC0), z3.And(chartype_def(_c) == T_LETTER, chartype_def(lower_def(_c)) == T_LETTER)))
lemma('C01', 'white space is classified as white space', isws_def(_c) == (chartype_def(_c) == T_WS))
lemma('C01', 'digits are classified as digits', rng(_c, 0x30, 0x39) == (chartype_def(_c) == T_DIGIT))

_a, _b, _i, _j, _k, _l = z3.Const('a', AI), z3.Const('b', AI), z3.Int('i'), z3.Int('j'), z3.Int('k'), z3.Int('l')
lemma('C01', 'a difference in a prefix is a difference, base', diff_mono(_a, _i, _b, _j, _k, _k))
lemma('C01', 'a difference in a prefix is a difference, step', diff_mono(_a, _i, _b, _j, _k, _l + 1), [_k <= _l, diff_mono(_a, _i, _b, _j, _k, _l), diff_step(_a, _i, _b, _j, _l)])
