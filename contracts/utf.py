"""UTF-8 <-> wide characters: utf8::distance, utf8::append, StringUtils conversions."""
from .base import *
from .chars import *
from .case import LV
from .norm import fresh_ret
from engine.lib import WL1, WL4


def u8(x):
    return z3.If(x < 0, x + 256, x)


def cpvalid(c):
    return z3.And(c >= 0, c <= 0x10FFFF, z3.Not(rng(c, 0xD800, 0xDFFF)), c != 0xFFFE, c != 0xFFFF)


def seqlen(u):
    """length announced by a lead byte, 0 if it is none"""
    return z3.If(u < 0x80, z3.IntVal(1), z3.If(rng(u, 0xC0, 0xDF), z3.IntVal(2), z3.If(rng(u, 0xE0, 0xEF), z3.IntVal(3), z3.If(rng(u, 0xF0, 0xF7), z3.IntVal(4), z3.IntVal(0)))))


def SL(a, i):
    return seqlen(u8(a[i]))


def ADV(a, i):
    s = SL(a, i)
    return z3.If(s == 0, z3.IntVal(1), s)


def decode(b):
    u0, u1, u2, u3 = [u8(x) for x in b]
    s = seqlen(u0)
    return z3.If(s == 2, (u0 % 32) * 64 + u1 % 64,
                 z3.If(s == 3, (u0 % 16) * 4096 + (u1 % 64) * 64 + u2 % 64,
                       z3.If(s == 4, (u0 % 8) * 262144 + (u1 % 64) * 4096 + (u2 % 64) * 64 + u3 % 64, u0)))


def decode_valid(b):
    """the bytes start with a well-formed sequence"""
    u = [u8(x) for x in b]
    s, c = seqlen(u[0]), decode(b)
    tr = [rng(x, 0x80, 0xBF) for x in u]
    return z3.And(s > 0, z3.Implies(s >= 2, tr[1]), z3.Implies(s >= 3, tr[2]), z3.Implies(s >= 4, tr[3]), cpvalid(c),
                  z3.Implies(s == 2, c >= 0x80), z3.Implies(s == 3, c >= 0x800), z3.Implies(s == 4, c >= 0x10000))


def quad(a, i):
    return [a[i], a[i + 1], a[i + 2], a[i + 3]]


def UVQ(a, i, e):
    return z3.And(i + SL(a, i) <= e, decode_valid(quad(a, i)))


VT = z3.Function('utf8_valid', AI, INT, INT, z3.BoolSort())         # bytes i..e are well-formed UTF-8
CNT = z3.Function('utf8_count', AI, INT, INT, INT)                   # number of characters in bytes i..e
POS = z3.Function('utf8_pos', AI, INT, INT, INT)                     # start of character m counted from byte s
CP = z3.Function('utf8_char', AI, INT, INT)                          # character starting at byte i


def vt_unfold(a, i, e):
    return [VT(a, i, e) == z3.If(i >= e, i == e, z3.And(UVQ(a, i, e), VT(a, i + ADV(a, i), e))), CNT(a, i, e) == z3.If(i >= e, z3.IntVal(0), 1 + CNT(a, i + ADV(a, i), e))]


def pos_unfold(a, s, m):
    return [POS(a, s, 0) == s, z3.Implies(m >= 0, POS(a, s, m + 1) == POS(a, s, m) + ADV(a, POS(a, s, m)))]


def cp_unfold(a, i):
    return [CP(a, i) == decode(quad(a, i))]


# lemmas by induction
def pos_mono(a, s, k, l):
    return z3.Implies(z3.And(0 <= k, k <= l), z3.And(POS(a, s, k) + (l - k) <= POS(a, s, l), POS(a, s, l) <= POS(a, s, k) + 4 * (l - k)))


def cnt_bound(a, i, e):
    return z3.And(CNT(a, i, e) >= 0, z3.Implies(i <= e, CNT(a, i, e) <= e - i))


def pos_end(a, s, k, i, e):
    return z3.Implies(z3.And(k >= 0, VT(a, i, e), POS(a, s, k) == i), POS(a, s, k + CNT(a, i, e)) == e)


_a, _s, _k, _l, _i, _e, _c = z3.Const('a', AI), z3.Int('s'), z3.Int('k'), z3.Int('l'), z3.Int('i'), z3.Int('e'), z3.Int('c')
lemma('C04', 'character positions increase by one to four bytes, base', pos_mono(_a, _s, _k, _k))
lemma('C04', 'character positions increase by one to four bytes, step', pos_mono(_a, _s, _k, _l + 1), [_k <= _l, pos_mono(_a, _s, _k, _l)] + pos_unfold(_a, _s, _l))
lemma('C04', 'at most one character per byte, base', z3.Implies(_i >= _e, cnt_bound(_a, _i, _e)), vt_unfold(_a, _i, _e))
lemma('C04', 'at most one character per byte, step', z3.Implies(_i < _e, cnt_bound(_a, _i, _e)), vt_unfold(_a, _i, _e) + [cnt_bound(_a, _i + ADV(_a, _i), _e)] + vt_unfold(_a, _i + ADV(_a, _i), _e))
lemma('C04', 'the last character ends at the end of the text, base', z3.Implies(_i >= _e, pos_end(_a, _s, _k, _i, _e)), vt_unfold(_a, _i, _e))
lemma('C04', 'the last character ends at the end of the text, step', z3.Implies(_i < _e, pos_end(_a, _s, _k, _i, _e)),
      vt_unfold(_a, _i, _e) + [pos_end(_a, _s, _k + 1, _i + ADV(_a, _i), _e), cnt_bound(_a, _i + ADV(_a, _i), _e)] + pos_unfold(_a, _s, _k))


# ---- encoding
def enclen(c):
    return z3.If(c < 0x80, z3.IntVal(1), z3.If(c < 0x800, z3.IntVal(2), z3.If(c < 0x10000, z3.IntVal(3), z3.IntVal(4))))


def encbytes(c):
    """the four bytes (unused ones 0) as signed chars"""
    sc = lambda x: z3.If(x > 127, x - 256, x)
    n = enclen(c)
    b0 = z3.If(n == 1, c, z3.If(n == 2, 0xC0 + c / 64, z3.If(n == 3, 0xE0 + c / 4096, 0xF0 + c / 262144)))
    b1 = z3.If(n == 2, 0x80 + c % 64, z3.If(n == 3, 0x80 + (c / 64) % 64, 0x80 + (c / 4096) % 64))
    b2 = z3.If(n == 3, 0x80 + c % 64, 0x80 + (c / 64) % 64)
    b3 = 0x80 + c % 64
    return [sc(b) for b in (b0, b1, b2, b3)]


def ENCAT(o, i, c):
    """the encoding of c stands at o[i..]"""
    n, b = enclen(c), encbytes(c)
    return z3.And(o[i] == b[0], z3.Implies(n >= 2, o[i + 1] == b[1]), z3.Implies(n >= 3, o[i + 2] == b[2]), z3.Implies(n >= 4, o[i + 3] == b[3]))


lemma('C04', 'decoding an encoded character gives it back', z3.Implies(z3.And(cpvalid(_c), ENCAT(_a, _i, _c)), z3.And(decode_valid(quad(_a, _i)), decode(quad(_a, _i)) == _c, SL(_a, _i) == enclen(_c))))
_b = [z3.Int('b%d' % j) for j in range(4)]
lemma('C04', 'encoding a decoded character gives its bytes back',
      z3.Implies(z3.And(decode_valid(_b), *[rng(x, -128, 127) for x in _b]),
                 z3.And(enclen(decode(_b)) == seqlen(u8(_b[0])), *[z3.Implies(enclen(decode(_b)) > j, encbytes(decode(_b))[j] == _b[j]) for j in range(4)])))

EP = z3.Function('utf8_offset', AI, INT, INT, INT)            # bytes taken by the first m characters
INV = AnyFold('any_unencodable', lambda c: z3.Not(cpvalid(c)))
INV.prove_mono('C04')


def ep_unfold(a, k, m):
    return [EP(a, k, 0) == 0, z3.Implies(m >= 0, EP(a, k, m + 1) == EP(a, k, m) + enclen(a[k + m]))]


# ---- contracts
T1 = 'std::iterator_traits<char const*>::difference_type '


def dist_pre(c):
    return [('range', z3.And(c.idx(1, 1) - c.idx(0, 1) <= 8 * MAXLEN, c.base(0) == c.base(1), c.idx(0, 1) >= 0, c.idx(0, 1) <= c.idx(1, 1), Or(c.idx(0, 1) == c.idx(1, 1), z3.And(c.enc.isalive(c.pre, c.base(0)), c.idx(1, 1) <= sz(c.base(0))))))]


def dist_vt(c):
    return VT(arr(c, c.pre, 0, 1), c.idx(0, 1), c.idx(1, 1))


def dist_inv(enc, info):
    p, q = enc.argvals
    a, s, e = enc.name_arr(enc.st0.obj('1', p.base)), enc.exact_idx(p, 1), enc.exact_idx(q, 1)
    for f in vt_unfold(a, s, e):
        enc.fact(f)
    for w in ptr_phis(info):
        i = info['hv'][w].idx(1)
        for f in vt_unfold(a, i, e):
            enc.fact(f)
        yield 'pos(%s)' % enc.pname(w), lambda v, w=w: z3.And(v.phis[w].base == p.base, v.phis[w].idx(1) >= s, v.phis[w].idx(1) <= e)
        yield 'valid(%s)' % enc.pname(w), lambda v, w=w: VT(a, s, e) == VT(a, v.phis[w].idx(1), e)
        for lab, ix in index_phis(enc, info):
            yield 'count(%s,%s)' % (enc.pname(w), lab), lambda v, w=w, ix=ix: z3.And(ix(v) >= 0, ix(v) <= v.phis[w].idx(1) - s, CNT(a, s, e) == ix(v) + CNT(a, v.phis[w].idx(1), e))


contract(T1 + 'libvoikko::utf8::distance<char const*>(char const*, char const*)', props=['C04'], elem={0: 1, 1: 1}, requires=dist_pre,
         throws=lambda c: z3.Not(dist_vt(c)), ensures=lambda c: [('number of characters', c.r == CNT(arr(c, c.pre, 0, 1), c.idx(0, 1), c.idx(1, 1)))],
         hints=lambda c: vt_unfold(arr(c, c.pre, 0, 1), c.idx(0, 1), c.idx(1, 1)) + [cnt_bound(arr(c, c.pre, 0, 1), c.idx(0, 1), c.idx(1, 1))], invariants=dist_inv, ret=(0, 8 * MAXLEN))


def app_post(c):
    u, k = c.enc.u(c.args[0], 32).e, c.idx(1, 1)
    o0, o1 = arr(c, c.pre, 1, 1), arr(c, c.post, 1, 1)
    m = z3.Int('mq')
    return [('encoding written', ENCAT(o1, k, u)), ('advanced by its length', z3.And(c.ret.base == c.base(1), c.ret.idx(1) == k + enclen(u))),
            ('nothing else written', z3.ForAll([m], z3.Implies(z3.Or(m < k, m >= k + enclen(u)), o1[m] == o0[m]), patterns=[o1[m]]))]


contract('char* libvoikko::utf8::append<char*>(unsigned int, char*)', props=['C04'], elem={1: 1}, requires=lambda c: [('room for the encoding', Or(z3.Not(cpvalid(c.enc.u(c.args[0], 32).e)), valid(c, c.pre, 1, 1, enclen(c.enc.u(c.args[0], 32).e))))],
         throws=lambda c: z3.Not(cpvalid(c.enc.u(c.args[0], 32).e)), ensures=app_post, assigns=[('arg', 1, ('1',))])


SU = 'libvoikko::utils::StringUtils::'


def dec_cells(o, a, s, n):
    m = z3.Int('mq')
    return z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), o[m] == CP(a, POS(a, s, m))), patterns=[o[m]])


def do_post(c):
    a, s, n = arr(c, c.pre, 0, 1), c.idx(0, 1), c.i(1)
    o = c.post.obj('4', c.ret.base)
    return [('a new buffer', fresh_ret(c, 4, n + 1)), ('terminated', o[n] == 0), ('decoded characters', dec_cells(o, a, s, n))]


def do_inv(enc, info):
    p, n = enc.argvals[0], enc.argvals[1].e
    a, s = enc.name_arr(enc.st0.obj('1', p.base)), enc.exact_idx(p, 1)
    m = z3.Int('mq')
    for w in ptr_phis(info):
        for lab, ix in index_phis(enc, info):
            i = ix(LV(info, 'hv'))
            for f in pos_unfold(a, s, i) + cp_unfold(a, POS(a, s, i)) + [pos_mono(a, s, i + 1, n), pos_mono(a, s, z3.IntVal(0), i)]:
                enc.fact(f)
            yield 'pos(%s,%s)' % (enc.pname(w), lab), lambda v, w=w, ix=ix: z3.And(v.phis[w].base == p.base, v.phis[w].idx(1) == POS(a, s, ix(v)))
            if enc.allocated:
                yield 'out(%s)' % lab, lambda v, ix=ix: dec_cells(v.st.obj('4', enc.allocated[-1]), a, s, ix(v))


contract('libvoikko::utils::doUcs4FromUtf8(char const*, unsigned long)', props=['C04'], elem={0: 1}, bounds={1: (0, 8 * MAXLEN)}, allocates=True, ret_elem=4, owned=lambda c: [c.ret.base],
         requires=lambda c: [('characters readable', Or(c.i(1) == 0, z3.And(c.enc.isalive(c.pre, c.base(0)), c.idx(0, 1) >= 0, POS(arr(c, c.pre, 0, 1), c.idx(0, 1), c.i(1)) <= sz(c.base(0)))))],
         ensures=do_post, invariants=do_inv)


def null_or_fresh(c, isnull, n, kind=1, w=4):
    return [('null exactly for invalid text', (c.ret.base == 0) == isnull), ('a new buffer', Or(c.ret.base == 0, fresh_ret(c, w, n, kind)))]


def bytes_valid(c, k, n):
    return z3.And(c.idx(k, 1) >= 0, Or(n == 0, valid(c, c.pre, k, 1, n)))


def u2_post(c, s=None, n=None):
    a, s = arr(c, c.pre, 0, 1), c.idx(0, 1)
    e = s + (c.i(1) if n is None else n)
    o = c.post.obj('4', c.ret.base)
    N = CNT(a, s, e)
    return null_or_fresh(c, z3.Not(VT(a, s, e)), N + 1) + [('number of characters', z3.And(N >= 0, N <= e - s)), ('decoded', Or(c.ret.base == 0, z3.And(o[N] == 0, dec_cells(o, a, s, N))))]


def u_hints(a, s, e, mx=None):
    h = [cnt_bound(a, s, e), pos_end(a, s, z3.IntVal(0), s, e)] + pos_unfold(a, s, z3.IntVal(0)) + vt_unfold(a, s, e) + [pos_mono(a, s, z3.IntVal(0), CNT(a, s, e))]
    if mx is not None:
        h += [pos_mono(a, s, z3.IntVal(0), mx), pos_mono(a, s, mx, CNT(a, s, e))]
    return h


def text_facts(c, mx=None, n=None):
    a, s = arr(c, c.pre, 0, 1), c.idx(0, 1)
    return u_hints(a, s, s + (c.i(1) if n is None else n), mx)


contract(SU + 'ucs4FromUtf8(char const*, unsigned long)', props=['C04'], elem={0: 1}, bounds={1: (0, 8 * MAXLEN)}, allocates=True, ret_elem=4, owned=lambda c: [c.ret.base],
         requires=lambda c: [('bytes readable', bytes_valid(c, 0, c.i(1)))], ensures=u2_post, entry=lambda c: text_facts(c))


def u3_n(c):
    a, s = arr(c, c.pre, 0, 1), c.idx(0, 1)
    N = CNT(a, s, s + c.i(1))
    return z3.If(6 * c.i(2) + 1 < c.i(1), c.i(2), z3.If(N < c.i(2), N, c.i(2)))


def u3_post(c):
    a, s = arr(c, c.pre, 0, 1), c.idx(0, 1)
    o, n = c.post.obj('4', c.ret.base), u3_n(c)
    return null_or_fresh(c, z3.And(6 * c.i(2) + 1 >= c.i(1), z3.Not(VT(a, s, s + c.i(1)))), n + 1) + [('number of characters', z3.And(n >= 0, n <= c.i(1), n <= c.i(2))), ('decoded', Or(c.ret.base == 0, z3.And(o[n] == 0, dec_cells(o, a, s, n))))]


contract(SU + 'ucs4FromUtf8(char const*, unsigned long, unsigned long)', props=['C04'], elem={0: 1}, bounds={1: (0, 8 * MAXLEN), 2: (0, 4 * MAXLEN)}, allocates=True, ret_elem=4, owned=lambda c: [c.ret.base],
         requires=lambda c: [('bytes readable', bytes_valid(c, 0, c.i(1)))], ensures=u3_post, entry=lambda c: text_facts(c, c.i(2)))
contract(SU + 'ucs4FromUtf8(char const*)', props=['C04'], elem={0: 1}, allocates=True, ret_elem=4, owned=lambda c: [c.ret.base],
         requires=lambda c: [('terminated string', zstr(c, c.pre, 0, 1))], ensures=lambda c: u2_post(c, n=WL1(arr(c, c.pre, 0, 1), c.idx(0, 1))))


# ---- wide characters to UTF-8
def enc_cells(o, a, k, n):
    m = z3.Int('mq')
    return z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), z3.And(ENCAT(o, EP(a, k, m), a[k + m]), EP(a, k, m) >= 0, EP(a, k, m) + enclen(a[k + m]) <= EP(a, k, n))), patterns=[EP(a, k, m)])


def w2_post(c, n=None):
    a, k = arr(c, c.pre, 0, 4), c.idx(0, 4)
    n = c.i(1) if n is None else n
    o = c.post.obj('1', c.ret.base)
    return null_or_fresh(c, INV(a, k, k + n), 6 * n + 1, w=1) + [('length', z3.Implies(c.ret.base != 0, z3.And(EP(a, k, n) >= n, EP(a, k, n) <= 4 * n))), ('terminated', Or(c.ret.base == 0, o[EP(a, k, n)] == 0)), ('encoded', Or(c.ret.base == 0, enc_cells(o, a, k, n)))]


def w2_inv(enc, info):
    p, n = enc.argvals[0], enc.argvals[1].e
    a, k = enc.name_arr(enc.st0.obj('4', p.base)), enc.exact_idx(p, 4)
    enc.fact(INV.base(a, k, k))
    for f in ep_unfold(a, k, z3.IntVal(0)):
        enc.fact(f)
    for w in ptr_phis(info):
        for lab, ix in index_phis(enc, info):
            i = ix(LV(info, 'hv'))
            for f in ep_unfold(a, k, i) + [INV.step(a, k, k + i), INV.mono(a, k, k + i + 1, k + n)]:
                enc.fact(f)
            b = enc.allocated[-1] if enc.allocated else None
            yield 'pos(%s,%s)' % (enc.pname(w), lab), lambda v, w=w, ix=ix, b=b: z3.And(v.phis[w].base == b, v.phis[w].idx(1) == EP(a, k, ix(v)), EP(a, k, ix(v)) >= ix(v), EP(a, k, ix(v)) <= 4 * ix(v))
            yield 'allvalid(%s)' % lab, lambda v, ix=ix: z3.Not(INV(a, k, k + ix(v)))
            yield 'out(%s)' % lab, lambda v, ix=ix, b=b: enc_cells(v.st.obj('1', b), a, k, ix(v))


contract(SU + 'utf8FromUcs4(wchar_t const*, unsigned long)', props=['C04'], elem={0: 4}, bounds={1: (0, MAXLEN)}, allocates=True, ret_elem=1, owned=lambda c: [c.ret.base],
         requires=lambda c: [('characters readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1))))], ensures=w2_post, invariants=w2_inv)
contract(SU + 'utf8FromUcs4(wchar_t const*)', props=['C04'], elem={0: 4}, allocates=True, ret_elem=1, owned=lambda c: [c.ret.base],
         requires=lambda c: [('terminated string', zstr(c, c.pre, 0))], ensures=lambda c: w2_post(c, WL4(arr(c, c.pre, 0, 4), c.idx(0, 4))))


def copy_post(w):
    def f(c):
        a, k = arr(c, c.pre, 0, w), c.idx(0, w)
        n = (WL4 if w == 4 else WL1)(a, k)
        o, m = c.post.obj(str(w), c.ret.base), z3.Int('mq')
        return [('a new buffer', fresh_ret(c, w, n + 1)), ('same text', z3.And(o[n] == 0, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), o[m] == a[k + m]), patterns=[o[m]])))]
    return f


for _w, _t in ((4, 'wchar_t'), (1, 'char')):
    contract(SU + 'copy(%s const*)' % _t, props=['C04'], elem={0: _w}, allocates=True, ret_elem=_w, owned=lambda c: [c.ret.base],
             requires=lambda c, w=_w: [('terminated string', zstr(c, c.pre, 0, w))], ensures=copy_post(_w))


# ---- functions of the UTF-8 interface: the wide character function is called with the decoded text and its answer returned
def decoded_call(c, key, ak, wk, a, s, n, rest):
    """some call of `key` had as argument wk the n decoded characters of a[s..], terminated; rest(call) holds"""
    if not c.enc.calls.get(key):
        raise Unsupported('%s is not called' % key)
    out = []
    for q in c.enc.calls[key]:
        w, i = q.pre.obj('4', q.base(wk)), c.enc.exact_idx(q.args[wk], 4)
        m = z3.Int('mq')
        out.append(z3.And(q.pc, q.base(ak) == c.base(ak), q.args[ak].off.z() == c.args[ak].off.z(), w[i + n] == 0,
                          z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), w[i + m] == CP(a, POS(a, s, m))), patterns=[w[i + m]]), rest(q)))
    return z3.Or(*out)


def cstr_parts(c, k):
    a, s = arr(c, c.pre, k, 1), c.idx(k, 1)
    n = WL1(a, s)
    return a, s, n, VT(a, s, s + n), CNT(a, s, s + n)


def spellcstr_post(c):
    if not c.isdef:
        return []
    a, s, n, ok, N = cstr_parts(c, 1)
    return [('an empty word is accepted', z3.Implies(Or(c.base(1) == 0, n == 0), c.r == 1)),
            ('a word above the length limit is rejected', z3.Implies(z3.And(c.base(1) != 0, n > 255), c.r == 0)),
            ('invalid UTF-8 is reported', z3.Implies(z3.And(c.base(1) != 0, n > 0, n <= 255, z3.Not(ok)), c.r == 3)),
            ('any other word is judged as its wide character form', z3.Implies(z3.And(c.base(1) != 0, n > 0, n <= 255, ok), decoded_call(c, 'voikkoSpellUcs4', 0, 1, a, s, N, lambda q: c.r == q.r)))]


def opt_zstr(c, k, w=1):
    return [('word null or terminated', Or(c.base(k) == 0, zstr(c, c.pre, k, w)))]


from .token import handle_ok
from .spell import cache_req, cache_assigns

contract('voikkoSpellCstr', props=['C04'], elem={0: 8, 1: 1}, ret=(0, 3), requires=lambda c: handle_ok(c, 0) + opt_zstr(c, 1) + cache_req(c, [c.base(1)]),
         ensures=spellcstr_post, assigns=cache_assigns(), allocates=True)
