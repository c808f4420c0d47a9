"""Capitalisation of a word against the STRUCTURE of its analyses."""
from .base import *
from .chars import ISU, ISL, zstr
from .hyph import LV, WL4

SU = 'libvoikko::spellchecker::SpellUtils'
R_FAIL, R_OK, R_FIRST, R_ERR = 0, 1, 2, 3
EQ = ord('=')
# first position at or after j that is not a boundary; position of the i-th pattern character; verdict after i characters of the word
SKIP = z3.Function('spec_skip_boundaries', AI, INT, INT)
PAT = z3.Function('spec_pattern_position', AI, INT, INT, INT)
CAP = z3.Function('spec_capitalisation', AI, INT, AI, INT, INT, INT)


def skip_def(a, j):
    return SKIP(a, j) == z3.If(a[j] == EQ, SKIP(a, j + 1), j)


def pat_base(a, k):
    return PAT(a, k, 0) == SKIP(a, k)


def pat_step(a, k, i):
    p = PAT(a, k, i)
    return z3.Implies(i >= 0, PAT(a, k, i + 1) == z3.If(a[p] == 0, p, SKIP(a, p + 1)))


def cap_bad(w, i, s):
    """the i-th character has the wrong case (not counting a small initial)"""
    return z3.Or(z3.And(ISL(w), z3.Not(ISU(w)), isin(s, 'ij'), i != 0), z3.And(ISU(w), isin(s, 'pq')))


def cap_base(w, k, a, b):
    return CAP(w, k, a, b, 0) == R_OK


def cap_step(w, k, a, b, i):
    s, r = a[PAT(a, b, i)], CAP(w, k, a, b, i)
    x = w[k + i]
    return z3.Implies(i >= 0, CAP(w, k, a, b, i + 1) == z3.If(z3.Or(s == 0, r == R_ERR), r, z3.If(cap_bad(x, i, s), z3.IntVal(R_ERR), z3.If(z3.And(i == 0, ISL(x), z3.Not(ISU(x)), isin(s, 'ij')), z3.IntVal(R_FIRST), r))))


def cap_stay(w, k, a, b, i):
    """lemma by induction: after an error or the end of the pattern the verdict stays"""
    m = z3.Int('mq')
    return z3.Implies(z3.And(i >= 0, z3.Or(CAP(w, k, a, b, i) == R_ERR, a[PAT(a, b, i)] == 0)), z3.ForAll([m], z3.Implies(m >= i, CAP(w, k, a, b, m) == CAP(w, k, a, b, i)), patterns=[CAP(w, k, a, b, m)]))


def _lemmas():
    w, k, a, b, i, m, t = z3.Const('w', AI), z3.Int('k'), z3.Const('a', AI), z3.Int('b'), z3.Int('i'), z3.Int('m'), z3.Int('t')
    C = lambda x: CAP(w, k, a, b, x)
    end = lambda x: a[PAT(a, b, x)] == 0
    h = z3.And(i >= 0, m >= i, z3.Or(C(i) == R_ERR, end(i)))
    st = lambda x: z3.Implies(h, z3.And(C(x) == C(i), z3.Or(C(x) == R_ERR, end(x))))
    lemma('C09', 'verdict stays, base', st(i))
    lemma('C09', 'verdict stays, step', st(m + 1), [st(m), pat_step(a, b, m), cap_step(w, k, a, b, m)])
    # declarative reading: an error exactly when some character has the wrong case
    ok = lambda n: z3.Implies(C(n) != R_ERR, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n, z3.Not(end(t))), z3.Not(cap_bad(w[k + t], t, a[PAT(a, b, t)]))), patterns=[PAT(a, b, t)]))
    lemma('C09', 'no error: every character agrees, base', ok(z3.IntVal(0)))
    lemma('C09', 'no error: every character agrees, step', ok(m + 1), [m >= 0, ok(m), cap_step(w, k, a, b, m)])
    er = lambda n: z3.Implies(C(n) == R_ERR, z3.Exists([t], z3.And(0 <= t, t < n, z3.Not(end(t)), cap_bad(w[k + t], t, a[PAT(a, b, t)]))))
    lemma('C09', 'error: some character disagrees, base', er(z3.IntVal(0)), [cap_base(w, k, a, b)])
    lemma('C09', 'error: some character disagrees, step', er(m + 1), [m >= 0, er(m), cap_step(w, k, a, b, m)])
    rg = lambda n: z3.And(C(n) >= R_OK, C(n) <= R_ERR)
    lemma('C09', 'verdicts, base', rg(z3.IntVal(0)), [cap_base(w, k, a, b)])
    lemma('C09', 'verdicts, step', rg(m + 1), [m >= 0, rg(m), cap_step(w, k, a, b, m)])
    fi = lambda n: z3.Implies(C(n) == R_FIRST, z3.And(n > 0, ISL(w[k]), isin(a[PAT(a, b, 0)], 'ij')))
    lemma('C09', 'small initial, base', fi(z3.IntVal(0)), [cap_base(w, k, a, b)])
    lemma('C09', 'small initial, step', fi(m + 1), [m >= 0, fi(m), cap_step(w, k, a, b, m)])


_lemmas()


def match_parts(c):
    return arr(c, c.pre, 0, 4), c.idx(0, 4), c.i(1), arr(c, c.pre, 2, 4), c.idx(2, 4)


def match_inv(enc, info):
    c = enc.defctx
    w, k, n, a, b = match_parts(c)
    enc.fact(cap_base(w, k, a, b))
    enc.fact(pat_base(a, b))
    ints = index_phis(enc, info)
    lv = LV(info, 'hv')
    outer = [x for x in enc.loopinfo.values() if x is not info and info['header'] in x['l']['blocks']]
    for lab, ix in ints:
        i = ix(lv)
        enc.fact(skip_def(a, b + i))
        for f in (pat_step(a, b, i), cap_step(w, k, a, b, i), cap_stay(w, k, a, b, i), cap_stay(w, k, a, b, i + 1)):
            enc.fact(f)
        yield 'in pattern(%s)' % lab, lambda v, ix=ix: z3.And(ix(v) >= 0, b + ix(v) <= WL4(a, b) + b)
        for x in outer:
            for lab2, ix2 in index_phis(enc, x):
                yield 'skipping(%s,%s)' % (lab, lab2), lambda v, ix=ix, q=ix2(LV(x, 'hv')): SKIP(a, b + ix(v)) == SKIP(a, b + q)
        for lab2, ix2 in ints:
            if lab2 != lab:
                yield 'position(%s,%s)' % (lab, lab2), lambda v, ix=ix, ix2=ix2: z3.Or(SKIP(a, b + ix2(v)) == PAT(a, b, ix(v)))
                yield 'verdict(%s,%s)' % (lab, lab2), lambda v, ix=ix, ix2=ix2: z3.And(ix2(v) == CAP(w, k, a, b, ix(v)), ix2(v) != R_ERR)


contract(SU + '::matchWordAndAnalysis(wchar_t const*, unsigned long, wchar_t const*)', props=['C09'], elem={0: 4, 2: 4}, bounds={1: (0, MAXLEN)}, ret=(1, 3),
         requires=lambda c: [('word readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1)))), ('structure', zstr(c, c.pre, 2))],
         ensures=lambda c: [('the verdict on the case of every character', c.r == CAP(*match_parts(c)[:2], *match_parts(c)[3:], c.i(1)))], invariants=match_inv, hints=lambda c: [cap_base(*match_parts(c)[:2], *match_parts(c)[3:])])


# ---- the best verdict over all analyses of the word
from .analyses import *
BEST = z3.Function('spec_best_verdict', MEM, MEM, INT, AI, INT, INT, INT, INT)


class Best:
    """verdicts on the word w[k..k+n) over the analyses in list l"""

    def __init__(self, l, w, k, n):
        self.l, self.w, self.k, self.n = l, w, k, n

    def verdict(self, i):
        return CAP(self.w, self.k, z3.Select(self.l.st.m['4'], STR(self.l.data(i))), 0, self.n)

    def __call__(self, i):
        return BEST(self.l.M, self.l.st.m['4'], self.l.b, self.w, self.k, self.n, i)

    def base(self):
        return self(z3.IntVal(0)) == R_FAIL

    def step(self, i):
        b, r = self(i), self.verdict(i)
        return z3.Implies(i >= 0, self(i + 1) == z3.If(z3.Or(b == R_FAIL, b > r), r, b))

    def stay(self, i):
        m = z3.Int('mq')
        return z3.Implies(z3.And(i >= 0, self(i) == R_OK), z3.ForAll([m], z3.Implies(z3.And(m >= i, m <= self.l.n), self(m) == R_OK), patterns=[self(m)]))


class _L:
    M, b = z3.Const('M', MEM), z3.Int('lb')

    class st:
        m = {'4': z3.Const('M4', MEM)}
    data = lambda self, i: z3.Select(z3.Select(self.M, LNODE(self.M, self.b, i)), 2)


def _best_lemmas():
    b = Best(_L(), z3.Const('w', AI), z3.Int('k'), z3.Int('n'))
    i, m, t = z3.Int('i'), z3.Int('m'), z3.Int('t')
    pos = b.verdict(m) >= R_OK
    h = lambda x: z3.Implies(z3.And(i >= 0, m >= i, b(i) == R_OK), b(x) == R_OK)
    lemma('C09', 'accepted stays accepted, base', h(i))
    lemma('C09', 'accepted stays accepted, step', h(m + 1), [h(m), b.step(m), pos])
    le = lambda x: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < x), z3.And(b(x) != R_FAIL, b(x) <= b.verdict(t))), patterns=[b.l.data(t)])
    lemma('C09', 'the best verdict is at most each one, base', le(z3.IntVal(0)))
    lemma('C09', 'the best verdict is at most each one, step', le(m + 1), [m >= 0, le(m), b.step(m), pos])


_best_lemmas()


def spell_best(c):
    """for each call of the analyser: its list and the verdicts"""
    out = []
    for k in c.enc.calls:
        if k.startswith('virtual ') and '::analyze[abi:cxx11](wchar_t' in k:
            for q in c.enc.calls[k]:
                out.append((q, Best(AList(c, q.post, q.ret.base), arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2))))
    return out


def spell_post(c):
    if not c.isdef:
        return []
    l = spell_best(c)
    if not l:
        raise Unsupported('the analyser is not asked')
    return [('the best verdict over the analyses of the word', z3.Or(*[z3.And(q.pc, q.base(1) == c.base(1), q.args[1].off.z() == c.args[1].off.z(), q.i(2) == c.i(2), c.r == b(b.l.n)) for q, b in l]))]


def best_gen(enc, info, q, l, lab, b):
    c = enc.defctx
    B = Best(l, arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2))
    enc.fact(B.base())
    lv = LV(info, 'hv')
    i = l.pos(b(lv))
    for f in (B.step(i), B.stay(i), B.stay(i + 1)):
        enc.fact(f)
    for p in info['phis']:
        if p['ty'][0] == 'i' and p['ty'][1] > 8:
            yield 'best(%s,%s)' % (lab, enc.pname(p['id'])), lambda v, pid=p['id'], b=b: z3.And(v.v(pid) == B(l.pos(b(v))), v.v(pid) >= R_FAIL, v.v(pid) <= R_ERR)


def cap_range(w, k, a, b, n):
    return z3.And(CAP(w, k, a, b, n) >= R_OK, CAP(w, k, a, b, n) <= R_ERR)


contract('libvoikko::spellchecker::AnalyzerToSpellerAdapter::spell(wchar_t const*, unsigned long)', props=['C09'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN)}, ret=(0, 3), allocates=True,
         requires=lambda c: [('object', z3.And(c.enc.isalive(c.pre, c.base(0)), c.p(0).off.z() == 0, sz(c.base(0)) >= 16, c.enc.isalive(c.pre, c.enc.load_as(c.pre, PV(c.base(0), Lin(8)), 8, True).base))), ('word readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))],
         ensures=spell_post, invariants=walk_inv(best_gen))


# ---- the same with a priority
SW = 'libvoikko::spellchecker::'
EQS = z3.Function('spec_boundaries', AI, INT, INT, INT)       # boundaries among the first i characters


def eqs_base(a, k):
    return EQS(a, k, 0) == 0


def eqs_step(a, k, i):
    return z3.Implies(i >= 0, EQS(a, k, i + 1) == EQS(a, k, i) + z3.If(a[k + i] == EQ, z3.IntVal(1), z3.IntVal(0)))


def eqs_mono(a, k, i):
    m = z3.Int('mq')
    return z3.ForAll([m], z3.Implies(z3.And(0 <= i, i <= m), EQS(a, k, i) <= EQS(a, k, m)), patterns=[EQS(a, k, m)])


_A, _K, _I, _N = z3.Const('a', AI), z3.Int('k'), z3.Int('i'), z3.Int('m')
_mono = lambda m: z3.Implies(z3.And(0 <= _I, _I <= _N), EQS(_A, _K, _I) <= EQS(_A, _K, m))
lemma('C09', 'boundaries are counted up, base', _mono(_I))
lemma('C09', 'boundaries are counted up, step', _mono(_N + 1), [_mono(_N), eqs_step(_A, _K, _N)])


def parts_prio(n):
    return z3.If(n <= 1, z3.IntVal(1), z3.If(n == 2, z3.IntVal(8), z3.If(n == 3, z3.IntVal(64), z3.If(n == 4, z3.IntVal(512), z3.IntVal(4096)))))


def gps_inv(enc, info):
    c = enc.defctx
    a, k = arr(c, c.pre, 0, 4), c.idx(0, 4)
    enc.fact(eqs_base(a, k))
    ints = index_phis(enc, info)
    for lab, ix in ints:
        i = ix(LV(info, 'hv'))
        enc.fact(eqs_step(a, k, i))
        enc.fact(eqs_mono(a, k, i))
        enc.fact(eqs_mono(a, k, i + 1))
        yield 'inside(%s)' % lab, lambda v, ix=ix: ix(v) <= WL4(a, k)
        for lab2, ix2 in ints:
            if lab2 != lab:
                yield 'parts(%s,%s)' % (lab, lab2), lambda v, ix=ix, ix2=ix2: z3.And(ix2(v) == EQS(a, k, ix(v)), ix2(v) >= 0, ix2(v) <= 4)


contract(SW + 'getPriorityFromStructure(wchar_t const*)', props=['C09'], elem={0: 4}, requires=lambda c: [('structure', zstr(c, c.pre, 0))], ret=(1, 4096),
         ensures=lambda c: [('eight times worse for every further part, up to five parts', c.r == parts_prio(EQS(arr(c, c.pre, 0, 4), c.idx(0, 4), WL4(arr(c, c.pre, 0, 4), c.idx(0, 4)))))], invariants=gps_inv,
         entry=lambda c: [P2(z3.IntVal(n)) == (1 << n) for n in (0, 3, 6, 9, 12)])
contract(SW + 'getPriorityFromNounInflection(voikko_mor_analysis const*)', props=['C09'], elem={0: 8}, requires=lambda c: [('analysis', c.enc.isalive(c.pre, c.base(0)))], ret=(2, 60))
contract(SW + 'getPriorityFromWordClassAndInflection(voikko_mor_analysis const*)', props=['C09'], elem={0: 8}, requires=lambda c: [('analysis', c.enc.isalive(c.pre, c.base(0)))], ret=(2, 60))


def ha_parts(c):
    return arr(c, c.pre, 0, 4), c.idx(0, 4), c.pre.obj('4', STR(c.base(3))), z3.IntVal(0), c.i(1)


contract(SW + 'handleAnalysis(wchar_t const*, unsigned long, int&, voikko_mor_analysis const*)', props=['C09'], elem={0: 4, 2: 4, 3: 8}, bounds={1: (0, MAXLEN)}, ret=(1, 3), assigns=[('arg', 2, ('4',))],
         requires=lambda c: [('word readable', Or(c.i(1) == 0, valid(c, c.pre, 0, 4, c.i(1)))), ('analysis with a structure', z3.And(c.enc.isalive(c.pre, c.base(3)), zobj(c, c.pre, STR(c.base(3))), STR(c.base(3)) != c.base(2))), ('priority', z3.And(valid(c, c.pre, 2, 4, 1), c.base(2) != c.base(0)))],
         ensures=lambda c: [('the verdict on the case of every character', c.r == CAP(*ha_parts(c))), ('priority', z3.And(cell(c, c.post, 2, 4, 0) >= 2, cell(c, c.post, 2, 4, 0) <= 60 * 4096 * 3))])


def swp_best(c):
    out = []
    for k in c.enc.calls:
        if k.startswith('virtual ') and '::analyze[abi:cxx11](wchar_t' in k:
            for q in c.enc.calls[k]:
                out.append((q, Best(AList(c, q.post, q.ret.base), arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2))))
    return out


def swp_post(c):
    p = cell(c, c.post, 3, 4, 0)
    out = [('priority', z3.If(c.r == R_FAIL, p == 0, z3.And(p >= 2, p <= 60 * 4096 * 3)))]
    if c.isdef:
        l = swp_best(c)
        if not l:
            raise Unsupported('the analyser is not asked')
        out.append(('the best verdict over the analyses of the word', z3.Or(*[z3.And(q.pc, q.base(1) == c.base(1), q.args[1].off.z() == c.args[1].off.z(), q.i(2) == c.i(2), c.r == b(b.l.n)) for q, b in l])))
    return out


def swp_gen(enc, info, q, l, lab, b):
    c = enc.defctx
    B = Best(l, arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2))
    enc.fact(B.base())
    lv = LV(info, 'hv')
    i = l.pos(b(lv))
    for f in (B.step(i), B.stay(i)):
        enc.fact(f)
    ints = [(enc.pname(p['id']), p['id']) for p in info['phis'] if p['ty'][0] == 'i' and p['ty'][1] > 8]
    for nm, pid in ints:
        yield 'best(%s,%s)' % (lab, nm), lambda v, pid=pid: z3.And(v.v(pid) == B(l.pos(b(v))), v.v(pid) >= R_FAIL, v.v(pid) <= R_ERR, (v.v(pid) == R_FAIL) == (l.pos(b(v)) == 0))
        yield 'priority(%s)' % nm, lambda v, pid=pid: z3.If(l.pos(b(v)) == 0, v.v(pid) == 0, z3.And(v.v(pid) >= 2, v.v(pid) <= 60 * 4096 * 3))


contract(SW + 'SpellWithPriority::spellWithPriority(libvoikko::morphology::Analyzer*, wchar_t const*, unsigned long, int*)', props=['C09', 'C12'], elem={0: 8, 1: 4, 3: 4}, bounds={2: (0, MAXLEN)}, ret=(0, 3), allocates=True, assigns=[('arg', 3, ('4',))],
         requires=lambda c: [('analyser', c.enc.isalive(c.pre, c.base(0))), ('word readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2)))), ('priority', z3.And(valid(c, c.pre, 3, 4, 1), c.base(3) != c.base(1)))],
         ensures=swp_post, invariants=walk_inv(swp_gen))
