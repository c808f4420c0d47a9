"""Grammar errors: the list of errors of a paragraph and the cache that keeps it."""
from .base import *
from .token import handle_ok
from .utf import *
from .cache import self_ok

G = 'libvoikko::grammar::'
GCC, CE, GE, LE, GCK = G + 'GcCache', G + 'CacheEntry', 'VoikkoGrammarError', 'voikko_grammar_error', G + 'GrammarChecker'
AAI_ = z3.ArraySort(INT, AI)
# the list that starts at an entry, as a function of the memory of pointers: i-th entry, number of entries, position of an entry
CHN = z3.Function('chain_entry', AAI_, INT, INT, INT)
CLEN = z3.Function('chain_length', AAI_, INT, INT)
CPOS = z3.Function('chain_position', AAI_, INT, INT, INT)
OWNER = z3.Function('owner', INT, INT)        # the error a suggestion list or suggestion belongs to
MAXPOS = 1 << 60


def at(c, *path):
    """byte offset of a nested field: at(c, A, 'x', B, 'y')"""
    return sum(c.structs[path[k]]['fields'][path[k + 1]][0] for k in range(0, len(path), 2))


def fptr(c, st, p, off):
    return c.enc.load_as(st, PV(p.base, p.off.add(Lin(off))), 8, True)


def fint(c, st, p, off, w=8):
    return c.enc.load_as(st, PV(p.base, p.off.add(Lin(off))), w)


def entry_start(c, st, b):
    return z3.Select(z3.Select(st.m['8'], b), z3.IntVal(at(c, CE, 'error', GE, 'legacyError.startpos') // 8))


def next_ix(c):
    return z3.IntVal(at(c, CE, 'nextError') // 8)


class List:
    """the error list of a cache object p"""

    def __init__(self, c, p, st):
        self.c, self.p, self.st = c, p, st
        self.M = st.m['pb']
        self.first = fptr(c, st, p, at(c, GCC, 'firstError'))
        self.n = CLEN(self.M, self.first.base)

    def e(self, i):
        return CHN(self.M, self.first.base, i)

    def pos(self, b):
        return CPOS(self.M, self.first.base, b)

    def ok(self):
        c, st, i, j = self.c, self.st, z3.Int('iq'), z3.Int('jq')
        b, nx = self.e(i), next_ix(c)
        sb = self.e(j)
        return z3.And(self.n >= 0, self.e(0) == self.first.base, self.e(self.n) == 0, self.first.off.z() == 0,
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(
                          c.enc.isalive(st, b), sz(b) == c.structs[CE]['size'], hk(b) == 2, self.pos(b) == i, b != self.p.base, b != 0,
                          z3.Select(z3.Select(self.M, b), nx) == self.e(i + 1), z3.Select(z3.Select(st.m['po'], b), nx) == 0,
                          entry_start(c, st, b) >= 0, entry_start(c, st, b) < MAXPOS)), patterns=[b]))

    def sorted(self):
        i, j = z3.Int('iq'), z3.Int('jq')
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < self.n), entry_start(self.c, self.st, self.e(i)) <= entry_start(self.c, self.st, self.e(j))), patterns=[z3.MultiPattern(self.e(i), self.e(j))])


def gc_obj(c, k=0):
    p = c.p(k)
    return ('cache object', z3.And(c.enc.isalive(c.pre, p.base), p.off.z() >= 0, p.off.z() + c.structs[GCC]['size'] <= sz(p.base)))


# ---- insertion keeps the order of positions
def app_req(c):
    l = List(c, c.p(0), c.pre)
    b = c.base(1)
    return [gc_obj(c), ('error list', l.ok()), ('errors ordered by position', l.sorted()),
            ('new entry', z3.And(c.enc.isalive(c.pre, b), c.p(1).off.z() == 0, sz(b) == c.structs[CE]['size'], hk(b) == 2, b != c.base(0), entry_start(c, c.pre, b) >= 0, entry_start(c, c.pre, b) < MAXPOS,
                                 z3.Select(z3.Select(c.pre.m['pb'], b), next_ix(c)) == 0)),
            ('new entry is not in the list', forall_chain(l, lambda i, e: e != b))]


def forall_chain(l, f):
    i = z3.Int('iq')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), f(i, l.e(i))), patterns=[l.e(i)])


def app_post(c):
    l = List(c, c.p(0), c.pre)
    b, nx = c.base(1), next_ix(c)
    first1 = fptr(c, c.post, c.p(0), at(c, GCC, 'firstError')).base
    nxt = lambda e: z3.Select(z3.Select(c.post.m['pb'], e), nx)
    k = z3.Int('kq')
    s0 = entry_start(c, c.pre, b)
    cond = lambda k: z3.And(0 <= k, k <= l.n, nxt(b) == l.e(k), z3.If(k == 0, first1 == b, z3.And(first1 == l.first.base, nxt(l.e(k - 1)) == b)),
                            forall_chain(l, lambda i, e: z3.Implies(i != k - 1, nxt(e) == l.e(i + 1))),
                            z3.Implies(k > 0, entry_start(c, c.post, l.e(k - 1)) <= s0), z3.Implies(k < l.n, s0 < entry_start(c, c.post, l.e(k))), entry_start(c, c.post, b) == s0)
    fi = z3.IntVal(at(c, GCC, 'firstError') // 8) + c.idx(0, 8)
    e, j = z3.Int('eq'), z3.Int('jq')
    pb0, pb1 = c.pre.m['pb'], c.post.m['pb']
    frame = [('nothing but links is written', z3.And(*[c.post.m[k] == c.pre.m[k] for k in KINDS if k not in ('pb', 'po')])),
             ('only the links around the new entry are written', z3.ForAll([e, j], z3.Implies(z3.Not(z3.Or(z3.And(e == c.base(0), j == fi), z3.And(j == nx, z3.Or(e == b, z3.And(0 <= l.pos(e), l.pos(e) < l.n, l.e(l.pos(e)) == e))))),
                                                                                        pb1[e][j] == pb0[e][j]), patterns=[pb1[e][j]]))]
    if c.isdef:
        # the insertion point: after the last entry that does not start later (witness for the existential)
        kk = z3.If(first1 == b, z3.IntVal(0), z3.If(nxt(b) == 0, l.n, l.pos(nxt(b))))
        return [('inserted once, after every error that does not start later', cond(kk))] + frame
    return [('inserted once, after every error that does not start later', z3.Exists([k], cond(k)))] + frame


def chain_inv(gcarg, first=None):
    """pointer variables walk along the list"""
    def gen(enc, info):
        c = enc.defctx
        l = first(c) if first else List(c, c.p(gcarg), enc.st0)
        for pid in ptr_phis(info):
            nm = enc.pname(pid)
            yield 'walk(%s)' % nm, lambda v, pid=pid: z3.And(0 <= l.pos(v.phis[pid].base), l.pos(v.phis[pid].base) < l.n, l.e(l.pos(v.phis[pid].base)) == v.phis[pid].base, v.phis[pid].off.z() == 0)
            yield 'walk0(%s)' % nm, lambda v, pid=pid: z3.And(v.phis[pid].off.z() == 0, z3.Or(v.phis[pid].base == 0, z3.And(0 <= l.pos(v.phis[pid].base), l.pos(v.phis[pid].base) < l.n, l.e(l.pos(v.phis[pid].base)) == v.phis[pid].base)))
            for lab, g in (getattr(enc.contract, 'walk', None) or (lambda c, l: []))(c, l):
                yield '%s(%s)' % (lab, nm), lambda v, pid=pid, g=g: g(v, v.phis[pid].base)
    return gen


ac = contract(G + 'GcCache::appendError(' + G + 'CacheEntry*)', props=['C16'], elem={0: 8, 1: 8}, requires=app_req, ensures=app_post, assigns=[('all',)], invariants=chain_inv(0))
ac.walk = lambda c, l: [('not later', lambda v, b: entry_start(c, v.st, b) <= entry_start(c, c.pre, c.base(1)))]


# ---- looking an error up
from engine.lib import FDIFF


def checker_obj(c, st, p):
    return z3.And(c.enc.isalive(st, p.base), p.off.z() >= 0, p.off.z() + c.structs[GCK]['size'] <= sz(p.base))


class Gc:
    """the cache of a grammar checker p"""

    def __init__(self, c, p, st):
        self.c, self.st = c, st
        self.p = PV(p.base, p.off.add(Lin(at(c, GCK, 'cache'))))
        self.par = fptr(c, st, self.p, at(c, GCC, 'paragraph'))
        self.plen = fint(c, st, self.p, at(c, GCC, 'paragraphLength'))
        self.l = List(c, self.p, st)

    def ok(self):
        return z3.And(self.l.ok(), z3.Implies(self.par.base != 0, z3.And(self.c.enc.isalive(self.st, self.par.base), self.par.off.z() == 0, self.plen >= 0, self.plen <= MAXLEN, sz(self.par.base) == 4 * (self.plen + 1), hk(self.par.base) == 1, self.par.base != self.p.base)))

    def holds(self, a, k, n):
        """the cache is for the paragraph a[k..k+n)"""
        P = self.c.enc.name_arr(self.st.obj('4', self.par.base))
        return z3.And(self.par.base != 0, self.plen == n, FDIFF(P, z3.IntVal(0), a, k, n) == n)


def err_pre(c):
    g = Gc(c, c.p(0), c.pre)
    return [('grammar checker', checker_obj(c, c.pre, c.p(0))), ('cache', g.ok()), ('text readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))]


def no_error(c):
    n = [n for n in c.enc.mod['globals'] if 'no_grammar_error' in n]
    return c.enc.glob(n[0]) if n else PV(z3.Int('no_error_object'), Lin(0))


def err_post(c):
    g = Gc(c, c.p(0), c.pre)
    l = g.l
    a, k, n, sp, skip = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2), c.i(3), c.i(4)
    eoff = at(c, CE, 'error')
    r = c.ret
    f = l.pos(r.base)
    hit = lambda i: z3.And(i >= skip, entry_start(c, c.pre, l.e(i)) >= sp)
    isentry = z3.And(0 <= f, f < l.n, l.e(f) == r.base, r.off.z() == eoff)
    return [('no answer unless the cache is for this paragraph', (r.base == 0) == z3.Not(g.holds(a, k, n))),
            ('the first error at or after the position, not counting the skipped ones', z3.Implies(r.base != 0, z3.Or(z3.And(isentry, hit(f), forall_chain(l, lambda i, e: z3.Implies(i < f, z3.Not(hit(i))))),
                                                                                                                  z3.And(r.base == no_error(c).base, r.off.z() == 0, forall_chain(l, lambda i, e: z3.Not(hit(i)))))))]


def err_inv(enc, info):
    c = enc.defctx
    g = Gc(c, c.p(0), enc.st0)
    l, sp, skip = g.l, c.i(3), c.i(4)
    yield from chain_inv(0, lambda c: l)(enc, info)
    hit = lambda i: z3.And(i >= skip, entry_start(c, c.pre, l.e(i)) >= sp)
    for pid in ptr_phis(info):
        here = lambda v, pid=pid: z3.If(v.phis[pid].base == 0, l.n, l.pos(v.phis[pid].base))
        yield 'none before(%s)' % enc.pname(pid), lambda v, here=here: forall_chain(l, lambda i, e: z3.Implies(i < here(v), z3.Not(hit(i))))
        for lab, ix in index_phis(enc, info):
            yield 'counts(%s,%s)' % (lab, enc.pname(pid)), lambda v, ix=ix, here=here: ix(v) == here(v)


contract(GCK + '::errorFromCache(wchar_t const*, unsigned long, unsigned long, int)', props=['C16'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN), 3: (0, MAXPOS), 4: (-(1 << 31), (1 << 31) - 1)}, ret_elem=8,
         requires=lambda c: err_pre(c) + [('fewer errors than an int counts', Gc(c, c.p(0), c.pre).l.n < (1 << 30))], ensures=err_post, invariants=err_inv)


# ---- suggestions of an error: a list of strings that ends with a null pointer; all of it belongs to the error
PLEN = z3.Function('pointer_list_length', AI, INT)                # first null
PPOS = z3.Function('pointer_list_position', AI, INT, INT)         # index of a string in the list


class Sugg:
    def __init__(self, c, p, st):
        """p: the VoikkoGrammarError"""
        self.c, self.st, self.p = c, st, p
        self.s = fptr(c, st, p, at(c, GE, 'legacyError.suggestions'))
        self.set(c.enc.name_arr(st.obj('pb', self.s.base)), st.obj('po', self.s.base))

    def set(self, A, O):
        self.A, self.O = A, O
        self.n = PLEN(self.A)

    @staticmethod
    def raw(c, st, b, off):
        """for the error at byte offset off (a constant) of the object b, as a term (usable under quantifiers)"""
        x = Sugg.__new__(Sugg)
        x.c, x.st = c, st
        ix = z3.IntVal((off + at(c, GE, 'legacyError.suggestions')) // 8)
        sb = z3.Select(z3.Select(st.m['pb'], b), ix)
        x.p = PV(b, Lin(off))
        x.s = PV(sb, Lin.of(z3.Select(z3.Select(st.m['po'], b), ix)))
        x.set(z3.Select(st.m['pb'], sb), z3.Select(st.m['po'], sb))
        return x

    def text(self, b):
        """b holds a terminated string"""
        a = z3.Select(self.st.m['1'], b)
        t = WL1(a, z3.IntVal(0))
        return z3.And(t >= 0, t < MAXLEN, t + 1 <= sz(b), a[t] == 0)

    def owns(self, b):
        return z3.And(self.s.base != 0, z3.Or(b == self.s.base, z3.And(0 <= PPOS(self.A, b), PPOS(self.A, b) < self.n, self.A[PPOS(self.A, b)] == b)))

    def ok(self, alive=None, own=None):
        m = z3.Int('mq')
        c, A = self.c, self.A
        al = lambda b: c.enc.isalive(self.st, b)
        extra = (lambda b: [own(b)]) if own else (lambda b: [])
        return z3.Or(self.s.base == 0, z3.And(al(self.s.base), self.s.off.z() == 0, hk(self.s.base) == 1, self.s.base != self.p.base, self.n >= 0, self.n < (1 << 20), 8 * (self.n + 1) <= sz(self.s.base), A[self.n] == 0, *extra(self.s.base),
                                             z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < self.n), z3.And(A[m] != 0, self.O[m] == 0, al(A[m]), hk(A[m]) == 1, PPOS(A, A[m]) == m, A[m] != self.s.base, A[m] != self.p.base, self.text(A[m]), *extra(A[m]))), patterns=[A[m]])))


def ge_obj(c, st, p):
    return z3.And(c.enc.isalive(st, p.base), p.off.z() >= 0, p.off.z() + c.structs[GE]['size'] <= sz(p.base))


def freed_exactly(c, owned, keep=()):
    b = z3.Int('bq')
    return z3.ForAll([b], z3.Select(c.post.alive, b) == z3.And(z3.Select(c.pre.alive, b), z3.Not(owned(b))), patterns=[z3.Select(c.post.alive, b)])


def dtor_inv(enc, info):
    c = enc.defctx
    s = Sugg(c, c.p(0), enc.st0)
    b = z3.Int('bq')
    for pid in ptr_phis(info):
        def cur(v, pid=pid):
            return enc.exact_idx(v.phis[pid], 8)
        yield 'in list(%s)' % enc.pname(pid), lambda v, pid=pid, cur=cur: z3.And(v.phis[pid].base == s.s.base, 0 <= cur(v), cur(v) <= s.n)
        yield 'aligned(%s)' % enc.pname(pid), lambda v, pid=pid, cur=cur: v.phis[pid].off.z() == 8 * cur(v)
        yield 'released so far(%s)' % enc.pname(pid), lambda v, cur=cur: z3.ForAll([b], z3.Select(v.st.alive, b) == z3.And(z3.Select(enc.st0.alive, b), z3.Not(z3.And(0 <= PPOS(s.A, b), PPOS(s.A, b) < cur(v), s.A[PPOS(s.A, b)] == b))), patterns=[z3.Select(v.st.alive, b)])


contract(GE + '::~VoikkoGrammarError()', props=['C16'], elem={0: 8}, requires=lambda c: [('error object', ge_obj(c, c.pre, c.p(0))), ('suggestions', Sugg(c, c.p(0), c.pre).ok())],
         ensures=lambda c: [('the suggestions are released, nothing else', freed_exactly(c, Sugg(c, c.p(0), c.pre).owns))], frees=True, invariants=dtor_inv)


# ---- emptying the cache
def inchain(l, b, upto=None):
    return z3.And(0 <= l.pos(b), l.pos(b) < (l.n if upto is None else upto), l.e(l.pos(b)) == b)


def entry_sugg(c, st, b):
    return Sugg.raw(c, st, b, at(c, CE, 'error'))


def belongs(c, st, l, b, upto=None):
    """b is one of the first entries of the list or part of the suggestions of one"""
    return z3.Or(inchain(l, b, upto), z3.And(inchain(l, OWNER(b), upto), entry_sugg(c, st, OWNER(b)).owns(b)))


def owned_ok(c, st, p):
    """the cache object p owns its paragraph, entries and their suggestions"""
    l = List(c, p, st)
    par = fptr(c, st, p, at(c, GCC, 'paragraph'))
    return z3.And(l.ok(), OWNER(p.base) == 0, OWNER(par.base) == 0, z3.Implies(par.base != 0, z3.And(c.enc.isalive(st, par.base), par.off.z() == 0, hk(par.base) == 1, par.base != p.base, forall_chain(l, lambda i, e: e != par.base))),
                  forall_chain(l, lambda i, e: z3.And(OWNER(e) == 0, entry_sugg(c, st, e).ok(own=lambda b: OWNER(b) == e))))


def gone(c, st, p, b):
    l = List(c, p, st)
    par = fptr(c, st, p, at(c, GCC, 'paragraph'))
    return z3.Or(b == par.base, belongs(c, st, l, b))


def clear_post(c):
    p = c.p(0)
    return [('the paragraph, the entries and their suggestions are released, nothing else', freed_exactly(c, lambda b: gone(c, c.pre, p, b))),
            ('the cache is empty', z3.And(fptr(c, c.post, p, at(c, GCC, 'paragraph')).base == 0, fptr(c, c.post, p, at(c, GCC, 'firstError')).base == 0, fptr(c, c.post, p, at(c, GCC, 'firstError')).off.z() == 0, fint(c, c.post, p, at(c, GCC, 'paragraphLength')) == 0))] + [
            ('no other field of the object is written', only_cells(c, 0, GCC))]


def only_cells(c, k, struct):
    """of the object of argument k only the cells of the struct it points at are written"""
    j = z3.Int('jq')
    out = []
    for kind in KINDS:
        w = 8 if kind in ('pb', 'po') else int(kind)
        a, b = c.pre.obj(kind, c.base(k)), c.post.obj(kind, c.base(k))
        if a.eq(b):
            continue
        lo, n = c.enc.exact_idx(c.p(k), w), (c.structs[struct]['size'] + w - 1) // w
        out.append(z3.ForAll([j], z3.Implies(z3.Not(z3.And(lo <= j, j < lo + n)), b[j] == a[j]), patterns=[c.enc.name_arr(b)[j]]))
    return z3.And(*out) if out else z3.BoolVal(True)


def clear_inv(enc, info):
    c = enc.defctx
    l = List(c, c.p(0), enc.st0)
    par = fptr(c, enc.st0, c.p(0), at(c, GCC, 'paragraph'))
    b = z3.Int('bq')
    yield from chain_inv(0)(enc, info)
    for pid in ptr_phis(info):
        here = lambda v, pid=pid: z3.If(v.phis[pid].base == 0, l.n, l.pos(v.phis[pid].base))
        yield 'released so far(%s)' % enc.pname(pid), lambda v, here=here: z3.ForAll([b], z3.Select(v.st.alive, b) == z3.And(z3.Select(enc.st0.alive, b), b != par.base, z3.Not(belongs(c, enc.st0, l, b, here(v)))), patterns=[z3.Select(v.st.alive, b)])


contract(G + 'GcCache::clear()', props=['C16', 'C15'], elem={0: 8}, requires=lambda c: [gc_obj(c), ('the cache owns its contents', owned_ok(c, c.pre, c.p(0)))], ensures=clear_post, assigns=[('arg', 0, ('pb', 'po', '8'))], frees=True, invariants=clear_inv)


# ---- filling the cache
PA, SE = G + 'Paragraph', G + 'Sentence'


def para_post(c):
    r, e, st = c.ret, c.enc, c.post
    ss = fptr(c, st, r, at(c, PA, 'sentences'))
    n = fint(c, st, r, at(c, PA, 'sentenceCount'))
    m, b = z3.Int('mq'), z3.Int('bq')
    A, O = e.name_arr(st.obj('pb', ss.base)), st.obj('po', ss.base)
    tc = z3.IntVal(at(c, SE, 'tokenCount') // 8)
    return [('null or a new paragraph', Or(r.base == 0, z3.And(r.base >= c.pre.next, e.isalive(st, r.base), r.off.z() == 0, sz(r.base) == c.structs[PA]['size'], hk(r.base) == 2, OWNER(r.base) == 0, ss.base >= c.pre.next, e.isalive(st, ss.base), ss.off.z() == 0,
                                                               n >= 0, n <= 200, sz(ss.base) == 8 * 200,
                                                               z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), z3.And(A[m] >= c.pre.next, e.isalive(st, A[m]), O[m] == 0, sz(A[m]) == c.structs[SE]['size'],
                                                                                                                   z3.Select(z3.Select(st.m['8'], A[m]), tc) >= 0, z3.Select(z3.Select(st.m['8'], A[m]), tc) <= 500)), patterns=[A[m]])))),
            ('all new objects belong to the paragraph', z3.ForAll([b], z3.Implies(z3.And(b >= c.pre.next, z3.Select(st.alive, b)), z3.And(r.base != 0, z3.Or(b == r.base, OWNER(b) == r.base))), patterns=[z3.Select(st.alive, b)]))]


contract('virtual ' + G + 'Analysis::analyseParagraph(wchar_t const*, unsigned long)', trusted=True, elem={1: 4}, ret_elem=8, allocates=True, noleak=False, requires=lambda c: [('text readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))], ensures=para_post)
contract(G + 'Paragraph::~Paragraph()', trusted=True, elem={0: 8}, frees=True, requires=lambda c: [('paragraph', z3.And(c.enc.isalive(c.pre, c.base(0)), sz(c.base(0)) == c.structs[PA]['size']))],
         ensures=lambda c: [('what the paragraph owns is released, nothing else', freed_exactly(c, lambda b: OWNER(b) == c.base(0)))])


def checker_base(enc, args, st):
    """the grammar checker whose rules are run: the object of the function under verification"""
    return enc.argvals[0].base


def cache_full(c, st, p, k=None):
    """grammar checker p: its cache is well formed, owns its contents and is ordered"""
    g = Gc(c, p, st)
    return z3.And(g.ok(), owned_ok(c, st, g.p), g.l.sorted(), g.l.n < (1 << 30))


def full_parts(c, st, p):
    g = Gc(c, p, st)
    return [('the error list is well formed', g.ok()), ('the cache owns its contents', owned_ok(c, st, g.p)), ('the errors are ordered', g.l.sorted()), ('fewer errors than an int counts', g.l.n < (1 << 30))]


def check_post(c):
    p = c.enc.argvals[0]
    b = z3.Int('bq')
    g0, g1 = Gc(c, p, c.pre), Gc(c, p, c.post)
    keep = []
    for kind in KINDS:
        w = 8 if kind in ('pb', 'po') else int(kind)
        a0, a1 = c.pre.obj(kind, p.base), c.post.obj(kind, p.base)
        if a0.eq(a1):
            continue
        j = z3.Int('jq')
        f = PV(p.base, p.off.add(Lin(at(c, GCK, 'cache') + at(c, GCC, 'firstError'))))
        keep.append(z3.ForAll([j], z3.Implies(j != c.enc.exact_idx(f, w), a1[j] == a0[j]), patterns=[c.enc.name_arr(a1)[j]]))
    gone_ = z3.Int('bq')
    return full_parts(c, c.post, p) + [('only the error list is written', z3.And(*keep)),
            ('all new objects are errors in the list or their suggestions', z3.ForAll([b], z3.Implies(z3.And(b >= c.pre.next, z3.Select(c.post.alive, b)), belongs(c, c.post, g1.l, b)), patterns=[z3.Select(c.post.alive, b)])),
            ('earlier objects in the list stay', g0.l.n >= 0)]


contract('virtual ' + G + 'RuleEngine::check(' + G + 'Paragraph const*)', trusted=True, elem={0: 8, 1: 8}, allocates=True, noleak=False, assigns=[('fn', checker_base, ('pb', 'po'))],
         requires=lambda c: [('paragraph', z3.And(c.enc.isalive(c.pre, c.base(1)), sz(c.base(1)) == c.structs[PA]['size']))] + full_parts(c, c.pre, c.enc.argvals[0]), ensures=check_post)


def ptc_req(c):
    p = c.p(0)
    return [('grammar checker', checker_obj(c, c.pre, p)), ('cache', z3.And(p.off.z() == 0, cache_full(c, c.pre, p))), ('text readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2)))),
            ('the text is not part of the cache', z3.And(c.base(1) != c.base(0), z3.Not(gone(c, c.pre, Gc(c, p, c.pre).p, c.base(1)))))] + [
            ('rules and analyser', z3.And(*[z3.And(fptr(c, c.pre, p, at(c, GCK, f)).base != 0, fptr(c, c.pre, p, at(c, GCK, f)).off.z() % 8 == 0) for f in ('ruleEngine', 'paragraphAnalyser')]))]


def ptc_post(c):
    p = c.p(0)
    g0, g1 = Gc(c, p, c.pre), Gc(c, p, c.post)
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    b = z3.Int('bq')
    return [('the cache is for this paragraph', g1.holds(a, k, n)), ] + full_parts(c, c.post, p)


def chain_defs(l):
    """definition of the chain functions for an empty list"""
    return [CHN(l.M, l.first.base, 0) == l.first.base, z3.Implies(l.first.base == 0, CLEN(l.M, l.first.base) == 0)]


def ptc_hints(c):
    g1 = Gc(c, c.p(0), c.post)
    a, k, n = arr(c, c.pre, 1, 4), c.idx(1, 4), c.i(2)
    P = c.enc.name_arr(c.post.obj('4', g1.par.base))
    d = FDIFF(P, z3.IntVal(0), a, k, n)
    return [z3.And(0 <= d, d <= n, z3.Implies(d < n, P[d] != a[k + d]))] + chain_defs(g1.l)


contract(GCK + '::paragraphToCache(wchar_t const*, unsigned long)', props=['C16'], elem={0: 8, 1: 4}, bounds={2: (0, MAXLEN)}, requires=ptc_req, ensures=ptc_post, hints=ptc_hints, allocates=True, frees=True, noleak=False,
         assigns=[('arg', 0)], alloc_ghost=lambda b: [OWNER(b) == 0], before_call=lambda enc, key, x: chain_defs(List(x, Gc(x, enc.argvals[0], x.pre).p, x.pre)) if 'RuleEngine::check' in key else [])


# ---- new errors and entries
def empty_error(c, st, p):
    return z3.And(err_field(c, st, p, 'error_code', 4) == 0, err_field(c, st, p, 'error_level', 4) == 0, err_field(c, st, p, 'startpos') == 0, err_field(c, st, p, 'errorlen') == 0)


def err_field(c, st, p, f, w=8):
    return fint(c, st, p, at(c, GE, 'legacyError.' + f), w)


contract(GE + '::VoikkoGrammarError()', props=['C16'], elem={0: 8}, requires=lambda c: self_ok(c, GE), assigns=[('arg', 0)],
         ensures=lambda c: [('no error, no suggestions', z3.And(empty_error(c, c.post, c.p(0)), fptr(c, c.post, c.p(0), at(c, GE, 'legacyError.suggestions')).base == 0))])


def ctor_sugg(c):
    p = c.p(0)
    e = PV(p.base, p.off.add(Lin(at(c, CE, 'error'))))
    s = fptr(c, c.post, e, at(c, GE, 'legacyError.suggestions'))
    return p, e, s


def entry_post(c):
    p, e, s = ctor_sugg(c)
    m = z3.Int('mq')
    A = c.enc.name_arr(c.post.obj('pb', s.base))
    return [('no error', empty_error(c, c.post, e)), ('not linked', fptr(c, c.post, p, at(c, CE, 'nextError')).base == 0), ('suggestion list only if there are suggestions', (s.base == 0) == (c.i(1) == 0)),
            ('room for the suggestions, all empty', z3.Implies(c.i(1) > 0, z3.And(s.base >= c.pre.next, c.enc.isalive(c.post, s.base), hk(s.base) == 1, s.off.z() == 0, sz(s.base) == 8 * (c.i(1) + 1), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m <= c.i(1)), A[m] == 0), patterns=[A[m]]))))]


def entry_inv(enc, info):
    c = enc.defctx
    m = z3.Int('mq')
    for lab, ix in index_phis(enc, info):
        for b in getattr(enc, 'allocated', []):
            yield 'empty(%s)' % lab, lambda v, ix=ix, b=b: z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ix(v)), enc.name_arr(v.st.obj('pb', b))[m] == 0), patterns=[enc.name_arr(v.st.obj('pb', b))[m]])
            yield 'list(%s)' % lab, lambda v, b=b: z3.And(ctor_sugg_at(c, v.st)[2].base == b, ctor_sugg_at(c, v.st)[2].off.z() == 0)
            yield 'rest(%s)' % lab, lambda v: z3.And(empty_error(c, v.st, ctor_sugg_at(c, v.st)[1]), fptr(c, v.st, c.p(0), at(c, CE, 'nextError')).base == 0)


def ctor_sugg_at(c, st):
    p = c.p(0)
    e = PV(p.base, p.off.add(Lin(at(c, CE, 'error'))))
    return p, e, fptr(c, st, e, at(c, GE, 'legacyError.suggestions'))


contract(CE + '::CacheEntry(unsigned long)', props=['C16'], elem={0: 8}, bounds={1: (0, 1 << 20)}, requires=lambda c: self_ok(c, CE), assigns=[('arg', 0)], allocates=True, owned=lambda c: [ctor_sugg(c)[2].base], ensures=entry_post, invariants=entry_inv)


def insertion_lemmas():
    """the links that appendError leaves behind form the old list with the new entry inserted, in order of position"""
    C, D, nxt, st, pos = z3.Function('C', INT, INT), z3.Function('D', INT, INT), z3.Function('next_', INT, INT), z3.Function('start_', INT, INT), z3.Function('pos_', INT, INT)
    n, k, b, i, j, f1 = z3.Ints('n k b i j f1')
    iq, jq = z3.Ints('iq jq')
    base = [0 <= k, k <= n, C(n) == 0, b != 0, nxt(b) == C(k), z3.If(k == 0, f1 == b, z3.And(f1 == C(0), nxt(C(k - 1)) == b)),
            z3.ForAll([iq], z3.Implies(z3.And(0 <= iq, iq < n), z3.And(C(iq) != 0, C(iq) != b, pos(C(iq)) == iq, z3.Implies(iq != k - 1, nxt(C(iq)) == C(iq + 1)))), patterns=[C(iq)]),
            z3.ForAll([iq, jq], z3.Implies(z3.And(0 <= iq, iq <= jq, jq < n), st(C(iq)) <= st(C(jq))), patterns=[z3.MultiPattern(C(iq), C(jq))]),
            z3.Implies(k > 0, st(C(k - 1)) <= st(b)), z3.Implies(k < n, st(b) < st(C(k))),
            z3.ForAll([iq], D(iq) == z3.If(iq < k, C(iq), z3.If(iq == k, b, C(iq - 1))), patterns=[D(iq)])]
    lemma('C16', 'after insertion: the first entry', D(0) == f1, base)
    lemma('C16', 'after insertion: links', z3.Implies(z3.And(0 <= i, i <= n), z3.And(D(i) != 0, nxt(D(i)) == D(i + 1))), base)
    lemma('C16', 'after insertion: end', D(n + 1) == 0, base)
    lemma('C16', 'after insertion: every entry once', z3.Implies(z3.And(0 <= i, i < j, j <= n), D(i) != D(j)), base)
    lemma('C16', 'after insertion: ordered by position', z3.Implies(z3.And(0 <= i, i < j, j <= n), st(D(i)) <= st(D(j))), base)


insertion_lemmas()
