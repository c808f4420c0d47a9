"""Lists of analyses as the analysers return them (std::list of pointers)."""
from .base import *
from .chars import zstr
from .gc import OWNER, freed_exactly, fptr
from .hyph import STR, WL4, MA, structure_ok, MEM

AZ = 'libvoikko::morphology::Analyzer'
LIST = 'std::__cxx11::list<voikko_mor_analysis*, std::allocator<voikko_mor_analysis*> >'
# i-th node of the list with a header object, number of nodes, position of a node
LNODE = z3.Function('list_node', MEM, INT, INT, INT)
LLEN = z3.Function('list_length', MEM, INT, INT)
LPOS = z3.Function('list_position', MEM, INT, INT, INT)
MAXAN = 1 << 30


class AList:
    def __init__(self, c, st, base):
        self.c, self.st, self.b = c, st, base
        self.M = st.m['pb']
        self.n = LLEN(self.M, base)

    def node(self, i):
        return LNODE(self.M, self.b, i)

    def pos(self, x):
        return LPOS(self.M, self.b, x)

    def data(self, i):
        return z3.Select(z3.Select(self.M, self.node(i)), 2)

    def ok(self, extra=None):
        c, st, i = self.c, self.st, z3.Int('iq')
        x = self.node(i)
        nx, po = z3.Select(self.M, x), z3.Select(st.m['po'], x)
        hd, ho = z3.Select(self.M, self.b), z3.Select(st.m['po'], self.b)
        d = z3.Select(nx, 2)
        return z3.And(self.n >= 0, self.n <= MAXAN, self.node(0) == hd[0], ho[0] == 0, self.node(self.n) == self.b, self.pos(self.b) == self.n, c.enc.isalive(st, self.b), sz(self.b) == 24,
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(x != self.b, x != 0, c.enc.isalive(st, x), sz(x) == 24, self.pos(x) == i, nx[0] == self.node(i + 1), po[0] == 0, po[2] == 0,
                                                                                   d != 0, c.enc.isalive(st, d), *(extra(d) if extra else []))), patterns=[x]))


def zobj(c, st, b):
    a = st.obj('4', b)
    t = WL4(a, 0)
    return z3.And(c.enc.isalive(st, b), t >= 0, t <= MAXLEN, 4 * (t + 1) <= sz(b), a[t] == 0, b != 0)


def analyses_post(c):
    b = z3.Int('bq')
    r = c.ret
    return [('a new list of analyses that all have a structure', z3.And(r.base >= c.pre.next, r.off.z() == 0, r.base > 0, AList(c, c.post, r.base).ok(lambda d: [structure_ok(c, c.post, STR(d)), STR(d) >= c.pre.next, STR(d) != 0]))),
            ('all new objects belong to the list', z3.ForAll([b], z3.Implies(z3.And(b >= c.pre.next, z3.Select(c.post.alive, b)), z3.Or(b == r.base, OWNER(b) == r.base)), patterns=[z3.Select(c.post.alive, b)])),
            ('nothing else belongs to the list', z3.ForAll([b], z3.Implies(b < c.pre.next, OWNER(b) != r.base), patterns=[OWNER(b)]))]


contract('virtual ' + AZ + '::analyze[abi:cxx11](wchar_t const*, unsigned long, bool)', trusted=True, elem={1: 4}, bounds={2: (0, 2 * MAXLEN)}, ret_elem=8, allocates=True, noleak=False,
         requires=lambda c: [('word readable', Or(c.i(2) == 0, valid(c, c.pre, 1, 4, c.i(2))))], ensures=analyses_post)
contract('virtual ' + AZ + '::analyze[abi:cxx11](char const*, bool)', trusted=True, elem={1: 1}, ret_elem=8, allocates=True, noleak=False,
         requires=lambda c: [('word', zstr(c, c.pre, 1, 1))], ensures=analyses_post)


def da_list(c):
    return c.enc.load_as(c.pre, c.p(0), 8, True)


contract(AZ + '::deleteAnalyses(' + LIST + '*&)', trusted=True, elem={0: 8}, frees=True, assigns=[('arg', 0, ('pb', 'po'))],
         requires=lambda c: [('list of analyses', z3.And(c.enc.isalive(c.pre, da_list(c).base), da_list(c).off.z() == 0, da_list(c).base != 0))],
         ensures=lambda c: [('the list and what belongs to it is released, nothing else', freed_exactly(c, lambda b: z3.Or(b == da_list(c).base, OWNER(b) == da_list(c).base))), ('list forgotten', c.enc.load_as(c.post, c.p(0), 8, True).base == 0)])


def still(alive, q):
    b = z3.Int('bq')
    return z3.ForAll([b], z3.Implies(z3.Select(q.post.alive, b), z3.Select(alive, b)), patterns=[z3.Select(alive, b)])


def walk_inv(gen=None):
    """pointer variables walk along the list the analyser returned"""
    def inv(enc, info):
        qs = [q for k in enc.calls if k.startswith('virtual ') and '::analyze[' in k for q in enc.calls[k]]
        for q in qs:
            l = AList(enc.defctx, q.post, q.ret.base)
            if enc.contract.slice:
                yield 'list', lambda v, l=l, q=q: l.ok(lambda d: [structure_ok(enc.defctx, q.post, STR(d)), STR(d) >= q.pre.next, STR(d) != 0])
                yield 'still there', lambda v, l=l, q=q: z3.And(still(v.st.alive, q), q.ret.base > 0)
            cur = []
            for pid in ptr_phis(info):
                b = lambda v, pid=pid: v.phis[pid].base
                cur.append(('walk(%s)' % enc.pname(pid), b, lambda v, pid=pid: v.phis[pid].off.z() == 0))
            for k, (lab, b, z) in enumerate(cell_ptrs(enc, info)):
                cur.append((lab, b, z))
            for lab, b, z in cur:
                yield lab, lambda v, b=b, z=z, l=l: z3.And(z(v), 0 <= l.pos(b(v)), l.pos(b(v)) <= l.n, l.node(l.pos(b(v))) == b(v))
                if gen:
                    yield from gen(enc, info, q, l, lab, b)
    return inv


def cell_ptrs(enc, info):
    """iterators kept in a local object (a struct of one pointer)"""
    return []
