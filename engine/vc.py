"""Verification-condition generator over the LLVM IR that irdump extracts from /repo's current sources.

Every function under contract is checked on its own: callees with a contract are replaced by that contract,
callees of the repository without one were inlined by irdump, loops are cut at their headers with inductive
invariants, and every remaining proof obligation goes to an SMT solver. No loop is unrolled and no input bounded.

Memory model: a pointer is (object, byte offset); memory is one map object -> cell index -> value per access
width (1, 2, 4, 8 bytes, pointer). Integers are mathematical integers kept in the signed range of their width,
with wrap-around written out wherever the range analysis cannot exclude it; signed overflow is an obligation.
"""
import z3, math, subprocess, time, os, tempfile
from collections import defaultdict

INT = z3.IntSort()
AI = z3.ArraySort(INT, INT)
AAI = z3.ArraySort(INT, AI)
AB = z3.ArraySort(INT, z3.BoolSort())
KINDS = ('1', '2', '4', '8', 'pb', 'po')
sz = z3.Function('sz', INT, INT)
hk = z3.Function('heapkind', INT, INT)      # 0 not heap, 1 new[], 2 new, 3 malloc
WL4 = z3.Function('wlen4', AI, INT, INT)
WL1 = z3.Function('slen1', AI, INT, INT)


UMOD = z3.Function('umod', INT, INT, INT)
P2 = z3.Function('pow2', INT, INT)


class Unsupported(Exception):
    pass


def wl_axioms(F):
    a, k, m = z3.Const('a', AI), z3.Int('k'), z3.Int('m')
    t = F(a, k)
    return [z3.ForAll([a, k, m], z3.Implies(z3.And(k <= m, m < k + t), a[m] != 0), patterns=[z3.MultiPattern(t, a[m])]),
            z3.ForAll([a, k, m], z3.Implies(z3.And(k <= m, a[m] == 0), z3.And(0 <= t, t <= m - k, a[k + t] == 0)),
                      patterns=[z3.MultiPattern(t, a[m])])]


class Lin:
    """linear form: const + sum coef*term"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    @staticmethod
    def of(e, coef=1):
        if isinstance(e, int):
            return Lin(e * coef)
        if z3.is_int_value(e):
            return Lin(e.as_long() * coef)
        return Lin(0, {e.get_id(): (e, coef)})

    def add(self, o):
        t = dict(self.t)
        for i, (e, k) in o.t.items():
            if i in t:
                k2 = t[i][1] + k
                if k2:
                    t[i] = (e, k2)
                else:
                    del t[i]
            else:
                t[i] = (e, k)
        return Lin(self.c + o.c, t)

    def neg(self):
        return Lin(-self.c, {i: (e, -k) for i, (e, k) in self.t.items()})

    def gcd(self):
        g = abs(self.c)
        for e, k in self.t.values():
            g = math.gcd(g, abs(k))
        return g

    def divexact(self, w):
        return Lin(self.c // w, {i: (e, k // w) for i, (e, k) in self.t.items()})

    def z(self):
        r = None
        for e, k in self.t.values():
            x = e if k == 1 else e * k
            r = x if r is None else r + x
        if r is None:
            return z3.IntVal(self.c)
        return r + self.c if self.c else r


class IV:
    __slots__ = ('e', 'lo', 'hi', 'cases', 'ptr', 'lin')

    def __init__(self, e, lo, hi):
        self.ptr = self.lin = None       # the pointer this is the address of; linear form of a difference of pointers
        self.e = z3.IntVal(e) if isinstance(e, int) else e
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'IV(%s,[%d,%d])' % (self.e, self.lo, self.hi)


class PV:
    __slots__ = ('base', 'off', 'g', 'cases')

    def __init__(self, base, off):
        self.cases = None        # entry of a constant pointer table: [(condition, constant pointer)]
        self.base = z3.IntVal(base) if isinstance(base, int) else base
        self.off = off

    def __repr__(self):
        return 'PV(%s,%s)' % (self.base, self.off.z())

    def idx(self, w):
        """cell index for width w, only when it is syntactically exact"""
        if self.off.gcd() % w == 0:
            return self.off.divexact(w).z()
        return None


class AG:
    def __init__(self, vs):
        self.vs = list(vs)


def srange(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def const(n, w):
    m = 1 << w
    n %= m
    if n >= m >> 1:
        n -= m
    return IV(n, n, n)


_fresh = [0]


def fresh(name, sort=INT):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


def is_true(e):
    return z3.is_true(e)


def And(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            l += x
        else:
            l.append(x)
    l = [x for x in l if not (x is True or (not isinstance(x, bool) and z3.is_true(x)))]
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(*l)


class State:
    __slots__ = ('m', 'alive', 'next', 'ghost')

    def copy(self):
        s = State()
        s.m = dict(self.m)
        s.alive = self.alive
        s.next = self.next
        s.ghost = dict(self.ghost)
        return s

    def obj(self, kind, base):
        """inner array of an object, seeing through stores to syntactically equal/different literal objects"""
        a = self.m[kind]
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            b = a.arg(1)
            if b.eq(base):
                return a.arg(2)
            if distinct_bases(b, base):
                a = a.arg(0)
                continue
            break
        return z3.Select(a, base)

    def setobj(self, kind, base, arr):
        self.m[kind] = z3.Store(self.m[kind], base, arr)

    def ld(self, kind, base, idx):
        return sel(self.obj(kind, base), idx)

    def ldp(self, base, idx):
        return self.ld('pb', base, idx), self.ld('po', base, idx)


def distinct_bases(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return a.as_long() != b.as_long()
    # counter + const forms
    la, lb = lin_of(a), lin_of(b)
    d = la.add(lb.neg())
    return not d.t and d.c != 0


def lin_of(e):
    if z3.is_int_value(e):
        return Lin(e.as_long())
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        r = Lin()
        for c in e.children():
            r = r.add(lin_of(c))
        return r
    if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        k = e.arg(0).as_long()
        r = lin_of(e.arg(1))
        return Lin(r.c * k, {i: (x, c * k) for i, (x, c) in r.t.items()})
    if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        k = e.arg(1).as_long()
        r = lin_of(e.arg(0))
        return Lin(r.c * k, {i: (x, c * k) for i, (x, c) in r.t.items()})
    if z3.is_app_of(e, z3.Z3_OP_SUB) and e.num_args() == 2:
        return lin_of(e.arg(0)).add(lin_of(e.arg(1)).neg())
    return Lin.of(e)


def sel(arr, idx):
    """select with syntactic read-over-write"""
    if isinstance(idx, int):
        idx = z3.IntVal(idx)
    a = arr
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        i = a.arg(1)
        d = lin_of(i).add(lin_of(idx).neg())
        if not d.t:
            if d.c == 0:
                return a.arg(2)
            a = a.arg(0)
            continue
        break
    return z3.Select(a, idx)


class Ob:
    __slots__ = ('name', 'pc', 'cond', 'nf', 'loc', 'kind', 'status', 'time', 'backend', 'info', 'window', 'cand', 'block')

    def __init__(self, name, pc, cond, nf, loc, kind, cand=None):
        self.name, self.pc, self.cond, self.nf, self.loc, self.kind, self.cand = name, pc, cond, nf, loc, kind, cand
        self.status = None
        self.time = 0
        self.backend = None
        self.info = None
        self.window = None       # (end of the facts of the way taken, start of the facts of the exit)


class ObList(list):
    """obligations, each with the block it was generated in"""

    def __init__(self, enc):
        self.enc = enc

    def append(self, o):
        o.block = getattr(self.enc, 'cur_block', None)
        list.append(self, o)


class Ctx:
    """view of one call (or of the definition) of a function under contract"""

    def __init__(self, enc, args, pre, post=None, ret=None, at=None):
        self.enc, self.args, self.pre, self.post, self.ret, self.at = enc, args, pre, post, ret, at
        self.structs = enc.mod['structs']
        self.memo = {}
        self.isdef = False
        self.pc = None

    def i(self, k):
        a = self.args[k]
        return a.e if isinstance(a, IV) else a

    def p(self, k):
        return self.args[k]

    def base(self, k):
        return self.args[k].base

    def idx(self, k, w):
        """element index of pointer argument k; the contract declares the alignment"""
        return self.enc.exact_idx(self.args[k], w)

    def fld(self, struct, field):
        return self.structs[struct]['fields'][field]

    def field(self, st, k, struct, field):
        """value of a field of the object that pointer argument k points at, in state st"""
        return self.enc.load_field(st, self.args[k], struct, field)

    @property
    def r(self):
        if isinstance(self.ret, IV):
            return self.ret.e
        return self.ret


class Contract:
    """key: demangled signature (as printed by c++filt). All callables take a Ctx and return lists of (label, formula)."""

    def __init__(self, key, requires=None, ensures=None, assigns=(), elem=None, may_throw=False, ret=None, invariants=None,
                 trusted=False, allocates=False, frees=False, props=(), ret_elem=None, note='', noleak=True, owned=None, decreases=None,
                 bounds=None, ghost=None, fresh_args=(), axioms=None, ctor=False, pure=False, timeout=None, hints=None, nonnull=True,
                 terminates=None, lemmas=None, after_call=None, throws=None, entry=None, alloc_ghost=None, before_call=None, slice=False):
        self.slice = slice               # use only the hypotheses about memory states an obligation depends on
        self.key = key
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.assigns = assigns
        self.elem = elem or {}
        self.may_throw = may_throw
        self.throws = throws             # condition on the entry state under which (exactly) an exception leaves the function
        self.entry = entry               # instances of proved lemmas and definitions about the entry state
        self.before_call = before_call   # instances of definitions to add before the preconditions of a call are checked
        self.alloc_ghost = alloc_ghost   # ghost attributes this function chooses for the objects it allocates
        self.retspec = ret
        self.invariants = invariants
        self.trusted = trusted
        self.allocates = allocates
        self.frees = frees
        self.props = set(props)
        self.ret_elem = ret_elem
        self.note = note
        self.noleak = noleak
        self.owned = owned           # bases that stay allocated on exit (callable Ctx -> list of base terms)
        self.decreases = decreases
        self.bounds = bounds
        self.ghost = ghost
        self.axioms = axioms
        self.timeout = timeout
        self.hints = hints
        self.terminates = terminates
        self.lemmas = lemmas
        self.after_call = after_call     # instances of proved lemmas to add after a call: (enc, contract key, view of the call) -> formulas


class LoopView:
    """values of a loop's header phis and the memory at one evaluation point"""

    def __init__(self, enc, loop, phis, st, pre):
        self.enc, self.loop, self.phis, self.st, self.pre = enc, loop, phis, st, pre
        self.entry = enc.st0

    def v(self, pid):
        x = self.phis[pid]
        return x.e if isinstance(x, IV) else x


class Encoder:
    def __init__(self, mod, fn, contracts, lib, contract, phi_ranges=None, opts=None):
        self.mod, self.fn, self.contracts, self.lib, self.contract = mod, fn, contracts, lib, contract
        self.opts = opts or {}
        self.facts = []          # list of formulas, order matters
        self.obs = ObList(self)  # obligations
        self.cands = []          # (on literal, name, loop index)
        self.cand_checks = []    # Ob with cand=index
        self.vals = {}
        self.assumed = set()     # names of trusted/external contracts used
        self.used_contracts = set()
        self.phi_ranges = {} if phi_ranges is None else phi_ranges
        self.exits = []
        self.gbase = {}
        self.loops = fn['loops']
        self.aligncache = {}
        self.global_axioms = []
        self.frame_written = []
        self.int_consts = set()
        self.pow2s, self.keep = {}, []
        self.allocated = []                 # bases of the objects the function allocates itself
        self.named = {}
        self.calls = defaultdict(list)      # contract key -> views of the calls encoded so far

    # ---- facts and obligations
    def fact(self, f, pc=None):
        if pc is not None and not z3.is_true(pc):
            f = z3.Implies(pc, f)
        if not (not isinstance(f, bool) and z3.is_true(f)) and f is not True:
            self.facts.append(f)

    def ob(self, kind, label, pc, cond, loc):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if z3.is_true(z3.simplify(cond)) and kind in ('oob', 'overflow'):
            # trivially true, still counted
            o = Ob(self.obname(kind, label, loc), pc, cond, len(self.facts), loc, kind)
            o.status, o.backend = 'proved', 'simplify'
            self.obs.append(o)
            return o
        o = Ob(self.obname(kind, label, loc), pc, cond, len(self.facts), loc, kind)
        self.obs.append(o)
        self.fact(cond, pc)
        return o

    def obname(self, kind, label, loc):
        l = '%s:%s' % (loc[0].split('/')[-1], loc[1]) if loc else '?'
        return '%s:%s@%s' % (kind, label, l)

    # ---- values
    def glob(self, name, off=0):
        if name not in self.gbase:
            b = -(len(self.gbase) + 1)
            self.gbase[name] = b
            g = self.mod['globals'].get(name)
            if g is None:
                self.fact(sz(b) >= 0)
            else:
                self.fact(sz(b) == g['size'])
                self.fact(hk(b) == 0)
                self.fact(z3.Select(self.st0.alive, z3.IntVal(b)))
                if g.get('init') is not None and g.get('const'):
                    for o, t, *r in g['init']:
                        if t == 'i':
                            w, v = r
                            if w == 1:
                                w = 8
                            if w in (8, 16, 32, 64):
                                self.fact(z3.Select(z3.Select(self.st0.m[str(w // 8)], z3.IntVal(b)), z3.IntVal(o * 8 // w)) == int(v))
                        elif t == 'p':
                            pv = self.value(r[0])
                            if isinstance(pv, PV):
                                self.fact(z3.Select(z3.Select(self.st0.m['pb'], z3.IntVal(b)), z3.IntVal(o // 8)) == pv.base)
                                self.fact(z3.Select(z3.Select(self.st0.m['po'], z3.IntVal(b)), z3.IntVal(o // 8)) == pv.off.z())
        return PV(self.gbase[name], Lin(off))

    def value(self, v):
        t = v[0]
        if t == 'v':
            return self.vals[v[1]]
        if t == 'i':
            if v[1] == 1:
                return z3.BoolVal(int(v[2]) != 0)
            return const(int(v[2]), v[1])
        if t == 'null':
            return PV(0, Lin(0))
        if t == 'undef':
            return self.havoc_ty(v[1], 'undef')
        if t == 'g':
            return self.glob(v[1], v[2])
        if t == 'f':
            return self.glob('fn:' + v[1])
        if t == 'fpc':
            return None
        if t == 'zeroagg':
            return AG([self.zero_ty(x) for x in v[1][1:]])
        if t == 'agg':
            return AG([self.value(x) for x in v[1:]])
        if t == 'md':
            return None
        if t == 'unknownconst':
            return self.havoc_ty(v[2], 'kc')
        raise Unsupported('value %r' % (v,))

    def zero_ty(self, ty):
        if ty[0] == 'i':
            return z3.BoolVal(False) if ty[1] == 1 else const(0, ty[1])
        if ty[0] == 'p':
            return PV(0, Lin(0))
        return None

    def havoc_ty(self, ty, nm, g=1):
        if ty[0] == 'i':
            if ty[1] == 1:
                return fresh(nm, z3.BoolSort())
            lo, hi = srange(ty[1])
            e = fresh(nm)
            self.fact(z3.And(e >= lo, e <= hi))
            return IV(e, lo, hi)
        if ty[0] == 'p':
            b, o = fresh(nm + '_b'), fresh(nm + '_o')
            return PV(b, Lin.of(o, g))
        if ty[0] == 's':
            return AG([self.havoc_ty(x, nm) for x in ty[1:]])
        return None

    def u(self, x, w):
        """unsigned reading"""
        if x.lo >= 0:
            return x
        m = 1 << w
        if x.hi < 0:
            return IV(x.e + m, x.lo + m, x.hi + m)
        return IV(z3.If(x.e < 0, x.e + m, x.e), 0, m - 1)

    def wrap(self, e, lo, hi, w):
        slo, shi = srange(w)
        if lo >= slo and hi <= shi:
            return IV(e, lo, hi)
        m = 1 << w
        if lo >= slo - m and hi <= shi + m:
            r = e
            if hi > shi:
                r = z3.If(e > shi, e - m, r)
            if lo < slo:
                r = z3.If(e < slo, e + m, r)
            return IV(r, slo, shi)
        x = e % m
        return IV(z3.If(x > shi, x - m, x), slo, shi)

    def name_arr(self, a):
        """a constant equal to array term a when a cannot occur in a quantifier pattern"""
        x = a
        while True:
            if z3.is_app_of(x, z3.Z3_OP_STORE):
                pass
            elif not z3.is_app_of(x, z3.Z3_OP_SELECT):
                break
            if any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in x.children()):
                x = None
                break
            x = x.arg(0)
        if x is not None and not z3.is_app_of(x, z3.Z3_OP_ITE):
            return a
        if a.get_id() not in self.named:
            n = fresh('arr', a.sort())
            self.facts.append(n == a)
            self.named[a.get_id()] = (n, a)
        return self.named[a.get_id()][0]

    def exact_idx(self, p, w):
        """cell index for width w; adds a definition of the quotient when not syntactic"""
        i = p.idx(w)
        if i is not None:
            return i
        key = (p.off.z().get_id(), w)
        if key not in self.aligncache:
            o = p.off.z()
            q, r = fresh('q'), fresh('r')
            self.fact(z3.And(o == w * q + r, r >= 0, r < w))
            self.aligncache[key] = (q, r, o)
        return self.aligncache[key][0]

    def align_ob(self, p, w):
        if p.off.gcd() % w == 0:
            return z3.BoolVal(True)
        self.exact_idx(p, w)
        return self.aligncache[(p.off.z().get_id(), w)][1] == 0

    def load_field(self, st, p, struct, field):
        off, size = self.mod['structs'][struct]['fields'][field]
        q = PV(p.base, p.off.add(Lin(off)))
        return self.load_as(st, q, size)

    def load_as(self, st, q, size, ptr=False):
        if ptr:
            i = self.exact_idx(q, 8)
            b, o = st.ldp(q.base, i)
            return PV(b, Lin.of(o))
        i = self.exact_idx(q, size)
        return st.ld(str(size), q.base, i)

    def load_ptr_field(self, st, p, struct, field):
        off, size = self.mod['structs'][struct]['fields'][field]
        return self.load_as(st, PV(p.base, p.off.add(Lin(off))), 8, True)

    # ---- encoding
    def init_state(self):
        s = State()
        s.m = {k: z3.Const('M_%s_0' % k, AAI) for k in KINDS}
        s.alive = z3.Const('alive_0', AB)
        s.next = z3.Int('next_0')
        s.ghost = {}
        return s

    def preds(self):
        P = defaultdict(list)
        for b, ins in enumerate(self.fn['blocks']):
            for s in set(succs(ins[-1])):
                P[s].append(b)
        return P

    def encode(self):
        fn = self.fn
        self.st0 = self.init_state()
        self.fact(self.st0.next > 0)
        self.fact(z3.Not(z3.Select(self.st0.alive, z3.IntVal(0))))
        bq = z3.Int('bq')
        self.fact(z3.ForAll([bq], z3.Implies(z3.Select(self.st0.alive, bq), bq < self.st0.next), patterns=[z3.Select(self.st0.alive, bq)]))
        self.fact(z3.ForAll([bq], sz(bq) >= 0, patterns=[sz(bq)]))
        # arguments
        args = []
        for k, (aid, ty, nm, sret) in enumerate(fn['args']):
            if ty[0] == 'p':
                g = self.contract.elem.get(k, 8 if k == 0 and '::' in fn['demangled'] else 1)
                b, o = z3.Int('%s.base' % (nm or k)), z3.Int('%s.idx' % (nm or k))
                v = PV(b, Lin.of(o, g) if g else Lin(0))
                self.fact(z3.And(b < self.st0.next))
            elif ty[0] == 'i':
                if ty[1] == 1:
                    v = z3.Bool(nm or 'arg%d' % k)
                else:
                    e = z3.Int(nm or 'arg%d' % k)
                    lo, hi = srange(ty[1])
                    if self.contract.bounds and k in self.contract.bounds:
                        blo, bhi = self.contract.bounds[k]
                        lo, hi = max(lo, blo), min(hi, bhi)
                    self.fact(z3.And(e >= lo, e <= hi))
                    v = IV(e, lo, hi)
            else:
                v = None
            args.append(v)
            self.vals[aid] = v
        self.argvals = args
        self.defctx = Ctx(self, args, self.st0)
        self.nreq0 = len(self.facts)
        for label, f in self.contract.requires(self.defctx):
            self.fact(f)
        self.nreq1 = len(self.facts)
        if self.contract.entry:
            for f in self.contract.entry(self.defctx):
                self.fact(f)
        P = self.preds()
        hdr = {l['header']: (i, l) for i, l in enumerate(self.loops)}
        order, back = self.topo(P)
        self.back = back
        self.edge = {}       # (from,to) -> condition
        self.outstate = {}   # (from) -> state at end
        self.reach = {}
        self.instate = {}
        self.loopinfo = {}
        self.edgestate = {}
        self.nentry = len(self.facts)
        self.cuts, self.nf_end, self.frange, self.order = [], {}, {}, order
        self.fpreds = {b: [p for p in set(P[b]) if (p, b) not in back] for b in order}
        for b in order:
            self.cur_block = b
            flo = len(self.facts)
            self.frange[b] = (flo, flo)
            ins = fn['blocks'][b]
            ent = [(p, self.edge[(p, b)]) for p in P[b] if (p, b) not in back and (p, b) in self.edge]
            if b == 0:
                pc = z3.BoolVal(True)
                st = self.st0.copy()
                ent = []
            else:
                if not ent:
                    self.reach[b] = z3.BoolVal(False)
                    continue
                pc = self.orr([e for _, e in ent])
                if len(ent) > 1 or not is_small(pc):
                    r = fresh('reach%d' % b, z3.BoolSort())
                    self.facts.append(r == pc)
                    pc = r
                st = self.merge_states(ent)
            self.reach[b] = pc
            phis = [i for i in ins if i['k'] == 'phi']
            if b in hdr:
                li, l = hdr[b]
                pc, st = self.enter_loop(b, li, l, phis, ent, pc, st)
                self.reach[b] = pc
            else:
                newv = {}
                for ph in phis:
                    inc = [(self.phi_in(ph, p), e) for p, e in ent]
                    newv[ph['id']] = self.merge_vals(inc, ph['ty'], 'phi%d' % ph['id'])
                self.vals.update(newv)
            self.cur_block = b
            if self.contract.slice and len(ent) > 1 and ins[-1]['k'] == 'ret' and all(i['k'] in ('phi', 'ret') for i in ins):
                # one set of exit obligations per way into the return block, each with the facts of that way only
                for p, e in ent:
                    lo, n0 = len(self.facts), len(self.obs)
                    self.vals.update({ph['id']: self.phi_in(ph, p) for ph in phis})
                    self.run_block(b, ins, e, self.outstate[p].copy())
                    for o in self.obs[n0:]:
                        o.window = (self.nf_end[p], lo)
                        o.block = p
                continue
            self.run_block(b, ins, pc, st)
            self.nf_end[b] = len(self.facts)
            self.frange[b] = (flo, len(self.facts))
            for s in set(succs(ins[-1])):
                if (b, s) in back and (b, s) in self.edge:
                    self.back_edge(b, s)
        return self

    def phi_in(self, ph, p):
        for v, b in ph['in']:
            if b == p:
                return self.value(v)
        raise Unsupported('phi')

    def orr(self, l):
        if len(l) == 1:
            return l[0]
        return z3.Or(*l)

    def topo(self, P):
        fn = self.fn
        n = len(fn['blocks'])
        loops = self.loops
        back = set()
        for l in loops:
            bl = set(l['blocks'])
            for p in P[l['header']]:
                if p in bl:
                    back.add((p, l['header']))
        # iterative dfs post order ignoring back edges
        seen, post = set(), []
        stack = [(0, iter(sorted(set(succs(fn['blocks'][0][-1])))))]
        seen.add(0)
        onstack = {0}
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if (b, s) in back:
                    continue
                if s in onstack:
                    raise Unsupported('irreducible control flow')
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(sorted(set(succs(fn['blocks'][s][-1]))))))
                    adv = True
                    break
            if not adv:
                stack.pop()
                onstack.discard(b)
                post.append(b)
        # emit every loop as one contiguous run of blocks, so that the facts about a loop precede the facts about the code after it
        rpo = {b: k for k, b in enumerate(post[::-1])}
        need = {b: sum(1 for p in set(P[b]) if (p, b) not in back and p in seen) for b in seen}
        left = [set(l['blocks']) & seen for l in loops]
        ready, order, open_ = {0}, [], []
        while ready:
            while open_ and not left[open_[-1]]:
                open_.pop()
            c = [b for b in ready if not open_ or b in left[open_[-1]]]
            if not c:
                return post[::-1], back
            b = min(c, key=lambda x: rpo[x])
            ready.discard(b)
            order.append(b)
            for k in sorted((k for k, l in enumerate(loops) if l['header'] == b), key=lambda k: -len(left[k])):
                open_.append(k)
            for k in range(len(loops)):
                left[k].discard(b)
            for t in set(succs(fn['blocks'][b][-1])):
                if (b, t) not in back:
                    need[t] -= 1
                    if need[t] == 0:
                        ready.add(t)
        if len(order) != len(seen):
            return post[::-1], back
        return order, back

    def merge_states(self, ent):
        sts = [(self.edgestate[(p, 'n')] if False else self.outstate[p], e) for p, e in ent]
        if len(sts) == 1:
            return sts[0][0].copy()
        r = sts[-1][0].copy()
        for st, e in reversed(sts[:-1]):
            for k in KINDS:
                if not st.m[k].eq(r.m[k]):
                    r.m[k] = z3.If(e, st.m[k], r.m[k])
            if not st.alive.eq(r.alive):
                r.alive = z3.If(e, st.alive, r.alive)
            if not st.next.eq(r.next):
                r.next = z3.If(e, st.next, r.next)
            for g in set(st.ghost) | set(r.ghost):
                a, b = st.ghost.get(g), r.ghost.get(g)
                if a is None or b is None:
                    r.ghost[g] = a if b is None else b
                elif not a.eq(b):
                    r.ghost[g] = z3.If(e, a, b)
        # name merged arrays to keep terms small
        for k in KINDS:
            if z3.is_app_of(r.m[k], z3.Z3_OP_ITE):
                c = fresh('M_%s' % k, AAI)
                self.facts.append(c == r.m[k])
                r.m[k] = c
        if z3.is_app_of(r.alive, z3.Z3_OP_ITE):
            c = fresh('alive', AB)
            self.facts.append(c == r.alive)
            r.alive = c
        if z3.is_app_of(r.next, z3.Z3_OP_ITE):
            c = fresh('next')
            self.facts.append(c == r.next)
            r.next = c
        for g, v in list(r.ghost.items()):
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                c = fresh('gh_' + g, v.sort())
                self.facts.append(c == v)
                r.ghost[g] = c
        return r

    def merge_vals(self, inc, ty, nm):
        if len(inc) == 1:
            return inc[0][0]
        v0 = inc[0][0]
        if v0 is None or any(v is None for v, _ in inc):
            return None
        if isinstance(v0, AG):
            return AG([self.merge_vals([(v.vs[i], e) for v, e in inc], ty[1 + i], nm) for i in range(len(v0.vs))])
        if isinstance(v0, PV):
            base = self.merge_e([(v.base, e) for v, e in inc], nm + 'b')
            offs = [v.off for v, _ in inc]
            if all(same_lin(offs[0], o) for o in offs):
                return PV(base, offs[0])
            g = 0
            for o in offs:
                g = math.gcd(g, o.gcd())
            g = g or 1
            e = self.merge_e([(v.off.divexact(g).z(), c) for v, c in inc], nm + 'o')
            return PV(base, Lin.of(e, g))
        if isinstance(v0, IV):
            return IV(self.merge_e([(v.e, e) for v, e in inc], nm), min(v.lo for v, _ in inc), max(v.hi for v, _ in inc))
        return self.merge_e(inc, nm)

    def merge_e(self, inc, nm):
        r = inc[-1][0]
        for v, e in reversed(inc[:-1]):
            if not v.eq(r):
                r = z3.If(e, v, r)
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            c = fresh(nm, r.sort())
            self.facts.append(c == r)
            return c
        return r

    # ---- loops
    def loop_mods(self, l, st):
        """objects written in the loop: dict kind -> list of base terms, or None when unknown; and flags"""
        fn = self.fn
        blocks = set(l['blocks'])
        defs = {}
        for b, ins in enumerate(fn['blocks']):
            for i in ins:
                if 'id' in i:
                    defs[i['id']] = (b, i)
        ptrstores = False
        mods = {k: [] for k in KINDS}
        flags = {'alloc': False, 'free': False, 'ghost': set()}

        def add(kinds, base):
            for k in kinds:
                if mods[k] is None:
                    continue
                if base is None:
                    mods[k] = None
                elif not any(base.eq(x) for x in mods[k]):
                    mods[k].append(base)

        pend = []
        for b in blocks:
            for i in fn['blocks'][b]:
                if i['k'] == 'store':
                    t = i['vty']
                    if t[0] == 'p':
                        ptrstores = True
                        pend.append((('pb', 'po'), i['ptr']))
                    elif t[0] == 'i':
                        pend.append(((str(max(8, t[1]) // 8),), i['ptr']))
                    else:
                        pend.append((('1', '2', '4', '8'), i['ptr']))
                elif i['k'] in ('call', 'invoke'):
                    eff = self.call_effects(i)
                    for kinds, path in eff['mods']:
                        if 'pb' in kinds:
                            ptrstores = True
                        pend.append((kinds, path))
                    for f in ('alloc', 'free'):
                        flags[f] = flags[f] or eff[f]
                    flags['ghost'] |= eff['ghost']
        self._ptrstores = ptrstores

        def resolve(v, seen=()):
            """base term of pointer value v, valid throughout the loop"""
            if v is None:
                return None
            if v[0] == 'path':       # ('path', value, offset): pointer stored in a field
                if ptrstores:
                    return None
                b = resolve(v[1], seen)
                o = resolve_off(v[1])
                if b is None or o is None:
                    return None
                off = o.add(Lin(v[2]))
                q = PV(b, off)
                return st.ld('pb', b, self.exact_idx(q, 8))
            if v[0] != 'v':
                return self.value(v).base
            if v[1] not in defs:
                return self.vals[v[1]].base
            b, i = defs[v[1]]
            if b not in blocks:
                x = self.vals.get(v[1])
                return x.base if x is not None else None
            if i['k'] == 'gep':
                return resolve(i['base'], seen)
            if i['k'] == 'phi':
                if v[1] in seen:
                    return 'self'
                rs = [resolve(x, seen + (v[1],)) for x, _ in i['in']]
                rs = [r for r in rs if not isinstance(r, str)]
                if not rs or any(r is None for r in rs):
                    return None
                return rs[0] if all(r.eq(rs[0]) for r in rs) else None
            if i['k'] == 'select':
                a, c = resolve(i['a'], seen), resolve(i['b'], seen)
                if a is None or c is None or isinstance(a, str) or isinstance(c, str):
                    return None
                return a if a.eq(c) else None
            if i['k'] == 'load':
                if ptrstores:
                    return None
                base = resolve(i['ptr'], seen)
                off = resolve_off(i['ptr'])
                if base is None or isinstance(base, str) or off is None:
                    return None
                return st.ld('pb', base, self.exact_idx(PV(base, off), 8))
            return None

        def resolve_off(v):
            if v[0] != 'v':
                return self.value(v).off
            if v[1] not in defs or defs[v[1]][0] not in blocks:
                x = self.vals.get(v[1])
                return x.off if x is not None else None
            b, i = defs[v[1]]
            if i['k'] == 'gep' and not i['idx']:
                o = resolve_off(i['base'])
                return None if o is None else o.add(Lin(i['off']))
            if i['k'] == 'load' and not ptrstores:
                base = resolve(i['ptr'])
                off = resolve_off(i['ptr'])
                if base is None or isinstance(base, str) or off is None:
                    return None
                return Lin.of(st.ld('po', base, self.exact_idx(PV(base, off), 8)))
            return None

        for kinds, v in pend:
            if v == 'all':
                add(kinds, None)
                continue
            r = resolve(v)
            add(kinds, None if isinstance(r, str) else r)
        return mods, flags

    def call_effects(self, i):
        """static effect summary of a call for loop_mods"""
        eff = {'mods': [], 'alloc': False, 'free': False, 'ghost': set()}
        c, name = self.find_contract(i)
        if isinstance(c, Contract):
            for a in c.assigns:
                if a[0] == 'arg':
                    eff['mods'].append((a[2] if len(a) > 2 else KINDS, i['args'][a[1]]))
                elif a[0] == 'fld':
                    off = self.mod['structs'][a[2]]['fields'][a[3]][0]
                    eff['mods'].append((a[4] if len(a) > 4 else KINDS, ['path', i['args'][a[1]], off]))
                elif a[0] == 'deref':
                    eff['mods'].append((a[2] if len(a) > 2 else KINDS, ['path', i['args'][a[1]], 0]))
                elif a[0] == 'fn':
                    eff['mods'].append((a[2], 'all'))
                elif a[0] == 'all':
                    eff['mods'].append((KINDS, 'all'))
            eff['alloc'] = c.allocates
            eff['free'] = c.frees
            if c.ghost:
                eff['ghost'] |= set(c.ghost)
            return eff
        if c is not None:
            return c.effects(i)
        return eff

    def ptr_phi_step(self, ph, l):
        """gcd of everything added to a pointer phi around the loop, or 1"""
        defs = {i['id']: i for b in l['blocks'] for i in self.fn['blocks'][b] if 'id' in i}
        g = 0

        def walk(v, seen):
            nonlocal g
            if v[0] == 'v' and v[1] == ph['id']:
                return True
            if v[0] != 'v' or v[1] not in defs or v[1] in seen:
                return v[0] == 'v' and v[1] in seen
            i = defs[v[1]]
            if i['k'] == 'gep':
                g = math.gcd(g, abs(i['off']))
                for _, s, _ in i['idx']:
                    g = math.gcd(g, abs(s))
                return walk(i['base'], seen)
            if i['k'] == 'phi':
                return all(walk(x, seen | {v[1]}) for x, _ in i['in'])
            if i['k'] == 'select':
                return walk(i['a'], seen) and walk(i['b'], seen)
            return False
        bl = set(l['blocks'])
        ok = all(walk(v, frozenset()) for v, b in ph['in'] if b in bl)
        return ok, g

    def enter_loop(self, b, li, l, phis, ent, pc, st):
        inits = {}
        for ph in phis:
            inits[ph['id']] = self.merge_vals([(self.phi_in(ph, p), e) for p, e in ent], ph['ty'], 'init%d' % ph['id'])
        hv = {}
        for ph in phis:
            pid = ph['id']
            ty = ph['ty']
            iv = inits[pid]
            nm = self.fn['names'].get(str(pid), 'phi%d' % pid)
            if ty[0] == 'p':
                ok, step = self.ptr_phi_step(ph, l)
                if ok:
                    g = math.gcd(iv.off.gcd(), step) or 1
                    o = fresh(nm + '.o')
                    hv[pid] = PV(iv.base, Lin.of(o, g))
                else:
                    bb, o = fresh(nm + '.b'), fresh(nm + '.o')
                    hv[pid] = PV(bb, Lin.of(o))
            elif ty[0] == 'i' and ty[1] > 1:
                rng = self.phi_ranges.get(pid, 'auto')
                if rng == 'auto':
                    rng = (0, (1 << (ty[1] - 2)) if ty[1] == 64 else srange(ty[1])[1])
                    self.phi_ranges[pid] = rng
                lo, hi = rng if rng else srange(ty[1])
                e = fresh(nm)
                slo, shi = srange(ty[1])
                self.fact(z3.And(e >= slo, e <= shi))
                hv[pid] = IV(e, lo, hi)
            elif ty[0] == 'i':
                hv[pid] = fresh(nm, z3.BoolSort())
            else:
                hv[pid] = self.havoc_ty(ty, nm)
        self.vals.update({ph['id']: inits[ph['id']] for ph in phis})
        mods, flags = self.loop_mods(l, st)
        ns = st.copy()
        pc0, nf0 = pc, len(self.facts)
        if self.contract.slice and not any(b in x['blocks'] and x is not l for x in self.loops):
            # after this point obligations use the invariants of this loop instead of the facts about the code before it
            pc = fresh('loop%d' % li, z3.BoolSort())
            self.facts.append(pc == pc0)
            self.cuts.append((len(self.facts), b))
        whole = False
        for k in KINDS:
            if mods[k] is None:
                ns.m[k] = fresh('ML_%s' % k, AAI)
                whole = True
            else:
                for base in mods[k]:
                    ns.m[k] = z3.Store(ns.m[k], base, fresh('ol_%s' % k, AI))
        if flags['alloc']:
            ns.next = fresh('nextL')
            self.fact(ns.next >= st.next)
        if flags['alloc'] or flags['free']:
            ns.alive = fresh('aliveL', AB)
            bq = z3.Int('bq')
            self.fact(z3.ForAll([bq], z3.Implies(z3.Select(ns.alive, bq), bq < ns.next), patterns=[z3.Select(ns.alive, bq)]))
            self.fact(z3.Not(z3.Select(ns.alive, z3.IntVal(0))))
        for g in flags['ghost']:
            if g in ns.ghost:
                ns.ghost[g] = fresh('gl_' + g, ns.ghost[g].sort())
        self.vals.update(hv)
        lv0 = LoopView(self, l, inits, st, st)
        lvh = LoopView(self, l, hv, ns, st)
        info = {'li': li, 'l': l, 'phis': phis, 'pre': st, 'inits': inits, 'hv': hv, 'hst': ns, 'cands': [], 'mods': mods, 'flags': flags,
                'pc': pc, 'whole': whole, 'header': b, 'pc0': pc0, 'nf0': nf0}
        self.loopinfo[b] = info
        # ranges are candidates too
        cl = []
        for ph in phis:
            pid = ph['id']
            if ph['ty'][0] == 'i' and ph['ty'][1] > 1:
                rng = self.phi_ranges.get(pid)
                if rng and rng != srange(ph['ty'][1]):
                    lo, hi = rng
                    cl.append(('range(%s)' % self.pname(pid), (lambda pid, lo, hi: lambda v: z3.And(v.v(pid) >= lo, v.v(pid) <= hi))(pid, lo, hi), pid))
        from . import templates
        cl += [x + (None,) for x in templates.generic(self, info, lv0) if not x[0].startswith(getattr(self.contract, 'skip', None) or ('\0',))]
        ngen = len(cl)
        if self.contract.invariants:
            cl += [x + (None,) for x in self.contract.invariants(self, info)]
        own = {id(x[1]) for x in cl[ngen:]}
        ok = []
        for nm, f, r in cl:
            try:
                ok.append((nm, f, r, f(lv0)))
            except SkipCand:
                pass
        # the values on entry are checked with no knowledge about the loop
        nfi = len(self.facts)
        for nm, f, r, c0 in ok:
            try:
                self.add_cand(info, nm, f, c0, lvh, nfi, r, id(f) in own)
            except SkipCand:
                pass
        return pc, ns

    def pname(self, pid):
        return self.fn['names'].get(str(pid), 'v%d' % pid)

    def add_cand(self, info, nm, f, c0, lvh, nfi, rangeof=None, own=False):
        ch = f(lvh)
        idx = len(self.cands)
        on = z3.Bool('on!%d' % idx)
        self.cands.append({'on': on, 'name': 'L%d:%s' % (info['li'], nm), 'f': f, 'rangeof': rangeof, 'alive': True, 'li': info['li'], 'own': own})
        info['cands'].append(idx)
        o = Ob('inv-init:%s' % nm, info['pc0'], c0, nfi, self.loop_loc(info), 'inv', idx)
        o.block = info['header']
        if not info['pc0'].eq(info['pc']):
            o.window = (info['nf0'], info['nf0'] + 1)
        self.cand_checks.append(o)
        self.facts.append(z3.Implies(z3.And(on, info['pc']), ch))

    def loop_loc(self, info):
        for i in self.fn['blocks'][info['header']]:
            if i.get('loc'):
                return i['loc']
        return [self.fn.get('file', '?'), info['l'].get('line', 0)]

    def back_edge(self, b, h):
        info = self.loopinfo[h]
        pc = self.edge[(b, h)]
        st = self.outstate[b]
        bv = {ph['id']: self.phi_in(ph, b) for ph in info['phis']}
        lv = LoopView(self, info['l'], bv, st, info['pre'])
        info.setdefault('backs', []).append((b, pc, bv, st, len(self.facts)))
        for idx in info['cands']:
            c = self.cands[idx]
            o = Ob('inv-step:%s' % c['name'], pc, c['f'](lv), len(self.facts), self.loop_loc(info), 'inv', idx)
            o.block = b
            self.cand_checks.append(o)

    # ---- blocks
    def run_block(self, b, ins, pc, st):
        self.skipload = getattr(self, 'skipload', None)
        if self.skipload is None:
            self.skipload = self.find_vtable_loads()
        for i in ins:
            k = i['k']
            if k == 'phi':
                continue
            if 'id' in i and k not in ('call', 'invoke'):
                self.vals[i['id']] = None
            loc = i.get('loc') or self.lastloc(ins, i)
            if k == 'bin':
                self.vals[i['id']] = self.binop(i, pc, loc)
            elif k == 'icmp':
                self.vals[i['id']] = self.icmp(i)
            elif k == 'cast':
                self.vals[i['id']] = self.cast(i)
            elif k == 'gep':
                p = self.value(i['base'])
                off = p.off.add(Lin(i['off']))
                for v, s, ty in i['idx']:
                    x = self.value(v)
                    off = off.add(scale(lin_of(x.e), s))
                self.vals[i['id']] = PV(p.base, off)
            elif k == 'load':
                if i['id'] in self.skipload:
                    self.vals[i['id']] = self.havoc_ty(i['ty'], 'vt')
                else:
                    self.vals[i['id']] = self.load(i, pc, st, loc)
            elif k == 'store':
                self.store(i, pc, st, loc)
            elif k == 'select':
                c = self.value(i['c'])
                a, bb = self.value(i['a']), self.value(i['b'])
                self.vals[i['id']] = self.merge_vals([(a, c), (bb, z3.Not(c))], i['ty'], 'sel')
            elif k == 'alloca':
                n = self.value(i['n'])
                self.vals[i['id']] = self.alloc(st, n.e * i['size'], 0, pc)
                self.stack = getattr(self, 'stack', [])
                self.stack.append(self.vals[i['id']].base)
                if self.in_loop(b):
                    raise Unsupported('alloca in loop')
            elif k in ('call', 'invoke'):
                thrown = self.call(i, pc, st, loc)
                if k == 'invoke':
                    if thrown is None or z3.is_false(thrown):
                        self.setedge(b, i['normal'], pc)
                    else:
                        self.setedge(b, i['normal'], z3.And(pc, z3.Not(thrown)))
                        self.setedge(b, i['unwind'], z3.And(pc, thrown))
                elif thrown is not None and not z3.is_false(thrown):
                    self.exc_exit(z3.And(pc, thrown), st, loc)
                    pc = z3.And(pc, z3.Not(thrown))
                self.cur_call = i
            elif k == 'br':
                self.setedge(b, i['t'], pc)
            elif k == 'condbr':
                c = self.value(i['c'])
                if i['t'] == i['f']:
                    self.setedge(b, i['t'], pc)
                else:
                    self.setedge(b, i['t'], And(pc, c))
                    self.setedge(b, i['f'], And(pc, z3.Not(c)))
            elif k == 'switch':
                c = self.value(i['c'])
                if not isinstance(c, IV):
                    raise Unsupported('switch')
                by = defaultdict(list)
                allc = []
                for v, t in i['cases']:
                    x = self.value(v)
                    by[t].append(c.e == x.e)
                    allc.append(c.e == x.e)
                by[i['default']].append(z3.Not(z3.Or(*allc)) if allc else z3.BoolVal(True))
                for t, l in by.items():
                    self.setedge(b, t, z3.And(pc, self.orr(l)))
            elif k == 'ret':
                rv = self.value(i['v']) if i.get('v') else None
                self.exit(pc, rv, st, loc)
            elif k == 'unreachable':
                pass
            elif k == 'resume':
                self.exc_exit(pc, st, loc)
            elif k == 'landingpad':
                self.vals[i['id']] = self.havoc_ty(i['ty'], 'lp')
            elif k == 'extractvalue':
                a = self.value(i['a'])
                for j in i['idx']:
                    a = a.vs[j] if isinstance(a, AG) else None
                self.vals[i['id']] = a if a is not None else self.havoc_ty(i['ty'], 'ev')
            elif k == 'insertvalue':
                a = self.value(i['a'])
                x = AG(a.vs if isinstance(a, AG) else [None] * (len(i['ty']) - 1))
                if len(i['idx']) != 1:
                    raise Unsupported('insertvalue')
                x.vs[i['idx'][0]] = self.value(i['b'])
                self.vals[i['id']] = x
            elif k == 'freeze':
                self.vals[i['id']] = self.value(i['a'])
            elif k == 'havoc':
                self.vals[i['id']] = self.havoc_ty(i['ty'], 'fp')
            else:
                raise Unsupported('instruction %s' % i.get('op'))
        self.outstate[b] = st

    def lastloc(self, ins, i):
        return [self.fn.get('file', '?'), self.fn.get('line', 0)]

    def in_loop(self, b):
        return any(b in l['blocks'] for l in self.loops)

    def find_vtable_loads(self):
        s = set()
        defs = {i['id']: i for ins in self.fn['blocks'] for i in ins if 'id' in i}
        for ins in self.fn['blocks']:
            for i in ins:
                if i.get('vclass') and i.get('fptr'):
                    v = i['fptr']
                    while v and v[0] == 'v' and v[1] in defs:
                        d = defs[v[1]]
                        if d['k'] == 'load':
                            s.add(v[1])
                            v2 = d['ptr']
                            # gep on vtable, then load of vptr
                            while v2[0] == 'v' and v2[1] in defs and defs[v2[1]]['k'] == 'gep':
                                v2 = defs[v2[1]]['base']
                            if v2[0] == 'v' and v2[1] in defs and defs[v2[1]]['k'] == 'load':
                                s.add(v2[1])
                        break
        return s

    def setedge(self, b, t, pc):
        if (b, t) in self.edge:
            self.edge[(b, t)] = z3.Or(self.edge[(b, t)], pc)
        else:
            self.edge[(b, t)] = pc

    def binop(self, i, pc, loc):
        op = i['op']
        ty = i['ty']
        if ty[0] == 'fp':
            return None
        a, b = self.value(i['a']), self.value(i['b'])
        if ty[0] != 'i':
            raise Unsupported('vector op')
        w = ty[1]
        if w == 1:
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        nsw = i.get('nsw')
        slo, shi = srange(w)
        if op == 'add':
            lo, hi, e = a.lo + b.lo, a.hi + b.hi, add(a.e, b.e)
        elif op == 'sub' and a.ptr is not None and b.ptr is not None and w == 64:
            # pointers are subtracted within one object
            if not a.ptr.base.eq(b.ptr.base):
                self.ob('ptrdiff', 'pointers into the same object', pc, a.ptr.base == b.ptr.base, i.get('loc'))
            d = a.ptr.off.add(b.ptr.off.neg())
            r = IV(d.z(), -(1 << 62), 1 << 62)
            r.lin = d
            return r
        elif op == 'sdiv' and a.lin is not None and b.lo == b.hi and b.lo > 0 and a.lin.gcd() % b.lo == 0:
            return IV(a.lin.divexact(b.lo).z(), -(1 << 62), 1 << 62)
        elif op == 'sub':
            lo, hi, e = a.lo - b.hi, a.hi - b.lo, sub(a.e, b.e)
        elif op == 'mul':
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            lo, hi, e = min(c), max(c), split_mul(a, b)
        elif op in ('shl',):
            if b.lo != b.hi:
                return self.havoc_bit(op, a, b, w, pc, loc, nsw)
            m = 1 << b.lo
            lo, hi, e = a.lo * m, a.hi * m, a.e * m
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u':
                a, b = self.u(a, w), self.u(b, w)
            self.ob('div', 'division by zero', pc, b.e != 0, loc)
            if op[0] == 's' and a.lo == slo and b.lo <= -1 <= b.hi:
                self.ob('overflow', 'division overflow', pc, z3.Not(z3.And(a.e == slo, b.e == -1)), loc)
            if a.lo >= 0 and b.lo >= 0:
                if op[1:] == 'rem' and b.lo != b.hi:
                    return self.towidth(IV(self.umod(a.e, b.e), 0, max(0, min(a.hi, b.hi - 1))), w)
                if op[1:] == 'div':
                    return self.towidth(IV(a.e / b.e, 0, a.hi), w)
                return self.towidth(IV(a.e % b.e, 0, max(0, min(a.hi, b.hi - 1))), w)
            aa = z3.If(a.e >= 0, a.e, -a.e)
            ab = z3.If(b.e >= 0, b.e, -b.e)
            q = aa / ab
            neg = z3.Xor(a.e < 0, b.e < 0)
            m = max(abs(a.lo), abs(a.hi))
            if op[1:] == 'div':
                return self.wrap(z3.If(neg, -q, q), -m, m, w)
            r = aa % ab
            mb = max(abs(b.lo), abs(b.hi)) - 1
            return IV(z3.If(a.e < 0, -r, r), -min(m, mb) if a.lo < 0 else 0, min(m, mb))
        elif op in ('lshr', 'ashr'):
            if b.lo != b.hi:
                return self.havoc_bit(op, a, b, w, pc, loc)
            if op == 'lshr':
                a = self.u(a, w)
            return self.towidth(IV(a.e / (1 << b.lo), a.lo >> b.lo, a.hi >> b.lo), w)
        elif op in ('and', 'or', 'xor'):
            return self.bitop(op, a, b, w, pc, loc)
        else:
            raise Unsupported(op)
        if nsw and (lo < slo or hi > shi):
            self.ob('overflow', 'signed %s' % op, pc, z3.And(e >= slo, e <= shi), loc)
            return IV(e, max(lo, slo), min(hi, shi))
        return self.wrap(e, lo, hi, w)

    def umod(self, a, b):
        r = UMOD(a, b)
        self.fact(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, r <= a)))
        return r

    def towidth(self, x, w):
        slo, shi = srange(w)
        if x.lo >= slo and x.hi <= shi:
            return x
        return self.wrap(x.e, x.lo, x.hi, w)

    def havoc_bit(self, op, a, b, w, pc, loc, nsw=False):
        if op == 'shl':
            # a << n is a * 2^n; 2^n is the term P2(n)
            self.ob('shift', 'shift amount', pc, z3.And(b.e >= 0, b.e < w), loc)
            blo, bhi = max(b.lo, 0), min(b.hi, w - 1)
            p = P2(b.e)
            self.fact(p >= 1)
            self.fact(z3.Implies(z3.And(b.e >= blo, b.e <= bhi), z3.And(p >= (1 << blo), p <= (1 << bhi))))
            if bhi - blo <= 8:
                for n in range(blo, bhi + 1):
                    self.fact(z3.Implies(b.e == n, p == (1 << n)))
            self.pow2s[p.get_id()] = p
            self.keep.append(p)
            m = 1 << bhi
            lo, hi = min(a.lo * m, a.lo), max(a.hi * m, a.hi)
            e = p if a.lo == a.hi == 1 else split_mul(a, IV(p, 1, m))
            if nsw and (lo < srange(w)[0] or hi > srange(w)[1]):
                self.ob('overflow', 'signed shl', pc, z3.And(e >= srange(w)[0], e <= srange(w)[1]), loc)
                return IV(e, max(lo, srange(w)[0]), min(hi, srange(w)[1]))
            return self.wrap(e, lo, hi, w)
        lo, hi = srange(w)
        e = fresh('bit')
        self.fact(z3.And(e >= lo, e <= hi))
        return IV(e, lo, hi)

    def maskc(self, e, c, w):
        """e & c for constant c >= 0 and e >= 0 (mathematical)"""
        r = None
        j = 0
        while c >> j:
            if (c >> j) & 1:
                n = 0
                while (c >> (j + n)) & 1:
                    n += 1
                t = e if j == 0 else e / (1 << j)
                t = t % (1 << n)
                if j:
                    t = t * (1 << j)
                r = t if r is None else r + t
                j += n
            else:
                j += 1
        return r if r is not None else z3.IntVal(0)

    def bitop(self, op, a, b, w, pc, loc):
        if a.lo == a.hi:
            a, b = b, a
        if b.lo == b.hi:
            c = b.lo
            if op == 'xor' and c == -1:
                return IV(-a.e - 1, -a.hi - 1, -a.lo - 1)
            if op == 'and':
                if c == -1:
                    return a
                cm = c % (1 << w)
                ua = self.u(a, w)
                if c >= 0 or a.lo >= 0:
                    # high bits of c irrelevant when a is small
                    if ua.hi < (1 << w):
                        lim = (1 << max(ua.hi.bit_length(), 1)) - 1
                        cm &= lim
                    if cm == lim:
                        return self.towidth(ua, w)
                    return self.towidth(IV(self.maskc(ua.e, cm, w), 0, min(ua.hi, cm)), w)
                # negative constant: a & c = a - (a & ~c) for ~c >= 0
                nc = ~c
                m = self.maskc(ua.e, nc, w)
                return IV(a.e - m, a.lo - nc if a.lo < 0 else max(a.lo - nc, 0), a.hi)
            ua = self.u(a, w)
            cm = c % (1 << w)
            if op == 'or':
                e = ua.e + cm - self.maskc(ua.e, cm, w)
                return self.wrap(e, max(ua.lo, cm), (1 << max(ua.hi.bit_length(), cm.bit_length())) - 1, w)
            if op == 'xor':
                e = ua.e + cm - 2 * self.maskc(ua.e, cm, w)
                return self.wrap(e, 0, (1 << max(ua.hi.bit_length(), cm.bit_length())) - 1, w)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                p = self.pow2s.get(z3.simplify(self.u(y, w).e + 1).get_id())
                if p is not None:
                    ux = self.u(x, w)
                    return self.towidth(IV(self.umod(ux.e, p), 0, ux.hi), w)
        # or/add of values with disjoint bits: (x << k) | y, y < 2^k
        if op == 'or' and a.lo >= 0 and b.lo >= 0:
            for x, y in ((a, b), (b, a)):
                g = lin_of(x.e).gcd()
                if g and y.hi < (g & -g):
                    return self.towidth(IV(x.e + y.e, x.lo + y.lo, x.hi + y.hi), w)
        e = fresh('bit')
        lo, hi = srange(w)
        if a.lo >= 0 and b.lo >= 0:
            lo = 0
            hi = min(a.hi, b.hi) if op == 'and' else (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            if op == 'and':
                self.fact(z3.And(e <= a.e, e <= b.e))
            if op == 'or':
                self.fact(z3.And(e >= a.e, e >= b.e, e <= a.e + b.e))
            if op == 'xor':
                self.fact(z3.And(e <= a.e + b.e, (e == 0) == (a.e == b.e)))
        self.fact(z3.And(e >= lo, e <= hi))
        return IV(e, lo, hi)

    def icmp(self, i):
        a, b = self.value(i['a']), self.value(i['b'])
        p = i['pred']
        if isinstance(a, PV) or isinstance(b, PV):
            d = a.off.add(b.off.neg())
            offeq = (z3.BoolVal(d.c == 0) if not d.t else a.off.z() == b.off.z())
            eq = And(a.base == b.base, offeq) if not a.base.eq(b.base) else offeq
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y.base) and y.base.as_long() == 0 and not y.off.t and y.off.c == 0:
                    eq = x.base == 0          # comparison with the null pointer; no pointer arithmetic is done on null (checked at accesses)
            if p == 'eq':
                return eq
            if p == 'ne':
                return z3.Not(eq)
            # same-object ordering
            x, y = a.off.z(), b.off.z()
            return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
        w = i['oty'][1]
        if w == 1:
            if p == 'eq':
                return a == b
            if p == 'ne':
                return z3.Xor(a, b)
            if p == 'ult':
                return z3.And(z3.Not(a), b)
            if p == 'ugt':
                return z3.And(a, z3.Not(b))
            raise Unsupported('i1 cmp')
        if p == 'eq':
            return a.e == b.e
        if p == 'ne':
            return a.e != b.e
        if p[0] == 'u':
            a, b = self.u(a, w), self.u(b, w)
        x, y = a.e, b.e
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]

    def cast(self, i):
        a = self.value(i['a'])
        op = i['op']
        ty = i['ty']
        if op in ('bitcast', 'addrspacecast') and ty[0] == 'p':
            return a
        if op == 'zext':
            if i['from'][1] == 1:
                return IV(z3.If(a, z3.IntVal(1), z3.IntVal(0)), 0, 1)
            return self.u(a, i['from'][1])
        if op == 'sext':
            if i['from'][1] == 1:
                return IV(z3.If(a, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
            return a
        if op == 'trunc':
            w = ty[1]
            if w == 1:
                if z3.is_app_of(a.e, z3.Z3_OP_ITE) and z3.is_int_value(a.e.arg(1)) and z3.is_int_value(a.e.arg(2)) \
                        and a.e.arg(1).as_long() == 1 and a.e.arg(2).as_long() == 0:
                    return a.e.arg(0)
                return a.e % 2 == 1
            return self.wrap(a.e, a.lo, a.hi, w)
        if op == 'ptrtoint':
            # numeric address: base address function + offset
            ad = self.addr(a.base)
            lo, hi = 0, (1 << 62)
            r = IV(ad + a.off.z(), lo, hi)
            r.ptr = a
            return r
        if ty[0] == 'fp' or i['from'][0] == 'fp':
            return self.havoc_ty(ty, 'fpcast')
        if op == 'inttoptr':
            return self.havoc_ty(ty, 'itp')
        raise Unsupported('cast ' + op)

    def addr(self, base):
        f = z3.Function('addr', INT, INT)
        return f(base)

    def kindof(self, ty):
        if ty[0] == 'i':
            return str(max(8, ty[1]) // 8)
        return None

    def access_ob(self, p, n, pc, st, loc, what):
        """n bytes at p are inside a live object"""
        conds = [self.isalive(st, p.base), p.off.z() >= 0, p.off.add(Lin(n)).z() <= sz(p.base)]
        self.ob('oob', what, pc, z3.And(*conds), loc)

    def isalive(self, st, base):
        if z3.is_int_value(base) and base.as_long() < 0:
            return z3.BoolVal(True)
        a = st.alive
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(base):
                return a.arg(2)
            if distinct_bases(a.arg(1), base):
                a = a.arg(0)
                continue
            break
        return z3.Select(a, base)

    def load(self, i, pc, st, loc):
        p = self.value(i['ptr'])
        ty = i['ty']
        if ty[0] == 'p':
            self.access_ob(p, 8, pc, st, loc, 'read')
            self.al(p, 8, pc, loc)
            ix = self.exact_idx(p, 8)
            tab = self.const_ptr_table(p, ix)
            if tab is not None:
                return tab
            b, o = st.ldp(p.base, ix)
            self.fact(b < st.next)
            return PV(b, Lin.of(o))
        if ty[0] == 'i':
            w = max(8, ty[1])
            if w not in (8, 16, 32, 64):
                raise Unsupported('load i%d' % ty[1])
            n = w // 8
            self.access_ob(p, n, pc, st, loc, 'read')
            self.al(p, n, pc, loc)
            ix = self.exact_idx(p, n)
            tab = self.const_table(p, w, ix)
            if tab is not None:
                return tab
            e = st.ld(str(n), p.base, ix)
            lo, hi = srange(w)
            if z3.is_int_value(e):
                lo = hi = e.as_long()
            else:
                self.fact(z3.And(e >= lo, e <= hi))
            if ty[1] == 1:
                return e % 2 == 1
            return IV(e, lo, hi)
        if ty[0] == 'fp':
            return None
        raise Unsupported('load %s' % ty)

    def const_table(self, p, w, ix):
        """read of a small constant table at a variable index: case split over the entries"""
        if not z3.is_int_value(p.base) or p.base.as_long() >= 0 or z3.is_int_value(ix):
            return None
        nm = next((k for k, b in self.gbase.items() if b == p.base.as_long()), None)
        g = self.mod['globals'].get(nm)
        if not g or not g.get('const') or g.get('init') is None or not 1 <= len(g['init']) <= 64:
            return None
        t = []
        for o, ty, *r in g['init']:
            if ty != 'i' or r[0] != w or o * 8 % w:
                return None
            t.append((o * 8 // w, int(r[1])))
        e = z3.IntVal(t[-1][1])
        for j, v in reversed(t[:-1]):
            e = z3.If(ix == j, z3.IntVal(v), e)
        r = fresh('tab')
        self.fact(r == e)
        lo, hi = min(v for _, v in t), max(v for _, v in t)
        if lo != hi:
            self.fact(z3.And(r >= lo, r <= hi))
        r = IV(r, lo, hi)
        r.cases = sorted(set(v for _, v in t))
        return r

    def const_ptr_table(self, p, ix):
        """read of a small constant table of pointers to constants"""
        if not z3.is_int_value(p.base) or p.base.as_long() >= 0:
            return None
        nm = next((k for k, b in self.gbase.items() if b == p.base.as_long()), None)
        g = self.mod['globals'].get(nm)
        if not g or not g.get('const') or g.get('init') is None or not 1 <= len(g['init']) <= 64:
            return None
        cs = []
        for o, ty, *r in g['init']:
            if ty != 'p' or o % 8 or r[0][0] != 'g':
                return None
            cs.append((ix == o // 8, self.value(r[0]), r[0]))
        b, o = fresh('ptab'), fresh('ptabo')
        for cond, v, _ in cs:
            self.fact(z3.Implies(cond, z3.And(b == v.base, o == v.off.z())))
        self.fact(z3.Or(*[z3.And(b == v.base, o == v.off.z()) for _, v, _ in cs]))
        pv = PV(b, Lin.of(o))
        pv.cases = [(c, v) for c, _, v in cs]
        return pv

    def al(self, p, n, pc, loc):
        if n > 1 and p.off.gcd() % n:
            self.ob('align', 'aligned access', pc, self.align_ob(p, n), loc)

    def store(self, i, pc, st, loc):
        p, v, ty = self.value(i['ptr']), self.value(i['val']), i['vty']
        if ty[0] == 'p':
            self.access_ob(p, 8, pc, st, loc, 'write')
            self.al(p, 8, pc, loc)
            ix = self.exact_idx(p, 8)
            st.setobj('pb', p.base, z3.Store(st.obj('pb', p.base), ix, v.base))
            st.setobj('po', p.base, z3.Store(st.obj('po', p.base), ix, v.off.z()))
            return
        if ty[0] == 'i':
            w = max(8, ty[1])
            if w not in (8, 16, 32, 64):
                raise Unsupported('store')
            n = w // 8
            if ty[1] == 1:
                v = IV(z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1)
            self.access_ob(p, n, pc, st, loc, 'write')
            self.al(p, n, pc, loc)
            ix = self.exact_idx(p, n)
            st.setobj(str(n), p.base, z3.Store(st.obj(str(n), p.base), ix, v.e))
            return
        if ty[0] == 'fp':
            return
        raise Unsupported('store %s' % ty)

    def alloc(self, st, size, kind, pc):
        b = st.next
        st.next = z3.simplify(st.next + 1)
        # guarded by the path: allocations on different paths may get the same number
        self.fact(sz(b) == size, pc)
        self.fact(hk(b) == kind, pc)
        for f in (self.contract.alloc_ghost(b) if self.contract.alloc_ghost else []):
            self.fact(f, pc)
        st.alive = z3.Store(st.alive, b, z3.BoolVal(True))
        self.allocated.append(b)
        return PV(b, Lin(0))

    def free(self, st, p, kind, pc, loc, nullok=True):
        ok = z3.And(self.isalive(st, p.base), p.off.z() == 0, hk(p.base) == kind)
        self.ob('free', 'valid deallocation', pc, z3.Or(p.base == 0, ok) if nullok else ok, loc)
        if nullok:
            a = fresh('aliveF', AB)
            self.fact(a == z3.If(p.base == 0, st.alive, z3.Store(st.alive, p.base, z3.BoolVal(False))))
            st.alive = a
        else:
            st.alive = z3.Store(st.alive, p.base, z3.BoolVal(False))

    # ---- calls
    def find_contract(self, i):
        if i.get('callee'):
            n = i['callee']
            if n in self.contracts:
                return self.contracts[n], n
            h = self.lib.find(self, n, i)
            return h, n
        if i.get('vclass'):
            n = self.virtual_name(i['vclass'], i['vslot'])
            for k in n:
                if k in self.contracts:
                    return self.contracts[k], k
            return self.lib.find_virtual(self, n, i), (n[0] if n else '?')
        return self.lib.find_indirect(self, i), 'indirect'

    def virtual_name(self, vclass, slot):
        cls = demangle_ts(vclass)
        names = []
        for vt in self.mod['derived'].get(vclass, []):
            l = self.mod['vtables'].get(vt, [])
            if slot < len(l) and l[slot] and 'pure_virtual' not in l[slot]:
                d = self.lib.demangle(l[slot])
                # Class::method(args) -> method(args)
                m = method_of(d)
                k = 'virtual ' + cls + '::' + m
                if k not in names:
                    names.append(k)
        return names

    def call(self, i, pc, st, loc):
        if i.get('asm'):
            raise Unsupported('inline asm')
        c, name = self.find_contract(i)
        if c is None:
            raise Unsupported('call to %s without contract' % self.lib.demangle(name))
        args = [self.value(a) for a in i['args']]
        if isinstance(c, Contract):
            return self.call_contract(c, name, i, args, pc, st, loc)
        r, thrown = c.apply(self, i, args, pc, st, loc)
        if 'id' in i:
            self.vals[i['id']] = r
        return thrown

    def call_contract(self, c, name, i, args, pc, st, loc):
        short = self.lib.demangle(name).split('(')[0].split('::')[-1]
        self.used_contracts.add(c.key)
        pre = st.copy()
        ctx = Ctx(self, args, pre, at=loc)
        for k, g in c.elem.items():
            if k < len(args) and isinstance(args[k], PV) and g > 1 and args[k].off.gcd() % g:
                self.ob('pre', '%s: alignment of argument %d' % (short, k), pc, self.align_ob(args[k], g), loc)
        if c.bounds:
            for k, (lo, hi) in c.bounds.items():
                self.ob('pre', '%s: argument %d in range' % (short, k), pc, z3.And(args[k].e >= lo, args[k].e <= hi), loc)
        if self.contract.before_call:
            for f in self.contract.before_call(self, c.key, ctx):
                self.fact(f, pc)
        for label, f in c.requires(ctx):
            self.ob('pre', '%s: %s' % (short, label), pc, f, loc)
        # effects
        if c.allocates:
            st.next = fresh('next')
            self.fact(st.next >= pre.next)
        for a in c.assigns:
            self.havoc_assign(a, args, pre, st)
        if c.allocates or c.frees:
            st.alive = fresh('alive', AB)
            bq = z3.Int('bq')
            self.fact(z3.ForAll([bq], z3.Implies(z3.Select(st.alive, bq), bq < st.next), patterns=[z3.Select(st.alive, bq)]))
            if not c.frees:
                self.fact(z3.ForAll([bq], z3.Implies(bq < pre.next, z3.Select(st.alive, bq) == z3.Select(pre.alive, bq)), patterns=[z3.Select(st.alive, bq)]))
        for g in (c.ghost or ()):
            if g in st.ghost:
                st.ghost[g] = fresh('g_' + g, st.ghost[g].sort())
        if c.allocates:
            # fresh objects may have any contents: cells of objects >= pre.next
            for k in KINDS:
                m = fresh('Mc_%s' % k, AAI)
                bq = z3.Int('bq')
                self.fact(z3.ForAll([bq], z3.Implies(bq < pre.next, z3.Select(m, bq) == z3.Select(st.m[k], bq)), patterns=[z3.Select(m, bq)]))
                st.m[k] = m
        ret = None
        if 'id' in i:
            ty = i['ty']
            ret = self.havoc_ty(ty, 'r_' + short, (c.ret_elem or 1) if ty[0] == 'p' else 1)
            if isinstance(ret, IV) and c.retspec:
                lo, hi = c.retspec
                self.fact(z3.And(ret.e >= lo, ret.e <= hi))
                ret = IV(ret.e, lo, hi)
            if isinstance(ret, PV):
                self.fact(ret.base < st.next)
            self.vals[i['id']] = ret
        ctx.post, ctx.ret, ctx.pc = st.copy(), ret, pc
        self.calls[c.key].append(ctx)
        thrown = None
        if c.throws:
            thrown = fresh('throws', z3.BoolSort())
            self.fact(thrown == c.throws(ctx))
        elif c.may_throw:
            thrown = fresh('throws', z3.BoolSort())
        g = pc if thrown is None else z3.And(pc, z3.Not(thrown))
        for label, f in c.ensures(ctx):
            self.fact(f, g)
        if self.contract.after_call:
            for f in self.contract.after_call(self, c.key, ctx):
                self.fact(f, g)
        if c.allocates and c.noleak:
            own = c.owned(ctx) if c.owned else []
            bq = z3.Int('bq')
            self.fact(z3.ForAll([bq], z3.Implies(And(bq >= pre.next, z3.Select(st.alive, bq)), ownedby(own, bq)), patterns=[z3.Select(st.alive, bq)]))
        return thrown

    def assign_base(self, a, args, st):
        if a[0] == 'arg':
            return args[a[1]].base
        if a[0] == 'fn':
            return a[1](self, args, st)
        if a[0] == 'fld':
            return self.load_ptr_field(st, args[a[1]], a[2], a[3]).base
        if a[0] == 'deref':
            return self.load_as(st, args[a[1]], 8, True).base
        raise Unsupported(a)

    def assign_kinds(self, a):
        if a[0] in ('arg', 'deref', 'fn'):
            return a[2] if len(a) > 2 else KINDS
        if a[0] == 'fld':
            return a[4] if len(a) > 4 else KINDS
        return KINDS

    def havoc_assign(self, a, args, pre, st):
        if a[0] == 'all':
            for k in KINDS:
                st.m[k] = fresh('Mall_%s' % k, AAI)
            return
        b = self.assign_base(a, args, pre)
        for k in self.assign_kinds(a):
            st.setobj(k, b, fresh('oc_%s' % k, AI))

    # ---- exits
    def exit(self, pc, rv, st, loc):
        c = self.contract
        ctx = Ctx(self, self.argvals, self.st0, st, rv, at=loc)
        ctx.isdef = True
        self.exits.append((pc, rv, st, loc, len(self.facts)))
        if c.hints:
            for f in c.hints(ctx):
                self.fact(f, pc)
        for label, f in c.ensures(ctx):
            o = Ob('post:%s@%s' % (label, '%s:%s' % (loc[0].split('/')[-1], loc[1])), pc, f, len(self.facts), loc, 'post')
            self.obs.append(o)
        if c.retspec and isinstance(rv, IV):
            self.obs.append(Ob('post:result range', pc, z3.And(rv.e >= c.retspec[0], rv.e <= c.retspec[1]), len(self.facts), loc, 'post'))
        if c.throws:
            self.obs.append(Ob('throws:no exception means none was due@%s' % loc[1], pc, z3.Not(c.throws(ctx)), len(self.facts), loc, 'throws'))
        self.exit_frame(c, ctx, pc, st, loc, c.owned(ctx) if c.owned else [])

    def exit_frame(self, c, ctx, pc, st, loc, own):
        # frame
        if not any(a[0] == 'all' for a in c.assigns):
            allowed = defaultdict(list)
            for a in c.assigns:
                for k in self.assign_kinds(a):
                    allowed[k].append(self.assign_base(a, self.argvals, self.st0))
            for k in KINDS:
                if st.m[k].eq(self.st0.m[k]):
                    continue
                b = fresh('fb')
                cond = z3.Implies(And(b < self.st0.next, [b != x for x in allowed[k]]), z3.Select(st.m[k], b) == z3.Select(self.st0.m[k], b))
                self.obs.append(Ob('frame:nothing else written (%s)@%s' % (k, loc[1]), pc, cond, len(self.facts), loc, 'frame'))
        if not st.alive.eq(self.st0.alive):
            b = fresh('lb')
            stack = getattr(self, 'stack', [])
            if c.noleak:
                cond = z3.Implies(And(b >= self.st0.next, z3.Select(st.alive, b), [b != s for s in stack]), ownedby(own, b))
                self.obs.append(Ob('leak:every allocation released or handed to the caller@%s' % loc[1], pc, cond, len(self.facts), loc, 'leak'))
            if not c.frees:
                cond = z3.Implies(And(b < self.st0.next), z3.Select(st.alive, b) == z3.Select(self.st0.alive, b))
                self.obs.append(Ob('frame:no caller object released@%s' % loc[1], pc, cond, len(self.facts), loc, 'frame'))

    def exc_exit(self, pc, st, loc):
        c = self.contract
        ctx = Ctx(self, self.argvals, self.st0, st, None, at=loc)
        if c.throws:
            if c.hints:
                for f in c.hints(ctx):
                    self.fact(f, pc)
            self.obs.append(Ob('throws:exception only when documented@%s' % loc[1], pc, c.throws(ctx), len(self.facts), loc, 'throws'))
        elif not c.may_throw:
            self.obs.append(Ob('throws:no exception leaves the function@%s' % loc[1], pc, z3.BoolVal(False), len(self.facts), loc, 'throws'))
            return
        self.exit_frame(c, ctx, pc, st, loc, [])


def ownedby(own, b):
    return z3.Or(*[o(b) if callable(o) and not z3.is_expr(o) else b == o for o in own]) if own else z3.BoolVal(False)


class SkipCand(Exception):
    pass


def add(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() + b.as_long())
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    return a + b


def sub(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() - b.as_long())
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    return a - b


def mul(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() * b.as_long())
    return a * b


def split_mul(a, b):
    """product; a factor with few possible values is split by cases so that the product stays linear"""
    for x, y in ((a, b), (b, a)):
        if x.lo == x.hi or y.lo == y.hi:
            return mul(a.e, b.e)
    for x, y in ((a, b), (b, a)):
        cs = getattr(y, 'cases', None)
        if cs and len(cs) <= 64:
            e = x.e * cs[-1]
            for n in cs[:-1]:
                e = z3.If(y.e == n, x.e * n, e)
            return e
    for x, y in ((a, b), (b, a)):
        if y.hi - y.lo <= 16:
            e = x.e * y.hi
            for n in range(y.hi - 1, y.lo - 1, -1):
                e = z3.If(y.e == n, x.e * n, e)
            return e
    return mul(a.e, b.e)


def scale(l, s):
    return Lin(l.c * s, {i: (e, k * s) for i, (e, k) in l.t.items()})


def same_lin(a, b):
    d = a.add(b.neg())
    return not d.t and d.c == 0


def is_small(e):
    return e.num_args() == 0


def succs(t):
    k = t['k']
    if k == 'br':
        return [t['t']]
    if k == 'condbr':
        return [t['t'], t['f']]
    if k == 'switch':
        return [t['default']] + [x for _, x in t['cases']]
    if k == 'invoke':
        return [t['normal'], t['unwind']]
    return []


def demangle_ts(v):
    # _ZTSN9libvoikko12spellchecker7SpellerE -> libvoikko::spellchecker::Speller
    s = v[4:]
    if s.startswith('N'):
        s = s[1:]
    parts = []
    while s and s[0].isdigit():
        n = 0
        j = 0
        while s[j].isdigit():
            n = n * 10 + int(s[j])
            j += 1
        parts.append(s[j:j + n])
        s = s[j + n:]
    return '::'.join(parts)


def method_of(d):
    head = d.split('(')[0]
    return head.split('::')[-1] + d[len(head):]
