"""Assumed contracts of the C/C++ run time (trusted base) and demangling."""
import subprocess, z3
from .vc import *
from . import vc


class Model:
    def __init__(self, fn, mods=(), alloc=False, free=False):
        self.fn, self.mods, self.alloc, self.free = fn, mods, alloc, free

    def effects(self, i):
        return {'mods': [(k, i['args'][a] if not isinstance(a, str) else a) for k, a in self.mods], 'alloc': self.alloc, 'free': self.free, 'ghost': set()}

    def apply(self, enc, i, args, pc, st, loc):
        r = self.fn(enc, i, args, pc, st, loc)
        if isinstance(r, tuple):
            return r
        return r, None


def m_new(kind):
    def f(enc, i, args, pc, st, loc):
        n = enc.u(args[0], 64)
        enc.assumed.add('operator new does not fail (bad_alloc not modelled)')
        return enc.alloc(st, n.e, kind, pc)
    return f


def m_delete(kind):
    def f(enc, i, args, pc, st, loc):
        enc.free(st, args[0], kind, pc, loc)
        return None
    return f


def rd(enc, p, w):
    return enc.exact_idx(p, w)


def m_slen(w):
    F = WL4 if w == 4 else WL1

    def f(enc, i, args, pc, st, loc):
        p = args[0]
        cc = const_cases(enc, p)
        if cc:
            t = fresh('slen')
            for cond, u in cc:
                enc.fact(z3.Implies(cond, t == len(u) - 1))
            ls = [len(u) - 1 for _, u in cc]
            enc.fact(z3.And(t >= min(ls), t <= max(ls)))
            return IV(t, min(ls), max(ls))
        arr, k = st.obj(str(w), p.base), rd(enc, p, w)
        t = F(arr, k)
        enc.al(p, w, pc, loc)
        enc.ob('pre', 'wcslen: terminated string', pc, z3.And(enc.isalive(st, p.base), k >= 0, t >= 0, w * (k + t + 1) <= sz(p.base), arr[k + t] == 0), loc)
        # the two defining facts of the terminator position
        return IV(t, 0, 1 << 60)
    return f


def const_string(enc, v, i, argno):
    """list of code units when argument is a constant global string"""
    return const_units(enc, i['args'][argno])


def const_cases(enc, p):
    """[(condition, code units)] when the pointer is an entry of a constant table of strings"""
    if not getattr(p, 'cases', None):
        return None
    l = [(c, const_units(enc, a)) for c, a in p.cases]
    return None if any(u is None for _, u in l) else l


def const_units(enc, a):
    if a[0] != 'g':
        return None
    g = enc.mod['globals'].get(a[1])
    if not g or g.get('init') is None:
        return None
    off = a[2]
    l = []
    for o, t, *r in g['init']:
        if t != 'i':
            return None
        if o >= off:
            l.append(int(r[1]))
            if int(r[1]) == 0:
                return l
    return None


def m_wcschr(w):
    def f(enc, i, args, pc, st, loc):
        p, c = args[0], args[1]
        s = const_string(enc, p, i, 0)
        ce = c.e
        k = rd(enc, p, w)
        if s is not None:
            found = z3.Or(*[ce == x for x in s])
            idx = z3.IntVal(0)
            for n in range(len(s) - 1, -1, -1):
                idx = z3.If(ce == s[n], z3.IntVal(n), idx)
            j = enc.merge_e([(idx, z3.BoolVal(True))], 'chr') if False else idx
            jj = fresh('chr')
            enc.fact(jj == idx)
            b = fresh('chrb')
            enc.fact(b == z3.If(found, p.base, z3.IntVal(0)))
            o = fresh('chro')
            enc.fact(o == z3.If(found, k + jj, z3.IntVal(0)))
            return PV(b, Lin.of(o, w))
        F = WL4 if w == 4 else WL1
        arr = st.obj(str(w), p.base)
        t = F(arr, k)
        enc.ob('pre', 'wcschr: terminated string', pc, z3.And(enc.isalive(st, p.base), k >= 0, t >= 0, w * (k + t + 1) <= sz(p.base), arr[k + t] == 0), loc)
        found = fresh('found', z3.BoolSort())
        j = fresh('chr')
        m = z3.Int('mq')
        enc.fact(z3.Implies(found, z3.And(j >= 0, j <= t, arr[k + j] == ce)))
        enc.fact(z3.ForAll([m], z3.Implies(z3.And(k <= m, m < k + z3.If(found, j, t + 1)), arr[m] != ce), patterns=[arr[m]]))
        b = fresh('chrb')
        enc.fact(b == z3.If(found, p.base, z3.IntVal(0)))
        o = fresh('chro')
        enc.fact(o == z3.If(found, k + j, z3.IntVal(0)))
        return PV(b, Lin.of(o, w))
    return f


# first index m in [lo, hi) with a[m] == c, or hi
FIRST = z3.Function('first_index', AI, INT, INT, INT, INT)


def first_facts(a, lo, hi, c):
    f, m = FIRST(a, lo, hi, c), z3.Int('mq')
    return [z3.Implies(lo <= hi, z3.And(lo <= f, f <= hi)), z3.Implies(z3.And(lo <= f, f < hi), a[f] == c),
            z3.ForAll([m], z3.Implies(z3.And(lo <= m, m < f), a[m] != c), patterns=[a[m]])]


def m_wmemchr(w):
    def f(enc, i, args, pc, st, loc):
        p, c, n = args[0], args[1], enc.u(args[2], 64)
        k = rd(enc, p, w)
        enc.al(p, w, pc, loc)
        arr = st.obj(str(w), p.base)
        enc.ob('oob', 'character search range', pc, z3.Or(n.e == 0, z3.And(enc.isalive(st, p.base), k >= 0, w * (k + n.e) <= sz(p.base))), loc)
        F = FIRST(arr, k, k + n.e, c.e)
        for x in first_facts(arr, k, k + n.e, c.e):
            enc.fact(x)
        b, o = fresh('chrb'), fresh('chro')
        enc.fact(b == z3.If(F < k + n.e, p.base, z3.IntVal(0)))
        enc.fact(o == z3.If(F < k + n.e, F, z3.IntVal(0)))
        return PV(b, Lin.of(o, w))
    return f


def m_ncmp(w, bounded):
    def f(enc, i, args, pc, st, loc):
        a, b = args[0], args[1]
        sa, sb = const_string(enc, a, i, 0), const_string(enc, b, i, 1)
        r = fresh('cmp')
        enc.fact(z3.And(r >= -(1 << 31), r < (1 << 31)))
        n = args[2] if bounded else None
        if sb is None and sa is not None:
            a, b, sa, sb = b, a, sb, sa
        ka = rd(enc, a, w)
        arr = st.obj(str(w), a.base)
        if sb is not None and (n is None or n.lo == n.hi):
            lim = len(sb) if n is None else min(len(sb), n.lo)
            eq = z3.BoolVal(True)
            for j in range(lim):
                # cell j is read when all before matched
                enc.ob('oob', 'string compare read %d' % j, And(pc, eq), z3.And(enc.isalive(st, a.base), ka + j >= 0, w * (ka + j + 1) <= sz(a.base)), loc)
                x = sel(arr, ka + j)
                eq = And(eq, x == sb[j])
            enc.fact((r == 0) == eq)
            return IV(r, -(1 << 31), (1 << 31) - 1)
        cc = const_cases(enc, b)
        if cc:
            nn = z3.IntVal(1 << 60) if n is None else enc.u(n, 64).e
            for cond, u in cc:
                eq = z3.BoolVal(True)
                for j in range(len(u)):
                    enc.ob('oob', 'string compare read %d' % j, And(pc, cond, eq, nn > j), z3.And(enc.isalive(st, a.base), ka + j >= 0, w * (ka + j + 1) <= sz(a.base)), loc)
                    eq = And(eq, z3.Or(nn <= j, sel(arr, ka + j) == u[j]))
                enc.fact(z3.Implies(cond, (r == 0) == eq))
            return IV(r, -(1 << 31), (1 << 31) - 1)
        kb = rd(enc, b, w)
        arb = st.obj(str(w), b.base)
        F = WL4 if w == 4 else WL1
        m = z3.Int('mq')
        if n is None:
            ta, tb = F(arr, ka), F(arb, kb)
            for p, k, t, ar in ((a, ka, ta, arr), (b, kb, tb, arb)):
                enc.ob('pre', 'string compare: terminated string', pc, z3.And(enc.isalive(st, p.base), k >= 0, t >= 0, w * (k + t + 1) <= sz(p.base), ar[k + t] == 0), loc)
            enc.fact((r == 0) == z3.And(ta == tb, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ta), arr[ka + m] == arb[kb + m]))))
            return IV(r, -(1 << 31), (1 << 31) - 1)
        nn = enc.u(n, 64).e
        for p, k in ((a, ka), (b, kb)):
            enc.ob('pre', 'bounded compare: readable range', pc, z3.Or(nn == 0, z3.And(enc.isalive(st, p.base), k >= 0, w * (k + nn) <= sz(p.base))), loc)
        # equal iff no difference before the first terminator within n
        q = z3.Int('qq')
        d = fresh('cmpd')
        enc.fact(z3.Implies(r == 0, z3.ForAll([m], z3.Implies(z3.And(ka <= m, m < ka + nn, z3.ForAll([q], z3.Implies(z3.And(ka <= q, q < m), arr[q] != 0))), arr[m] == arb[kb + m - ka]), patterns=[arr[m]])))
        enc.fact(z3.Implies(r != 0, z3.And(0 <= d, d < nn, arr[ka + d] != arb[kb + d], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < d), z3.And(arr[ka + q] == arb[kb + q], arr[ka + q] != 0))))))
        return IV(r, -(1 << 31), (1 << 31) - 1)
    return f


# number of equal cells before the first difference of a[i..i+n) and b[j..j+n), n if there is none
FDIFF = z3.Function('first_difference', AI, INT, AI, INT, INT, INT)


def m_memcmp(w):
    def f(enc, i, args, pc, st, loc):
        a, b, n = args[0], args[1], enc.u(args[2], 64).e
        ka, kb = rd(enc, a, w), rd(enc, b, w)
        enc.al(a, w, pc, loc)
        enc.al(b, w, pc, loc)
        x, y, m = enc.name_arr(st.obj(str(w), a.base)), enc.name_arr(st.obj(str(w), b.base)), z3.Int('mq')
        for p, k in ((a, ka), (b, kb)):
            enc.ob('oob', 'block compare: readable range', pc, z3.Or(n == 0, z3.And(enc.isalive(st, p.base), k >= 0, w * (k + n) <= sz(p.base))), loc)
        r, d = fresh('cmp'), FDIFF(x, ka, y, kb, n)
        enc.fact(z3.And(r >= -(1 << 31), r < (1 << 31), d >= 0, d <= n, (r == 0) == (d == n), z3.Implies(d < n, x[ka + d] != y[kb + d])))
        enc.fact(z3.ForAll([m], z3.Implies(z3.And(ka <= m, m < ka + d), x[m] == y[kb + m - ka]), patterns=[x[m]]))
        enc.fact(z3.ForAll([m], z3.Implies(z3.And(kb <= m, m < kb + d), y[m] == x[ka + m - kb]), patterns=[y[m]]))
        if w > 1:
            enc.fact(z3.Implies(d < n, (r < 0) == (x[ka + d] < y[kb + d])))
        return IV(r, -(1 << 31), (1 << 31) - 1)
    return f


def copy_range(enc, st, kind, d, dk, s_arr, sk, n):
    """dst object d: cells [dk, dk+n) from s_arr[sk..]"""
    old = st.obj(kind, d)
    new = fresh('cp', AI)
    m = z3.Int('mq')
    enc.fact(z3.ForAll([m], new[m] == z3.If(z3.And(dk <= m, m < dk + n), s_arr[sk + (m - dk)], old[m]), patterns=[new[m]]))
    st.setobj(kind, d, new)


def m_wcscpy(w):
    def f(enc, i, args, pc, st, loc):
        d, s = args[0], args[1]
        kd, ks = rd(enc, d, w), rd(enc, s, w)
        arr = st.obj(str(w), s.base)
        cs = const_string(enc, s, i, 1)
        if cs is not None:
            enc.ob('oob', 'string copy destination', pc, z3.And(enc.isalive(st, d.base), kd >= 0, w * (kd + len(cs)) <= sz(d.base)), loc)
            o = st.obj(str(w), d.base)
            for n, x in enumerate(cs):
                o = z3.Store(o, kd + n, z3.IntVal(x))
            st.setobj(str(w), d.base, o)
            return d
        F = WL4 if w == 4 else WL1
        t = F(arr, ks)
        enc.ob('pre', 'string copy: terminated source', pc, z3.And(enc.isalive(st, s.base), ks >= 0, t >= 0, w * (ks + t + 1) <= sz(s.base), arr[ks + t] == 0), loc)
        enc.ob('oob', 'string copy destination', pc, z3.And(enc.isalive(st, d.base), kd >= 0, w * (kd + t + 1) <= sz(d.base)), loc)
        enc.ob('pre', 'string copy: no overlap', pc, d.base != s.base, loc)
        copy_range(enc, st, str(w), d.base, kd, arr, ks, t + 1)
        return d
    return f


def m_wcsncpy(w):
    def f(enc, i, args, pc, st, loc):
        d, s, n = args[0], args[1], enc.u(args[2], 64)
        kd, ks = rd(enc, d, w), rd(enc, s, w)
        arr = st.obj(str(w), s.base)
        F = WL4 if w == 4 else WL1
        t = F(arr, ks)
        # reads at most min(n, terminator+1)
        rdok = z3.Or(n.e == 0, z3.And(enc.isalive(st, s.base), ks >= 0, z3.Or(w * (ks + n.e) <= sz(s.base), z3.And(t >= 0, t < n.e, arr[ks + t] == 0, w * (ks + t + 1) <= sz(s.base)))))
        enc.ob('oob', 'bounded copy source', pc, rdok, loc)
        enc.ob('oob', 'bounded copy destination', pc, z3.Or(n.e == 0, z3.And(enc.isalive(st, d.base), kd >= 0, w * (kd + n.e) <= sz(d.base))), loc)
        old = st.obj(str(w), d.base)
        new = fresh('cp', AI)
        m = z3.Int('mq')
        src = arr[ks + (m - kd)]
        # padding with zero after the terminator
        pad = z3.And(t >= 0, arr[ks + t] == 0, m - kd > t)
        enc.fact(z3.ForAll([m], new[m] == z3.If(z3.And(kd <= m, m < kd + n.e), z3.If(pad, z3.IntVal(0), src), old[m]), patterns=[new[m]]))
        enc.fact(t >= -1)
        st.setobj(str(w), d.base, new)
        return d
    return f


def m_memcpy(unit):
    """memcpy/memmove/wmemcpy: count in units of `unit` bytes"""
    def f(enc, i, args, pc, st, loc):
        d, s, n = args[0], args[1], enc.u(args[2], 64)
        nb = n.e * unit
        enc.ob('oob', 'block copy source', pc, z3.Or(n.e == 0, z3.And(enc.isalive(st, s.base), s.off.z() >= 0, s.off.z() + nb <= sz(s.base))), loc)
        enc.ob('oob', 'block copy destination', pc, z3.Or(n.e == 0, z3.And(enc.isalive(st, d.base), d.off.z() >= 0, d.off.z() + nb <= sz(d.base))), loc)
        for k, w in (('1', 1), ('2', 2), ('4', 4), ('8', 8), ('pb', 8), ('po', 8)):
            if not lin_of(nb).t and lin_of(nb).c // w <= 4:
                # a few cells: exact when both sides are aligned (a trailing partial cell is unknown), contents unknown otherwise
                kd, ks = enc.exact_idx(d, w), enc.exact_idx(s, w)
                o, src = st.obj(k, d.base), st.obj(k, s.base)
                for x in range(lin_of(nb).c // w):
                    o = z3.Store(o, kd + x, src[ks + x])
                if lin_of(nb).c % w:
                    o = z3.Store(o, kd + lin_of(nb).c // w, fresh('part'))
                ok = z3.And(enc.align_ob(d, w), enc.align_ob(s, w))
                if not z3.is_true(z3.simplify(ok)):
                    new = fresh('cpu', AI)
                    enc.fact(z3.Implies(ok, new == o))
                    o = new
                st.setobj(k, d.base, o)
                continue
            if d.off.gcd() % w or s.off.gcd() % w:
                # unaligned view: contents unknown
                st.setobj(k, d.base, fresh('cpu', AI))
                continue
            kd, ks = d.off.divexact(w).z(), s.off.divexact(w).z()
            ln = lin_of(nb)
            if ln.gcd() % w == 0:
                copy_range(enc, st, k, d.base, kd, st.obj(k, s.base), ks, ln.divexact(w).z())
            elif not ln.t:
                if ln.c >= w:
                    copy_range(enc, st, k, d.base, kd, st.obj(k, s.base), ks, z3.IntVal(ln.c // w))
                # trailing partial cell: unknown
                o = st.obj(k, d.base)
                st.setobj(k, d.base, z3.Store(o, kd + ln.c // w, fresh('part')))
            else:
                q, r = fresh('q'), fresh('r')
                enc.fact(z3.And(nb == w * q + r, r >= 0, r < w))
                copy_range(enc, st, k, d.base, kd, st.obj(k, s.base), ks, q)
                st.setobj(k, d.base, z3.If(r == 0, st.obj(k, d.base), z3.Store(st.obj(k, d.base), kd + q, fresh('part'))))
        return d
    return f


def m_memset(unit):
    def f(enc, i, args, pc, st, loc):
        d, v, n = args[0], args[1], enc.u(args[2], 64)
        nb = n.e * unit
        enc.ob('oob', 'block set destination', pc, z3.Or(n.e == 0, z3.And(enc.isalive(st, d.base), d.off.z() >= 0, d.off.z() + nb <= sz(d.base))), loc)
        m = z3.Int('mq')
        for k, w in (('1', 1), ('2', 2), ('4', 4), ('8', 8), ('pb', 8), ('po', 8)):
            old = st.obj(k, d.base)
            new = fresh('ms', AI)
            if v.lo == v.hi == 0:
                x = z3.IntVal(0)
            elif w == unit:
                x = v.e
            elif v.lo == v.hi and k in '1248' and unit == 1:
                x = z3.IntVal(const(int.from_bytes(bytes([v.lo % 256] * w), 'little'), w * 8).lo)
            else:
                st.setobj(k, d.base, fresh('msu', AI))
                continue
            if d.off.gcd() % w:
                st.setobj(k, d.base, fresh('msu', AI))
                continue
            kd = d.off.divexact(w).z()
            ln = lin_of(nb)
            if ln.gcd() % w == 0:
                q = ln.divexact(w).z()
            elif not ln.t:
                q = z3.IntVal(ln.c // w)
            else:
                q, r = fresh('q'), fresh('r')
                enc.fact(z3.And(nb == w * q + r, r >= 0, r < w))
            if z3.is_int_value(q) and q.as_long() <= 4:
                o = old
                for j in range(q.as_long()):
                    o = z3.Store(o, kd + j, x)
                st.setobj(k, d.base, o)
                continue
            enc.fact(z3.ForAll([m], new[m] == z3.If(z3.And(kd <= m, m < kd + q), x, old[m]), patterns=[new[m]]))
            st.setobj(k, d.base, new)
        return d
    return f


def m_wcscmp(w):
    return m_ncmp(w, False)


def m_havoc(enc, i, args, pc, st, loc):
    return enc.havoc_ty(i['ty'], 'ext') if 'id' in i else None


def m_nop(enc, i, args, pc, st, loc):
    return None


def m_noreturn(enc, i, args, pc, st, loc):
    return (enc.havoc_ty(i['ty'], 'ext') if 'id' in i else None), z3.BoolVal(True)


def m_abort(enc, i, args, pc, st, loc):
    enc.ob('abort', 'the program is not terminated', pc, z3.BoolVal(False), loc)
    return (enc.havoc_ty(i['ty'], 'ext') if 'id' in i else None), None


def m_first_arg(enc, i, args, pc, st, loc):
    return args[0]


def m_exc_alloc(enc, i, args, pc, st, loc):
    p = enc.alloc(st, args[0].e, 9, pc)
    enc.stack = getattr(enc, 'stack', [])
    enc.stack.append(p.base)
    return p


def m_assert_fail(enc, i, args, pc, st, loc):
    enc.ob('assert', 'assertion in the code holds', pc, z3.BoolVal(False), loc)
    return None, z3.BoolVal(True)


def m_umax(op):
    def f(enc, i, args, pc, st, loc):
        a, b = args
        w = i['ty'][1]
        if op[0] == 'u':
            ua, ub = enc.u(a, w), enc.u(b, w)
        else:
            ua, ub = a, b
        c = ua.e >= ub.e if op.endswith('max') else ua.e <= ub.e
        return enc.towidth(IV(z3.If(c, ua.e, ub.e), min(ua.lo, ub.lo), max(ua.hi, ub.hi)), w)
    return f


def m_mulov(op):
    def f(enc, i, args, pc, st, loc):
        w = i['ty'][1][1]
        a, b = enc.u(args[0], w), enc.u(args[1], w)
        if op == 'mul':
            if b.lo == b.hi:
                e, lo, hi = a.e * b.lo, a.lo * b.lo, a.hi * b.lo
            elif a.lo == a.hi:
                e, lo, hi = b.e * a.lo, b.lo * a.lo, b.hi * a.lo
            else:
                e, lo, hi = a.e * b.e, a.lo * b.lo, a.hi * b.hi
        else:
            e, lo, hi = a.e + b.e, a.lo + b.lo, a.hi + b.hi
        ov = z3.BoolVal(False) if hi < (1 << w) else e >= (1 << w)
        return AG([enc.wrap(e, lo, hi, w), ov])
    return f


ALL4 = ('4',)
TABLE = {
    '_Znam': Model(m_new(1), alloc=True), '_Znwm': Model(m_new(2), alloc=True), 'malloc': Model(m_new(3), alloc=True),
    '_ZdaPv': Model(m_delete(1), free=True), '_ZdlPv': Model(m_delete(2), free=True), '_ZdlPvm': Model(m_delete(2), free=True), '_ZdaPvm': Model(m_delete(1), free=True),
    'free': Model(m_delete(3), free=True),
    'wcslen': Model(m_slen(4)), 'strlen': Model(m_slen(1)),
    'wcschr': Model(m_wcschr(4)), 'strchr': Model(m_wcschr(1)),
    'wcsncmp': Model(m_ncmp(4, True)), 'strncmp': Model(m_ncmp(1, True)), 'wcscmp': Model(m_ncmp(4, False)), 'strcmp': Model(m_ncmp(1, False)),
    'wmemchr': Model(m_wmemchr(4)), 'memchr': Model(m_wmemchr(1)),
    'wmemcmp': Model(m_memcmp(4)), 'memcmp': Model(m_memcmp(1)), 'bcmp': Model(m_memcmp(1)),
    'wcscpy': Model(m_wcscpy(4), mods=((('4',), 0),)), 'strcpy': Model(m_wcscpy(1), mods=((('1',), 0),)),
    'wcsncpy': Model(m_wcsncpy(4), mods=((('4',), 0),)), 'strncpy': Model(m_wcsncpy(1), mods=((('1',), 0),)),
    'wmemcpy': Model(m_memcpy(4), mods=((KINDS, 0),)), 'memcpy': Model(m_memcpy(1), mods=((KINDS, 0),)), 'memmove': Model(m_memcpy(1), mods=((KINDS, 0),)),
    'memset': Model(m_memset(1), mods=((KINDS, 0),)), 'wmemset': Model(m_memset(4), mods=((KINDS, 0),)),
    '__cxa_begin_catch': Model(m_havoc), '__cxa_end_catch': Model(m_nop), '__cxa_free_exception': Model(m_nop), '__cxa_allocate_exception': Model(m_exc_alloc),
    '__cxa_throw': Model(m_noreturn), '__cxa_rethrow': Model(m_noreturn), '__clang_call_terminate': Model(m_abort), '_ZSt9terminatev': Model(m_abort),
    '_ZNSt9exceptionC2Ev': Model(m_nop), '_ZNSt9exceptionC1Ev': Model(m_nop), '_ZNSt9exceptionD2Ev': Model(m_nop), '_ZNSt9exceptionD1Ev': Model(m_nop),
    '__assert_fail': Model(m_assert_fail), 'abort': Model(m_abort),
}
TABLE = {k: v for k, v in TABLE.items() if v}
PREFIX = [
    ('llvm.umul.with.overflow', Model(m_mulov('mul'))), ('llvm.uadd.with.overflow', Model(m_mulov('add'))),
    ('llvm.memcpy', TABLE['memcpy']), ('llvm.memmove', TABLE['memmove']), ('llvm.memset', TABLE['memset']),
    ('llvm.umax', Model(m_umax('umax'))), ('llvm.umin', Model(m_umax('umin'))), ('llvm.smax', Model(m_umax('smax'))), ('llvm.smin', Model(m_umax('smin'))),
    ('llvm.eh.typeid.for', Model(m_havoc)), ('llvm.dbg', Model(m_nop)), ('llvm.stacksave', Model(m_havoc)), ('llvm.stackrestore', Model(m_nop)),
    ('llvm.trap', Model(m_noreturn)), ('llvm.experimental', Model(m_nop)), ('llvm.invariant', Model(m_havoc)), ('llvm.expect', Model(m_first_arg)), ('llvm.prefetch', Model(m_nop)),
]


class Lib:
    def __init__(self, names=()):
        self.cache = {}
        names = [n for n in names if n]
        if names:
            out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            for n, d in zip(names, out):
                self.cache[n] = d
        self.extra = {}      # demangled prefix -> Model (contracts may register)
        self.extra_virtual = {}

    def demangle(self, n):
        if n not in self.cache:
            self.cache[n] = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        return self.cache[n]

    def find(self, enc, n, i):
        m = TABLE.get(n)
        if m is None:
            for p, mm in PREFIX:
                if n.startswith(p):
                    m = mm
                    break
        if m is None:
            d = self.demangle(n)
            for p, mm in self.extra.items():
                if d.startswith(p):
                    m = mm
                    n = p
                    break
        if m is not None:
            if not n.startswith('llvm.dbg'):
                enc.assumed.add('library: ' + n)
        return m

    def find_virtual(self, enc, names, i):
        for n in names:
            for p, mm in self.extra_virtual.items():
                if n.startswith(p):
                    enc.assumed.add('virtual: ' + p)
                    return mm
        return None

    def find_indirect(self, enc, i):
        return None
