"""Name-independent loop-invariant candidates. Houdini keeps the inductive ones."""
import z3
from .vc import IV, PV, Lin, sz, SkipCand, KINDS


def outer_ints(enc, info):
    """integer values defined outside the loop and compared inside it, plus the integer arguments"""
    blocks = set(info['l']['blocks'])
    defs = {}
    for b, ins in enumerate(enc.fn['blocks']):
        for i in ins:
            if 'id' in i:
                defs[i['id']] = b
    out, seen = [], set()

    def addv(v):
        if v[0] == 'v' and v[1] in enc.vals and (v[1] not in defs or defs[v[1]] not in blocks):
            x = enc.vals[v[1]]
            if isinstance(x, IV) and x.e.get_id() not in seen and not z3.is_int_value(x.e):
                seen.add(x.e.get_id())
                out.append(x.e)
        elif v[0] == 'i' and v[1] > 8:
            n = int(v[2])
            if 0 < n < 100000 and n not in seen:
                seen.add(n)
                out.append(z3.IntVal(n))
    for b in info['l']['blocks']:
        for i in enc.fn['blocks'][b]:
            if i['k'] == 'icmp':
                addv(i['a'])
                addv(i['b'])
    for a in enc.argvals:
        if isinstance(a, IV) and a.e.get_id() not in seen:
            seen.add(a.e.get_id())
            out.append(a.e)
    return out


def generic(enc, info, lv0):
    ints = [p['id'] for p in info['phis'] if p['ty'][0] == 'i' and p['ty'][1] > 8]
    for x in [p['id'] for p in info['phis'] if p['ty'] == ['i', 8]]:
        yield '0<=%s<=1' % enc.pname(x), lambda v, x=x: z3.And(v.v(x) >= 0, v.v(x) <= 1)
        yield '%s=init' % enc.pname(x), lambda v, x=x, x0=info['inits'][x].e: v.v(x) == x0
    ptrs = [p['id'] for p in info['phis'] if p['ty'][0] == 'p']
    bools = [p['id'] for p in info['phis'] if p['ty'] == ['i', 1]]
    outs = outer_ints(enc, info)
    hdr_icmp = set()
    for x in ints:
        nm = enc.pname(x)
        x0 = info['inits'][x].e
        yield '%s>=init' % nm, lambda v, x=x, x0=x0: v.v(x) >= x0
        yield '%s<=init' % nm, lambda v, x=x, x0=x0: v.v(x) <= x0
        for y in outs:
            yield '%s<=%s' % (nm, y), lambda v, x=x, y=y: v.v(x) <= y
            if not z3.is_int_value(y):
                yield '%s<%s' % (nm, y), lambda v, x=x, y=y: v.v(x) < y
    for a in range(len(ints)):
        for b in range(len(ints)):
            if a == b:
                continue
            x, y = ints[a], ints[b]
            yield '%s<=%s' % (enc.pname(x), enc.pname(y)), lambda v, x=x, y=y: v.v(x) <= v.v(y)
            if a < b:
                x0, y0 = info['inits'][x].e, info['inits'][y].e
                yield 'lock(%s,%s)' % (enc.pname(x), enc.pname(y)), lambda v, x=x, y=y, x0=x0, y0=y0: v.v(x) - v.v(y) == x0 - y0
                yield 'sum(%s,%s)' % (enc.pname(x), enc.pname(y)), lambda v, x=x, y=y, x0=x0, y0=y0: v.v(x) + v.v(y) == x0 + y0
    for p in ptrs:
        h, i0 = info['hv'][p], info['inits'][p]
        if not isinstance(h, PV):
            continue
        nm = enc.pname(p)
        if not h.base.eq(i0.base):
            yield 'base(%s)' % nm, lambda v, p=p, i0=i0: v.phis[p].base == i0.base
        yield '%s.off>=init' % nm, lambda v, p=p, i0=i0: v.phis[p].off.z() >= i0.off.z()
        yield '%s.off<=size' % nm, lambda v, p=p: v.phis[p].off.z() <= sz(v.phis[p].base)
        yield '%s.off<size' % nm, lambda v, p=p: v.phis[p].off.z() < sz(v.phis[p].base)
        for x in ints:
            for w in (1, 4, 8):
                g = h.off.gcd()
                if g % w and w != 1:
                    continue
                x0 = info['inits'][x].e
                yield 'plock%d(%s,%s)' % (w, nm, enc.pname(x)), lambda v, p=p, x=x, x0=x0, i0=i0, w=w: v.phis[p].off.z() - i0.off.z() == w * (v.v(x) - x0)
        for q in ptrs:
            if q <= p:
                continue
            j0 = info['inits'][q]
            yield 'pplock(%s,%s)' % (nm, enc.pname(q)), lambda v, p=p, q=q, i0=i0, j0=j0: v.phis[p].off.z() - i0.off.z() == v.phis[q].off.z() - j0.off.z()
    fl = info['flags']
    pre = info['pre']
    b = z3.Int('bq')
    if fl['alloc'] or fl['free']:
        yield 'alive-frame', lambda v: z3.ForAll([b], z3.Implies(b < pre.next, z3.Select(v.st.alive, b) == z3.Select(pre.alive, b)), patterns=[z3.Select(v.st.alive, b)])
        if fl['alloc']:
            yield 'balanced', lambda v: z3.ForAll([b], z3.Implies(b >= pre.next, z3.Not(z3.Select(v.st.alive, b))), patterns=[z3.Select(v.st.alive, b)])
    if info['whole']:
        for k in KINDS:
            if info['mods'][k] is None:
                yield 'mem-frame-%s' % k, lambda v, k=k: z3.ForAll([b], z3.Implies(b < pre.next, z3.Select(v.st.m[k], b) == z3.Select(pre.m[k], b)), patterns=[z3.Select(v.st.m[k], b)])
                yield 'mem-frame0-%s' % k, lambda v, k=k: z3.ForAll([b], z3.Implies(b < enc.st0.next, z3.Select(v.st.m[k], b) == z3.Select(pre.m[k], b)), patterns=[z3.Select(v.st.m[k], b)])
                for n, a in enumerate(enc.argvals):
                    if isinstance(a, PV):
                        yield 'obj-frame-%s-%d' % (k, n), lambda v, k=k, a=a: v.st.obj(k, a.base) == pre.obj(k, a.base)
