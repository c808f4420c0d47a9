"""developer entry: python3-vt -m engine.dev [-b] pattern...   (verifies the functions under contract whose key contains a pattern)"""
import sys, os, json, time, pickle
from . import build, lib as L, solve
from .vc import *


def load_contracts():
    from contracts import ALL
    return ALL


def main():
    a = sys.argv[1:]
    work = os.environ.get('DEVWORK', '/tmp/w/dev')
    os.makedirs(work, exist_ok=True)
    nm = os.path.join(work, 'names.json')
    if '-b' in a or not os.path.exists(nm):
        names = build.bitcode(work)
        json.dump(names, open(nm, 'w'))
    names = json.load(open(nm))
    verbose = '-v' in a
    if '-l' in a:
        import z3
        from contracts import LEMMAS
        for prop, name, f, hyps in LEMMAS:
            if prop in a:
                for bad in (False, True):
                    so = z3.Solver()
                    so.set('timeout', 20000)
                    so.add(*hyps)
                    if not bad:
                        so.add(z3.Not(f))
                    t = time.time()
                    print(prop, name, '| hypotheses' if bad else '| negation', so.check(), '%.1fs' % (time.time() - t))
        return
    pats = [x for x in a if not x.startswith('-')]
    cs = load_contracts()
    bykey = {}
    for n, d in names.items():
        bykey.setdefault(d, []).append(n)
    contracts, sel = {}, []
    for c in cs:
        ns = sorted(bykey.get(c.key, []), key=lambda x: ('C2E' not in x and 'D2E' not in x, x))      # constructors and destructors: the complete-object names are aliases
        n = ns[0] if ns else None
        if c.key.startswith('virtual '):
            contracts[c.key] = c
            continue
        if n is None:
            print('MISSING', c.key)
            continue
        for x in ns:
            contracts[x] = c
        if any(p in c.key for p in pats) and not c.trusted:
            sel.append(n)
    mod = build.extract(work, [n for n in contracts if not n.startswith('virtual ')], sel)
    lib = L.Lib(list(names))
    from contracts import setup_lib
    setup_lib(lib)
    for f in mod['functions']:
        if f['name'] not in sel:
            continue
        c = contracts[f['name']]
        t = time.time()
        r = solve.verify(mod, f, contracts, lib, c, log=(print if verbose else lambda s: None), timeout_ms=c.timeout or 4000)
        print('== %s: %s (%.1fs, solver %.1fs, %s queries) obligations %d + %d inv, vacuity %s' % (c.key, r['status'], time.time() - t, r.get('ztime', 0), r.get('queries'), len(r.get('obs', [])), r.get('inv_obligations', 0), r.get('vacuity')))
        if r.get('reason'):
            print('   reason', r['reason'])
        for o in r.get('failed', []):
            print('   FAIL', o.status, o.name, '' if o.status == 'refuted' else o.info)
            if '-m' in a and isinstance(o.info, str):
                print('        ', o.info)
            elif '-m' in a and o.status == 'refuted':
                m = o.info
                for d in sorted(m.decls(), key=str):
                    if d.arity() == 0 and str(d.range()) in ('Int', 'Bool') and not str(d).startswith('on!'):
                        print('        ', d, m[d])
        if '-i' in a:
            for x in r.get('invariants', []):
                print('   inv', x)
            print('   assumed', r.get('assumed'), r.get('uses'))


if __name__ == '__main__':
    main()
