#!/usr/bin/env python3-vt
"""python3-vt check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Rebuilds /repo's library to bitcode, regenerates every proof obligation of the functions under contract for the
property, discharges them, then runs the bounded native stand-in of the property. See DESIGN.md."""
import sys, os, json, time, tempfile, shutil, subprocess, re, multiprocessing as mp, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import z3
from engine import build, lib as L, solve, native
from engine.vc import *
import contracts as C

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
THOROUGH = TIER == 'thorough'
FN_BUDGET = 900 if THOROUGH else 150
PHASE_BUDGET = 3000 if THOROUGH else 330        # wall limit of the whole proof phase
G = {}


def worker(i):
    """verify one function in this process"""
    f, c = G['jobs'][i]
    try:
        r = solve.verify(G['mod'], f, G['contracts'], G['lib'], c, timeout_ms=(c.timeout or 4000) * (3 if THOROUGH else 1), cvc5_s=60 if THOROUGH else 10,
                         budget_s=min(FN_BUDGET, max(10, G['deadline'] - time.time())))
    except Exception:
        r = {'function': f['demangled'], 'status': 'unsupported', 'reason': traceback.format_exc()[-1500:]}
    out = {k: r.get(k) for k in ('function', 'file', 'line', 'status', 'reason', 'loops', 'invariants', 'assumed', 'uses', 'inv_obligations', 'vacuity', 'ztime', 'queries', 'time')}
    out['key'] = c.key
    out['n'] = len(r.get('obs') or [])
    out['proved'] = sum(1 for o in (r.get('obs') or []) if o.status == 'proved')
    out['backends'] = {}
    for o in (r.get('obs') or []):
        if o.status == 'proved':
            out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
    out['failed'] = []
    for o in (r.get('failed') or []):
        info = ''
        if o.status == 'refuted' and o.info is not None:
            try:
                m = o.info
                info = m if isinstance(m, str) else '; '.join('%s=%s' % (d, m[d]) for d in sorted(m.decls(), key=str) if d.arity() == 0 and str(d.range()) in ('Int', 'Bool') and not str(d).startswith('on!'))[:3000]
            except Exception:
                info = ''
        else:
            info = str(o.info)
        out['failed'].append({'name': o.name, 'kind': o.kind, 'status': o.status, 'loc': o.loc, 'info': info})
    return out


def job(i, q):
    try:
        q.put((i, worker(i)))
    except BaseException as e:
        q.put((i, {'status': 'unsupported', 'reason': repr(e), 'key': G['jobs'][i][1].key, 'function': G['jobs'][i][1].key, 'failed': [], 'n': 0, 'proved': 0, 'backends': {}}))


def run_parallel(n, procs):
    q = mp.Queue()
    pend, live, res = list(range(n)), {}, {}
    while pend or live:
        while pend and len(live) < procs:
            i = pend.pop(0)
            p = mp.Process(target=job, args=(i, q))
            p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            res[i] = r
            p, _ = live.pop(i, (None, 0))
            if p:
                p.join(5)
        except Exception:
            pass
        for i, (p, t) in list(live.items()):
            dead = not p.is_alive() and q.empty() and time.time() - t > 2
            late = time.time() - t > FN_BUDGET + 60 or time.time() > G['deadline'] + 30
            if dead or late:
                if p.is_alive():
                    p.kill()
                live.pop(i)
                if i not in res:
                    res[i] = {'status': 'undecided', 'reason': 'verifier process ended: ' + ('time' if late else 'no result'), 'key': G['jobs'][i][1].key,
                              'function': G['jobs'][i][1].key, 'failed': [], 'n': 0, 'proved': 0, 'backends': {}}
        if time.time() > G['deadline'] + 30:
            for i in pend:
                res[i] = {'status': 'undecided', 'reason': 'time', 'key': G['jobs'][i][1].key, 'function': G['jobs'][i][1].key, 'failed': [], 'n': 0, 'proved': 0, 'backends': {}}
            pend = []
    return [res[i] for i in range(n)]


def prove(work):
    names = build.bitcode(work)
    bykey = {}
    for n, d in names.items():
        bykey.setdefault(d, []).append(n)
    contracts, sel, missing, trusted = {}, [], [], []
    for c in C.ALL:
        if c.key.startswith('virtual '):
            contracts[c.key] = c
            continue
        ns = sorted(bykey.get(c.key, []), key=lambda x: ('C2E' not in x and 'D2E' not in x, x))      # constructors and destructors: the complete-object names are aliases
        n = ns[0] if ns else None
        if n is None:
            if PROP in c.props:
                missing.append(c.key)
            continue
        for x in ns:
            contracts[x] = c
        if PROP in c.props:
            if c.trusted:
                trusted.append(c.key)
            else:
                sel.append(n)
    mod = build.extract(work, [n for n in contracts if not n.startswith('virtual ')], sel)
    lib = L.Lib(list(names))
    C.setup_lib(lib)
    G.update(mod=mod, contracts=contracts, lib=lib, deadline=time.time() + PHASE_BUDGET)
    G['jobs'] = [(f, contracts[f['name']]) for f in mod['functions'] if f['name'] in sel]
    # longest first, by number of instructions
    G['jobs'].sort(key=lambda j: -sum(len(b) for b in j[0]['blocks']))
    res = run_parallel(len(G['jobs']), min(8, max(1, os.cpu_count() or 8)))
    lem = []
    for prop, name, f, hyps in C.LEMMAS:
        if prop != PROP:
            continue
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyps)
        s.add(z3.Not(f))
        r = s.check()
        st = {'unsat': 'proved', 'sat': 'refuted'}.get(str(r), 'unknown')
        # the hypotheses of a lemma must not be contradictory
        if st == 'proved' and hyps:
            s2 = z3.Solver()
            s2.set('timeout', 5000)
            s2.add(*hyps)
            if s2.check() == z3.unsat:
                st = 'vacuous'
        lem.append({'name': name, 'status': st})
    return {'functions': res, 'missing': missing, 'trusted': trusted, 'lemmas': lem, 'source_files': len(build.sources())}


def main():
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='voikko-%s-' % PROP)
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'violations': 0}
    rc = 0
    lines = []
    try:
        nat = native.Native(work, PROP, SEED, TIER)
        pr, perr = None, None
        try:
            pr = prove(work)
        except build.BuildError as e:
            perr = 'build: ' + str(e)[-1500:]
        except Exception:
            perr = traceback.format_exc()[-2000:]
        if nat.exists:
            nat.build()
        failed, undecided = [], []
        if pr:
            for r in pr['functions']:
                if r['status'] == 'failed' or r['status'] == 'undecided':
                    hard = [o for o in r['failed'] if o['status'] == 'refuted' or 'incomplete' in o['info']]
                    if hard:
                        failed.append((r, hard))
                    else:
                        undecided.append(r)
                elif r['status'] in ('unsupported', 'vacuous'):
                    undecided.append(r)
            for l in pr['lemmas']:
                if l['status'] == 'refuted':
                    failed.append(({'key': 'lemma', 'function': l['name']}, [{'name': 'lemma:' + l['name'], 'status': l['status'], 'kind': 'lemma', 'loc': None, 'info': ''}]))
        clean = pr is not None and not failed and not undecided and not pr['missing'] and all(l['status'] == 'proved' for l in pr['lemmas'])
        nr = nat.run(extended=not clean)
        known = native.known(PROP)
        viol = []
        for f in nr['fails']:
            k = [x for x in known if re.search(x['match'], f)]
            if k:
                lines.append('KNOWN-FINDING: property=%s %s' % (PROP, k[0]['what']))
            else:
                viol.append(f)
        rep = None
        if viol:
            rep = os.path.join(evdir, 'replay-%s.txt' % PROP)
            with open(rep, 'w') as f:
                f.write('property %s: failing input on the real code\n\n%s\n\nre-run: VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s\n' % (PROP, '\n'.join(viol), SEED, TIER, PROP))
                for r, hard in failed:
                    f.write('\nfailed obligations of %s\n' % r['function'])
                    for o in hard:
                        f.write('  %s  %s\n     %s\n' % (o['status'], o['name'], o['info']))
            rc = 1
            lines.append('VIOLATION property=%s replay=%s' % (PROP, rep))
            ev['violations'] = len(viol)
        elif failed:
            kept = []
            for r, hard in failed:
                for o in hard:
                    s = '%s %s' % (r['key'], o['name'])
                    k = [x for x in known if re.search(x['match'], s)]
                    if k:
                        lines.append('KNOWN-FINDING: property=%s %s' % (PROP, k[0]['what']))
                    else:
                        kept.append((r, o))
            if kept:
                rep = os.path.join(evdir, 'replay-%s.txt' % PROP)
                with open(rep, 'w') as f:
                    f.write('property %s: proof obligations regenerated from the current source that no longer hold\n' % PROP)
                    for r, o in kept:
                        f.write('\n%s (%s:%s)\n  %s  %s\n  %s\n' % (r['function'], r.get('file'), r.get('line'), o['status'], o['name'], o['info']))
                rc = 1
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, rep))
                ev['violations'] = len(kept)
        obl = dis = 0
        fns, assumed, uses, backends, ztime = [], set(), set(), {}, 0.0
        if pr:
            for r in pr['functions']:
                n = r['n'] + (r.get('inv_obligations') or 0)
                d = r['proved'] + (r.get('inv_obligations') or 0)
                obl += n
                dis += d
                ztime += r.get('ztime') or 0
                assumed |= set(r.get('assumed') or [])
                uses |= set(r.get('uses') or [])
                for k, v in r['backends'].items():
                    backends[k] = backends.get(k, 0) + v
                fns.append({'function': r['key'], 'status': r['status'], 'obligations': n, 'discharged': d, 'loops': r.get('loops'), 'vacuity': r.get('vacuity'), 'seconds': round(r.get('time') or 0, 2),
                            'reason': r.get('reason'), 'failed': [o['name'] for o in r['failed']][:20]})
            obl += len(pr['lemmas'])
            dis += sum(1 for l in pr['lemmas'] if l['status'] == 'proved')
        if pr and not fns and not pr['lemmas'] and not pr['missing']:
            perr = 'no obligation was generated'
        ev['coverage'] = {'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3-vt check.py %s' % PROP,
                          'trusted_base': ['clang 18 front end and the LLVM passes run by engine/irdump (sroa, early-cse, simplifycfg, instsimplify, adce)', 'engine/vc.py (VC generator)', 'z3 (python binding), cvc5 1.1.2',
                                           'memory model: distinct allocations are distinct objects, no int-to-pointer casts, text lengths below 2^28'],
                          'functions_under_contract': fns, 'lemmas': pr['lemmas'] if pr else [], 'discharged_by': backends, 'solver_seconds': round(ztime, 2),
                          'contracts_relied_on': sorted(uses), 'missing_functions': pr['missing'] if pr else [], 'proof_error': perr,
                          'undecided': [r['key'] for r in undecided],
                          'bounded': {k: nr.get(k) for k in ('ran', 'cases', 'distinct', 'rule', 'samples', 'seconds', 'note')}}
        ev['assumptions'] = ['external function model: ' + a for a in sorted(assumed)] + ['trusted contract: ' + t for t in (pr['trusted'] if pr else [])] + list(C.ASSUMPTIONS.get(PROP, []))
        ev['wall_s'] = round(time.time() - T0, 2)
        if perr:
            lines.append('NOTE proof phase not completed: ' + perr.strip().split('\n')[-1][:300])
        for r in undecided:
            lines.append('NOTE undecided by the verifier, bounded stand-in only: %s (%s)' % (r['key'], (r.get('reason') or 'timeout')[:200]))
        lines.append('%s: %d/%d obligations discharged in %d functions and %d lemmas; bounded stand-in: %s cases; %.1fs' % (PROP, dis, obl, len(fns), len(pr['lemmas']) if pr else 0, nr.get('cases'), time.time() - T0))
        if perr and not nr.get('ran'):
            rc = rc or 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if 'coverage' not in ev:
            ev['coverage'] = {'obligations': 0, 'discharged': 0, 'checker_cmd': 'check.py', 'trusted_base': [], 'explanation': 'the check did not complete'}
            ev['wall_s'] = round(time.time() - T0, 2)
        with open(os.path.join(evdir, PROP + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('\n'.join(lines))
    sys.exit(rc)


if __name__ == '__main__':
    main()
