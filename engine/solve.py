import z3, time, subprocess, tempfile, os, re
from .vc import Encoder, Unsupported, wl_axioms, WL4, WL1, Ob


def uses(fs, decls):
    """which function declarations occur in the formulas"""
    seen, found = set(), set()
    stack = list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            n = e.decl().name()
            if n in decls:
                found.add(n)
            stack.extend(e.children())
    return found


class Prover:
    def __init__(self, timeout_ms=4000, cvc5_s=10, stats=None):
        self.timeout = timeout_ms
        self.cvc5_s = cvc5_s
        self.stats = stats if stats is not None else {}
        self.ztime = 0.0
        self.queries = 0
        self.retry = False

    def run(self, fs, seconds, opts=(), model=False):
        """one question in a z3 process of its own: (answer, text); ended for certain after the given time"""
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        if model:
            txt += '\n(get-model)\n'
        txt += '\n(get-info :reason-unknown)\n'
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        t = time.time()
        self.queries += 1
        try:
            p = subprocess.run(['z3-new', '-t:%d' % int(seconds * 1000), '-T:%d' % int(seconds + 2), *opts, f.name], capture_output=True, text=True, timeout=seconds + 4)
            out = p.stdout
        except Exception:
            out = ''
        os.unlink(f.name)
        self.ztime += time.time() - t
        return (out.split('\n')[0].strip() if out else 'timeout'), out

    def check(self, hyps, goal_neg, timeout=None, model=False):
        """'proved' | 'refuted' | 'unknown'"""
        r, out = self.run(list(hyps) + [goal_neg], (timeout or self.timeout) / 1000, model=True)
        if r == 'unsat':
            return 'proved', None
        if r == 'sat':
            return 'refuted', '; '.join('%s=%s' % x for x in re.findall(r'\(define-fun (\S+) \(\) (?:Int|Bool)\s+(\(- \d+\)|\S+?)\)\n', out) if not x[0].startswith('on!'))[:3000]
        return 'unknown', 'incomplete' if 'incomplete' in out else 'timeout'

    def fresh(self, fs, seconds=1):
        """away from the history of this process"""
        return self.run(fs, seconds, ['smt.mbqi=false'])[0] == 'unsat'

    def cvc5(self, hyps, goal_neg, seconds):
        s = z3.Solver()
        s.add(*hyps)
        s.add(goal_neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(seconds * 1000), '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=seconds + 5)
            out = p.stdout.strip().split('\n')[-1] if p.stdout else ''
        except Exception:
            out = ''
        os.unlink(f.name)
        self.ztime += time.time() - t
        return {'unsat': 'proved', 'sat': 'refuted'}.get(out, 'unknown')


_quant = {}


def quantified(f):
    k = f.get_id()
    if k not in _quant:
        seen, todo, q = set(), [f], False
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                q = True
                break
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo.extend(x.children())
        _quant[k] = (q, f)
    return _quant[k][0]


_syms = {}


def syms(f):
    """(uninterpreted constants of a formula, array constants in its triggers or None without quantifiers)"""
    k = f.get_id()
    if k not in _syms:
        seen, todo, out, trig, q = set(), [f], set(), set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                q = True
                for n in range(x.num_patterns()):
                    st = [x.pattern(n)]
                    while st:
                        y = st.pop()
                        if z3.is_const(y) and z3.is_array(y):
                            trig.add(y.get_id())
                        st.extend(y.children())
                todo.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            todo.extend(x.children())
        _syms[k] = (out, trig if q else None, f)
    return _syms[k][:2]


def defined(f):
    """the constant a fact defines: c == e"""
    if z3.is_eq(f):
        for x in (f.arg(0), f.arg(1)):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return x.get_id()
    return None


def coreach(enc, x):
    """blocks from which x can be reached without a back edge"""
    d = enc.__dict__.setdefault('_co', {})
    if x not in d:
        s, t = set(), [x]
        while t:
            b = t.pop()
            if b not in s:
                s.add(b)
                t.extend(enc.fpreds.get(b, []))
        d[x] = s
    return d[x]


def reach_from(enc, x):
    d = enc.__dict__.setdefault('_fr', {})
    if x not in d:
        s = {x}
        for b in enc.order:
            if any(p in s for p in enc.fpreds[b]):
                s.add(b)
        d[x] = s
    return d[x]


def dominates(enc, h, x):
    """every way from the entry to x passes h"""
    d = enc.__dict__.setdefault('_dom', {})
    if not d:
        for b in enc.order:
            ps = [p for p in enc.fpreds[b] if p in d]
            d[b] = {b} | (set.intersection(*[d[p] for p in ps]) if ps else set())
    return h in d.get(x, ())


def relevant(enc, o, goals, dead):
    """hypotheses for an obligation: the facts since the last top-level loop header (or the entry), the facts about the entry state, and of the
    others those that speak about nothing else; no quantified fact about a memory state the goal does not depend on. Dropping hypotheses is sound."""
    n = o.window[0] if o.window else o.nf
    co = coreach(enc, o.block)
    cut, hb = 0, None
    for c, b in enc.cuts:
        if c <= n and c > cut and dominates(enc, b, o.block):
            cut, hb = c, b
    fr = reach_from(enc, hb) if hb is not None else set(enc.order)
    take = lambda lo, hi, bs: [f for b in enc.order if b in bs for f in enc.facts[max(lo, enc.frange[b][0]):min(hi, max(enc.frange[b][1], n if b == o.block else 0))]]
    new = take(max(cut, enc.nentry), n, co & fr) + (enc.facts[o.window[1]:o.nf] if o.window else [])
    old = take(enc.nentry, cut, co) if cut else []
    base = enc.facts[:enc.nentry]
    entry = set()
    for f in base:
        entry |= syms(f)[0]
    live = lambda fs: [f for f in fs if not switched_off(f, dead)]
    new, old = live(new), live(old)
    rel = set(entry)
    for g in goals:
        rel |= syms(g)[0]
    for f in new:
        if syms(f)[1] is None:
            rel |= syms(f)[0]
    keep = []
    ch = True
    while ch and old:
        ch = False
        rest = []
        for f in old:
            d = defined(f)
            if syms(f)[0] <= rel or (d in rel and not z3.is_bool(f.arg(0))):
                keep.append(f)
                if not syms(f)[0] <= rel:
                    rel |= syms(f)[0]
                ch = True
            else:
                rest.append(f)
        old = rest
    # quantified facts: only those whose triggers mention memory states in use
    fs = base + keep + new
    arr, eqs, quant, out = set(), [], [], []
    for g in goals:
        arr |= syms(g)[0]
    for f in fs:
        a, t = syms(f)
        if t is not None:
            quant.append((f, a, t))
        else:
            out.append(f)
            if z3.is_eq(f) and z3.is_array(f.arg(0)):
                eqs.append(a)
    used = [False] * len(quant)
    ch = True
    while ch:
        ch = False
        for a in eqs:
            if a & arr and not a <= arr:
                arr |= a
                ch = True
        for k, (f, a, t) in enumerate(quant):
            if not used[k] and t <= arr:
                used[k] = True
                if not a <= arr:
                    arr |= a
                ch = True
    return out + [f for k, (f, _, _) in enumerate(quant) if used[k]]


def axioms_for(enc, extra):
    fs = enc.facts + extra
    f = uses(fs, {'wlen4', 'slen1'})
    ax = []
    if 'wlen4' in f:
        ax += wl_axioms(WL4)
    if 'slen1' in f:
        ax += wl_axioms(WL1)
    ax += enc.global_axioms
    return ax


def switched_off(f, dead):
    """candidate facts (on and reachable => formula) of dropped candidates"""
    return z3.is_implies(f) and z3.is_and(f.arg(0)) and f.arg(0).num_args() and f.arg(0).arg(0).get_id() in dead


def houdini(enc, prover, log, deadline=None):
    alive = [True] * len(enc.cands)
    ax = axioms_for(enc, [o.cond for o in enc.cand_checks])
    changed = True
    rounds = 0
    enc.cut = []        # invariants of the contract given up for lack of time
    while changed:
        changed = False
        rounds += 1
        byn = {}
        # one incremental solver per check location
        groups = {}
        for o in enc.cand_checks:
            if alive[o.cand]:
                groups.setdefault((o.nf, o.pc.get_id()), []).append(o)
        for key in sorted(groups, key=lambda k: k[0]):
            obs = [o for o in groups[key] if alive[o.cand]]
            if not obs:
                continue
            s = z3.Solver()
            s.set('timeout', prover.timeout)
            s.set('smt.mbqi', False)
            s.add(*ax)
            fs = enc.facts[:obs[0].nf]
            if enc.contract.slice:
                dead = {enc.cands[i]['on'].get_id() for i in range(len(alive)) if not alive[i]}
                fs = relevant(enc, obs[0], [o.cond for o in obs] + [obs[0].pc], dead)
            s.add(*fs)
            s.add(*[enc.cands[i]['on'] for i in range(len(alive)) if alive[i]])
            s.add(*[z3.Not(enc.cands[i]['on']) for i in range(len(alive)) if not alive[i]])
            s.add(obs[0].pc)
            tg = time.time()
            # all at once, dropping what the model refutes
            while True:
                obs = [o for o in obs if alive[o.cand]]
                if not obs:
                    break
                s.push()
                s.add(z3.Not(z3.And(*[o.cond for o in obs])))
                t = time.time()
                r = s.check()
                prover.ztime += time.time() - t
                prover.queries += 1
                if r == z3.unsat:
                    s.pop()
                    break
                if r == z3.sat:
                    m = s.model()
                    dropped = False
                    for o in obs:
                        v = m.eval(o.cond, model_completion=True)
                        if z3.is_false(v):
                            alive[o.cand] = False
                            dropped = changed = True
                    s.pop()
                    if dropped:
                        continue
                else:
                    s.pop()
                # one by one
                for o in obs:
                    s.push()
                    s.add(z3.Not(o.cond))
                    t = time.time()
                    r = s.check()
                    prover.ztime += time.time() - t
                    prover.queries += 1
                    if os.environ.get('HDBG') == 'x' and time.time() - t > 2:
                        open('/tmp/slow.smt2', 'w').write(s.to_smt2())
                        raise SystemExit
                    if r != z3.unsat and os.environ.get('QDBG') and os.environ['QDBG'] in enc.cands[o.cand]['name']:
                        open('/tmp/q.smt2', 'w').write(s.to_smt2())
                        raise SystemExit
                    s.pop()
                    if r != z3.unsat:
                        cut = r == z3.unknown and s.reason_unknown().find('incomplete') < 0
                        if r == z3.unknown and not cut and enc.cands[o.cand]['own']:
                            enc.cut.append(enc.cands[o.cand]['name'])
                            # a fresh solver for invariants of the contract
                            if prover.retry and prover.fresh(list(s.assertions()) + [z3.Not(o.cond)]):
                                continue
                        if cut:
                            rr, _ = prover.check(ax + enc.facts[:o.nf] + [enc.cands[i]['on'] for i in range(len(alive)) if alive[i]] + [o.pc], z3.Not(o.cond))
                            if rr == 'proved':
                                continue
                            if rr == 'unknown' and enc.cands[o.cand]['own']:
                                enc.cut.append(enc.cands[o.cand]['name'])
                        alive[o.cand] = False
                        changed = True
                        log('   drop %s %s (%s)' % (o.name, enc.cands[o.cand]['name'], r))
                break
            if os.environ.get('HDBG') and time.time() - tg > 2:
                print('   slow', '%.1fs' % (time.time() - tg), groups[key][0].name, len(groups[key]), len(fs))
            if deadline and time.time() > deadline:
                return alive, rounds, True
        # dropping a range candidate forces a new encoding
        bad = [enc.cands[i]['rangeof'] for i in range(len(alive)) if not alive[i] and enc.cands[i]['rangeof'] is not None]
        if bad:
            return alive, rounds, bad
    return alive, rounds, False


def split_paths(enc, prover, s, o, block, pcs, budget, depth):
    """prove o separately for every control-flow edge into its block (recursively); the edges are exhaustive"""
    hdrs = {l['header'] for l in enc.loops}
    while True:
        ent = [(p, enc.edge[(p, b)]) for (p, b) in enc.edge if b == block and (p, b) not in enc.back]
        if len(ent) == 1 and block not in hdrs and block != 0:
            block = ent[0][0]
            continue
        break
    if len(ent) < 2 or depth == 0 or block in hdrs:
        return False
    for p, e in ent:
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        tt = time.time()
        s.push()
        s.add(*pcs)
        s.add(e)
        s.add(z3.Not(o.cond))
        r = s.check()
        prover.queries += 1
        s.pop()
        if os.environ.get('SPLITDBG'):
            print('   split', o.name[:40], 'block', block, 'from', p, [i.get('loc') for i in enc.fn['blocks'][p]][-1:], r, '%.1fs' % (time.time() - tt))
        if r == z3.sat:
            return False
        if r == z3.unknown and not split_paths(enc, prover, s, o, p, pcs + [e], budget, depth - 1):
            return False
    return True


def verify(mod, fn, contracts, lib, contract, log=lambda s: None, timeout_ms=4000, cvc5_s=10, budget_s=300, vacuity=True):
    t0 = time.time()
    r = attempt(mod, fn, contracts, lib, contract, log, timeout_ms, cvc5_s, budget_s, vacuity)
    if r['status'] in ('failed', 'undecided') and r.get('cut') and not r.get('reason') and budget_s - (time.time() - t0) > 15:
        # an invariant of the contract was given up undecided: once more, with a fresh solver and more time for each
        log('   again: given up %s' % ', '.join(r['cut'][:8]))
        r2 = attempt(mod, fn, contracts, lib, contract, log, timeout_ms * 2, cvc5_s, budget_s - (time.time() - t0), vacuity, True)
        if not r2.get('reason'):
            r2['time'] += r['time']
            r2['ztime'] += r['ztime']
            return r2
    return r


def attempt(mod, fn, contracts, lib, contract, log, timeout_ms, cvc5_s, budget_s, vacuity, retry=False):
    """returns dict with obligations and statuses for one function"""
    t0 = time.time()
    prover = Prover(timeout_ms, cvc5_s)
    prover.retry = retry
    res = {'function': fn['demangled'], 'file': fn.get('file'), 'line': fn.get('line'), 'obligations': [], 'status': None}
    ranges = {}
    deadline = t0 + budget_s
    try:
        while True:
            enc = Encoder(mod, fn, contracts, lib, contract, phi_ranges=dict(ranges))
            if contract.axioms:
                enc.global_axioms = list(contract.axioms())
            enc.encode()
            log('%s: %d facts, %d obligations, %d candidates' % (fn['demangled'], len(enc.facts), len(enc.obs), len(enc.cands)))
            alive, rounds, bad = houdini(enc, prover, log, deadline)
            if bad is True:
                res['status'] = 'undecided'
                res['reason'] = 'invariant inference ran out of time'
                res['enc'] = enc
                break
            if bad:
                ranges = dict(enc.phi_ranges)
                for pid in bad:
                    cur = ranges.get(pid)
                    ranges[pid] = None
                continue
            break
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['reason'] = str(e)
        res['time'] = time.time() - t0
        return res
    res['loops'] = len(enc.loops)
    res['invariants'] = [enc.cands[i]['name'] for i in range(len(alive)) if alive[i]]
    res['assumed'] = sorted(enc.assumed)
    res['uses'] = sorted(enc.used_contracts)
    on = [enc.cands[i]['on'] for i in range(len(alive)) if alive[i]]
    off = [z3.Not(enc.cands[i]['on']) for i in range(len(alive)) if not alive[i]]
    ax = axioms_for(enc, [o.cond for o in enc.obs])
    # incremental pass in program order
    s = z3.Solver()
    s.set('timeout', prover.timeout)
    s.set('smt.mbqi', False)
    s.add(*ax)
    s.add(*on)
    s.add(*off)
    pos = 0
    for o in enc.obs:
        if o.nf > pos:
            s.add(*enc.facts[pos:o.nf])
            pos = o.nf
        if o.status:
            continue
        t = time.time()
        if contract.slice and t <= deadline:
            dead = {x.arg(0).get_id() for x in off}
            q = z3.Solver()
            q.set('timeout', prover.timeout)
            q.set('smt.mbqi', False)
            q.add(*(ax + on + off + relevant(enc, o, [o.cond, o.pc], dead)))
            q.add(o.pc)
            q.add(z3.Not(o.cond))
            prover.queries += 1
            if q.check() == z3.unsat:
                o.status, o.backend = 'proved', 'z3'
                prover.ztime += time.time() - t
                o.time = time.time() - t
                continue
        if time.time() > deadline:
            o.status = 'unknown'
            o.info = 'time budget exhausted'
            continue
        s.push()
        s.add(o.pc)
        s.add(z3.Not(o.cond))
        r = s.check()
        prover.queries += 1
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'
        elif r == z3.sat:
            o.status, o.backend = 'refuted', 'z3'
            o.info = s.model()
        s.pop()
        if r == z3.unknown:
            # the same question with the ground facts only
            gs = z3.Solver()
            gs.set('timeout', 3000)
            gs.add(*[f for f in on + enc.facts[:o.nf] + [o.pc] if not quantified(f)])
            gs.add(z3.Not(o.cond))
            prover.queries += 1
            gr = gs.check()
            if gr == z3.unsat:
                r = z3.unsat
                o.status, o.backend = 'proved', 'z3 (ground facts)'
        if r == z3.unknown and o.block is not None and split_paths(enc, prover, s, o, o.block, [o.pc], [24], 5):
            r = z3.unsat
            o.status, o.backend = 'proved', 'z3 (split by path)'
        prover.ztime += time.time() - t
        if r == z3.unknown:
            hyps = ax + on + off + enc.facts[:o.nf] + [o.pc]
            st, info = prover.check(hyps, z3.Not(o.cond), timeout=timeout_ms * 2)
            if st == 'unknown':
                c = prover.cvc5(hyps, z3.Not(o.cond), cvc5_s)
                if c == 'proved':
                    st = 'proved'
                    o.backend = 'cvc5'
            else:
                o.backend = 'z3'
            o.status = st
            if st != 'proved':
                o.info = info
        o.time = time.time() - t
    # invariants are obligations as well: each surviving candidate was proved at every entry and back edge
    ninv = sum(1 for o in enc.cand_checks if alive[o.cand])
    res['inv_obligations'] = ninv
    # vacuity: some exit reachable under the precondition and all loop invariants
    if vacuity:
        vs = []
        reach = 'unknown'
        for pc, rv, st, loc, nf in enc.exits:
            r, _ = prover.run(ax + on + enc.facts[:nf] + [pc], 3)
            vs.append(r)
            if r == 'sat':
                break
        if any(v == 'sat' for v in vs):
            reach = 'reachable'
        elif vs and all(v == 'unsat' for v in vs):
            reach = 'vacuous'
        elif not vs:
            reach = 'no-exit'
        else:
            reach = 'not-refuted'
        res['vacuity'] = reach
    res['enc'] = enc
    res['obs'] = enc.obs
    bad = [o for o in enc.obs if o.status != 'proved']
    if res['status'] is None:
        res['status'] = 'proved' if not bad else ('failed' if any(o.status == 'refuted' for o in bad) else 'undecided')
    if res.get('vacuity') == 'vacuous':
        res['status'] = 'vacuous'
    res['failed'] = bad
    res['cut'] = enc.cut
    res['ztime'] = prover.ztime
    res['queries'] = prover.queries
    res['time'] = time.time() - t0
    return res
