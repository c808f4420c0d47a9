"""Bounded stand-in: a native driver per property (harness/<PROP>.cpp) linked with the library compiled from /repo with
address and undefined-behaviour sanitizers. It searches for failing inputs; it never counts as proof."""
import os, subprocess, json, re, time, glob, threading
from . import build

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function,shift-base', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def known(prop):
    p = os.path.join(TOP, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))['findings'] if x['property'] == prop]


STR = re.compile(r'L?"((?:[^"\\\n]|\\.)*)"')
CHR = re.compile(r"L?'((?:[^'\\\n]|\\.)+)'")
NUM = re.compile(r'(?<![\w.])(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*(?![\w.])')


def unesc(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            n = s[i + 1]
            if n in 'uU':
                k = 4 if n == 'u' else 8
                try:
                    out.append(chr(int(s[i + 2:i + 2 + k], 16)))
                except ValueError:
                    pass
                i += 2 + k
                continue
            if n == 'x':
                m = re.match(r'[0-9a-fA-F]{1,2}', s[i + 2:])
                i += 2 + (len(m.group(0)) if m else 0)
                continue
            out.append({'n': '\n', 't': '\t', '0': '\0'}.get(n, n))
            i += 2
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def literals(srcdir):
    """string, character and integer literals of the library's sources: a dictionary for the input generators"""
    strs, nums = set(), set()
    for root, d, files in os.walk(srcdir):
        if os.path.relpath(root, srcdir).startswith('tools'):
            continue
        for f in files:
            if not f.endswith(('.cpp', '.hpp', '.h')):
                continue
            try:
                t = open(os.path.join(root, f), encoding='utf-8', errors='replace').read()
            except OSError:
                continue
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
            t = re.sub(r'//[^\n]*', ' ', t)
            for m in STR.finditer(t):
                s = unesc(m.group(1))
                if 0 < len(s) <= 40:
                    strs.add(s)
            for m in CHR.finditer(t):
                for c in unesc(m.group(1)):
                    nums.add(ord(c))
            for m in NUM.finditer(t):
                n = int(m.group(1), 0) if m.group(1).lower().startswith('0x') else int(m.group(1))
                if n < 0x110000:
                    nums.add(n)
    return sorted(strs), sorted(nums)


class Native:
    def __init__(self, work, prop, seed, tier):
        self.work, self.prop, self.seed, self.tier = os.path.join(work, 'native'), prop, seed, tier
        self.src = os.path.join(TOP, 'harness', prop + '.cpp')
        self.exists = os.path.exists(self.src)
        self.err = None

    def build(self):
        from concurrent.futures import ThreadPoolExecutor
        os.makedirs(self.work, exist_ok=True)
        flags = build.CFLAGS + ['-O1', '-g1', '-w'] + SAN

        def one(s):
            o = os.path.join(self.work, os.path.relpath(s, build.SRC).replace('/', '__') + '.o') if s != self.src else os.path.join(self.work, 'harness.o')
            build.run([build.CLANG] + flags + ['-I' + os.path.join(TOP, 'harness'), '-c', s, '-o', o])
            return o
        try:
            with ThreadPoolExecutor(8) as ex:
                if 'fst.hpp' in open(self.src).read():
                    ex.submit(build.run, [build.CLANG] + build.CFLAGS + ['-O1', '-w', os.path.join(build.SRC, 'tools', 'voikkovfstc.cpp'), '-lstdc++', '-lm', '-o', os.path.join(self.work, 'voikkovfstc')])
                objs = list(ex.map(one, [self.src] + build.sources()))
            build.run([build.CLANG] + SAN + objs + ['-lhfstospell', '-o', os.path.join(self.work, 'harness')])
        except build.BuildError as e:
            self.err = str(e)[-2500:]

    def run(self, extended=False):
        if not self.exists:
            return {'ran': False, 'fails': [], 'cases': 0, 'note': 'no native driver for this property'}
        if self.err:
            return {'ran': False, 'fails': [], 'cases': 0, 'note': 'driver did not compile against the current tree: ' + self.err[-1500:]}
        budget = {'quick': 12, 'thorough': 240}.get(self.tier, 12)
        if extended:
            budget = {'quick': 60, 'thorough': 600}.get(self.tier, 60)
        strs, nums = literals(build.SRC)
        base = {'strs': [], 'nums': []}
        bp = os.path.join(TOP, 'support', 'literals.json')
        if os.path.exists(bp):
            base = json.load(open(bp))
        ns = [s for s in strs if s not in set(base['strs'])]
        nn = [n for n in nums if n not in set(base['nums'])]
        df = os.path.join(self.work, 'dict.txt')
        with open(df, 'w') as f:
            for tag, l in (('s', strs), ('S', ns)):
                for s in l:
                    f.write(tag + ' ' + ' '.join('%x' % ord(c) for c in s) + '\n')
            for tag, l in (('n', nums), ('N', nn)):
                for n in l:
                    f.write('%s %x\n' % (tag, n))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', LC_ALL='C.UTF-8')
        nproc = 4
        procs = []
        t0 = time.time()
        for k in range(nproc):
            sd = os.path.join(self.work, 'run%d' % k)
            os.makedirs(sd, exist_ok=True)
            procs.append(subprocess.Popen([os.path.join(self.work, 'harness'), str(self.seed * 1000 + k), str(budget), df, str(k)], stdout=open(os.path.join(sd, 'out'), 'w'), stderr=open(os.path.join(sd, 'err'), 'w'), env=env, cwd=sd))
        fails, cases, distinct, samples, rule = [], 0, 0, [], ''
        for k, p in enumerate(procs):
            sd = os.path.join(self.work, 'run%d' % k)
            try:
                rc = p.wait(timeout=max(1, budget * 2 + 60 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            out = open(os.path.join(sd, 'out'), errors='replace').read()
            err = open(os.path.join(sd, 'err'), errors='replace').read()
            for l in out.split('\n'):
                if l.startswith('FAIL '):
                    fails.append(l[5:])
                elif l.startswith('CASES '):
                    a = l.split()
                    cases += int(a[1])
                    distinct += int(a[2])
                elif l.startswith('SAMPLE ') and len(samples) < 8:
                    samples.append(l[7:])
                elif l.startswith('RULE '):
                    rule = l[5:]
            if rc not in (0, 1) and not any(l.startswith('FAIL ') for l in out.split('\n')):
                m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion[^\n]*)', err)
                if m:
                    fails.append('crash: ' + m.group(1))
                elif rc is not None and rc < 0 and rc != -9:
                    fails.append('crash: signal %d' % -rc)
            if rc not in (0, 1):
                fr = [x.strip() for x in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*)', err)][:12]
                if fails and fr:
                    fails[-1] += ' | ' + ' <- '.join(re.sub(r'/repo/', '', x) for x in fr[:6])
        return {'ran': cases > 0 or bool(fails), 'fails': sorted(set(fails))[:20], 'cases': cases, 'distinct': distinct, 'samples': samples, 'rule': rule, 'seconds': round(time.time() - t0, 1), 'note': 'bounded: random and exhaustive small inputs for %d s; not a proof' % budget}
