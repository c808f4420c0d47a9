"""Compile /repo's current sources to bitcode, link, and extract the functions under contract as JSON."""
import os, subprocess, json, glob, shutil, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'libvoikko', 'src')
HERE = os.path.dirname(os.path.abspath(__file__))
SUPPORT = os.path.join(os.path.dirname(HERE), 'support')
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++') if shutil.which(c)), 'clang++')
LLVMLINK = next((c for c in ('/usr/bin/llvm-link-18', 'llvm-link') if shutil.which(c)), 'llvm-link')
LLVMNM = next((c for c in ('/usr/bin/llvm-nm-18', 'llvm-nm') if shutil.which(c)), 'llvm-nm')
CFLAGS = ['-std=c++17', '-DHAVE_CONFIG_H', '-I' + SUPPORT, '-I' + SRC]


class BuildError(Exception):
    pass


def sources():
    """the .cpp files of the library as configured by build.sh (HFST on, vislcg3 and lttoolbox off)"""
    l = []
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        if rel.startswith('tools'):
            continue
        for f in files:
            if f.endswith('.cpp') and not f.startswith('Cg') and f not in ('V4DictionaryLoader.cpp', 'LttoolboxAnalyzer.cpp'):
                l.append(os.path.join(root, f))
    return sorted(l)


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def build_irdump(out):
    run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
         '-D__STDC_LIMIT_MACROS', os.path.join(HERE, 'irdump.cpp'), '-o', out, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])


def bitcode(work):
    srcs = sources()
    objs = []

    def one(s):
        o = os.path.join(work, os.path.relpath(s, SRC).replace('/', '__')[:-4] + '.bc')
        run([CLANG] + CFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-flto', '-fwhole-program-vtables',
                                '-fvisibility=hidden', '-w', '-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(9) as ex:
        fd = ex.submit(build_irdump, os.path.join(work, 'irdump'))
        objs = list(ex.map(one, srcs))
        fd.result()
    run([LLVMLINK] + objs + ['-o', os.path.join(work, 'all.bc')])
    out = run([LLVMNM, os.path.join(work, 'all.bc')])
    names = [l.split()[-1] for l in out.splitlines() if l.split()]
    dem = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return {n: d for n, d in zip(names, dem)}


def extract(work, roots, bodies, tag='x'):
    rf = os.path.join(work, tag + '.roots')
    with open(rf, 'w') as f:
        for r in roots:
            f.write(('!' if r in bodies else '') + r + '\n')
    out = os.path.join(work, tag + '.json')
    run([os.path.join(work, 'irdump'), os.path.join(work, 'all.bc'), rf, os.path.join(HERE, 'stdinline.txt'), out])
    with open(out) as f:
        return json.load(f)
