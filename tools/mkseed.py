#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads from stdin a python literal {file, old, new (or edits: [(file, old, new)]), needs, breaks, demo: C++ source of demo.cpp}
Writes seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json}; /repo is only read."""
import sys, os, json, subprocess, tempfile, shutil, ast
ID, PROP = sys.argv[1:3]
d = ast.literal_eval(sys.stdin.read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', ID)
os.makedirs(out, exist_ok=True)
edits = d.get('edits') or [(d['file'], d['old'], d['new'])]
tmp = tempfile.mkdtemp()
diff = ''
files = []
for f, _, _ in edits:
    if f not in files:
        files.append(f)
for f in files:
    src = open('/repo/' + f, encoding='utf-8').read()
    t = src
    for g, o, n in edits:
        if g != f:
            continue
        assert t.count(o) == 1, (f, o, t.count(o))
        t = t.replace(o, n)
    for side, x in (('a', src), ('b', t)):
        p = os.path.join(tmp, side, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w', encoding='utf-8').write(x)
    diff += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=tmp, capture_output=True, text=True).stdout
shutil.rmtree(tmp)
lines = []
for l in diff.split('\n'):
    if l.startswith('--- ') or l.startswith('+++ '):
        l = l.split('\t')[0]
    lines.append(l)
open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8').write('\n'.join(lines))
open(os.path.join(out, 'demo.cpp'), 'w', encoding='utf-8').write(d['demo'])
open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0: behaviour as required; nonzero: broken. Compiles demo.cpp against the objects of the built library.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
S=/repo/libvoikko/src
find $S -name '*.cpp' ! -path '*/tools/*' ! -name 'Cg*' ! -name 'V4DictionaryLoader.cpp' ! -name 'LttoolboxAnalyzer.cpp' > "$T/list"
echo "$H/demo.cpp" >> "$T/list"
FLAGS="-std=c++17 -g1 -O0 -w %s -DHAVE_CONFIG_H -I/repo/_build/libvoikko -I$S"
N=0
while read -r f; do N=$((N+1)); echo "$f $T/$N.o"; done < "$T/list" | xargs -P 8 -L 1 sh -c 'g++ '"$FLAGS"' -c "$0" -o "$1"' || { echo "demo does not compile"; exit 3; }
g++ %s "$T"/*.o -lhfstospell -o "$T/demo" || exit 3
cd "$T" && %s timeout 120 ./demo
''' % (d.get('flags', ''), d.get('flags', ''), d.get('env', '')))
os.chmod(os.path.join(out, 'demo.sh'), 0o755)
json.dump({'property': PROP, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
