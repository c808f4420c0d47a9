#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, note, state=()):
    assert len(title) <= 80, title
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': mechanism, 'observe_at': observe, 'hook_needed': False}}, note))


S = 'libvoikko/src/'
exec(open(os.path.join(TOP, 'tools', 'props.txt')).read())
with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
    for p, n in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
    for p, r in NA:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'hooks': {'guard': 'none: no hook was added to /repo', 'enable': 'the checks compile /repo as it is', 'source_commits': []},
       'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
                   'technique': 'contracts on the real functions (LLVM IR of /repo), obligations discharged by z3/cvc5 with inferred loop invariants; failing inputs replayed natively',
                   'level': 'proof', 'level_note': n} for p, n in P],
       'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NA]}
json.dump(man, open(os.path.join(TOP, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
