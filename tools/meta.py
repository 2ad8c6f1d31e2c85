#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, claim=None, na=None, level='proof', note=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a}, claim, na, level, note))
exec(open(os.path.join(V, 'tools', 'properties.py')).read())
TECH = 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real functions, loop invariants checked inductively, discharged by z3 and cvc5'
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, *_ in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p, claim, why, level, note in P:
        if claim: checks.append({'property': p['id'], 'quick_cmd': 'python3-vt -m irv %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt -m irv %s --tier thorough' % p['id'], 'technique': claim if isinstance(claim, str) else TECH, 'level': level, 'level_note': note})
        else: na.append({'property': p['id'], 'reason': why})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++-18 --version >/dev/null && cvc5 --version >/dev/null', 'hooks': {'guard': '', 'enable': '', 'source_commits': []}, 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
main()
