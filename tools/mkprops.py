#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claim=None, na=None, state=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claim=claim, na=na, state=state, note=note))
U = 'opm/core/'
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
T = 'contract-based deductive verification: contracts on the functions compiled from /repo (clang LLVM IR), VCs discharged by z3/cvc5; counterexamples replayed natively'
N = 'Every obligation of every contract listed in the evidence is discharged for all inputs and all iterations; reals stand for doubles, integers are mathematical unless stated. Trusts the clang-18 front end, the VC generator in engine/, the library models it lists, z3 and cvc5.'
for p in P:
    if p['claim']: checks.append(dict(property=p['id'], quick_cmd='bin/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'], technique=T, level='proof', level_note=(N + ' ' + (p['note'] or '')).strip()))
    else: na.append(dict(property=p['id'], reason=p['na'] or 'no check yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
