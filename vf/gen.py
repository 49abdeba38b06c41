#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
na = {n for n, _ in props.NA}
m = dict(version=1, setup_cmd='python3 vf/build.py', checks=[], not_applicable=[dict(property=n, reason=r) for n, r in props.NA])
for p in props.PROPS:
    if p['id'] in na: continue
    C = checks.CHECKS[p['id']]
    note = p['level_note'] or ('Bounded: for every value of the symbolic inputs within the bounds the assertions are decided by z3 over the LLVM IR of the current sources (%s). Outside the bounds nothing is claimed. Trusted: clang front end, the symbolic executor in engine/ (its witnesses are replayed natively on every run), z3, and the environment models in shim/.' % (C['bounds']('quick') if callable(C['bounds']) else C['bounds']))
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 vf/run.py %s quick' % p['id'], thorough_cmd='python3 vf/run.py %s thorough' % p['id'], technique=p['technique'], level='model_checking', level_note=note))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props.PROPS), 'properties,', len(m['checks']), 'checks')
