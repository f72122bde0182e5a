#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/meta.json from tools/props.py (kept in one place so that they stay in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('observe', [])))) + '\n')
        assert len(p['title']) <= 80, p['id']
chk = []
meta = {}
for p in P:
    if 'na' in p: continue
    chk.append(dict(property=p['id'], quick_cmd='python3-vt irvc/check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt irvc/check.py %s --tier thorough' % p['id'],
                    evidence_file='evidence/%s.json' % p['id'], technique=p.get('technique', 'contract-based deductive verification of the LLVM IR of the real code (symbolic VC generation, z3/cvc5)'),
                    level=p['level'], level_note=p['note']))
    meta[p['id']] = dict(level=p['level'], bound=p.get('bound', ''), functions=[b for a, b in p['mech']], assumptions=p.get('assume', []), known=p.get('known', {}))
na = [dict(property=p['id'], reason=p['na']) for p in P if 'na' in p]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=chk, not_applicable=na, notes=NOTES), open(V + '/MANIFEST.json', 'w'), indent=1)
json.dump(meta, open(V + '/harness/meta.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(P))
except ImportError: print('written (not validated)')
