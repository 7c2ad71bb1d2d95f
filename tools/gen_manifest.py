#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import spec, registry
with open(V + '/properties.jsonl', 'w') as f:
    for p in spec.P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
ids = [p['id'] for p in spec.P]
assert len(set(ids)) == len(ids)
checks = [dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
               technique=p['technique'], level='model_checking', level_note=p['note']) for p in spec.P if not p['na']]
for c in checks: assert c['property'] in registry.CHECKS, c['property']
for c in registry.CHECKS: assert c in ids, c
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in spec.P if p['na']])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), s)
print(len(ids), 'properties', len(checks), 'checks')
