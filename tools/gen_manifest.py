#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (titles, statements, anchors, claims)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import catalog

props, checks, na = [], [], []
for c in catalog.CATALOG:
    assert len(c['title']) <= 80, c['id']
    props.append(dict(id=c['id'], title=c['title'], statement=c['statement'],
                      quantifier=dict(over=c['over'], text=c['text']), why_tests_cant=c['why'],
                      anchors=dict(files=c['files'], mechanism=[dict(name=n, where=w) for n, w in c['mech']])))
    if c.get('na'):
        na.append(dict(property=c['id'], reason=c['na']))
    else:
        cmd = 'python3-vt checks/run.py ' + c['id']
        checks.append(dict(property=c['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
                           technique=c['technique'], level='proof', level_note=c['note']))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na, notes=catalog.NOTES),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
s = json.load(open('/root/.vp/MANIFEST.schema.json'))
jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), s)
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, s)
print(len(props), 'properties', len(checks), 'checks', len(na), 'n/a')
