#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import glob
import json
import os
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.py'))):
  for p in runpy.run_path(f)['PROPS']:
    p = dict(p)
    tech, level, note = p.pop('technique', None), p.pop('level', 'exploration'), p.pop('note', '')
    reason = p.pop('not_applicable', None)
    over, text = p.pop('over'), p.pop('text')
    files, mech = p.pop('files'), p.pop('mech')
    obs = p.pop('observe', None)
    assert len(p['title']) <= 80, p['title']
    out = dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
               quantifier=dict(over=over, text=text), why_tests_cant=' '.join(p['why'].split()),
               anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if obs:
      out['anchors']['observe_at'] = obs
    props.append(out)
    if reason:
      na.append(dict(property=p['id'], reason=' '.join(reason.split())))
    else:
      checks.append(dict(property=p['id'], quick_cmd=f'./run.py {p["id"]} quick', thorough_cmd=f'./run.py {p["id"]} thorough',
                         evidence_file=f'evidence/{p["id"]}.json', technique=tech, level=level, level_note=' '.join(note.split())))
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids), ids
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
  for p in props:
    f.write(json.dumps(p, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
           notes='No hooks in /repo are needed: the monitors sit at API boundaries, at injected file systems, locks, reporters and schedulers, and in sanitizer builds of the repository sources. Every check rebuilds what it needs from /repo into /verif/build, keyed by content.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
  json.dump(man, f, indent=1, ensure_ascii=False)
  f.write('\n')
print(len(props), 'properties', len(checks), 'checks')
