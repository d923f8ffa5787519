#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'needs' 'breaks' < JSON [[old,new],...] : makes seeded/ID/patch.diff+meta.json (demo.sh written separately)."""
import json, os, subprocess, sys, tempfile, shutil
sid, prop, needs, breaks, spec = sys.argv[1:6]
edits = json.loads(open(spec).read())  # {file: [[old,new],...]}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
wt = tempfile.mkdtemp(prefix='vp-seed-')
try:
  subprocess.run(['git', 'clone', '-q', '--shared', '/repo', wt], check=True)
  for f, es in edits.items():
    p = os.path.join(wt, f)
    s = open(p).read()
    for old, new in es:
      assert s.count(old) == 1, (f, s.count(old), old)
      s = s.replace(old, new)
    open(p, 'w').write(s)
  diff = subprocess.run(['git', '-C', wt, 'diff'], check=True, capture_output=True, text=True).stdout
  open(os.path.join(d, 'patch.diff'), 'w').write(diff)
  json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
finally:
  shutil.rmtree(wt, ignore_errors=True)
print(sid, len(diff.splitlines()), 'lines')
