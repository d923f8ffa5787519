#!/bin/bash
# Prepares what the checks need; every check can also do this by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, 'lib')
import repoenv
import cpp
print(repoenv.gen_protos())
print(cpp.view_ext('plain'))
print(cpp.view_ext('asan'))
P
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path[:0] = ['lib', 'checks']
import coremon
import jsonmon
import native_par
for name in native_par.PROGRAMS:
  for mode in ('controlled', 'tsan'):
    try:
      print(native_par.program(name, mode).build())
    except Exception as e:  # The check says what is wrong.
      print(name, mode, str(e)[:300])
for name, mode, par in (('jsonio', 'asan', False), ('jsonpar', 'controlled', True), ('jsonpar', 'tsan', True)):
  try:
    print(jsonmon.program(name, mode, par).build())
  except Exception as e:
    print(name, mode, str(e)[:300])
for name in coremon.PROGRAMS:
  try:
    print(coremon.program(name).build())
  except Exception as e:
    print(name, str(e)[:300])
P
exit 0
