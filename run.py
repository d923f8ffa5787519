#!/opt/venv/bin/python
"""run.py <PROPERTY> [quick|thorough]: decides one property (see DESIGN.md)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('VP_ENV'):
  env = dict(os.environ, PYTHONHASHSEED='0', VP_ENV='1',
             PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC')
  for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
    env.pop(k, None)
  os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
# `python run.py` puts HERE at sys.path[0]; harmless.
import vp  # pylint: disable=g-import-not-at-top

MODULES = {}
with open(os.path.join(HERE, 'checks', 'INDEX')) as f:
  for line in f:
    line = line.split('#')[0].split()
    if line:
      for pid in line[1:]:
        MODULES[pid] = line[0]

if __name__ == '__main__':
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  importlib.import_module(MODULES[pid])
  sys.exit(vp.main(pid, tier))
