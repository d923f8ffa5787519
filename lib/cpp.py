"""Compiles the repository's C++ sources (from /repo's working tree) with shims."""
import os
import subprocess
import sysconfig

import repoenv
import vp

SHIM = os.path.join(vp.VERIF, 'shim')
REPO = vp.REPO

SAN = {
    'plain': [],
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer'],
}


class CompileError(Exception):
  pass


def files_under(*dirs, exts=('.h', '.cc', '.inc')):
  out = []
  for d in dirs:
    if os.path.isfile(d):
      out.append(d)
      continue
    for root, _, fs in os.walk(d):
      out += [os.path.join(root, f) for f in fs if f.endswith(exts)]
  return out


def run_all(cmds):
  """Runs the compile commands in parallel; raises with the first error text."""
  from concurrent.futures import ThreadPoolExecutor

  def one(c):
    p = subprocess.run(c, capture_output=True, text=True)
    return p.returncode, p.stderr, c

  with ThreadPoolExecutor(8) as ex:
    for rc, err, c in ex.map(one, cmds):
      if rc:
        raise CompileError(' '.join(c) + '\n' + err[-6000:])


def view_ext(san='plain'):
  """Builds koladata.ext.view.clib_py_ext; returns the directory holding it."""
  srcs = [os.path.join(REPO, 'py/koladata/ext/view', f) for f in ('clib.cc', 'clib_module.cc')]
  deps = files_under(os.path.join(REPO, 'py/koladata/ext/view'), os.path.join(SHIM, 'py'))
  flags = ['-std=c++20', '-O1', '-g', '-fPIC', '-shared', '-w'] + SAN[san]
  key = repoenv._hash(deps, repr(flags))

  def build(tmp):
    out = os.path.join(tmp, 'clib_py_ext.so')
    inc = sysconfig.get_paths()['include']
    cands = [inc, '/usr/include/python3.12']
    inc = next(c for c in cands if os.path.exists(os.path.join(c, 'Python.h')))
    run_all([['g++'] + flags + ['-I' + SHIM, '-I' + REPO, '-I' + inc] + srcs + ['-o', out, '-labsl_throw_delegate']])

  return repoenv.cached_dir('viewext-' + san, key, build)
