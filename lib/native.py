"""Builds programs from the repository's C++ sources and runs them as monitors.

Every object is cached under a hash of what it is made from; a changed source
rebuilds what depends on it.
"""
import os
import re
import shutil
import signal
import subprocess
import time

import cpp
import repoenv
import vp

SHIM = os.path.join(vp.VERIF, 'shim', 'cpp')
REPO = vp.REPO
LIBS = ['-labsl_strings', '-labsl_throw_delegate', '-labsl_int128', '-labsl_str_format_internal', '-lpthread']
MODES = {
    # One thread at a time, under a scheduler of the driver's.
    'controlled': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DVS_CONTROLLED'],
    'tsan': ['-fsanitize=thread'],
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
}
BASE = ['-std=c++20', '-include', 'prelude.h', '-g', '-O1', '-fno-omit-frame-pointer', '-w']


def shim_overlay(sources, shim=SHIM, umbrella='arolla/mini.h'):
  """Headers for what sources include from arolla (or logging) beyond the shim."""
  missing = {}
  for p in sources:
    with open(p, encoding='utf8', errors='replace') as f:
      for m in re.finditer(r'^\s*#\s*include\s+"((?:arolla|absl/log|absl/base|absl/status|absl/container)/[^"]+)"', f.read(), re.M):
        h = m.group(1)
        if os.path.exists(os.path.join(shim, h)) or os.path.exists('/usr/include/' + h):
          continue
        missing[h] = '#pragma once\n#include "%s"\n' % (umbrella if h.startswith('arolla/') else 'absl/log/check.h' if h.startswith('absl/log') else 'prelude.h')
  if not missing:
    return []
  import hashlib
  key = hashlib.blake2b(repr(sorted(missing.items())).encode(), digest_size=12).hexdigest()

  def build(tmp):
    for h, text in missing.items():
      p = os.path.join(tmp, h)
      os.makedirs(os.path.dirname(p), exist_ok=True)
      with open(p, 'w') as f:
        f.write(text)

  return ['-I' + repoenv.cached_dir('overlay', key, build)]


class Program:
  """One driver, linked with sources of the repository, in one mode."""

  def __init__(self, name, mode, driver_srcs, repo_srcs, header_dirs, extra=(), libs=(), optional=(), front=(), flags=(), base_libs=LIBS,
               shim=SHIM, umbrella='arolla/mini.h'):
    self.name, self.mode = name, mode
    self.driver_srcs, self.repo_srcs, self.optional = list(driver_srcs), list(repo_srcs), list(optional)
    self.header_dirs, self.extra, self.libs = header_dirs, list(extra), list(libs)
    self.shim, self.umbrella = shim, umbrella
    self.front, self.flags, self.base_libs = list(front), list(flags), list(base_libs)

  def _objects(self):
    hdrs = cpp.files_under(self.shim, *self.front) + [p for d in self.header_dirs for p in (cpp.files_under(d, exts=('.h', '.inc')) if os.path.isdir(d) else [d])]
    overlay = shim_overlay([p for p in hdrs if p.startswith(REPO)] + self.repo_srcs + self.optional, self.shim, self.umbrella)
    inc = ['-I' + d for d in self.front] + ['-I' + self.shim] + overlay + ['-I' + REPO] + self.extra
    hkey = repoenv._hash(hdrs)
    out = []
    for src in self.driver_srcs + self.repo_srcs + self.optional:
      own = src in self.driver_srcs
      flags = BASE + inc + MODES[self.mode] + self.flags + (['-fsanitize-coverage=trace-pc-guard'] if self.mode == 'controlled' and not own else [])
      stem = '_'.join(src.rsplit('.', 1)[0].split('/')[-2:])
      key = repoenv._hash([src], repr(flags) + hkey)
      out.append((src, f'obj-{self.mode}-{"d" if own else "r"}-{stem}', key, flags))
    return out

  def build(self):
    """Returns the path of the program."""
    from concurrent.futures import ThreadPoolExecutor
    objs = self._objects()
    errors = {}

    def one(o):
      src, name, key, flags = o

      def make(tmp):
        p = subprocess.run(['clang++'] + flags + ['-c', src, '-o', os.path.join(tmp, 'o.o')], capture_output=True, text=True)
        if p.returncode:
          raise cpp.CompileError(src + '\n' + p.stderr[-6000:])

      try:
        return os.path.join(repoenv.cached_dir(name, key, make), 'o.o')
      except cpp.CompileError as e:
        if src not in self.optional:
          errors[src] = e
        return None

    with ThreadPoolExecutor(8) as ex:
      files = list(ex.map(one, objs))
    if errors:
      raise next(iter(errors.values()))
    import hashlib
    key = hashlib.blake2b(repr([(o[1], o[2], f is None) for o, f in zip(objs, files)]).encode() + repr(self.libs).encode(), digest_size=12).hexdigest()

    def link(tmp):
      p = subprocess.run(['clang++'] + MODES[self.mode][:1] + [f for f in files if f] + ['-o', os.path.join(tmp, 'prog')] + self.libs + self.base_libs,
                         capture_output=True, text=True)
      if p.returncode:
        raise cpp.CompileError('link\n' + p.stderr[-6000:])

    return os.path.join(repoenv.cached_dir(f'prog-{self.mode}-{self.name}', key, link), 'prog')


def sane_env():
  return dict(os.environ, TSAN_OPTIONS='halt_on_error=1:second_deadlock_stack=1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0',
              UBSAN_OPTIONS='print_stacktrace=1')


def run_programs(run, jobs, grace=240):
  """Runs [(label, argv)] at once; returns [(label, stdout)], raises Violation.

  A program prints one `OK ...` line, or a `VIOL ...` line and ends with 3; a
  sanitizer report or a failed check of the code itself ends it otherwise.
  """
  procs = []
  for label, argv in jobs:
    procs.append([label, argv, subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=sane_env())])
  deadline = time.time() + max(run.budget, 1) + grace
  from concurrent.futures import ThreadPoolExecutor

  def wait(p):
    label, argv, proc = p
    try:
      out, err = proc.communicate(timeout=max(1, deadline - time.time()))
      return label, argv, proc.returncode, out, err
    except subprocess.TimeoutExpired:
      proc.kill()
      out, err = proc.communicate()
      return label, argv, 'timeout', out, err

  def retry(res):
    label, argv, rc, out, err = res
    if 'unexpected memory mapping' in err and shutil.which('setarch'):
      p = subprocess.run(['setarch', '-R'] + argv, capture_output=True, text=True, errors='replace', env=sane_env())
      return label, argv, p.returncode, p.stdout, p.stderr
    return res

  with ThreadPoolExecutor(len(procs)) as ex:
    results = [retry(r) for r in ex.map(wait, procs)]
  good = []
  lost = []
  for label, argv, rc, out, err in results:
    cmd = ' '.join(argv)
    viol = re.search(r'^VIOL .*$', out, re.M)
    if viol:
      m = re.search(r'seed=(\d+) case=(\d+)', viol.group(0))
      again = f'{argv[0]} {argv[1]} {m.group(1)} {m.group(2)} 1 1 60' if m else cmd
      run.record(vp.Violation(viol.group(0)[5:] + f' ({label})', f'run again: {again}\n{out[-3000:]}\n{err[-3000:]}'))
    elif rc == 0 and re.search(r'^OK ', out, re.M):
      good.append((label, out))
    elif rc == 'timeout':
      run.record(vp.Violation(f'{label}: the program makes no progress', f'{cmd}\n{out[-2000:]}\n{err[-3000:]}'))
    elif 'unexpected memory mapping' in err or rc == -signal.SIGKILL:
      lost.append(f'{label}: {rc} {err[-300:]}')
    else:
      m = re.search(r'(WARNING: ThreadSanitizer: [^\n]*|ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|[^\n]*[Cc]heck failed[^\n]*|FATAL[^\n]*)', err)
      what = m.group(0) if m else f'the program ended with {rc}'
      run.record(vp.Violation(f'{label}: {what}', f'{cmd}\n{out[-1500:]}\n{err[-6000:]}'))
  if lost and not run.violations:
    raise vp.Inconclusive('; '.join(lost))
  return good


def tally(run, good):
  """Adds what the programs report to the evidence."""
  for label, out in good:
    line = re.search(r'^OK (.*)$', out, re.M).group(1)
    kv = dict(x.split('=', 1) for x in line.split())
    cases = int(kv.get('cases', 0))
    run.evaluations += cases
    kind = label.split('/')[0]
    run.count(f'{kind}_cases', cases)
    run.count('oracle_evaluations', cases)
    for k, v in kv.items():
      if k.startswith('n:'):
        run.count(k[2:], int(v))
    if 'switches' in kv:
      run.count(f'{kind}_switches', int(kv['switches']))
    sched = int(kv.get('schedules', 0)) or int(kv.get('distinct', 0))
    for i in range(sched):
      run._distinct.add((label, i))
    if sched:
      run.count('distinct_schedules' if 'schedules' in kv else 'distinct_inputs', sched)
    if int(kv.get('edges', 0)):
      run.counters['code_edges_seen'] = max(run.counters.get('code_edges_seen', 0), int(kv['edges']))
      run.counters['code_edges_all'] = int(kv.get('edges_all', 0))
    if len(run.samples) < 6:
      run.samples.append(f'{label}: {line[:300]}')
