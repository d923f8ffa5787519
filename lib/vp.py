"""Shared runner: verdicts, evidence, seeds, budgets, known findings.

A check module (/verif/checks/<name>.py) registers drivers with @prop(ID, ...).
`run.py <ID> [quick|thorough]` runs one driver and turns what the monitors saw
into exit 0 (held on what was observed), exit 1 + VIOLATION line, or exit 3
(inconclusive: too few observations, or machinery failure).
"""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
PY = '/opt/venv/bin/python'

REGISTRY = {}
MODELS = [os.path.join(VERIF, 'lib', m) for m in ('minikd.py', 'memfs.py')]


class Violation(Exception):
  """Raised by a monitor: the property is broken, with a witness."""

  def __init__(self, what, witness=None, key=None):
    super().__init__(what)
    self.what = what
    self.witness = witness
    self.key = key  # mechanism key, matched against known findings


class Inconclusive(Exception):
  pass


def prop(pid, level='exploration', min_eval=1, min_distinct=1, shards=1):
  """Registers a driver; `shards` processes split its cases between them."""
  def deco(fn):
    REGISTRY[pid] = (fn, level, min_eval, min_distinct, shards)
    return fn

  return deco


def known_findings():
  path = os.path.join(VERIF, 'known_findings.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if not line or line.startswith('#') or line.startswith('fixed:'):
        continue
      # finding: property=<id> key=<mechanism key> :: text
      if line.startswith('finding:'):
        body = line[len('finding:'):].strip()
        head, _, text = body.partition('::')
        kv = dict(p.split('=', 1) for p in head.split())
        out.append((kv['property'], kv['key'], text.strip()))
  return out


class Run:
  """One execution of one check."""

  def __init__(self, pid, tier, seed, level, shard=0, shards=1):
    self.pid = pid
    self.shard, self.shards = shard, shards
    self.tier = tier
    self.seed = seed
    self.level = level
    self.rng = random.Random(f'{pid}/{seed}')
    self.t0 = time.time()
    self.evaluations = 0
    self._distinct = set()
    self.samples = []
    self.rule = ''
    self.counters = {}
    self.assumptions = []
    self.violations = []
    self.known_hits = {}
    self._known = [(k, t) for p, k, t in known_findings() if p == pid]
    self.budget = 14.0 if tier == 'quick' else 240.0
    if os.environ.get('VP_BUDGET'):
      self.budget = float(os.environ['VP_BUDGET'])

  quick = property(lambda self: self.tier == 'quick')

  def sub(self, *tag):
    """A reproducible PRNG for one case."""
    return random.Random(f'{self.pid}/{self.seed}/' + '/'.join(map(str, tag)))

  def elapsed(self):
    return time.time() - self.t0

  def left(self, frac=1.0):
    return self.budget * frac - self.elapsed()

  def cases(self, quick_n, thorough_n, frac=1.0, min_n=None):
    """Yields case indices until the count or the time budget runs out.

    At least `min_n` cases are always run (default: a tenth of the count), so a
    slow machine shortens the exploration, never turns it into nothing. With
    several shards, each runs up to the full count, of different cases.
    """
    n = quick_n if self.quick else thorough_n
    if min_n is None:
      min_n = max(1, quick_n // 10)
    min_n = -(-min_n // self.shards)
    for j in range(n):
      i = j * self.shards + self.shard
      if j >= min_n and self.elapsed() > self.budget * frac:
        self.count('cut_by_time_budget')
        return
      yield i

  def count(self, name, by=1):
    self.counters[name] = self.counters.get(name, 0) + by

  def saw(self, signature, sample=None):
    """Records one evaluated case; `signature` None marks it trivial."""
    self.evaluations += 1
    if signature is not None:
      if not isinstance(signature, (str, bytes)):
        signature = repr(signature)
      if isinstance(signature, str):
        signature = signature.encode('utf8', 'backslashreplace')
      self._distinct.add(hashlib.blake2b(signature, digest_size=8).digest())
    if sample is not None and len(self.samples) < 6:
      self.samples.append(sample if isinstance(sample, (str, int, float, list, dict)) else repr(sample))

  def fail(self, what, witness=None, key=None):
    raise Violation(what, witness, key)

  def expect(self, cond, what, witness=None, key=None):
    self.count('oracle_evaluations')
    if not cond:
      raise Violation(what, witness, key)

  def record(self, v):
    for k, text in self._known:
      if v.key == k:
        self.known_hits[k] = text
        return
    self.violations.append(v)


def write_evidence(run, extra=None):
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  cov = {
      'evaluations': run.evaluations,
      'distinct_nontrivial': len(run._distinct),
      'rule': run.rule,
      'samples': run.samples or ['(none)'],
      'observed': dict(sorted(run.counters.items())),
  }
  if extra:
    cov.update(extra)
  ev = {
      'property': run.pid,
      'tier': run.tier,
      'seed': run.seed,
      'level': run.level,
      'coverage': cov,
      'assumptions': run.assumptions,
      'wall_s': round(time.time() - run.t0, 3),
      'violations': len(run.violations),
  }
  path = os.path.join(VERIF, 'evidence', run.pid + '.json')
  tmp = path + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1, default=repr)
  os.replace(tmp, path)


def blamed_frame(e):
  """Where the code under test let an unexpected exception out, if it did.

  Only when the innermost frame that is either ours or the repository's is the
  repository's, and the exception is not about a missing name (which is what a
  stand-in that lacks something would cause).
  """
  if not isinstance(e, Exception) or isinstance(e, (ImportError, AttributeError, NameError, SyntaxError, NotImplementedError, MemoryError)):
    return None
  for f in reversed(traceback.extract_tb(e.__traceback__)):
    # Errors that the kd model and the model file system raise by design are the
    # caller's doing.
    if isinstance(e, (ValueError, OSError)) and f.filename in MODELS:
      continue
    if f.filename.startswith(VERIF + os.sep):
      return None
    if f.filename.startswith(REPO + os.sep):
      return f'{f.filename}:{f.lineno}'
  return None


def drive(fn, run):
  """Runs a driver; returns 0, 3 (inconclusive) or 4 (the machinery failed)."""
  try:
    fn(run)
    return 0
  except Violation as v:
    v.tb = ''.join(traceback.format_tb(v.__traceback__))
    run.record(v)
    return 0
  except Inconclusive as e:
    print(f'INCONCLUSIVE property={run.pid}: {e}', flush=True)
    return 3
  except BaseException as e:  # pylint: disable=broad-except
    traceback.print_exc()
    blame = blamed_frame(e)
    if blame:
      run.record(Violation(f'the code raised {e!r} in {blame} where every call is expected to succeed', traceback.format_exc()))
    print(f'ERROR property={run.pid}: the machinery failed', flush=True)
    return 4


def drive_sharded(fn, run, shards):
  """Splits the cases over processes and merges what their monitors saw."""
  procs = []
  for k in range(shards):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      code = 70
      try:
        os.close(r)
        sub = Run(run.pid, run.tier, run.seed, run.level, k, shards)
        sub.t0 = run.t0
        rc = drive(fn, sub)
        blob = pickle.dumps((
            rc, sub.evaluations, sub._distinct, sub.samples, sub.rule, sub.counters, sub.assumptions,
            [(v.what, v.witness if isinstance(v.witness, str) else repr(v.witness), v.key, getattr(v, 'tb', '')) for v in sub.violations],
            sub.known_hits,
        ))
        with os.fdopen(w, 'wb') as f:
          f.write(blob)
        sys.stdout.flush()
        sys.stderr.flush()
        code = 0
      finally:
        os._exit(code)
    os.close(w)
    procs.append((pid, r))
  rc, left, blobs = 0, {r: (pid, []) for pid, r in procs}, {}
  hurry = None
  while left:
    ready, _, _ = select.select(list(left), [], [], 0.5)
    for r in ready:
      data = os.read(r, 1 << 20)
      pid, parts = left[r]
      if data:
        parts.append(data)
        continue
      os.close(r)
      del left[r]
      os.waitpid(pid, 0)
      blob = b''.join(parts)
      try:
        res = pickle.loads(blob)
      except Exception:  # pylint: disable=broad-except
        print(f'ERROR property={run.pid}: a worker process was lost')
        rc = max(rc, 4)
        continue
      blobs[pid] = res
      if res[7] and hurry is None:
        hurry = time.time() + 5
    if hurry is not None and time.time() > hurry:
      # There is a witness; the others need not finish.
      for pid, _ in left.values():
        try:
          os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
          pass
      for r, (pid, _) in left.items():
        os.waitpid(pid, 0)
        os.close(r)
      break
  for pid, _ in procs:
    if pid not in blobs:
      continue
    c, ev, distinct, samples, rule, counters, assumptions, violations, hits = blobs[pid]
    rc = max(rc, c)
    run.evaluations += ev
    run._distinct |= distinct
    run.samples = (run.samples + samples)[:6]
    run.rule = rule
    run.assumptions = assumptions
    run.known_hits.update(hits)
    for k, n in counters.items():
      run.count(k, n)
    for what, witness, key, tb in violations:
      v = Violation(what, witness, key)
      v.tb = tb
      run.violations.append(v)
  return rc


def main(pid, tier):
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  fn, level, min_eval, min_distinct, shards = REGISTRY[pid]
  shards = min(shards, int(os.environ.get('VP_WORKERS') or max(1, (os.cpu_count() or 2) - 2)))
  run = Run(pid, tier, seed, level)
  sys.stdout.flush()
  rc = drive(fn, run) if shards <= 1 else drive_sharded(fn, run, shards)
  for k, text in sorted(run.known_hits.items()):
    print(f'KNOWN-FINDING: property={pid} {text}')
  write_evidence(run)
  if run.violations:
    v = run.violations[0]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', f'{pid}-{tier}-{seed}.txt')
    with open(path, 'w') as f:
      f.write(f'property {pid}\nreplay: VERIF_SEED={seed} {PY} {VERIF}/run.py {pid} {tier}\n')
      for v2 in run.violations[:10]:
        f.write(f'\n{v2.what}\nkey: {v2.key}\nwitness:\n{v2.witness if isinstance(v2.witness, str) else json.dumps(v2.witness, indent=1, default=repr)}\n')
        f.write(getattr(v2, 'tb', ''))
    print(f'  {v.what}')
    w = v.witness if isinstance(v.witness, str) else repr(v.witness)
    print('  witness: ' + w[:3000])
    print(f'VIOLATION property={pid} replay={path}')
    return 1
  if rc == 0 and (run.evaluations < min_eval or len(run._distinct) < min_distinct):
    print(
        f'INCONCLUSIVE property={pid}: the monitors saw {run.evaluations} cases,'
        f' {len(run._distinct)} distinct; need {min_eval}/{min_distinct}'
    )
    rc = 3
  if rc == 0:
    print(
        f'HELD property={pid} tier={tier} seed={seed}'
        f' evaluations={run.evaluations} distinct={len(run._distinct)}'
        f' observed={dict(sorted(run.counters.items()))} wall={run.elapsed():.1f}s'
    )
  return rc
