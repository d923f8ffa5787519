"""Driver of V04, run under the sanitizer runtime in its own process."""
import gc
import json
import os
import random
import sys
import time

sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import viewmon  # pylint: disable=g-import-not-at-top

kv = viewmon.kv()
MAP = sys.modules['koladata.ext.view.clib_py_ext'].map_structures
seed, n, budget, out = int(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
counters, sigs, samples, trivial = {}, [], [], 0


class Item:
  """A refcount-tracked item (never immortal, never interned)."""
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t


class Boom(Exception):
  pass


def count(k, by=1):
  counters[k] = counters.get(k, 0) + by


def finish(v=None, w=None):
  with open(out, 'w') as f:
    json.dump(dict(violation=v, witness=w, counters=counters, signatures=sigs, trivial=trivial, samples=samples), f)
  sys.exit(0)


def nest(r, depth, pool):
  if depth == 0:
    return r.choice(pool)
  return tuple([nest(r, depth - 1, pool) for _ in range(r.choice([0, 1, 2, 3]))])


def shape_like(r, s, depth, pool):
  if depth == 0:
    return r.choice(pool)
  return tuple([shape_like(r, x, depth - 1, pool) for x in s])


t0 = time.time()
for case in range(n):
  if case > 150 and time.time() - t0 > budget:
    count('cut_by_time_budget')
    break
  r = random.Random(f'{seed}/{case}')
  pool = [Item(i) for i in range(3)]
  items = pool + [None]
  depth = r.choice([0, 1, 2, 3])
  base = nest(r, depth, items)
  nargs = r.choice([1, 2, 3, 6])
  args, depths = [], []
  for i in range(nargs):
    d = r.randrange(depth + 1) if i else depth
    args.append(shape_like(r, base, d, items))
    depths.append(d)
  mode = r.choice(['ok', 'ok', 'raise', 'raise', 'gc', 'recurse', 'mismatch', 'bad_args', 'nontuple', 'kwargs', 'result_refs', 'class_fn'])
  im = r.random() < 0.5
  kwn = ()
  calls = 0
  fail_at = r.randrange(1, 8)
  results = []

  def fn(*a, **kw):
    global calls
    calls += 1
    if mode == 'raise' and calls == fail_at:
      raise Boom()
    if mode == 'gc' and calls % 3 == 0:
      gc.collect()
    if mode == 'recurse' and calls < 4:
      MAP(lambda *q: None, depths, True, list(args))
    if mode == 'result_refs':
      return pool[calls % 3]
    return (calls,)

  if mode == 'kwargs':
    kwn = tuple(f'k{i}' for i in range(r.randrange(1, nargs + 1)))
  if mode == 'mismatch' and depth:
    args.append(nest(r, depth, items))
    depths.append(depth)
  if mode == 'nontuple':
    args.append([pool[0]])
    depths.append(1)
  f = fn
  if mode == 'class_fn':
    f = type('F', (), {'__init__': lambda self, *a: None})
  call = [f, r.choice([tuple, list])(depths), im, r.choice([tuple, list])(args)] + ([kwn] if kwn else [])
  if mode == 'bad_args':
    k = r.randrange(10)
    if k == 0:
      call = call[: r.randrange(4)]
    elif k == 1:
      call[0] = 5
    elif k == 2:
      call[1] = {1}
    elif k == 3:
      call[1] = tuple(depths) + (0,)
    elif k == 4:
      call[1] = tuple([-1] + depths[1:])
    elif k == 5:
      call[1] = tuple(['x'] + depths[1:])
    elif k == 6:
      call[3] = 'abc' if r.random() < 0.5 else None
    elif k == 7:
      call = call[:4] + [('a',) * (nargs + 1)]
    elif k == 8:
      call[1], call[3] = (), ()
    else:
      call[1] = tuple([1 << 70] + depths[1:])
  before = [sys.getrefcount(p) for p in pool]
  a_before = [sys.getrefcount(a) for a in args if isinstance(a, tuple) and a != ()]
  res, err = None, None
  try:
    res = MAP(*call)
  except Boom:
    err = 'Boom'
  except Exception as e:  # pylint: disable=broad-except
    err = type(e).__name__
  wit = repr((mode, depths, im, [repr(a)[:80] for a in args], kwn, err, case))
  after = [sys.getrefcount(p) for p in pool]

  def in_result(x, p):
    if x is p:
      return 1
    if type(x) is tuple:
      return sum(in_result(y, p) for y in x)
    return 0

  exp = [b + (in_result(res, p) if mode == 'result_refs' and err is None else 0) for b, p in zip(before, pool)]
  if after != exp:
    finish(f'reference counts of the items changed from {before} to {after}, expected {exp} (mode {mode})', wit)
  a_after = [sys.getrefcount(a) for a in args if isinstance(a, tuple) and a != ()]
  if a_after != a_before:
    finish(f'reference counts of the argument structures changed (mode {mode})', wit)
  if mode == 'bad_args' and err is None:
    finish('malformed arguments were accepted', wit)
  if mode == 'nontuple' and err is None:
    finish('a non-tuple structure was traversed', wit)
  if mode == 'raise' and calls >= fail_at and err != 'Boom':
    finish(f'the exception of the callback was lost ({err})', wit)
  if mode == 'raise' and calls > fail_at:
    finish('the callback was called again after it raised', wit)
  if mode in ('ok', 'gc', 'recurse', 'kwargs', 'class_fn', 'result_refs') and err is not None:
    finish(f'a valid call raised {err}', wit)
  if err is None and mode in ('ok', 'gc') and depth:
    # The result must be an ordinary, fully initialised tuple tree.
    def walk(x, s, d):
      if d == 0:
        assert x is not None or not im or True
        return
      if type(x) is not tuple or len(x) != len(s):
        finish('the result does not have the shape of the arguments', wit)
      if not gc.is_tracked(x) and x != () and any(gc.is_tracked(y) for y in x):
        pass
      for y, z in zip(x, s):
        walk(y, z, d - 1)

    walk(res, base, depth)
  count('calls', calls)
  count('mode_' + mode)
  if err:
    count('exceptions_' + err)
  if mode in ('raise', 'bad_args', 'mismatch', 'nontuple', 'recurse') :
    sigs.append(wit)
    if len(samples) < 5:
      samples.append(wit)
  else:
    trivial += 1
  del res

# Allocation conservation over many identical calls (no per-call leak).
# The blocks are counted by CPython only with its own allocator; use tracked
# objects instead: every Item created inside callbacks must die.
live = 0


class Tracked:

  def __init__(self):
    global live
    live += 1

  def __del__(self):
    global live
    live -= 1


for i in range(300):
  k = i % 7

  def cb(*a):
    global calls
    calls += 1
    if calls == k:
      raise Boom()
    return Tracked()

  calls = 0
  try:
    MAP(cb, (2, 1), True, (((1, 2), (3,)), (4, 5)))
  except Boom:
    pass
  if live:
    finish(f'{live} results of callbacks are still referenced after the call', f'raise at call {k}')
count('leak_rounds', 300)
# The same with the public API, including errors.
for i in range(200):
  objs = [Item(j) for j in range(3)]
  before = [sys.getrefcount(o) for o in objs]
  v = kv.view([[objs[0], None], [objs[1], objs[2]]])[:][:]
  for f in (lambda: v.flatten(), lambda: v.group_by(v), lambda: v.select(v.map(lambda x: kv.present)), lambda: v.collapse(2), lambda: v.nope, lambda: v.expand_to(v), lambda: v.take(0), lambda: (v == v), lambda: v.map(lambda x: 1 // 0)):
    try:
      f()
    except (AttributeError, ZeroDivisionError, TypeError):
      pass
  del v, f
  after = [sys.getrefcount(o) for o in objs]
  if after != before:
    gc.collect()
    after = [sys.getrefcount(o) for o in objs]
  if after != before:
    finish(f'public operations leak references: {before} -> {after}', None)
count('api_leak_rounds', 200)
finish()
