"""C01, C02: the size-bounded LRU cache."""
import gc
import itertools
import weakref

import repoenv
import sched
import vp
from vp import prop

repoenv.setup_path()
from koladata.ext.storage import lru_size_tracking_cache as lru  # pylint: disable=g-import-not-at-top

META = lru.CacheEntryMetadata


class Val:
  __slots__ = ('tag', '__weakref__')

  def __init__(self, tag):
    self.tag = tag

  def __repr__(self):
    return f'V{self.tag}'


class Model:
  """Sequential specification: LRU by use, bounded by total size."""

  def __init__(self, cap, entries=()):
    self.cap = cap
    self.e = list(entries)  # (key, value, size), least recently used first

  def find(self, k):
    for i, x in enumerate(self.e):
      if x[0] == k:
        return i
    return None

  def total(self):
    return sum(x[2] for x in self.e)

  def shrink(self, limit):
    while self.e and self.total() > limit:
      self.e.pop(0)

  def apply(self, op):
    name = op[0]
    if name == 'get':
      i = self.find(op[1])
      if i is None:
        return op[2]
      self.e.append(self.e.pop(i))
      return self.e[-1][1]
    if name == 'set':
      _, k, v, size = op
      i = self.find(k)
      if i is not None:
        self.e.append(self.e.pop(i))
        return self.e[-1][1]
      if size > self.cap:
        return v
      self.shrink(self.cap - size)
      self.e.append((k, v, size))
      return v
    if name == 'remove':
      i = self.find(op[1])
      if i is not None:
        self.e.pop(i)
      return None
    if name == 'total':
      return self.total()
    if name == 'max':
      return self.cap
    if name == 'setmax':
      if op[1] < 0:
        return 'ValueError'
      self.shrink(op[1])
      self.cap = op[1]
      return None
    if name == 'clear':
      self.e = []
      return None
    raise AssertionError(op)


def real_apply(c, op):
  name = op[0]
  if name == 'get':
    return c.get(op[1], op[2])
  if name == 'set':
    return c.set(op[1], op[2], META(num_bytes_estimate=op[3]))
  if name == 'remove':
    return c.remove(op[1])
  if name == 'total':
    return c.get_total_bytes_of_entries_in_cache()
  if name == 'max':
    return c.get_max_total_bytes_of_entries_in_cache()
  if name == 'setmax':
    try:
      return c.set_max_total_bytes_of_entries_in_cache(op[1])
    except ValueError:
      return 'ValueError'
  if name == 'clear':
    return c.clear()


class WeirdKey:
  """Equal keys that are distinct objects, some with colliding hashes."""

  def __init__(self, n, h):
    self.n, self.h = n, h

  def __eq__(self, o):
    return isinstance(o, WeirdKey) and o.n == self.n

  def __hash__(self):
    return self.h

  def __repr__(self):
    return f'K{self.n}'


SIZES = [0, 0, 1, 1, 2, 3, 5, 7, 10, 13, 50, 100, 101, 10**12]


def gen_op(r, nkeys, counter, sizes, weird):
  k = r.randrange(nkeys)
  key = WeirdKey(k, k % 2) if weird else r.choice([k, k, f'k{k}', None if k == 0 else k])
  x = r.random()
  if x < 0.3:
    return ('get', key, r.choice([None, 'dflt', 0]))
  if x < 0.68:
    v = r.choice([None, 0, False]) if r.random() < 0.08 else Val(next(counter))
    return ('set', key, v, r.choice(sizes))
  if x < 0.76:
    return ('remove', key)
  if x < 0.88:
    return ('total',)
  if x < 0.91:
    return ('max',)
  if x < 0.985:
    return ('setmax', r.choice([0, 1, 5, 10, 20, 30, 100, 100, 1000, -1, 10**12]))
  return ('clear',)


def same(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return type(a) is type(b) and a == b
  return a is b or (isinstance(a, str) and a == b)


@prop('C01', min_eval=100, min_distinct=50)
def bounded_accounting(run):
  run.rule = (
      'random operation sequences (get/set/remove/total/max/resize/clear; sizes 0..10^12, few keys,'
      ' colliding and equal-but-distinct keys, falsy values) on one real cache; non-trivial when at'
      ' least one eviction happened; after every operation the reported total is compared with the'
      ' sum of live sizes and the limit, and dead values are tracked by weak references'
  )
  for case in run.cases(6000, 80000):
    r = run.sub('seq', case)
    cap = r.choice([0, 1, 10, 10, 30, 100, 10**12])
    model = Model(cap)
    c = lru.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=cap)
    counter = itertools.count()
    nkeys = r.choice([2, 4, 8, 20])
    weird = r.random() < 0.4
    sizes = r.choice([SIZES, [1], [0, 1], [3, 5, 7], [10, 11]])
    refs = {}
    log = []
    evictions = 0
    for _ in range(r.choice([10, 40, 120])):
      op = gen_op(r, nkeys, counter, sizes, weird)
      log.append(repr(op))
      before = len(model.e)
      want = model.apply(op)
      got = real_apply(c, op)
      if op[0] in ('set', 'setmax') and len(model.e) < before + (op[0] == 'set'):
        evictions += 1
      run.expect(
          same(got, want),
          f'operation {op!r} returned {got!r}, the size-bounded LRU specification says {want!r}',
          log[-40:],
      )
      total = c.get_total_bytes_of_entries_in_cache()
      run.expect(
          total == model.total(),
          f'reported total {total} but the entries that are retrievable sum to {model.total()}',
          log[-40:],
      )
      run.expect(
          0 <= total <= c.get_max_total_bytes_of_entries_in_cache() or total == 0,
          f'total {total} exceeds the limit {c.get_max_total_bytes_of_entries_in_cache()}',
          log[-40:],
      )
      if op[0] == 'set' and isinstance(op[2], Val):
        refs[op[2].tag] = weakref.ref(op[2])
      del op, want, got
      live = {x[1].tag for x in model.e if isinstance(x[1], Val)}
      if r.random() < 0.1:
        dead = [t for t, w in refs.items() if t not in live and w() is not None]
        if dead:
          gc.collect()
          dead = [t for t, w in refs.items() if t not in live and w() is not None]
        run.expect(not dead, f'values {dead} left the cache but are still referenced by it', log[-40:])
        run.count('release_checks')
    # Drain in LRU order: shrinking the limit must evict oldest first.
    if r.random() < 0.5:
      order = list(model.e)
      tot = model.total()
      while tot > 0:
        tot = max(0, tot - r.choice([1, 1, 2, 5, 10, tot]))
        model.apply(('setmax', tot))
        c.set_max_total_bytes_of_entries_in_cache(tot)
        run.expect(
            c.get_total_bytes_of_entries_in_cache() == model.total(),
            'shrinking did not evict the least recently used entries first',
            {'log': log[-40:], 'order': repr(order), 'limit': tot},
        )
      for k, v, _ in order:
        i = model.find(k)
        want = model.e[i][1] if i is not None else 'absent'
        got = c.get(k, 'absent')
        run.expect(same(got, want), f'after draining key {k!r} is {got!r}, expected {want!r}', log[-40:])
    run.count('operations', len(log))
    run.count('evicting_operations', evictions)
    run.saw(repr(log) if evictions else None, log[:12] if evictions else None)
  # A constructor never accepts a negative limit.
  for bad in (-1, -(10**9)):
    try:
      lru.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=bad)
    except ValueError:
      continue
    run.fail('a negative limit was accepted', bad)


@prop('C02', min_eval=50, min_distinct=30)
def linearizable_cache(run):
  run.rule = (
      'histories of 2-4 threads x 2-5 operations on one cache under a seeded scheduler that preempts'
      ' at source lines or bytecodes of the cache; each history is checked by Wing-Gong search against'
      ' the sequential LRU; non-trivial when at least one context switch happened inside an operation'
  )
  target = lru.__file__
  for case in run.cases(1500, 40000):
    r = run.sub('lin', case)
    nt = r.choice([2, 2, 3, 3, 4])
    cap = r.choice([0, 3, 10, 20])
    with sched.patched():
      c = lru.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=cap)
    counter = itertools.count()
    sizes = r.choice([[1, 2, 3], [5, 10], [0, 4, 11]])
    nk = r.choice([1, 2, 3])
    pre = []
    model = Model(cap)
    for _ in range(r.randrange(4)):
      op = ('set', r.randrange(nk), Val(next(counter)), r.choice(sizes))
      pre.append(op)
      model.apply(op)
      real_apply(c, op)
    plans = []
    for _ in range(nt):
      plan = []
      for _ in range(r.choice([2, 3, 4]) if nt < 4 else 2):
        x = r.random()
        k = r.randrange(nk)
        if x < 0.28:
          plan.append(('get', k, None))
        elif x < 0.7:
          plan.append(('set', k, Val(next(counter)), r.choice(sizes)))
        elif x < 0.82:
          plan.append(('remove', k))
        elif x < 0.92:
          plan.append(('total',))
        elif x < 0.97:
          plan.append(('setmax', r.choice([0, 3, 8, 20])))
        else:
          plan.append(('clear',))
      plans.append(plan)
    s = sched.Sched(f'{run.seed}/{case}', [target], p_switch=r.choice([0.1, 0.3, 0.6]), opcodes=r.random() < 0.4)
    clock = itertools.count()
    hist = []

    def worker(plan):
      for op in plan:
        t0 = next(clock)
        try:
          res = real_apply(c, op)
        except Exception as e:  # pylint: disable=broad-except
          if isinstance(e, sched.Deadlock):
            raise
          res = f'raised {type(e).__name__}: {e}'
        hist.append((t0, next(clock), op, res))

    fin = s.run([lambda p=p: worker(p) for p in plans])
    wit = {'pre': repr(pre), 'cap': cap, 'history': [repr(h) for h in sorted(hist, key=lambda h: h[0])], 'schedule': s.trace[:200]}
    if s.deadlock:
      run.fail('threads using the cache deadlocked', wit)
    if not fin or s.errors:
      raise vp.Inconclusive(f'history did not complete: {s.errors}')
    total_end = c.get_total_bytes_of_entries_in_cache()
    t = next(clock)
    hist.append((t, next(clock), ('total',), total_end))
    for k in range(nk):
      t = next(clock)
      hist.append((t, next(clock), ('get', k, None), c.get(k, None)))
    wit['history'] = [repr(h) for h in sorted(hist, key=lambda h: h[0])]

    def apply(st, op):
      m = Model(st[0], st[1])
      res = m.apply(op)
      return (m.cap, tuple(m.e)), res

    class Cmp:  # results compare by identity for values
      pass

    ops = [(a, b, op, res) for a, b, op, res in hist]
    ok = sched.linearizable(
        ops, (model.cap, tuple(model.e)), apply, lambda st: (st[0], tuple((k, id(v), z) for k, v, z in st[1]))
    )
    run.expect(ok, 'no sequential order of the operations explains the observed results', wit)
    run.count('operations', len(hist))
    run.count('context_switches', s.switches)
    run.count('free_running_histories', int(s.free))
    run.saw(repr((plans, s.trace)) if s.switches else None, wit['history'][:6] if s.switches else None)
