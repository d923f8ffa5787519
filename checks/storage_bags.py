"""B01-B06: the bag manager (persistence of named bags and their dependencies).

The real DataBagManager runs on the kd model of lib/minikd.py and on the
in-memory disk of lib/memfs.py (and, for part of the load, on real scratch
directories). The oracle is a list of (name, bag, dependencies, metadata) in
commit order, with its own closure computation.
"""
import os
import random
import shutil
import tempfile

import repoenv
import vp

repoenv.setup_path()
import minikd  # noqa: E402

kd = minikd.install()
import memfs  # noqa: E402
from google.protobuf import any_pb2, wrappers_pb2  # noqa: E402
from koladata.ext.storage import data_bag_manager as dbm  # noqa: E402
from koladata.ext.storage import global_cache_lib  # noqa: E402

NAMES = ['a', 'b', 'B', '', ' ', 'x/y', '..', 'naïve', '日本', 'a b', '*', '[ab]', "q'q", 'metadata-000000000009.pb', 'null', '-1', 'bag', 'É', 'É', '\t', 'long' * 30]


class World:
  """Entities shared by every bag, so that order and omission show."""

  def __init__(self, rng):
    self.rng = rng
    self.ents = [kd.new(seed0=i) for i in range(4)]

  def bag(self):
    rng = self.rng
    out = []
    for _ in range(rng.choice([1, 1, 2, 4])):
      e = rng.choice(self.ents)
      kind = rng.random()
      if kind < 0.7:
        v = rng.choice([rng.randrange(1000), 'v%d' % rng.randrange(1000), None, 0.5, b'\0\xff', True])
        if v is None:
          v = kd.slice(None, kd.INT32)
      elif kind < 0.85:
        v = kd.list([rng.randrange(9) for _ in range(rng.randrange(3))], item_schema=kd.INT32)
      else:
        v = kd.new(z=rng.randrange(9))
      out.append(kd.attrs(e, True, **{rng.choice(['p', 'q', 'r']): v}))
    if rng.random() < 0.05:
      return kd.bag()
    return kd.bags.updated(*out).merge_fallbacks()


def facts(bag):
  return minikd.bag_snapshot(bag)


class Model:
  """What a manager must hold: entries in commit order."""

  def __init__(self, entries=()):
    self.e = list(entries)  # (name, bag, deps, meta)

  def copy(self):
    return Model(self.e)

  def names(self):
    return {n for n, *_ in self.e}

  def closure(self, names, dependents):
    deps = {n: set(d) for n, _, d, _ in self.e}
    want = set(names)
    if dependents:
      grown = True
      while grown:
        grown = False
        for n, d in deps.items():
          if n not in want and d & want:
            want.add(n)
            grown = True
    grown = True
    while grown:
      grown = False
      for n in list(want):
        for d in deps[n]:
          if d not in want:
            want.add(d)
            grown = True
    return want

  def restrict(self, names):
    return Model([x for x in self.e if x[0] in names])

  def merged(self, names):
    return facts(kd.bags.updated(*[b for n, b, *_ in self.e if n in names]))


def meta_for(rng):
  r = rng.random()
  if r < 0.5:
    return None
  if r < 0.6:
    return any_pb2.Any()
  a = any_pb2.Any()
  a.Pack(wrappers_pb2.StringValue(value='m%d' % rng.randrange(10**6)))
  return a


def batch(rng, world, model, n=None, prefix=''):
  """A random valid batch for `model`."""
  out, have = [], list(model.names())
  for _ in range(n if n is not None else rng.choice([0, 1, 1, 1, 2, 3, 6])):
    free = [x for x in NAMES if prefix + x not in have]
    name = prefix + rng.choice(free) if free and rng.random() < 0.6 else prefix + 'n%d' % rng.randrange(10**9)
    if name in have:
      continue
    deps = tuple(rng.sample(have, min(len(have), rng.choice([0, 1, 1, 2, 3]))))
    out.append((name, world.bag(), deps, meta_for(rng)))
    have.append(name)
  return out


def to_add(entries):
  return [dbm.BagToAdd(n, b, dependencies=d, custom_metadata=m) for n, b, d, m in entries]


def check_state(run, mgr, model, rng, what, full=True):
  """The manager holds exactly `model`."""
  got = set(mgr.get_available_bag_names())
  run.expect(got == model.names(), f'{what}: the manager lists {sorted(got)}, expected {sorted(model.names())}')
  if not got:
    return
  order = mgr.canonical_topological_sorting(frozenset(got))
  run.expect(list(order) == [n for n, *_ in model.e], f'{what}: bags are ordered {order}, added in order {[n for n, *_ in model.e]}')
  md = mgr.get_custom_metadata(list(got))
  for n, b, d, m in model.e:
    run.expect((md[n] is None) == (m is None) and (m is None or md[n] == m), f'{what}: custom metadata of {n!r} is {md[n]!r}, expected {m!r}')
  sets = [list(got)] if full else []
  for _ in range(3):
    sets.append(rng.sample(sorted(got), rng.randint(1, min(3, len(got)))))
  for names in sets:
    dependents = rng.random() < 0.4
    want = model.closure(names, dependents)
    loaded = mgr.load_bags(names, with_all_dependents=dependents)
    run.expect(set(loaded) == want, f'{what}: load_bags({names!r}, dependents={dependents}) gave {sorted(loaded)}, the closure is {sorted(want)}')
    for n, b, *_ in model.e:
      if n in want:
        run.expect(facts(loaded[n]) == facts(b), f'{what}: bag {n!r} comes back different from what was added', [facts(loaded[n]), facts(b)])
    mb = mgr.get_minimal_bag(names, with_all_dependents=dependents)
    run.expect(facts(mb) == model.merged(want),
               f'{what}: get_minimal_bag({names!r}, dependents={dependents}) is not the updates in add order', [facts(mb), model.merged(want)])


def fresh_cache(rng=None):
  c = global_cache_lib.get_global_cache()
  c.clear()
  c.set_max_total_bytes_of_entries_in_cache(10**9 if rng is None else rng.choice([0, 300, 2000, 10**9, 10**9]))


def reopen(store, d, fs=None):
  """A new process: nothing cached."""
  return dbm.DataBagManager.create_from_dir(d, fs=fs or memfs.Fs(store))


def refused(run, what, f):
  try:
    f()
  except (ValueError, AssertionError, KeyError) as e:
    return e
  run.fail(f'{what} was accepted')


@vp.prop('B01', min_eval=6, min_distinct=6, shards=6)
def b01(run):
  run.rule = 'distinct (sequence of batch sizes and dependency shapes, sessions) histories compared with the model'
  scratch = tempfile.mkdtemp(prefix='vp-b01-')
  try:
    for i in run.cases(400, 20000):
      rng = run.sub(i)
      minikd.seed_ids(i)
      world = World(rng)
      real = i % 5 == 4
      if real:
        d = os.path.join(scratch, f'd{i}', 'p')
        mk = lambda: None
      else:
        store = memfs.Store()
        d = rng.choice(['/w/dir', '/w/dir/', 'rel/dir', '/w/with space/δ'])
        mk = lambda: memfs.Fs(store)
      fresh_cache(rng)
      mgr = dbm.DataBagManager.create_new(d, fs=mk())
      model = Model()
      sig = [real]
      for step in range(rng.randint(1, 6)):
        b = batch(rng, world, model)
        # What is invalid in the current state is refused and changes nothing.
        if rng.random() < 0.5:
          kind = rng.choice(['dup', 'dep', 'dup_in_batch', 'later_dep', 'unknown', 'unknown_meta'])
          bad = None
          if kind == 'dup' and model.e:
            bad = b + [(rng.choice(sorted(model.names())), world.bag(), (), None)]
          elif kind == 'dep':
            bad = b + [('zz%d' % rng.randrange(10**9), world.bag(), ('no such',), None)]
          elif kind == 'dup_in_batch' and b:
            bad = b + [(b[0][0], world.bag(), (), None)]
          elif kind == 'later_dep':
            bad = [('y1', world.bag(), ('y2',), None), ('y2', world.bag(), (), None)]
          elif kind == 'unknown':
            refused(run, 'loading an unknown bag', lambda: mgr.load_bags(['no such']))
            refused(run, 'loading an unknown bag next to known ones', lambda: mgr.get_minimal_bag([*model.names(), 'no such'], with_all_dependents=True))
          elif kind == 'unknown_meta':
            refused(run, 'custom metadata of an unknown bag', lambda: mgr.get_custom_metadata([*model.names(), 'no such']))
          if bad is not None:
            refused(run, f'an invalid batch ({kind})', lambda: mgr.add_bags(to_add(bad)))
            check_state(run, mgr, model, rng, f'after a refused batch ({kind})', full=False)
            check_state(run, reopen(None, d, fs=mk()) if not real else dbm.DataBagManager.create_from_dir(d), model, rng, f'reopened after a refused batch ({kind})', full=False)
        mgr.add_bags(to_add(b))
        model.e += b
        sig.append((len(b), tuple(len(x[2]) for x in b)))
        if rng.random() < 0.4:
          check_state(run, mgr, model, rng, 'live')
        if rng.random() < 0.5:
          fresh_cache(rng)
          mgr = dbm.DataBagManager.create_from_dir(d, fs=mk())
          sig.append('reopen')
          check_state(run, mgr, model, rng, 'reopened')
      check_state(run, mgr, model, rng, 'live at the end')
      fresh_cache()
      check_state(run, dbm.DataBagManager.create_from_dir(d, fs=mk()), model, rng, 'reopened at the end')
      if rng.random() < 0.2:
        refused(run, 'create_new on a populated directory', lambda: dbm.DataBagManager.create_new(d, fs=mk()))
        check_state(run, dbm.DataBagManager.create_from_dir(d, fs=mk()), model, rng, 'after a refused create_new', full=False)
      if rng.random() < 0.3:
        # The directory is hermetic: it can be moved.
        fresh_cache()
        d2 = os.path.join(os.path.dirname(d.rstrip('/')), 'moved')
        if real:
          shutil.move(d, d2)
        else:
          store.move_tree(d, d2)
        check_state(run, dbm.DataBagManager.create_from_dir(d2, fs=mk()), model, rng, 'after moving the directory')
        run.count('moved')
      run.count('bags_added', len(model.e))
      run.saw(sig + [len(model.e)], [n for n, *_ in model.e][:5] if i < 3 else None)
      if real:
        shutil.rmtree(os.path.dirname(d.rstrip('/')), ignore_errors=True)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def _prefilled(rng, world, d):
  store = memfs.Store()
  mgr = dbm.DataBagManager.create_new(d, fs=memfs.Fs(store))
  model = Model()
  for _ in range(rng.randint(0, 3)):
    b = batch(rng, world, model)
    mgr.add_bags(to_add(b))
    model.e += b
  return store, model


def which(run, store, d, options, rng, what):
  """Reopens and says which of the allowed states the directory is in."""
  fresh_cache()
  mgr = reopen(store, d)
  got = set(mgr.get_available_bag_names())
  for k, m in options:
    if got == m.names():
      check_state(run, mgr, m, rng, f'{what}, reopened in the "{k}" state')
      return k, mgr
  run.fail(f'{what}: the reopened directory holds {sorted(got)}; allowed: ' + '; '.join(f'{k}: {sorted(m.names())}' for k, m in options))


@vp.prop('B02', min_eval=20, min_distinct=10, shards=6)
def b02(run):
  run.rule = 'distinct (fault kind, operation it hit, batch size, resulting state) of an interrupted add_bags'
  for i in run.cases(60, 3000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    world = World(rng)
    fresh_cache()
    d = '/w/d'
    store0, before = _prefilled(rng, world, d)
    b = batch(rng, world, before, n=rng.choice([1, 1, 2, 3, 5]))
    if not b:
      continue
    after = Model(before.e + b)
    probe = memfs.Fs(store0.clone())
    m = reopen(None, d, fs=probe)
    start = probe.n
    m.add_bags(to_add(b))
    total = probe.n - start
    points = list(range(total))
    if len(points) > 14 and run.quick:
      points = sorted(rng.sample(points[:-6], 8) + points[-6:])
    for k in points:
      for kind in memfs.KINDS_WRITE:
        store = store0.clone()
        fs = memfs.Fs(store)
        fresh_cache()
        m = reopen(None, d, fs=fs)
        fs.plan = (kind, fs.n + k)
        try:
          m.add_bags(to_add(b))
          died, ok = False, True
        except memfs.Died:
          died, ok = True, False
        except Exception:  # pylint: disable=broad-except
          died, ok = False, False
        if fs.fired is None:
          run.count('fault_not_reached')
          continue
        what = f'add_bags of {len(b)} bags with {fs.fired[0]} at {fs.fired[1]} (op {k} of {total})'
        if ok:
          # The operation may have succeeded in spite of the fault; then it counts.
          state, _ = which(run, store, d, [('after', after)], rng, what + ', reported as done')
        else:
          state, _ = which(run, store, d, [('before', before), ('after', after)], rng, what)
        run.saw((fs.fired[0], fs.fired[1], len(b), state), what if i == 0 and k < 2 else None)
        run.count(f'state_{state}')
        if not died and not ok:
          # The same instance still shows the old state and can be used.
          fs.plan = None
          check_state(run, m, before, rng, what + ', the same instance afterwards', full=False)
          try:
            m.add_bags(to_add(b))
            retried = True
          except Exception as e:  # pylint: disable=broad-except
            retried = False
            run.expect(state == 'after', f'{what}: nothing was committed, yet the same instance cannot retry: {e!r}')
          if retried:
            run.expect(state == 'before', f'{what}: the add was committed although reported as failed, and could be committed again by the same instance')
            check_state(run, m, after, rng, what + ', retried', full=False)
          which(run, store, d, [('after', after)], rng, what + ', after the retry')
          run.count('retries')
        # A new process carries on.
        fresh_cache()
        m2 = reopen(store, d)
        cur = after if set(m2.get_available_bag_names()) == after.names() else before
        extra = batch(rng, world, cur, n=1, prefix='extra')
        m2.add_bags(to_add(extra))
        which(run, store, d, [('continued', Model(cur.e + extra))], rng, what + ', continued by a new process')


def _writer(store, d, entries, box=None):
  """One process: opens now, adds later."""

  def job(on_op):
    fs = memfs.Fs(store)
    m = dbm.DataBagManager.create_from_dir(d, fs=fs)
    fs.on_op = on_op
    if box is not None:
      box.append(m)
    m.add_bags(to_add(entries))
    return m

  return job


@vp.prop('B03', min_eval=10, min_distinct=6, shards=6)
def b03(run):
  run.rule = 'distinct (interleaving trace hash, winner) of concurrent writers'
  for i in run.cases(120, 6000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    world = World(rng)
    fresh_cache()
    d = '/w/d'
    store0, before = _prefilled(rng, world, d)
    same = rng.random() < 0.3
    prefixes = ['', ''] if same else ['A', 'B']
    if i % 3 == 0:
      # B runs to completion inside each operation of A.
      ba = batch(rng, world, before, n=rng.choice([1, 2, 3]), prefix=prefixes[0])
      bb = batch(rng, world, before, n=rng.choice([1, 2]), prefix=prefixes[1])
      if not ba or not bb:
        continue
      probe = memfs.Fs(store0.clone())
      m = reopen(None, d, fs=probe)
      n0 = probe.n
      m.add_bags(to_add(ba))
      total = probe.n - n0
      for k in range(total):
        store = store0.clone()
        fa, fb = memfs.Fs(store), memfs.Fs(store)
        a, b = reopen(None, d, fs=fa), reopen(None, d, fs=fb)
        seen = {'n': 0, 'b': None, 'at': None}

        def hook(fs, op, path):
          j = seen['n']
          seen['n'] += 1
          if j == k and seen['b'] is None:
            seen['at'] = op
            seen['b'] = outcome(lambda: b.add_bags(to_add(bb)))

        fa.on_op = hook
        ra = outcome(lambda: a.add_bags(to_add(ba)))
        rb = seen['b']
        if rb is None:
          run.count('not_reached')
          continue
        fa.on_op = None
        judge(run, store, d, before, [(ra, ba, a), (rb, bb, b)], rng, f'B inside {seen["at"]} (op {k}) of A')
        run.saw(('nested', seen['at'], k, ra[0], rb[0]))
    else:
      # Threads, in a seeded order of file-system steps.
      n = rng.choice([2, 2, 3, 4])
      bs = [batch(rng, world, before, n=rng.choice([1, 1, 2, 3]), prefix='' if same else 'W%d' % j) for j in range(n)]
      if not all(bs):
        continue
      store = store0.clone()
      mgrs = []
      for _ in range(n):
        fs = memfs.Fs(store)
        mgrs.append((dbm.DataBagManager.create_from_dir(d, fs=fs), fs))

      def mkjob(j):
        def job(on_op):
          mgrs[j][1].on_op = on_op
          try:
            mgrs[j][0].add_bags(to_add(bs[j]))
          finally:
            mgrs[j][1].on_op = None

        return job

      out, trace = memfs.run_gated(rng, [mkjob(j) for j in range(n)])
      if out is None:
        raise vp.Inconclusive('a writer did not finish within 60 s')
      judge(run, store, d, before, [(out[j], bs[j], mgrs[j][0]) for j in range(n)], rng, f'{n} concurrent writers, order of steps {trace}')
      run.saw(('gated', tuple(trace), tuple(o[0] for o in out)))
      run.count('steps', len(trace))
  # Retrying writers: everybody gets through in the end, nothing is lost.
  for i in run.cases(20, 800, frac=1.2):
    rng = run.sub('retry', i)
    minikd.seed_ids(i)
    world = World(rng)
    fresh_cache()
    d = '/w/d'
    store, before = _prefilled(rng, world, d)
    n = rng.choice([2, 3])
    bs = [batch(rng, world, Model(), n=rng.choice([1, 2]), prefix='W%d' % j) for j in range(n)]
    commits = []

    def mkjob2(j):
      def job(on_op):
        for _ in range(40):
          fs = memfs.Fs(store, on_op=on_op)
          m = dbm.DataBagManager.create_from_dir(d, fs=fs)
          try:
            m.add_bags(to_add(bs[j]))
            return
          except (ValueError, OSError):
            run.count('lost_races')
        raise RuntimeError('starved')

      return job

    out, trace = memfs.run_gated(rng, [mkjob2(j) for j in range(n)])
    if out is None or any(o[0] != 'ok' for o in out):
      run.expect(out is None or not any(isinstance(o[1], RuntimeError) for o in out if o[0] != 'ok'), 'a writer that reopens after each conflict never got through in 40 attempts', trace)
      raise vp.Inconclusive(f'retrying writers: {out}')
    fresh_cache()
    m = reopen(store, d)
    got = set(m.get_available_bag_names())
    want = before.names().union(*[{x[0] for x in b} for b in bs])
    run.expect(got == want, f'after {n} retrying writers the directory lists {sorted(got)}, expected {sorted(want)}', trace)
    order = list(m.canonical_topological_sorting(frozenset(got)))
    pos = {x: k for k, x in enumerate(order)}
    batches = sorted(bs, key=lambda b: pos[b[0][0]] if b else -1)
    model = Model(before.e + [x for b in batches for x in b])
    check_state(run, m, model, rng, f'after {n} retrying writers')
    run.saw(('retry', tuple(trace)))


def outcome(f):
  try:
    return ('ok', f())
  except memfs.Died:
    raise
  except Exception as e:  # pylint: disable=broad-except
    return ('err', e)


def judge(run, store, d, before, results, rng, what):
  """Exactly one of several writers that started from the same state wins."""
  winners = [j for j, (r, _, _) in enumerate(results) if r[0] == 'ok']
  run.expect(len(winners) == 1, f'{what}: {len(winners)} of {len(results)} writers that started from the same state succeeded (one must)',
             [repr(r[1]) for r, *_ in results])
  w = winners[0]
  after = Model(before.e + results[w][1])
  which(run, store, d, [('winner', after)], rng, what)
  for j, (r, b, m) in enumerate(results):
    run.count('losers_checked' if j != w else 'winners_checked')
    check_state(run, m, after if j == w else before, rng, f'{what}: the {"winning" if j == w else "losing"} instance', full=False)
  # The loser cannot write later either, and its state can be branched.
  for j, (r, b, m) in enumerate(results):
    if j != w:
      r2 = outcome(lambda: m.add_bags(to_add(b)))
      run.expect(r2[0] == 'err', f'{what}: a stale instance could write after having lost')
  which(run, store, d, [('winner', after)], rng, what + ', after the losers tried again')


@vp.prop('B04', min_eval=6, min_distinct=6, shards=6)
def b04(run):
  run.rule = 'distinct (history, closure sizes, branch/extract, follow-up) comparisons'
  for i in run.cases(220, 9000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    world = World(rng)
    fresh_cache(rng)
    store = memfs.Store()
    mgrs = []  # [manager, model, dir, dirs it needs]
    m = dbm.DataBagManager.create_new('/w/t0', fs=memfs.Fs(store))
    mgrs.append([m, Model(), '/w/t0', {'/w/t0'}])
    sig = []
    for step in range(rng.randint(3, 9)):
      j = rng.randrange(len(mgrs))
      m, model, d, need = mgrs[j]
      act = rng.choice(['add', 'add', 'branch', 'extract', 'reopen'])
      if act == 'add' or not model.e:
        b = batch(rng, world, model)
        m.add_bags(to_add(b))
        model.e += b
        sig.append(('add', j, len(b)))
        if not model.e:
          continue
      elif act == 'reopen':
        fresh_cache(rng)
        mgrs[j][0] = reopen(store, d)
        sig.append(('reopen', j))
      else:
        names = rng.sample(sorted(model.names()), rng.randint(1, min(3, len(model.e))))
        if rng.random() < 0.3:
          names = sorted(model.names())
        dependents = rng.random() < 0.4
        new = f'/w/t{len(mgrs)}'
        if rng.random() < 0.3:
          memfs.Fs(store).make_dirs(new)
        f = m.create_branch if act == 'branch' else m.extract_bags
        if rng.random() < 0.2:
          pre = store.snapshot()
          refused(run, f'{act} into a populated directory', lambda: f(names, with_all_dependents=dependents, output_dir=d, fs=memfs.Fs(store)))
          run.expect(store.snapshot() == pre, f'{act} into a populated directory was refused but changed files')
          refused(run, f'{act} of unknown bags', lambda: f(names + ['no such'], output_dir='/w/never', fs=memfs.Fs(store)))
        f(names, with_all_dependents=dependents, output_dir=new, fs=memfs.Fs(store))
        want = model.closure(names, dependents)
        mgrs.append([reopen(store, new), model.restrict(want), new, ({new} | need) if act == 'branch' else {new}])
        sig.append((act, j, len(want), dependents))
        run.count(act)
      for k, (mm, mod, dd, _) in enumerate(mgrs):
        check_state(run, mm, mod, rng, f'after {sig}: manager {k} ({dd}), live', full=False)
    for k, (mm, mod, dd, _) in enumerate(mgrs):
      fresh_cache(rng)
      check_state(run, reopen(store, dd), mod, rng, f'after {sig}: manager {k} ({dd}), reopened')
    # An extraction does not need the original.
    victim = rng.choice(mgrs)[2]
    store2 = store.clone()
    store2.delete_tree(victim)
    fresh_cache()
    for k, (mm, mod, dd, need) in enumerate(mgrs):
      if victim not in need:
        check_state(run, reopen(store2, dd), mod, rng, f'after {sig} and deleting {victim}, which {dd} does not depend on')
        run.count('survived_deletion')
    run.saw(sig, sig if i < 3 else None)


@vp.prop('B05', min_eval=6, min_distinct=6, shards=6)
def b05(run):
  run.rule = 'distinct (history, cache capacities used) compared between cached and uncached managers'
  for i in run.cases(160, 8000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    world = World(rng)
    cache = global_cache_lib.get_global_cache()
    cache.clear()
    store = memfs.Store()
    dirs = ['/w/x', '/w/y', '/w/x-branch']
    models, mgrs = {}, {}
    sig = []
    for d in dirs[:2]:
      mgrs[d] = dbm.DataBagManager.create_new(d, fs=memfs.Fs(store))
      models[d] = Model()
    for step in range(rng.randint(4, 12)):
      act = rng.choice(['add', 'add', 'cap', 'clear', 'reopen', 'read', 'read', 'none', 'branch'])
      d = rng.choice(sorted(mgrs))
      if act == 'add':
        # The same bag names live in several directories.
        b = batch(rng, world, models[d])
        mgrs[d].add_bags(to_add(b))
        models[d].e += b
        sig.append(('add', d, len(b)))
      elif act == 'cap':
        cap = rng.choice([0, 1, 150, 400, 1000, 5000, 10**8])
        cache.set_max_total_bytes_of_entries_in_cache(cap)
        sig.append(('cap', cap))
      elif act == 'clear':
        cache.clear()
      elif act == 'reopen':
        mgrs[d] = reopen(store, d)
      elif act == 'none':
        mgrs[d].bag_cache = rng.choice([None, cache])
        sig.append(('cache', mgrs[d].bag_cache is not None))
      elif act == 'branch' and dirs[2] not in mgrs and models['/w/x'].e:
        names = sorted(models['/w/x'].names())
        mgrs['/w/x'].create_branch(names, output_dir=dirs[2], fs=memfs.Fs(store))
        mgrs[dirs[2]] = reopen(store, dirs[2])
        models[dirs[2]] = models['/w/x'].copy()
        sig.append('branch')
      check_state(run, mgrs[d], models[d], rng, f'cached manager after {sig}')
      run.expect(cache.get_total_bytes_of_entries_in_cache() <= cache.get_max_total_bytes_of_entries_in_cache(), 'the cache holds more than its limit')
      run.count('cache_bytes_seen', cache.get_total_bytes_of_entries_in_cache())
    for d in mgrs:
      check_state(run, mgrs[d], models[d], rng, f'cached manager at the end of {sig}')
      un = reopen(store, d)
      un.bag_cache = None
      check_state(run, un, models[d], rng, f'uncached manager at the end of {sig}')
    run.saw(sig + [tuple(len(m.e) for m in models.values())], sig if i < 3 else None)


HOSTILE = [
    'plain', 'with space', 'trailing/', '[1]', 'a[!b]c', 'run[0-9]', 'star*', 'q?', 'new\nline', 'δ/日本', "quo'te\"", 'dot.d', '.hidden', '-dash', 'a//b', 'a/./b',
    'x' * 200, '%s', '{}', '$HOME', '~', '#', 'metadata-000000000000.pb', 'back\\slash', '[', ']', '[]', '[*]', '**',
]


@vp.prop('B06', min_eval=6, min_distinct=6, shards=6)
def b06(run):
  run.rule = 'distinct (directory name, real or in-memory disk) on which a full history was stored and recovered'
  scratch = tempfile.mkdtemp(prefix='vp-b06-')
  try:
    for i in run.cases(3 * len(HOSTILE), 60 * len(HOSTILE), min_n=2 * len(HOSTILE)):
      rng = run.sub(i)
      minikd.seed_ids(i)
      world = World(rng)
      fresh_cache()
      name = HOSTILE[i % len(HOSTILE)] if i < 2 * len(HOSTILE) else ''.join(rng.choice('ab[]*?!-0/ .\\é{}') for _ in range(rng.randint(1, 8))) + 'z'
      name = name.lstrip('/')
      if '..' in name.split('/'):
        continue
      real = (i // len(HOSTILE)) % 2 == 1
      base = os.path.join(scratch, f'r{i}') if real else '/w'
      d = os.path.join(base, name)
      store = memfs.Store()
      mk = (lambda: None) if real else (lambda: memfs.Fs(store))
      # A neighbour whose name the pattern could match by mistake.
      decoy = os.path.join(base, name.replace('[1]', '1').replace('[0-9]', '3').replace('*', 'QQ').replace('?', 'Q').replace('[!b]', 'x'))
      dm = None
      if os.path.normpath(decoy) != os.path.normpath(d):
        dm = dbm.DataBagManager.create_new(decoy, fs=mk())
        decoy_model = Model(batch(rng, world, Model(), n=2, prefix='decoy'))
        dm.add_bags(to_add(decoy_model.e))
      model = Model()
      try:
        m = dbm.DataBagManager.create_new(d, fs=mk())
        for _ in range(2):
          b = batch(rng, world, model, n=2)
          m.add_bags(to_add(b))
          model.e += b
          fresh_cache()
          m = dbm.DataBagManager.create_from_dir(d, fs=mk())
          check_state(run, m, model, rng, f'directory {name!r} reopened')
        refused(run, f'create_new on the populated directory {name!r}', lambda: dbm.DataBagManager.create_new(d, fs=mk()))
        br = d.rstrip('/') + '-branch'
        m.create_branch(sorted(model.names()), output_dir=br, fs=mk())
        check_state(run, dbm.DataBagManager.create_from_dir(br, fs=mk()), model, rng, f'branch of directory {name!r}')
        refused(run, f'branching into the populated directory of {name!r}', lambda: m.create_branch(sorted(model.names()), output_dir=br, fs=mk()))
        ex = d.rstrip('/') + '-extract'
        m.extract_bags(sorted(model.names()), output_dir=ex, fs=mk())
        check_state(run, dbm.DataBagManager.create_from_dir(ex, fs=mk()), model, rng, f'extraction of directory {name!r}')
        refused(run, f'extracting into the populated directory of {name!r}', lambda: m.extract_bags(sorted(model.names()), output_dir=ex, fs=mk()))
        if dm is not None:
          check_state(run, dbm.DataBagManager.create_from_dir(decoy, fs=mk()), decoy_model, rng, f'neighbour of directory {name!r}')
          run.count('decoys')
      except vp.Violation:
        raise
      except Exception as e:  # pylint: disable=broad-except
        if vp.blamed_frame(e):
          run.fail(f'directory {name!r} ({"real" if real else "memory"} disk): {e!r}')
        raise
      run.saw((name, real), name if i < 4 else None)
      if real:
        shutil.rmtree(base, ignore_errors=True)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
