"""M01-M07: the data slice manager (incremental, versioned, persisted slices).

The real DataSliceManager runs on the kd model (lib/minikd.py) and the in-memory
disk (lib/memfs.py). The oracle is the plain in-memory slice obtained by applying
every update directly ("vanilla"), kept per revision, and evaluated with our own
path evaluator. Values are compared fact by fact.
"""
import repoenv
import vp

repoenv.setup_path()
import minikd  # noqa: E402

kd = minikd.install()
import inline  # noqa: E402
import memfs  # noqa: E402
import storagegen as g  # noqa: E402
from koladata.ext.storage import bare_root_initial_data_manager as bare  # noqa: E402
from koladata.ext.storage import composite_initial_data_manager as composite  # noqa: E402
from koladata.ext.storage import data_slice_manager as dsm  # noqa: E402
from koladata.ext.storage import global_cache_lib  # noqa: E402
from koladata.ext.storage import simple_in_memory_data_slice_manager as simple  # noqa: E402

DSM = dsm.DataSliceManager


def fresh_cache(rng=None):
  c = global_cache_lib.get_global_cache()
  c.clear()
  c.set_max_total_bytes_of_entries_in_cache(10**9 if rng is None else rng.choice([0, 300, 3000, 10**9, 10**9]))


def show(p):
  return ''.join({'a': '.%s' % a[-1], 'i': '[:]', 'k': '.get_keys()', 'v': '.get_values()'}[a[0]] for a in p) or '(root)'


def upd(u):
  p, n, v = u[:3]
  return f'{show(p)}.{n} = {v!r}'


def do_update(m, u, description=None):
  p, n, v = u[:3]
  m.update(at_path=g.path(p), attr_name=n, attr_value=v, description=description)


class History:
  """A chain of determined updates: vanilla[k] is the slice after k updates."""

  def __init__(self, rng, root, n, detached=False, **kw):
    self.rng = rng
    self.detached = detached
    self.gen = g.Gen(rng, root, **kw)
    self.vanilla = [root]
    self.updates = []
    for _ in range(n):
      self.extend()

  def extend(self):
    return self.push(self.gen.update())

  def push(self, u):
    new = g.apply(self.vanilla[-1], *u[:3], self.detached)
    self.updates.append(u)
    self.vanilla.append(new)
    self.gen.sync(new, u[3])
    return u

  def text(self, k=None):
    return '; '.join(upd(u) for u in self.updates[:k])


def bad_paths(van, rng, paths):
  """Paths that the schema does not have."""
  out = []
  for p, s in rng.sample(paths, min(4, len(paths))):
    k = g.kind_of(van._b, s)
    have = {a for a, _ in g.edges(van._b, s)}
    for a in (('a', 'no_such'), ('i',), ('k',), ('v',), ('a', 'a')):
      if a not in have:
        out.append(p + (a,))
        if rng.random() < 0.2:
          out.append(p + (a, ('a', 'b')))
    del k
  return out


def check_view(run, m, van, rng, what, full=True, n=4):
  """Everything a reader can ask of `m` agrees with the vanilla slice."""
  facts = g.facts(van)
  if full:
    got = m.get_data_slice(populate_including_descendants=[g.ROOT])
    run.expect(g.snap(got) == g.snap(van), f'{what}: the fully loaded slice differs from applying the updates in memory',
               diff(got, van))
  s = m.get_schema()
  run.expect(g.snap(s) == g.snap(van.get_schema()), f'{what}: get_schema() is not the schema of the slice', [str(g.snap(s)), str(g.snap(van.get_schema()))])
  paths = g.all_paths(van, 5, 250)
  pick = rng.sample(paths, min(n, len(paths)))
  for p, sid in pick:
    P = g.path(p)
    want = g.evaluate(van, p)
    run.expect(m.exists(P) is True, f'{what}: exists({show(p)}) is not True')
    run.expect(g.snap(m.get_schema_at(P)) == g.snap(want.get_schema()), f'{what}: get_schema_at({show(p)}) is not the schema there')
    got = m.get_data_slice_at(P)
    run.expect(g.head(got) == g.head(want), f'{what}: get_data_slice_at({show(p)}) has other items than expected', [str(g.head(got)), str(g.head(want))])
    run.expect(g.facts(got) <= facts, f'{what}: get_data_slice_at({show(p)}) contains data that is not in the slice', [str(x) for x in g.facts(got) - facts])
    got = m.get_data_slice_at(P, with_all_descendants=True)
    run.expect(g.snap(got) == g.snap(want), f'{what}: get_data_slice_at({show(p)}, with_all_descendants=True) is not the whole subslice', diff(got, want))
    run.count('paths_read')
  # Sets of paths, and slices loaded separately.
  some = [p for p, _ in rng.sample(paths, min(3, len(paths)))]
  deep = [p for p, _ in rng.sample(paths, min(rng.choice([0, 1, 2]), len(paths)))]
  got = m.get_data_slice(populate=[g.path(p) for p in some], populate_including_descendants=[g.path(p) for p in deep])
  label = f'{what}: loading {[show(p) for p in some]} and everything below {[show(p) for p in deep]}'
  run.expect(g.facts(got) <= facts, f'{label} gives data that is not in the slice', [str(x) for x in g.facts(got) - facts])
  for p in some:
    run.expect(g.head(g.evaluate(got, p)) == g.head(g.evaluate(van, p)), f'{label}: {show(p)} is not populated')
  for p in deep:
    run.expect(g.snap(g.evaluate(got, p)) == g.snap(g.evaluate(van, p)), f'{label}: not everything below {show(p)} is populated', diff(g.evaluate(got, p), g.evaluate(van, p)))
  if len(some) >= 2:
    a = m.get_data_slice({g.path(some[0])})
    b = m.get_data_slice(populate_including_descendants={g.path(some[1])})
    both = a.updated(b.get_bag())
    one = m.get_data_slice(populate={g.path(some[0])}, populate_including_descendants={g.path(some[1])})
    run.expect(g.snap(both) == g.snap(one), f'{what}: {show(some[0])} and (with descendants) {show(some[1])}, loaded separately and combined, differ from loading them together', diff(both, one))
  for p in bad_paths(van, rng, paths)[:3]:
    P = g.path(p)
    run.expect(m.exists(P) is False, f'{what}: exists({show(p)}) although the schema has no such path')
    for f in (lambda: m.get_data_slice(populate=[P]), lambda: m.get_data_slice(populate_including_descendants=[P]), lambda: m.get_data_slice_at(P)):
      refused(run, f'{what}: loading the invalid path {show(p)}', f)
  d = rng.choice([0, 1, 2, 3])
  if len(g.all_paths(van, d, 600)) < 600:
    want = sorted(show(p) + repr(p) for p, _ in g.all_paths(van, d, 600))
    gotp = [x for x in m.generate_paths(max_depth=d)]
    run.expect(len(gotp) == len(set(gotp)), f'{what}: generate_paths(max_depth={d}) repeats a path')
    run.expect(set(gotp) == {g.path(p) for p, _ in g.all_paths(van, d, 600)}, f'{what}: generate_paths(max_depth={d}) gave {sorted(map(str, gotp))}, expected {want}')


def diff(got, want):
  a, b = g.snap(got), g.snap(want)
  return [f'heads {"equal" if a[0] == b[0] else (a[0], b[0])}', 'extra: ' + str([x for x in a[1] if x not in b[1]][:6]), 'missing: ' + str([x for x in b[1] if x not in a[1]][:6])]


def refused(run, what, f):
  try:
    f()
  except (ValueError, AssertionError, KeyError) as e:
    return e
  run.fail(f'{what} was accepted')


def first_root(rng):
  """None (default), a named root, or one with schema metadata."""
  r = rng.random()
  if r < 0.6:
    return None
  if r < 0.8:
    return kd.new(schema=rng.choice(['Root', 'Doc', 'Person']))
  s = kd.with_metadata(kd.named_schema('Root'), owner='me', n=5)
  return s.new()


def create(d, store, rng, fs=None, description=None):
  r = first_root(rng)
  fs = fs or memfs.Fs(store)
  if r is None:
    return DSM.create_new(d, fs=fs, description=description)
  return DSM.create_new(d, fs=fs, description=description, initial_data_manager=bare.BareRootInitialDataManager.create_new(r))


@vp.prop('M01', min_eval=6, min_distinct=6, shards=6)
def m01(run):
  run.rule = 'distinct (update paths, attribute names, value schemas, shapes) histories compared with the same updates in memory'
  for i in run.cases(130, 6000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache(rng)
    store = memfs.Store()
    m = create('/w/d', store, rng)
    h = History(rng, m.get_data_slice(), 0)
    check_view(run, m, h.vanilla[-1], rng, 'new manager')
    sig = []
    for k in range(rng.randint(2, 9)):
      u = h.extend()
      do_update(m, u)
      what = f'after {h.text()}'
      if rng.random() < 0.3:
        fresh_cache(rng)
      check_view(run, m, h.vanilla[-1], rng, what, n=3)
      sig.append((show(u[0]), u[1], str(u[2].get_schema()), u[2]._shape))
      run.count('updates')
      run.count('type_changes' if u[3] else 'same_type_updates')
    run.saw(sig, h.text() if i < 3 else None)


def revisions(run, m, d, h, base, rng, what, descs, kinds):
  hist = m.get_revision_history()
  run.expect(len(hist) == len(descs), f'{what}: the revision history has {len(hist)} entries, expected {len(descs)}')
  for j, (e, (desc, u)) in enumerate(zip(hist, descs)):
    if desc is not None:
      run.expect(e.description == desc, f'{what}: revision {j} is described as {e.description!r}, expected {desc!r}')
    if u is None:
      run.expect(type(e) is kinds, f'{what}: revision {j} is a {type(e).__name__}')
    else:
      run.expect(isinstance(e, dsm.AttributeUpdateMetadata) and e.attr_name == u[1] and e.at_path == g.path(u[0]).to_string(),
                 f'{what}: revision {j} is recorded as {e}, it was {upd(u)}')


def history_world(run, rng, n, d='/w/d'):
  """A manager with a history; every description distinct."""
  store = memfs.Store()
  m = create(d, store, rng, description='start' if rng.random() < 0.7 else None)
  h = History(rng, m.get_data_slice(), 0)
  descs = [(None, None)]
  for k in range(n):
    u = h.extend()
    desc = rng.choice([f'step {k}', f'δ {k}\n"', '', None])
    do_update(m, u, desc)
    descs.append((desc if desc is not None else '', u))
  return store, m, h, descs


@vp.prop('M02', min_eval=6, min_distinct=6, shards=6)
def m02(run):
  run.rule = 'distinct (history, revision reopened, copies taken) comparisons of a reopened or pinned manager with the slice as of that revision'
  for i in run.cases(70, 4000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache(rng)
    n = rng.randint(2, 7)
    store = memfs.Store()
    d = '/w/d'
    m = create(d, store, rng)
    h = History(rng, m.get_data_slice(), 0)
    descs = [(None, None)]
    pinned = []
    for k in range(n):
      u = h.extend()
      desc = rng.choice([f'step {k}', f'δ {k}\n"', '', None])
      if rng.random() < 0.35:
        how = rng.choice(['copy', 'reader', 'index', 'copy of an earlier one'])
        at = k
        if how == 'copy':
          c = m.get_readonly_copy()
        elif how == 'copy of an earlier one':
          # The copied instance is behind the directory.
          at = rng.randint(0, k)
          if pinned and rng.random() < 0.5:
            c, at, _ = rng.choice(pinned)
          else:
            c = DSM.create_from_dir(d, fs=memfs.Fs(store), at_revision_history_index=at)
          c = c.get_readonly_copy()
        elif how == 'reader':
          c = DSM.create_from_dir(d, fs=memfs.Fs(store), read_only=True)
        else:
          c = DSM.create_from_dir(d, fs=memfs.Fs(store), at_revision_history_index=k)
        pinned.append((c, at, how))
      do_update(m, u, desc)
      descs.append((desc or '', u))
      if rng.random() < 0.25:
        # The writer goes away and comes back.
        fresh_cache(rng)
        m = DSM.create_from_dir(d, fs=memfs.Fs(store))
    revisions(run, m, d, h, 0, rng, f'after {h.text()}', descs, dsm.CreationMetadata)
    check_view(run, m, h.vanilla[-1], rng, f'the writer after {h.text()}', n=2)
    fresh_cache(rng)
    m2 = DSM.create_from_dir(d, fs=memfs.Fs(store))
    revisions(run, m2, d, h, 0, rng, f'reopened after {h.text()}', descs, dsm.CreationMetadata)
    check_view(run, m2, h.vanilla[-1], rng, f'reopened after {h.text()}', n=3)
    for k in rng.sample(range(n + 1), min(3, n + 1)):
      ro = rng.random() < 0.5
      mk = DSM.create_from_dir(d, fs=memfs.Fs(store), at_revision_history_index=k, read_only=ro)
      what = f'opened at revision {k} of {h.text()}'
      check_view(run, mk, h.vanilla[k], rng, what, n=2)
      revisions(run, mk, d, h, 0, rng, what, descs[:k + 1], dsm.CreationMetadata)
      run.expect(mk.is_read_only is ro, f'{what}: is_read_only is {mk.is_read_only}')
      if k < n:
        before = store.snapshot()[0]
        u = h.updates[k]
        refused(run, f'{what}: updating on top of an old revision', lambda: do_update(mk, u))
        check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store)), h.vanilla[-1], rng, f'{what}, after a refused update there', n=1)
        after = store.snapshot()[0]
        run.expect(all(after.get(p) == v for p, v in before.items()), f'{what}: a refused update changed existing files')
      run.count('revisions_opened')
      run.saw((n, k, tuple(u[1] for u in h.updates)), h.text() if i < 2 else None)
    for k in (-1, n + 1, n + 5):
      refused(run, f'opening revision {k} of 0..{n}', lambda: DSM.create_from_dir(d, fs=memfs.Fs(store), at_revision_history_index=k))
    for c, k, how in pinned:
      check_view(run, c, h.vanilla[k], rng, f'a {how} taken at revision {k}, after {h.text()}', n=2)
      revisions(run, c, d, h, 0, rng, f'a {how} taken at revision {k}', descs[:k + 1], dsm.CreationMetadata)
      if how != 'index':
        run.expect(c.is_read_only, f'a {how} is not read-only')
        refused(run, f'updating a {how}', lambda: do_update(c, h.updates[k]))
      run.count('pinned_readers')
    if rng.random() < 0.3:
      # The directory is hermetic: it can be moved.
      fresh_cache()
      store.move_tree(d, '/elsewhere/x')
      check_view(run, DSM.create_from_dir('/elsewhere/x', fs=memfs.Fs(store)), h.vanilla[-1], rng, f'moved after {h.text()}', n=2)
      run.count('moved')


class Node:

  def __init__(self, m, d, h, descs, kind, parent=None):
    self.m, self.d, self.h, self.descs, self.kind, self.parent = m, d, h, descs, kind, parent


@vp.prop('M03', min_eval=6, min_distinct=6, shards=6)
def m03(run):
  run.rule = 'distinct trees of branches (parent, revision, updates) with every manager compared to its own vanilla history'
  for i in run.cases(70, 4000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache(rng)
    store, m, h, descs = history_world(run, rng, rng.randint(0, 4))
    nodes = [Node(m, '/w/d', h, descs, dsm.CreationMetadata)]
    sig = []
    for step in range(rng.randint(3, 8)):
      x = rng.choice(nodes)
      act = rng.choice(['update', 'update', 'branch', 'branch', 'reopen'])
      if act == 'update':
        u = x.h.extend()
        do_update(x.m, u, f's{step}')
        x.descs.append((f's{step}', u))
        sig.append(('u', nodes.index(x), u[1]))
      elif act == 'reopen':
        fresh_cache(rng)
        x.m = DSM.create_from_dir(x.d, fs=memfs.Fs(store))
        sig.append(('r', nodes.index(x)))
      else:
        L = len(x.descs)
        idx = rng.choice([None, -1, 0, L - 1, -L, rng.randrange(-L, L)])
        r = (L - 1 if idx is None else idx + L if idx < 0 else idx)
        where = rng.choice([None, f'/w/b{len(nodes)}', f'/w/deep/er/b{len(nodes)}'])
        if where and rng.random() < 0.3:
          memfs.Fs(store).make_dirs(where)
        for bad in (L, -L - 1):
          refused(run, f'branching from revision {bad} of {L}', lambda: x.m.branch('/w/never', revision_history_index=bad))
        kw = {} if idx is None else {'revision_history_index': idx}
        if rng.random() < 0.3:
          refused(run, 'branching into a populated directory', lambda: x.m.branch(rng.choice(nodes).d))
        b = x.m.branch(where, description='br', fs=rng.choice([None, memfs.Fs(store)]), **kw)
        if where is not None:
          run.expect(b.get_persistence_directory() == where, f'the branch lives in {b.get_persistence_directory()}, asked for {where}')
        h2 = History(rng, x.h.vanilla[-len(x.descs):][r], 0)
        nodes.append(Node(b, b.get_persistence_directory(), h2, [('br', None)], dsm.BranchMetadata, (x.d, r)))
        sig.append(('b', nodes.index(x), r, where is None))
        run.count('branches')
        run.expect(len({n.d for n in nodes}) == len(nodes), 'two branches got the same directory')
      for k, y in enumerate(nodes):
        if y is x or y is nodes[-1] or rng.random() < 0.3:
          check_view(run, y.m, y.h.vanilla[-1], rng, f'{sig}: manager {k}', n=1)
    for k, y in enumerate(nodes):
      what = f'{sig}: manager {k}, reopened'
      fresh_cache(rng)
      m2 = DSM.create_from_dir(y.d, fs=memfs.Fs(store))
      check_view(run, m2, y.h.vanilla[-1], rng, what, n=2)
      revisions(run, m2, y.d, y.h, 0, rng, what, y.descs, y.kind)
      if y.parent:
        e = m2.get_revision_history()[0]
        run.expect((e.parent_persistence_directory, e.parent_revision_history_index) == y.parent, f'{what}: its origin is recorded as {e}, it is {y.parent}')
      rr = rng.randrange(len(y.descs))
      check_view(run, DSM.create_from_dir(y.d, fs=memfs.Fs(store), at_revision_history_index=rr), y.h.vanilla[-len(y.descs):][rr], rng, f'{what} at {rr}', n=1)
      run.saw((tuple(sig), k), str(sig) if i < 3 else None)


@vp.prop('M04', min_eval=6, min_distinct=6, shards=6)
def m04(run):
  run.rule = 'distinct (operation, fault kind, file-system step it hit, resulting state) of interrupted updates, branches and creations'
  for i in run.cases(26, 1500):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache()
    d = '/w/d'
    store0, m, h, descs = history_world(run, rng, rng.randint(0, 3))
    u = h.extend()
    before, after = h.vanilla[-2], h.vanilla[-1]
    what0 = f'{upd(u)} after {h.text(-1)}'
    op = ['update', 'update', 'branch', 'create'][i % 4]

    def act(mm, fs):
      if op == 'update':
        do_update(mm, u)
      elif op == 'branch':
        return mm.branch('/w/b', fs=fs)
      else:
        return create('/w/new', None, run.sub(i, 'root'), fs=fs)

    minikd.seed_ids(1000 + i)
    probe = memfs.Fs(store0.clone())
    mm = DSM.create_from_dir(d, fs=probe)
    if op == 'update':
      # The manager may have loaded things already.
      mm.get_data_slice(populate_including_descendants=[g.ROOT])
    n0 = probe.n
    act(mm, probe)
    total = probe.n - n0
    points = list(range(total))
    writes = [k for k in points if probe.log[n0 + k][0] in ('write', 'create', 'rename', 'make_dirs')]
    if run.quick and len(points) > 12:
      points = sorted(set(rng.sample(writes, min(9, len(writes))) + rng.sample(points, 3) + writes[-3:]))
    for k in points:
      for kind in (memfs.KINDS_WRITE if not run.quick else rng.sample(memfs.KINDS_WRITE, 4)):
        store = store0.clone()
        fs = memfs.Fs(store)
        fresh_cache()
        mm = DSM.create_from_dir(d, fs=fs)
        if op == 'update':
          mm.get_data_slice(populate_including_descendants=[g.ROOT])
        minikd.seed_ids(1000 + i)
        fs.plan = (kind, fs.n + k)
        res = None
        try:
          res = act(mm, fs)
          died, ok = False, True
        except memfs.Died:
          died, ok = True, False
        except Exception:  # pylint: disable=broad-except
          died, ok = False, False
        if fs.fired is None:
          run.count('fault_not_reached')
          continue
        step = fs.fired[2]
        what = f'{op} ({what0}) with {fs.fired[0]} at {fs.fired[1]} {step} (step {k} of {total})'
        fs.plan = None
        fresh_cache()
        if op == 'update':
          m2 = DSM.create_from_dir(d, fs=memfs.Fs(store))
          revs = len(m2.get_revision_history())
          state = 'after' if revs == len(descs) + 1 else 'before'
          run.expect(revs in (len(descs), len(descs) + 1), f'{what}: reopened with {revs} revisions')
          run.expect(not ok or state == 'after', f'{what}: reported as done but not there when reopened')
          cur = after if state == 'after' else before
          check_view(run, m2, cur, rng, f'{what}, reopened', n=1)
          if not died:
            if not ok:
              check_view(run, mm, before, rng, f'{what}, the same instance', n=1)
            try:
              if not ok:
                do_update(mm, u)
                run.expect(state == 'before', f'{what}: committed although reported as failed, and then accepted again by the same instance')
                check_view(run, mm, after, rng, f'{what}, retried by the same instance', n=1)
                check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store)), after, rng, f'{what}, retried, reopened', n=1)
                state, cur = 'after', after
                run.count('retried')
            except (ValueError, OSError) as e:
              # Only when some component had in fact committed.
              run.expect(fs.fired[0] == 'after', f'{what}: nothing was committed, yet the same instance cannot retry: {e!r}')
              run.count('retry_refused')
          # A new process carries on.
          m3 = DSM.create_from_dir(d, fs=memfs.Fs(store))
          if state == 'before':
            do_update(m3, u)
          else:
            hx = History(run.sub(i, k, kind), cur, 1)
            do_update(m3, hx.updates[0])
            after2 = hx.vanilla[-1]
          check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store)), after if state == 'before' else after2, rng, f'{what}, continued by a new process', n=1)
        else:
          where = '/w/b' if op == 'branch' else '/w/new'
          # The trunk is untouched.
          check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store)), before, rng, f'{what}, the original', n=1)
          want = before if op == 'branch' else None
          try:
            b = DSM.create_from_dir(where, fs=memfs.Fs(store))
            state = 'after'
          except Exception:  # pylint: disable=broad-except
            b, state = None, 'before'
          run.expect(not ok or state == 'after', f'{what}: reported as done but cannot be opened')
          if ok and op == 'create':
            want = res.get_data_slice()
          if b is not None:
            if want is None:
              want = b.get_data_slice()
              run.expect(not list(g.edges(want._b, want._s)), f'{what}: an interrupted creation opens as a non-empty manager')
            check_view(run, b, want, rng, f'{what}, opened', n=1)
            hx = History(run.sub(i, k, kind), want, 1)
            do_update(b, hx.updates[0])
            check_view(run, b, hx.vanilla[-1], rng, f'{what}, opened and updated', n=1)
            b2 = b.branch()
            check_view(run, b2, hx.vanilla[-1], rng, f'{what}, opened and branched', n=1)
          if op == 'branch' and not died:
            b3 = mm.branch()
            check_view(run, b3, before, rng, f'{what}, then branched again', n=1)
        run.count(f'{op}_{state}')
        run.saw((op, fs.fired[0], fs.fired[1], step.split('/')[-2] if 'metadata' in step or '.kd' in step else step[:12], state), what[:300] if i == 0 and k < 2 else None)


@vp.prop('M05', min_eval=6, min_distinct=6, shards=6)
def m05(run):
  run.rule = 'distinct interleavings (order of file-system steps) of concurrent writers and readers of one directory'
  for i in run.cases(110, 6000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache()
    d = '/w/d'
    store, m, h, descs = history_world(run, rng, rng.randint(0, 2))
    base = h.vanilla[-1]
    n = rng.choice([2, 2, 3])
    # Updates that are determined in any order: distinct attributes of the root, primitive or fresh values.
    ups = []
    for j in range(n):
      val = rng.choice([kd.item(j), kd.item('v%d' % j), kd.list([j, j + 1]), kd.new(schema='W%d' % j, z=j), kd.dict({'k': j})])
      ups.append(((), 'w%d' % j if rng.random() < 0.7 else 'shared', val))
    kinds = {}
    for p, name, v in ups:
      kinds.setdefault(name, set()).add(str(v.get_schema()))
    late = rng.random() < 0.5
    mgrs, fss = {}, {}
    if not late:
      for j in range(n):
        fss[j] = memfs.Fs(store)
        mgrs[j] = DSM.create_from_dir(d, fs=fss[j])

    def mkjob(j):
      def job(on_op):
        if late:
          fss[j] = memfs.Fs(store, on_op=on_op)
          mgrs[j] = DSM.create_from_dir(d, fs=fss[j])
          seen = len(mgrs[j].get_revision_history())
        else:
          fss[j].on_op = on_op
          seen = len(descs)
        try:
          do_update(mgrs[j], ups[j], f'job {j}')
        finally:
          fss[j].on_op = None
        return seen

      return job

    reader = []

    def read(on_op):
      for _ in range(2):
        fs = memfs.Fs(store, on_op=on_op)
        r = DSM.create_from_dir(d, fs=fs, read_only=True)
        reader.append((r, r.get_data_slice(populate_including_descendants=[g.ROOT]), len(r.get_revision_history())))
        fs.on_op = None

    jobs = [mkjob(j) for j in range(n)]
    if rng.random() < 0.5:
      jobs.append(read)
    out, trace = memfs.run_gated(rng, jobs)
    if out is None:
      raise vp.Inconclusive('a writer did not finish within 60 s')
    what = f'{n} writers {[upd(u) for u in ups]} {"opening while others write" if late else "from the same state"}, steps {trace}'
    for o in out:
      if o[0] == 'err' and not isinstance(o[1], (ValueError, OSError)):
        raise o[1]
    if len(out) > n:
      run.expect(out[n][0] == 'ok', f'{what}: a reader failed with {out[n][1]!r}')
    won = [j for j in range(n) if out[j][0] == 'ok']
    fresh_cache()
    fin = DSM.create_from_dir(d, fs=memfs.Fs(store))
    hist = fin.get_revision_history()[len(descs):]
    order = [int(e.description.split()[1]) for e in hist]
    run.expect(sorted(order) == won, f'{what}: writers {won} were told they succeeded, the history holds {order}')
    run.expect(len(won) >= 1, f'{what}: nobody succeeded', [repr(o) for o in out])
    if not late:
      run.expect(len(won) == 1, f'{what}: {len(won)} writers that started from the same state succeeded')
    states = [base]
    for j in order:
      states.append(g.apply(states[-1], *ups[j]))
    check_view(run, fin, states[-1], rng, what, n=2)
    for k in range(len(states)):
      check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store), at_revision_history_index=len(descs) - 1 + k), states[k], rng, f'{what}: revision {len(descs) - 1 + k}', n=1)
    for j, mm in mgrs.items():
      if j in won:
        pos = order.index(j) + 1
        check_view(run, mm, states[pos], rng, f'{what}: the instance of writer {j}, which succeeded', n=1)
      else:
        seen = len(mm.get_revision_history())
        check_view(run, mm, states[seen - len(descs)], rng, f'{what}: the instance of writer {j}, which failed', n=1)
        run.count('losers_checked')
    for r, ds, revs in reader:
      run.expect(g.snap(ds) == g.snap(states[revs - len(descs)]), f'{what}: a reader that saw {revs} revisions loaded something else than that revision', diff(ds, states[revs - len(descs)]))
      check_view(run, r, states[revs - len(descs)], rng, f'{what}: a reader at {revs} revisions, later', n=1)
      run.count('readers_checked')
    # Whoever reopens can write.
    m3 = DSM.create_from_dir(d, fs=memfs.Fs(store))
    for j in range(n):
      if j not in won:
        do_update(m3, ups[j])
        states.append(g.apply(states[-1], *ups[j]))
    check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store)), states[-1], rng, f'{what}, the others retried', n=1)
    run.count('steps', len(trace))
    run.saw((tuple(trace), tuple(won), late))


@vp.prop('M06', min_eval=6, min_distinct=6, shards=6)
def m06(run):
  run.rule = 'distinct (refused request, history) after which every instance and the directory were compared with the state before'
  for i in run.cases(60, 4000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache()
    d = '/w/d'
    store, m, h, descs = history_world(run, rng, rng.randint(1, 5))
    van = h.vanilla[-1]
    paths = g.all_paths(van, 4, 200)
    ents = [p for p, s in paths if g.kind_of(van._b, s) == 'entity']
    others = [p for p, s in paths if g.kind_of(van._b, s) != 'entity']
    inner = kd.obj(x=1)
    smd = lambda bad: kd.with_metadata(kd.named_schema('Md%d' % rng.randrange(99)), m=bad)
    p = rng.choice(ents)
    requests = [
        ('an OBJECT value', (p, 'a', inner)),
        ('a value with an OBJECT inside', (p, 'q', kd.new(inner=inner))),
        ('a list of OBJECTs', (p, 'q', kd.list([kd.obj(1), kd.obj('x')]))),
        ('a dict of OBJECTs', (p, 'q', kd.dict({'a': inner}, key_schema=kd.STRING, value_schema=kd.OBJECT))),
        ('an OBJECT deep inside', (p, 'q', kd.new(k=kd.list([kd.new(o=inner)])))),
        ('a missing OBJECT', (p, 'q', kd.item(None, kd.OBJECT))),
        ('a SCHEMA value', (p, 'a', kd.INT32)),
        ('a value with a SCHEMA inside', (p, 'q', kd.new(s=kd.named_schema('Q')))),
        ('a list of SCHEMAs', (p, 'q', kd.list([kd.INT32, kd.STRING]))),
        ('structured schema metadata', (p, 'q', smd(kd.new(a=1)).new())),
        ('list schema metadata', (p, 'q', smd(kd.list([1])).new())),
        ('structured schema metadata inside', (p, 'q', kd.list([kd.new(z=smd(kd.new(a=1)).new())]))),
    ]
    if others:
      requests.append(('an update at a non-entity', (rng.choice(others), 'q', kd.item(1))))
    for bp in bad_paths(van, rng, paths)[:2]:
      requests.append(('an update at an invalid path', (bp, 'q', kd.item(1))))
    shaped = [q for q in ents if g.evaluate(van, q)._shape]
    if shaped:
      q = rng.choice(shaped)
      # One dimension more than fits, and not the size of the first one.
      n = sum(g.evaluate(van, q)._shape[0]) + 3
      requests.append(('a value of an incompatible shape', (q, 'q', kd.slice([1] * n))))
    requests.append(('a value with more dimensions', ((), 'q', kd.slice([1, 2]))))
    pre = store.snapshot()
    for name, u in rng.sample(requests, min(6 if run.quick else 20, len(requests))):
      what = f'{name} ({show(u[0])}.{u[1]}) after {h.text()}'
      e = refused(run, what, lambda: do_update(m, u))
      run.expect(store.snapshot() == pre, f'{what}: refused with {e!r}, but the directory changed')
      check_view(run, m, van, rng, f'{what}: refused, the same instance', n=1)
      if name != 'a value of an incompatible shape' and name != 'a value with more dimensions' and 'metadata' not in name:
        if u[0] == ():
          sm = simple.SimpleInMemoryDataSliceManager()
          hs = History(run.sub(i, name), sm.get_data_slice(), 0, detached=True)
          for _ in range(rng.randint(0, 2)):
            do_update(sm, hs.extend())
          refused(run, f'in-memory manager: {name}', lambda: do_update(sm, u))
          check_view(run, sm, hs.vanilla[-1], rng, f'in-memory manager after {hs.text()}: {what}: refused', n=1)
          do_update(sm, hs.extend())
          check_view(run, sm, hs.vanilla[-1], rng, f'in-memory manager after {hs.text()} and refused {what}', n=1)
      run.count('refused')
      run.saw((name, show(u[0]), len(h.updates)), what[:200] if i < 2 else None)
    m.set_read_only()
    refused(run, 'an update on a read-only manager', lambda: do_update(m, ((), 'q', kd.item(1))))
    run.expect(store.snapshot() == pre, 'a refused update on a read-only manager changed the directory')
    check_view(run, m, van, rng, f'read-only after {h.text()}', n=1)
    m = DSM.create_from_dir(d, fs=memfs.Fs(store))
    u = h.extend()
    do_update(m, u)
    check_view(run, m, h.vanilla[-1], rng, f'after refusals and {h.text()}', n=1)
    bad_roots = [('a list root', lambda: kd.list([1])), ('a missing root', lambda: kd.new(schema='R') & kd.missing), ('a root with attributes', lambda: kd.new(a=1)),
                 ('a primitive root', lambda: kd.item(1)), ('an OBJECT root', lambda: kd.obj()), ('a 1-dimensional root', lambda: kd.slice([kd.new(schema='R'), kd.new(schema='R')])),
                 ('a root with structured schema metadata', lambda: smd(kd.new(a=1)).new())]
    name, mk = rng.choice(bad_roots)
    refused(run, f'creating a manager with {name}', lambda: bare.BareRootInitialDataManager.create_new(mk()))
    refused(run, 'creating a manager in a populated directory', lambda: DSM.create_new(d, fs=memfs.Fs(store)))
    refused(run, 'opening an empty directory', lambda: DSM.create_from_dir('/w/none', fs=memfs.Fs(store)))
    check_view(run, DSM.create_from_dir(d, fs=memfs.Fs(store)), h.vanilla[-1], rng, f'after refused creations', n=1)


@vp.prop('M07', min_eval=6, min_distinct=6, shards=6)
def m07(run):
  run.rule = 'distinct (requested paths, data files read) of freshly opened managers'
  for i in run.cases(90, 5000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache()
    d = '/w/d'
    store = memfs.Store()
    fs = memfs.Fs(store)
    m = create(d, store, rng, fs=fs)
    h = History(rng, m.get_data_slice(), 0)
    leaf_files = {}  # file -> (schema, attr)
    for k in range(rng.randint(3, 9)):
      if rng.random() < 0.5:
        # A primitive attribute somewhere.
        van = h.vanilla[-1]
        ents = [(p, s) for p, s in g.all_paths(van, 4) if g.kind_of(van._b, s) == 'entity']
        p, s = rng.choice(ents)
        name = 'leaf%d' % rng.randrange(4)
        u = h.push((p, name, kd.item('v%d' % k), False))
      else:
        u = h.gen.update()
        if u[1].startswith('leaf'):
          continue
        h.push(u)
      have = set(store.snapshot()[0])
      do_update(m, u)
      if u[1].startswith('leaf'):
        for f in store.snapshot()[0].keys() - have:
          if '/data_bags/' in f and not f.endswith('.pb'):
            leaf_files[f] = (s, u[1])
            run.count('leaf_files')
    van = h.vanilla[-1]
    paths = g.all_paths(van, 5, 250)
    for _ in range(4):
      fresh_cache()
      fs2 = memfs.Fs(store)
      m2 = DSM.create_from_dir(d, fs=fs2)
      n0 = fs2.n
      some = [p for p, _ in rng.sample(paths, min(rng.choice([0, 1, 2]), len(paths)))]
      deep = [p for p, _ in rng.sample(paths, min(rng.choice([0, 0, 1]), len(paths)))]
      if rng.random() < 0.5:
        m2.get_data_slice(populate=[g.path(p) for p in some], populate_including_descendants=[g.path(p) for p in deep])
      else:
        for p in some:
          m2.get_data_slice_at(g.path(p))
        for p in deep:
          m2.get_data_slice_at(g.path(p), with_all_descendants=True)
      read = {p for op, p in fs2.log[n0:] if op == 'read'}
      needed = set()
      for p in some:
        for q in range(len(p) + 1):
          needed.add(node(van, p[:q]))
      for p in deep:
        for q in range(len(p) + 1):
          needed.add(node(van, p[:q]))
        needed |= below(van, p)
      what = f'loading {[show(p) for p in some]} and below {[show(p) for p in deep]} after {h.text()}'
      for f, leaf in leaf_files.items():
        if f in read:
          run.expect(leaf in needed, f'{what}: read the data file of an unrelated update of attribute {leaf[1]!r}', [f])
          run.count('leaf_files_read_when_needed')
        else:
          run.count('leaf_files_not_read')
      run.saw((tuple(show(p) for p in some), tuple(show(p) for p in deep), len(read)), what[:200] if i < 2 else None)


def node(van, p):
  """(schema, attribute) of the last attribute step of a path."""
  if not p or p[-1][0] != 'a':
    return None
  return (g.evaluate(van, p[:-1])._s, p[-1][1])


def below(van, p):
  """All (schema, attribute) pairs reachable in the schema from path p."""
  out, seen, todo = set(), set(), [g.evaluate(van, p)._s]
  while todo:
    s = todo.pop()
    if s in seen or not isinstance(s, minikd.ItemId):
      continue
    seen.add(s)
    for a, c in g.edges(van._b, s):
      if a[0] == 'a':
        out.add((s, a[1]))
      todo.append(c)
  return out


@vp.prop('M08', min_eval=6, min_distinct=6, shards=6)
def m08(run):
  run.rule = 'distinct compositions (component histories, pinned revisions, later updates) compared with the in-memory enrichment'
  for i in run.cases(60, 3000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    fresh_cache(rng)
    store = memfs.Store()
    n = rng.choice([1, 2, 2, 3])
    root = kd.new(schema='Root') if rng.random() < 0.5 else kd.new()
    idm = lambda: bare.BareRootInitialDataManager.create_new(root)
    comps = []
    common = kd.named_schema('Common', id=kd.INT32, note=kd.STRING)
    shared = [common.new(id=j) for j in range(3)]
    for j in range(n):
      m = DSM.create_new(f'/w/c{j}', fs=memfs.Fs(store), initial_data_manager=idm())
      # Components share the root and some entities; attribute names are their own unless of the same type.
      h = History(rng, m.get_data_slice(), 0, attrs=[f'{a}{j}' for a in ('p', 'q', 'r', 'x y')], retype=0)
      h.gen.named = [s for s in (kd.named_schema(f'N{j}', v=kd.INT32, up=kd.named_schema(f'N{j}')), common)]
      for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.3:
          v = rng.choice([kd.item(rng.randrange(99)), None])
          u = ((), 'same', v, False) if v is not None else ((), 'ents', kd.list([shared[rng.randrange(3)].with_attrs(note=f'by {j}') for _ in range(2)]), False)
          h.push(u)
        else:
          u = h.extend()
        do_update(m, u)
      comps.append((m, h))
    if any('same' not in u[1] and 'ents' not in u[1] and u[1][-1] != str(j) for j, (_, h) in enumerate(comps) for u in h.updates if not u[0]):
      raise vp.Inconclusive('generator')
    pins = [h.vanilla[-1] for _, h in comps]
    init = composite.CompositeInitialDataManager.create_new([m for m, _ in comps])
    van = pins[0].enriched(*[p.get_bag() for p in pins[1:]])
    what = 'composition of ' + ' | '.join(h.text() for _, h in comps)
    c = DSM.create_new('/w/x', fs=memfs.Fs(store), initial_data_manager=init)
    check_view(run, c, van, rng, what, n=4)
    # The components move on; the composition is pinned.
    for m, h in comps:
      if rng.random() < 0.6:
        do_update(m, h.extend())
        run.count('component_updates')
    check_view(run, c, van, rng, what + ', components updated since', n=2)
    fresh_cache(rng)
    c2 = DSM.create_from_dir('/w/x', fs=memfs.Fs(store))
    check_view(run, c2, van, rng, what + ', reopened', n=2)
    hc = History(rng, van, 0, attrs=['z1', 'z2', 'same'])
    for _ in range(rng.randint(1, 3)):
      do_update(c2, hc.extend())
    check_view(run, c2, hc.vanilla[-1], rng, what + f', then {hc.text()}', n=3)
    b = c2.branch()
    do_update(b, hc.extend())
    check_view(run, b, hc.vanilla[-1], rng, what + f', branched, then {hc.text()}', n=2)
    fresh_cache(rng)
    check_view(run, DSM.create_from_dir('/w/x', fs=memfs.Fs(store)), hc.vanilla[-2], rng, what + f', then {hc.text(-1)}, reopened', n=2)
    check_view(run, c, van, rng, what + ': an older instance', n=1)
    for m, h in comps:
      check_view(run, m, h.vanilla[-1], rng, what + ': a component', n=1)
    refused(run, 'a composition of nothing', lambda: composite.CompositeInitialDataManager.create_new([]))
    run.saw(what, what[:300] if i < 2 else None)


@vp.prop('M09', min_eval=6, min_distinct=6, shards=6)
def m09(run):
  run.rule = 'distinct histories on which the in-memory manager was compared with plain updates'
  for i in run.cases(60, 3000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    sm = simple.SimpleInMemoryDataSliceManager()
    h = History(rng, sm.get_data_slice(), 0, detached=True)
    held = []
    for k in range(rng.randint(2, 7)):
      held.append((sm.get_data_slice(), h.vanilla[-1]))
      u = h.extend()
      do_update(sm, u)
      check_view(run, sm, h.vanilla[-1], rng, f'in-memory manager after {h.text()}', n=1)
      run.count('updates')
    for ds, van in held:
      run.expect(g.snap(ds) == g.snap(van), f'in-memory manager: a slice obtained earlier changed with later updates ({h.text()})', diff(ds, van))
    sm.set_read_only()
    run.expect(sm.is_read_only is True, 'in-memory manager: not read-only after set_read_only()')
    refused(run, 'in-memory manager: an update when read-only', lambda: do_update(sm, h.updates[-1]))
    check_view(run, sm, h.vanilla[-1], rng, f'in-memory manager, read-only, after {h.text()}', n=1)
    run.saw(h.text(), h.text() if i < 3 else None)
