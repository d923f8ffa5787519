"""T01, T02: tracing mode scoping and the eager/tracing module dispatcher."""
import asyncio
import contextvars
import itertools
import threading
import types

import repoenv
import sched
import vp
from vp import prop

repoenv.setup_path()
from koladata.expr import tracing_mode as tm  # pylint: disable=g-import-not-at-top


class Boom(Exception):
  pass


def gen_tree(r, depth):
  """A random program over scopes, reads, raises, threads, contexts, tasks."""
  out = []
  for _ in range(r.randrange(1, 4)):
    x = r.random()
    if depth == 0 or x < 0.3:
      out.append(('read',))
    elif x < 0.62:
      out.append(('scope', r.choice([True, True, False, None]), r.random() < 0.25, gen_tree(r, depth - 1)))
    elif x < 0.70:
      out.append(('thread', gen_tree(r, depth - 1)))
    elif x < 0.78:
      out.append(('copied_thread', gen_tree(r, depth - 1)))
    elif x < 0.84:
      out.append(('ctx_run', gen_tree(r, depth - 1)))
    elif x < 0.92:
      out.append(('decorated', r.choice([True, False]), r.randrange(1, 4), gen_tree(r, depth - 1)))
    else:
      out.append(('gen_send', r.choice([True, False]), gen_tree(r, depth - 1)))
  return out


class Exec:
  """Runs a program; the shadow argument is the mode the scope rules dictate."""

  def __init__(self, run, prog, disp):
    self.run, self.prog, self.disp = run, prog, disp
    self.problems = []
    self.reads = 0

  def read(self, mode, where):
    self.reads += 1
    got = tm.is_tracing_enabled()
    if got is not mode:
      self.problems.append(f'{where}: is_tracing_enabled() is {got}, expected {mode}')
    v = self.disp.f
    want = 'tracing' if mode else 'eager'
    if v != want:
      self.problems.append(f'{where}: dispatcher served {v!r} in {want} mode')
    try:
      v = self.disp.only
      ok = not mode
    except AttributeError:
      ok = mode
    if not ok:
      self.problems.append(f'{where}: eager-only attribute availability is wrong in mode {mode}')

  def block(self, prog, mode, path=''):
    for i, st in enumerate(prog):
      p = f'{path}/{i}:{st[0]}'
      self.read(mode, p + ' before')
      k = st[0]
      if k == 'scope':
        _, en, raises, body = st
        inner = True if en is None else en
        cm = tm.enable_tracing() if en is None else tm.enable_tracing(en)
        try:
          with cm:
            self.block(body, inner, p)
            if raises:
              raise Boom()
        except Boom:
          if not raises:
            raise
      elif k == 'thread':
        self.in_thread(lambda: self.block(st[1], False, p))
      elif k == 'copied_thread':
        ctx = contextvars.copy_context()
        self.in_thread(lambda: ctx.run(self.block, st[1], mode, p))
      elif k == 'ctx_run':
        contextvars.copy_context().run(self.block, st[1], mode, p)
      elif k == 'decorated':
        _, en, n, body = st

        @tm.enable_tracing(en)
        def rec(d):
          self.read(en, p + f' depth {d}')
          if d:
            with tm.enable_tracing(not en):
              rec(d - 1)
            self.read(en, p + f' after depth {d}')
          else:
            self.block(body, en, p)

        rec(n)
        self.read(mode, p + ' between calls')
        rec(0)
      elif k == 'gen_send':
        _, en, body = st
        # A generator that opens and closes its scope within one resumption.
        def g():
          for _ in range(2):
            with tm.enable_tracing(en):
              self.block(body, en, p)
            self.read(mode, p + ' in generator')
            yield

        for _ in g():
          self.read(mode, p + ' consumer')
      self.read(mode, p + ' after')

  def in_thread(self, fn):
    err = []

    def body():
      try:
        fn()
      except BaseException as e:  # pylint: disable=broad-except
        err.append(e)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    if err:
      raise err[0]


def make_disp():
  m = types.ModuleType('m_under_test')
  cfg = {}
  m.f = 'eager'
  m.only = [1]
  tm.configure_tracing(cfg, m.f, 'tracing')
  tm.eager_only(cfg, m.only)
  m.__all__ = ['f', 'only']
  return tm.prepare_module_for_tracing(m, cfg)


@prop('T01', min_eval=100, min_distinct=50)
def scoping(run):
  run.rule = (
      'random programs of nested/raising/recursive-decorated scopes, plain and context-copying threads,'
      ' contextvars runs, generators, plus concurrent threads under a line-level scheduler and asyncio'
      ' task interleavings; before and after every statement the mode read back, and what a dispatching'
      ' module serves, are compared with the lexical scope; non-trivial when at least one scope was entered'
  )
  disp = make_disp()
  for case in run.cases(1200, 20000, frac=0.5):
    r = run.sub('prog', case)
    prog = gen_tree(r, r.choice([2, 3, 4]))
    ex = Exec(run, prog, disp)
    start = r.random() < 0.3
    if start:
      with tm.enable_tracing():
        ex.block(prog, True)
      ex.read(False, 'end')
    else:
      ex.block(prog, False)
      ex.read(False, 'end')
    run.count('mode_reads', ex.reads)
    run.expect(not ex.problems, ex.problems[:1], {'program': repr(prog), 'problems': ex.problems[:10]})
    run.saw(repr(prog) if 'scope' in repr(prog) or start else None, repr(prog)[:300])
  # Concurrent threads, preempted inside the context manager itself.
  for case in run.cases(250, 5000, frac=0.8):
    r = run.sub('conc', case)
    progs = [gen_conc(r, 3) for _ in range(r.choice([2, 3]))]
    probs = []
    reads = itertools.count()
    s = sched.Sched(f'{run.seed}/{case}', [tm.__file__, __file__], p_switch=0.4)

    def go(prog, mode):
      for st in prog:
        next(reads)
        if tm.is_tracing_enabled() is not mode:
          probs.append(f'{st!r} in mode {mode}')
        if disp.f != ('tracing' if mode else 'eager'):
          probs.append(f'dispatch at {st!r} in mode {mode}')
        if st[0] == 'scope':
          try:
            with tm.enable_tracing(st[1]):
              go(st[3], st[1])
              if st[2]:
                raise Boom()
          except Boom:
            pass
      if tm.is_tracing_enabled() is not mode:
        probs.append(f'end of block in mode {mode}')

    ok = s.run([lambda p=p: go(p, False) for p in progs])
    if not ok or s.errors:
      raise vp.Inconclusive(f'threads did not finish: {s.errors}')
    run.count('thread_switches', s.switches)
    run.count('mode_reads', next(reads))
    run.expect(not probs, 'a thread saw the mode of another thread', {'progs': repr(progs), 'problems': probs[:5], 'schedule': s.trace[:100]})
    run.saw(repr((progs, s.trace)) if s.switches else None)
  # asyncio tasks: each task has its own mode, also across awaits.
  for case in run.cases(300, 4000):
    r = run.sub('aio', case)
    probs = []
    n_sw = itertools.count()

    async def task(rr, depth, mode):
      for _ in range(rr.randrange(1, 4)):
        if tm.is_tracing_enabled() is not mode:
          probs.append(('task', depth, mode))
        x = rr.random()
        if x < 0.5 and depth:
          en = rr.random() < 0.6
          with tm.enable_tracing(en):
            await asyncio.sleep(0)
            next(n_sw)
            await task(rr, depth - 1, en)
        elif x < 0.7 and depth:
          await asyncio.gather(*(task(run.sub('aio', case, rr.random()), depth - 1, mode) for _ in range(2)))
        else:
          await asyncio.sleep(0)
          next(n_sw)
        if tm.is_tracing_enabled() is not mode:
          probs.append(('task after', depth, mode))

    async def main():
      await asyncio.gather(*(task(run.sub('aio', case, i), 3, False) for i in range(3)))

    asyncio.run(main())
    run.count('task_resumptions', next(n_sw))
    run.expect(not probs, 'an asyncio task saw the mode of another task', {'case': case, 'problems': probs[:5]})
    run.saw(f'aio{case}')


def gen_conc(r, depth):
  out = []
  for _ in range(r.randrange(1, 3)):
    if depth and r.random() < 0.7:
      out.append(('scope', r.random() < 0.6, r.random() < 0.2, gen_conc(r, depth - 1)))
    else:
      out.append(('read',))
  return out


class Eqer:
  """Equal to everything; identity is what must count."""

  def __eq__(self, o):
    return True

  def __hash__(self):
    return 7


class NoHash:
  __hash__ = None

  def __eq__(self, o):
    raise RuntimeError('must not be compared')


class Desc:
  """An object that is itself a descriptor: must be served raw."""

  def __get__(self, o, t=None):
    raise RuntimeError('descriptor protocol must not be applied to served objects')

  def __set__(self, o, v):
    raise RuntimeError('no')


def gen_obj(r):
  k = r.randrange(12)
  if k == 0:
    return lambda *a: a
  if k == 1:
    return type('Cls', (), {})
  if k == 2:
    return r.choice([0, 1, '', 'x', False, (), 0.0, b''])
  if k == 3:
    return []
  if k == 4:
    return Eqer()
  if k == 5:
    return NoHash()
  if k == 6:
    return property(lambda s: 1)
  if k == 7:
    return Desc()
  if k == 8:
    return staticmethod(len)
  if k == 9:
    return types.ModuleType('sub')
  if k == 10:
    return classmethod(lambda c: c)
  return object()


@prop('T02', min_eval=100, min_distinct=50)
def dispatch(run):
  run.rule = (
      'random modules of 1-8 public names bound to functions, classes, falsy constants, unhashable and'
      ' equal-but-distinct objects, descriptors and modules, configured as dispatched / same / eager-only;'
      ' every access in both modes is compared by identity with the configured object; non-trivial when'
      ' at least two configuration kinds occur'
  )
  for case in run.cases(5000, 60000, frac=0.9):
    r = run.sub('mod', case)
    m = types.ModuleType(f'mod{case}', doc=f'doc {case}')
    cfg = {}
    names, kinds, conf = [], {}, []
    expect = {}
    conflict = False
    n = r.randrange(1, 9)
    objs = []
    for i in range(n):
      name = r.choice(['f', 'g', 'cls', 'x', 'data', 'types', 'y_']) + str(i)
      obj = r.choice(objs) if objs and r.random() < 0.2 else gen_obj(r)
      objs.append(obj)
      setattr(m, name, obj)
      kind = r.choice(['dispatch', 'same', 'eager_only'])
      if kind == 'dispatch':
        tr = gen_obj(r)
      elif kind == 'same':
        tr = obj
      else:
        tr = None
      prev = [c for c in conf if c[0] is obj]
      want_err = bool(prev) and prev[0][1] is not tr
      try:
        if kind == 'dispatch':
          ret = tm.configure_tracing(cfg, eager=obj, tracing=tr)
        elif kind == 'same':
          ret = tm.same_when_tracing(cfg, obj)
        else:
          ret = tm.eager_only(cfg, obj)
        run.expect(not want_err, f'conflicting tracing configuration of {name} was accepted', repr(conf))
        run.expect(ret is obj, 'registration did not return the eager object itself', name)
        conf.append((obj, tr))
      except ValueError:
        run.expect(want_err, f'a consistent tracing configuration of {name} was rejected', repr(conf))
        run.count('conflicts_rejected')
        conflict = True
      names.append(name)
    if r.random() < 0.3:
      for _ in range(20):  # short-lived registrations must not leak to new objects
        tm.eager_only(cfg, [])
    private = object()
    m.hidden = private
    unconfigured = r.random() < 0.15
    m.__all__ = list(names)
    if unconfigured:
      m.extra = r.choice([object, list])()
      m.__all__.insert(r.randrange(len(m.__all__) + 1), 'extra')
    snapshot = dict(cfg)
    try:
      d = tm.prepare_module_for_tracing(m, cfg)
      run.expect(not unconfigured, 'a public name without tracing configuration was accepted', m.__all__)
    except ValueError:
      run.expect(unconfigured, 'a fully configured module was rejected', m.__all__)
      run.saw(f'unconf{case}')
      run.count('unconfigured_rejected')
      continue
    if r.random() < 0.5:
      cfg.clear()  # later changes to the registration dict have no effect
    for name in r.sample(names, len(names)) * 2:
      obj = getattr(m, name)
      tr = [c for c in conf if c[0] is obj][0][1]
      mode = r.random() < 0.5
      with tm.enable_tracing(mode):
        try:
          got = getattr(d, name)
          raised = False
        except AttributeError as e:
          raised, msg = True, str(e)
      if mode and tr is None:
        run.expect(raised, f'eager-only name {name} was served while tracing', repr(conf))
        run.expect(name in msg, 'the error does not name the attribute', msg)
        run.count('eager_only_blocked')
      else:
        run.expect(not raised, f'{name} was refused in mode tracing={mode}', repr(conf))
        run.expect(got is (tr if mode else obj), f'{name} served the wrong object in mode tracing={mode}', {'got': repr(got), 'conf': repr(conf)})
      run.count('accesses')
      if r.random() < 0.2:
        with tm.enable_tracing(mode):
          try:
            setattr(d, name, 123)
            ok = False
          except AttributeError:
            ok = True
        run.expect(ok, f'assignment to public name {name} was accepted', None)
    for hidden in ('hidden', 'nonexistent'):
      try:
        getattr(d, hidden)
        run.fail(f'non-public name {hidden} is reachable through the dispatcher', None)
      except AttributeError:
        pass
    run.expect(sorted(dir(d)) == sorted(m.__all__), 'dir() is not the list of public names', [dir(d), m.__all__])
    run.expect(d.__doc__ == m.__doc__, 'module documentation lost', d.__doc__)
    ks = {('eager_only' if t is None else 'same' if t is o else 'dispatch') for o, t in conf}
    run.saw(repr((case, names)) if len(ks) > 1 else None, {'names': names, 'kinds': sorted(ks)})
  # Concurrent readers in different modes.
  d = make_disp()
  for case in run.cases(60, 1000):
    r = run.sub('conc', case)
    s = sched.Sched(f'{run.seed}/{case}', [tm.__file__], p_switch=0.5)
    bad = []

    def reader(mode):
      with tm.enable_tracing(mode):
        for _ in range(6):
          if d.f != ('tracing' if mode else 'eager'):
            bad.append(mode)

    if not s.run([lambda m=m: reader(m) for m in (True, False, r.random() < 0.5)]) or s.errors:
      raise vp.Inconclusive(str(s.errors))
    run.count('concurrent_accesses', 18)
    run.expect(not bad, 'a reader was served the object of the other mode', s.trace[:100])
