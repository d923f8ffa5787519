"""P01-P03: progress reporting."""
import asyncio
import contextlib
import io
import itertools
import logging
import math
import random
import sys
import threading
import warnings

import repoenv
import sched
import vp
from vp import prop

repoenv.setup_path()
from koladata.ext.tqdm import kd_ext_tqdm as kt  # pylint: disable=g-import-not-at-top
from koladata.ext.tqdm import context as kt_context
from koladata.ext.tqdm import tqdm as kt_impl
from koladata.ext.tqdm import types as kt_types

warnings.simplefilter('ignore')
kt.tqdm.monitor_interval = 0  # no background refresh thread: driver decides every event


class Cap(logging.Handler):

  def __init__(self):
    super().__init__()
    self.n = 0

  def emit(self, rec):
    self.n += 1


CAP = Cap()
logging.getLogger('koladata').addHandler(CAP)
logging.getLogger('koladata').propagate = False


class Rec(kt.ProgressReporter):
  """Records every report; optionally injects faults."""

  def __init__(self, cfg=None, fail=None):
    super().__init__()
    self.cfg = cfg or kt.TqdmConfig()
    self.events = []
    self.fail = fail or (lambda i: None)
    self.calls = 0
    self.injected = 0
    self.inside = 0
    self.overlap = 0
    self.hook = None

  def _get_config(self):
    return self.cfg

  def _set_progress_impl(self, state):
    if self.inside and self.inside_thread != threading.get_ident():
      self.overlap += 1
    self.inside += 1
    self.inside_thread = threading.get_ident()
    try:
      self.calls += 1
      self.events.append(state)
      if self.hook:
        self.hook(state)
      e = self.fail(self.calls)
      if e is not None:
        self.injected += 1
        raise e
    finally:
      self.inside -= 1


class Boom(Exception):
  pass


def dyn(r, allow_delay=True):
  kw = dict(mininterval=0, miniters=1) if r.random() < 0.7 else {}
  if r.random() < 0.3:
    kw['desc'] = r.choice(['', 'work', 'ünï'])
  if r.random() < 0.3:
    kw['unit'] = r.choice(['batch', 'B', 'step'])
  if r.random() < 0.3:
    kw['initial'] = r.choice([0, 5, 2.5])
  if r.random() < 0.3:
    kw['leave'] = r.choice([True, False, None])
  if r.random() < 0.1:
    kw['smoothing'] = 0
  if allow_delay and r.random() < 0.1:
    kw['delay'] = 3600
  return kw


class BarMonitor:
  """Online checker of one bar's report stream against the bar's real state."""

  def __init__(self, run, rec, ops):
    self.run, self.rec, self.ops = run, rec, ops
    self.seen = len(rec.events)
    self.bar_id = None
    self.closed = False
    self.last_elapsed = 0.0
    self.total_events = 0

  def take(self):
    new = self.rec.events[self.seen:]
    self.seen = len(self.rec.events)
    return new

  def check(self, n_events, bar, true_n, what, closed=False, disabled=False):
    run = self.run
    ev = self.take()
    if n_events is not None:
      run.expect(len(ev) == n_events, f'{what}: {len(ev)} reports, expected {n_events}', self.ops[-20:])
    for s in ev:
      self.total_events += 1
      run.expect(not self.closed, f'{what}: a report arrived after the final one', self.ops[-20:])
      if self.bar_id is None:
        self.bar_id = s.bar_id
        run.expect(bool(s.bar_id), 'a bar has an empty identifier', self.ops[-20:])
      run.expect(s.bar_id == self.bar_id, f'{what}: the bar identifier changed', self.ops[-20:])
      run.expect(s.n == true_n, f'{what}: reported n={s.n}, true count {true_n}', self.ops[-20:])
      run.expect(s.is_closed is closed, f'{what}: is_closed={s.is_closed}', self.ops[-20:])
      run.expect(s.elapsed_secs >= 0, f'{what}: negative elapsed', self.ops[-20:])
      if bar is not None:
        run.expect(s.total == bar.total, f'{what}: total {s.total} != {bar.total}', self.ops[-20:])
        if not disabled:
          run.expect(s.unit == bar.unit, f'{what}: unit {s.unit!r}', self.ops[-20:])
          run.expect((s.desc or '') == (bar.desc or ''), f'{what}: desc {s.desc!r}', self.ops[-20:])
          run.expect((s.postfix or '') == (bar.postfix or ''), f'{what}: postfix {s.postfix!r}', self.ops[-20:])
          run.expect(s.initial == bar.initial, f'{what}: initial {s.initial}', self.ops[-20:])
        leave = bar.pos == 0 if bar.leave is None else bool(bar.leave)
        want = (not closed or leave) and not disabled
        run.expect(s.is_displayed is want, f'{what}: is_displayed={s.is_displayed}, expected {want}', self.ops[-20:])
      if closed:
        self.closed = True
    return ev


@prop('P01', min_eval=100, min_distinct=60)
def stream(run):
  run.rule = (
      'random bar lives (manual updates, loops run to the end / broken / raising, async loops, with-blocks,'
      ' resets, descriptions, postfixes, disabled and delayed bars, repeated close, nested bars); an online'
      ' checker compares every report with the true count and the bar attributes; non-trivial when at'
      ' least three reports were observed'
  )
  all_ids = set()

  def fresh(mon, ops):
    run.expect(mon.bar_id not in all_ids, 'two bars share an identifier', ops)
    if mon.bar_id:
      all_ids.add(mon.bar_id)

  for case in run.cases(12000, 120000):
    r = run.sub(case)
    rec = Rec()
    ops = []
    kind = r.choice(['manual', 'manual', 'loop', 'loop', 'with', 'async', 'trange', 'disabled'])
    kw = dyn(r)
    initial = kw.get('initial', 0)
    delayed = bool(kw.get('delay'))
    eager = 'mininterval' in kw and not delayed
    ops.append((kind, repr(kw)))
    mon = BarMonitor(run, rec, ops)
    with kt.using_reporter(rec):
      if kind == 'disabled':
        bar = kt.tqdm(range(3), disable=True, **kw)
        ids = []
        for _ in bar:
          pass
        bar.update(2)
        bar.refresh()
        mon.check(0, bar, initial, 'use of a disabled bar', disabled=True)
        bar.close()
        mon.check(1, bar, initial, 'close of a disabled bar', closed=True, disabled=True)
        bar.close()
        mon.check(0, bar, initial, 'second close', closed=True, disabled=True)
      elif kind in ('manual', 'with'):
        total = r.choice([None, 0, 10, 100, 7.5])
        bar = kt.tqdm(total=total, **kw)
        n = initial
        mon.check(0 if delayed else 1, bar, n, 'opening')
        raised = False
        try:
          with bar if kind == 'with' else contextlib.nullcontext():
            for _ in range(r.randrange(0, 12)):
              op = r.choice(['update', 'update', 'update', 'refresh', 'desc', 'desc_str', 'postfix', 'postfix_str', 'n', 'reset', 'display', 'unpause', 'nested'])
              ops.append(op)
              if op == 'update':
                k = r.choice([0, 1, 1, 2, 5, 0.5, 1000000, -1])
                n = n + k
                due = n - bar.last_print_n >= 1 and k > 0
                shown = bar.update(k)
                mon.check(1 if shown else 0, bar, n, f'update({k})')
                if eager and due:
                  run.expect(bool(shown), 'an update was not forwarded although no throttling applies', ops)
                run.count('updates')
              elif op == 'refresh':
                bar.refresh()
                mon.check(1, bar, n, 'refresh')
              elif op == 'display':
                bar.display()
                mon.check(1, bar, n, 'display')
              elif op == 'desc':
                bar.set_description(r.choice(['a', 'b', '', None]))
                mon.check(1, bar, n, 'set_description')
              elif op == 'desc_str':
                bar.set_description_str('zz', refresh=False)
                mon.check(0, bar, n, 'set_description_str')
              elif op == 'postfix':
                bar.set_postfix({'loss': r.random()}, k=3)
                mon.check(1, bar, n, 'set_postfix')
              elif op == 'postfix_str':
                bar.set_postfix_str('p', refresh=False)
                mon.check(0, bar, n, 'set_postfix_str')
              elif op == 'n':
                n = bar.n = r.choice([0, 3, 8])
                bar.refresh()
                mon.check(1, bar, n, 'assigning n')
              elif op == 'reset':
                n = 0
                bar.reset(total=r.choice([None, 50]))
                mon.check(1, bar, n, 'reset')
              elif op == 'unpause':
                bar.unpause()
                mon.check(0, bar, n, 'unpause')
              elif op == 'nested':
                m2 = BarMonitor(run, rec, ops)
                k2 = r.randrange(0, 4)
                for _ in kt.tqdm(range(k2), leave=False):
                  pass
                ev = m2.take()
                run.expect(ev and ev[-1].is_closed and ev[-1].n == k2, 'nested bar did not report its end', ops)
                run.expect(len({e.bar_id for e in ev}) == 1 and ev[0].bar_id != mon.bar_id, 'nested bar identifier', ops)
                run.expect(sum(e.is_closed for e in ev) == 1, 'nested bar closed more than once', ops)
                mon.seen = m2.seen
            if kind == 'with' and r.random() < 0.3:
              raise Boom()
        except Boom:
          raised = True
        if kind == 'with':
          mon.check(1, bar, n, 'leaving the with block', closed=True)
        else:
          bar.close()
          mon.check(1, bar, n, 'close', closed=True)
        for late in r.sample(['close', 'refresh', 'update', 'display', 'del'], 3):
          if late == 'close':
            bar.close()
          elif late == 'refresh':
            bar.refresh()
          elif late == 'update':
            bar.update(1)
          elif late == 'del' and bar is not None:
            n = bar.n
          mon.check(0, None, n, f'{late} after close', closed=True)
        if r.random() < 0.3:
          bar = None
          mon.check(0, None, n, 'garbage collection after close', closed=True)
      else:
        size = r.choice([0, 1, 2, 5, 30])
        stop = r.randrange(size) if size and r.random() < 0.4 else None
        how = r.choice(['break', 'raise'])
        src = list(range(size))
        got = []
        if kind == 'trange':
          bar = kt.trange(size, **kw)
        elif r.random() < 0.5:
          bar = kt.tqdm(src, **kw)
        else:
          bar = kt.tqdm((x for x in src), total=r.choice([None, size]), **kw)
        mon.check(0 if delayed else 1, bar, initial, 'opening')
        done = 0

        def body(x):
          got.append(x)
          # While item x is processed, exactly the completed items are counted.
          for s in mon.take():
            mon.total_events += 1
            run.expect(s.n == initial + done, f'loop: reported n={s.n}, completed {initial + done}', ops)
            run.expect(not s.is_closed, 'loop: closed while items remain', ops)
            run.expect(mon.bar_id in (None, s.bar_id), 'loop: identifier changed', ops)
            mon.bar_id = s.bar_id

        try:
          if kind == 'async':

            class AI:

              def __init__(self, it):
                self.it = iter(it)

              def __aiter__(self):
                return self

              async def __anext__(self):
                await asyncio.sleep(0)
                try:
                  return next(self.it)
                except StopIteration:
                  raise StopAsyncIteration  # pylint: disable=raise-missing-from

            async def loop():
              nonlocal done
              async for x in kt.tqdm(AI(src), **kw):
                got.append(x)
                if stop == x and how == 'raise':
                  raise Boom()
                done += 1

            bar.close()
            mon.check(1, bar, initial, 'close of the unused bar', closed=True)
            mon = BarMonitor(run, rec, ops)
            asyncio.run(loop())
          else:
            for x in bar:
              body(x)
              if stop == x:
                if how == 'break':
                  break
                raise Boom()
              done += 1
        except Boom:
          pass
        if kind != 'async':
          want = src if stop is None else src[: stop + 1]
          run.expect(got == want, 'the loop did not deliver the items of the iterable in order', [got, ops])
          if stop is not None:
            bar.close()  # a suspended generator may be collected later
          if size == 0 or stop is None or True:
            ev = mon.take()
            run.expect(sum(s.is_closed for s in ev) == 1 and ev[-1].is_closed, f'end of loop: closed reports {[s.is_closed for s in ev]}', ops)
            lo = initial + done
            run.expect(all(s.n == lo for s in ev if s.is_closed) or stop is not None, f'final report n={ev[-1].n}, completed {lo}', ops)
            for s in ev:
              run.expect(s.n <= lo, f'reported n={s.n} ahead of completed {lo}', ops)
            mon.total_events += len(ev)
        else:
          ev = mon.take()
          run.expect(got == (src if not (stop is not None and how == 'raise') else src[: stop + 1]), 'async loop items', [got, ops])
          if not (stop is not None and how == 'raise'):
            run.expect(sum(s.is_closed for s in ev) == 1 and ev[-1].is_closed, 'async loop: final report', ops)
            run.expect(ev[-1].n == initial + size, f'async loop: final n={ev[-1].n}', ops)
          mon.total_events += len(ev)
          for s in ev:
            mon.bar_id = s.bar_id
    fresh(mon, ops)
    run.count('reports', mon.total_events)
    run.saw(repr((ops, size if kind in ('loop', 'trange', 'async') else 0)) if mon.total_events >= 3 else None, repr(ops)[:200])


@prop('P02', min_eval=100, min_distinct=50)
def isolation(run):
  run.rule = (
      'user loops whose reporter raises at chosen calls, 2-4 threads sharing or owning reporters under a'
      ' seeded line-level scheduler, nested reporter scopes, reentrant reporters, and random display'
      ' configurations; monitors: items delivered, no exception reaches the loop, callbacks of one reporter'
      ' never overlap, per-bar report order, scope restored, streams written; non-trivial when a fault was'
      ' injected or a context switch happened'
  )
  # (a) faults in the reporter
  for case in run.cases(800, 15000, frac=0.35):
    r = run.sub('fault', case)
    bad = set(r.sample(range(1, 30), r.randrange(1, 12))) if r.random() < 0.7 else set(range(1, 200))
    exc = r.choice([ValueError, RuntimeError, KeyError, OSError, AttributeError, TypeError, StopIteration, NotImplementedError])
    rec = Rec(fail=lambda i: exc('injected') if i in bad else None)
    size = r.randrange(0, 20)
    logged = CAP.n
    got = []
    try:
      with kt.using_reporter(rec):
        if r.random() < 0.5:
          for x in kt.tqdm(range(size), mininterval=0, miniters=1):
            got.append(x)
          final = None
        else:
          bar = kt.tqdm(total=size, mininterval=0, miniters=1)
          for x in range(size):
            got.append(x)
            bar.update()
          bar.set_postfix(a=1)
          bar.close()
          run.expect(bar.n == size, 'the bar lost count after a reporter fault', [size, bar.n])
    except Exception as e:  # pylint: disable=broad-except
      run.fail(f'a reporter fault ({exc.__name__}) reached the user loop: {e!r}', {'size': size, 'bad': sorted(bad)})
    run.expect(got == list(range(size)), 'items lost after a reporter fault', [size, got])
    run.expect(rec.events and rec.events[-1].is_closed and sum(s.is_closed for s in rec.events) == 1, 'the final report was not attempted exactly once', [s.is_closed for s in rec.events])
    run.expect(rec.events[-1].n == size, 'the final report is wrong after faults', rec.events[-1].n)
    run.expect(CAP.n - logged >= (1 if rec.injected else 0), 'a reporter fault was silently dropped (no log record)', rec.injected)
    run.count('injected_faults', rec.injected)
    run.saw(repr((sorted(bad), size, exc)) if rec.injected else None, {'faulty_calls': sorted(bad)[:6], 'exc': exc.__name__, 'items': size})
  # (b) threads
  files = [kt_impl.__file__, kt_context.__file__, kt_types.__file__, __file__]
  old_lock = kt.tqdm.get_lock()
  try:
    for case in run.cases(350, 6000, frac=0.75):
      r = run.sub('thr', case)
      with sched.patched():
        shared = Rec()
        own = [Rec() for _ in range(4)]
        kt.tqdm.set_lock(threading.RLock())
      s = sched.Sched(f'{run.seed}/{case}', files, p_switch=0.25)
      if r.random() < 0.3:
        shared.fail = lambda i: ValueError('x') if i % 3 == 0 else None
      nt = r.choice([2, 3])
      truth = {}
      probs = []
      outer = r.random() < 0.5

      def worker(ti, rr, use_own):
        if kt.get_reporter() is not None:
          probs.append('a new thread inherited a reporter')
        rep = own[ti] if use_own else shared
        with kt.using_reporter(rep) as got:
          if got is not rep or kt.get_reporter() is not rep:
            probs.append('installed reporter is not the active one')
          bars = [kt.tqdm(total=None, mininterval=0, miniters=1, desc=f't{ti}b{b}') for b in range(rr.choice([1, 2]))]
          sent = [0] * len(bars)
          for _ in range(rr.randrange(1, 5)):
            b = rr.randrange(len(bars))
            k = rr.randrange(1, 4)
            sent[b] += k
            bars[b].update(k)
            if kt.get_reporter() is not rep:
              probs.append('active reporter changed under a thread')
          with kt.using_reporter(None):
            if kt.get_reporter() is not None:
              probs.append('reporting not disabled')
            for _ in kt.tqdm(range(2), file=kt_impl._DEVNULL if hasattr(kt_impl, '_DEVNULL') else io.StringIO()):
              pass
          for b, bar in enumerate(bars):
            bar.close()
            truth[f't{ti}b{b}'] = (sent[b], rep)
        if kt.get_reporter() is not None:
          probs.append('reporter not restored')

      plans = [(i, run.sub('thr', case, i), r.random() < 0.3) for i in range(nt)]
      ok = s.run([lambda p=p: worker(*p) for p in plans])
      if s.deadlock:
        run.fail('threads reporting progress deadlocked', {'schedule': s.trace[:100]})
      if not ok or s.errors:
        if s.errors:
          run.fail(f'an error reached a reporting thread: {s.errors[0][1]!r}', {'schedule': s.trace[:100]})
        raise vp.Inconclusive('threads did not finish')
      wit = {'case': case, 'schedule': s.trace[:200]}
      run.expect(not probs, probs[:1], wit)
      for rep in [shared] + own:
        run.expect(rep.overlap == 0, 'two reports ran inside one reporter at the same time', wit)
        per = {}
        for e in rep.events:
          per.setdefault(e.bar_id, []).append(e)
        for evs in per.values():
          desc = evs[0].desc.rstrip(': ')
          if desc not in truth:
            run.fail(f'unknown bar {desc!r} reported', wit)
          total, owner = truth[desc]
          run.expect(owner is rep, 'a bar reported to a reporter that was not active when it was opened', wit)
          ns = [e.n for e in evs]
          run.expect(ns == sorted(ns), f'reports of one bar are out of order: {ns}', wit)
          run.expect([e.is_closed for e in evs] == [False] * (len(evs) - 1) + [True], 'closed report not exactly once and last', wit)
          run.expect(ns[-1] == total, f'final n {ns[-1]} != {total}', wit)
        mine = [d for d, (_, o) in truth.items() if o is rep]
        run.expect(len(per) == len(mine), f'{len(mine)} bars, {len(per)} identifiers', wit)
      run.count('thread_switches', s.switches)
      run.count('threaded_reports', len(shared.events))
      run.saw(repr((case, s.trace)) if s.switches else None, wit if case < 2 else None)
  finally:
    kt.tqdm.set_lock(old_lock)
  # (c) output routing and kwarg precedence
  for case in run.cases(500, 8000, frac=0.9):
    r = run.sub('cfg', case)
    ch = lambda *xs: r.choice(xs)
    cfg = kt.TqdmConfig(
        suppress_file=ch(True, False), suppress_display=ch(True, False), mininterval=ch(None, 0, 0.5, 0.0),
        maxinterval=ch(None, 0, 7.5), miniters=ch(None, 0, 1, 12),
    )
    rec = Rec(cfg=cfg)
    kw = {}
    if r.random() < 0.4:
      kw['mininterval'] = ch(0, 0.25, 3)
    if r.random() < 0.4:
      kw['maxinterval'] = ch(0, 4)
    if r.random() < 0.4:
      kw['miniters'] = ch(0, 1, 9)
    explicit = io.StringIO() if r.random() < 0.5 else None
    if explicit is not None:
      kw['file'] = explicit
    err = io.StringIO()
    active = r.random() < 0.8
    with contextlib.redirect_stderr(err):
      with kt.using_reporter(rec if active else None):
        if r.random() < 0.3:
          # The same arguments, given by position as tqdm allows.
          pos_names = ['file', 'ncols', 'mininterval', 'maxinterval', 'miniters']
          dflt = {'file': None, 'ncols': None, 'mininterval': 0.1, 'maxinterval': 10.0, 'miniters': None}
          k = r.randrange(0, 6)
          for nm in pos_names[:k]:
            if nm == 'file' and 'file' not in kw:
              explicit = kw['file'] = io.StringIO()
            kw.setdefault(nm, dflt[nm])
          rest = {a: b for a, b in kw.items() if a not in pos_names[:k]}
          bar = kt.tqdm(range(3), 'd', 3, True, *[kw[nm] for nm in pos_names[:k]], **rest)
          run.count('positional_calls')
        else:
          bar = kt.tqdm(range(3), **kw)
        base = dict(mininterval=0.1, maxinterval=10.0)
        eff = {}
        for k in ('mininterval', 'maxinterval'):
          eff[k] = kw[k] if k in kw else (getattr(cfg, k) if active and getattr(cfg, k) is not None else base[k])
        run.expect(bar.mininterval == eff['mininterval'], f'mininterval {bar.mininterval} instead of {eff}', [repr(cfg), repr(kw)])
        run.expect(bar.maxinterval == eff['maxinterval'], f'maxinterval {bar.maxinterval} instead of {eff}', [repr(cfg), repr(kw)])
        mi = kw['miniters'] if 'miniters' in kw else (cfg.miniters if active else None)
        run.expect((bar.miniters, bar.dynamic_miniters) == ((mi, False) if mi is not None else (0, True)), f'miniters {bar.miniters}/{bar.dynamic_miniters}, expected {mi}', [repr(cfg), repr(kw)])
        list(bar)
    wrote_err = bool(err.getvalue())
    if explicit is not None:
      run.expect(bool(explicit.getvalue()), 'a stream the user passed got no output', [repr(cfg), repr(kw)])
      run.expect(not wrote_err, 'output went to stderr although the user passed a stream', None)
    else:
      want = not (active and cfg.suppress_file)
      run.expect(wrote_err is want, f'terminal output {"missing" if want else "not suppressed"}', [repr(cfg), repr(kw)])
    run.count('configurations')
    run.saw(repr((cfg, sorted(kw), active)))
  # (d) scoping incl. exceptions and reentrant reporters
  for case in run.cases(300, 5000):
    r = run.sub('scope', case)
    stack = [None]

    def nest(d):
      run.expect(kt.get_reporter() is stack[-1], 'the active reporter is not the innermost one', case)
      run.count('scope_reads')
      if d == 0:
        return
      for _ in range(r.randrange(1, 3)):
        rep = r.choice([None, Rec()])
        stack.append(rep)
        boom = r.random() < 0.3
        try:
          with kt.using_reporter(rep) as y:
            run.expect(y is rep, 'using_reporter yields another object', case)
            bar = kt.tqdm(total=2, mininterval=0, miniters=1) if rep is not None else None
            nest(d - 1)
            if bar is not None:
              k = len(rep.events)
              with kt.using_reporter(None):
                bar.update(2)
              run.expect(len(rep.events) > k, 'a bar forgot the reporter it was opened with', case)
              bar.close()
            if boom:
              raise Boom()
        except Boom:
          pass
        stack.pop()
        run.expect(kt.get_reporter() is stack[-1], 'the previous reporter was not restored', case)

    nest(3)
    # Reentrant: a reporter that itself runs a bar reporting to itself.
    rec = Rec()
    depth = [0]

    def hook(state):
      if depth[0] < 1:
        depth[0] += 1
        with kt.using_reporter(rec):
          for _ in kt.tqdm(range(2)):
            pass

    rec.hook = hook
    with kt.using_reporter(rec):
      out = list(kt.tqdm(range(3)))
    run.expect(out == [0, 1, 2] and sum(e.is_closed for e in rec.events) == 2, 'reentrant reporting broke', [e.is_closed for e in rec.events])
    run.saw(f'scope{case}')


@prop('P03', min_eval=100, min_distinct=100)
def roundtrip(run):
  run.rule = (
      'random progress states (ints, tiny/huge/negative floats, absent fields, unicode text, flags) through'
      ' the record message and its wire bytes; compared field by field with the state up to the documented'
      ' absent=zero/empty convention; derived fraction/remaining time compared with exact rationals;'
      ' non-trivial when at least three fields differ from their defaults'
  )
  from fractions import Fraction as Fr

  nums = [0, 1, 2, 5, 100, 12345678, 0.5, 1e-9, 1e300, 3.141592653589793, 2**53, -1, -2.5, 5e-324]
  texts = [None, '', 'work', 'ünï\u2603', 'a\nb', 'x' * 500, '0', 'None', ' ']
  for case in run.cases(20000, 300000):
    r = run.sub(case)
    num = lambda *extra: r.choice([r.choice(nums), r.random() * 10 ** r.randrange(-5, 9), r.randrange(10**6)] + list(extra))
    kw = dict(
        n=num(None), total=num(None), elapsed_secs=num(), rate=num(None), initial=num(), unit=r.choice(['it', 'batch', 'B', 'ünit']),
        desc=r.choice(texts), postfix=r.choice(texts), bar_id=r.choice(['', 'abc', 'f' * 32]), is_closed=r.random() < 0.5, is_displayed=r.random() < 0.5,
    )
    for k in list(kw):
      if r.random() < 0.15:
        del kw[k]
    st = kt.ProgressState(**kw)
    p = st.to_proto()
    if r.random() < 0.5:
      p2 = kt.ProgressRecord()
      p2.ParseFromString(p.SerializeToString())
      p = p2
    back = kt.ProgressState.from_proto(p)
    exp = {
        'n': st.n or 0.0, 'total': st.total or None, 'elapsed_secs': st.elapsed_secs, 'rate': st.rate or None,
        'initial': st.initial, 'unit': st.unit, 'desc': st.desc or None, 'postfix': st.postfix or None,
        'bar_id': st.bar_id, 'is_closed': st.is_closed, 'is_displayed': st.is_displayed,
    }
    for k, w in exp.items():
      g = getattr(back, k)
      run.expect(g == w and (g is None) == (w is None), f'field {k}: {g!r} after the round trip, was {getattr(st, k)!r}', repr(st))
    run.expect(kt.ProgressState.from_proto(back.to_proto()) == back, 'a second round trip changes the state', repr(back))
    for x in (st, back):
      if x.n is None or not x.total:
        run.expect(x.fraction is None, f'fraction {x.fraction} without n or total', repr(x))
      else:
        run.expect(close(x.fraction, Fr(x.n) / Fr(x.total)), f'fraction {x.fraction}', repr(x))
      if x.n is None or not x.total or not x.rate:
        run.expect(x.remaining_s is None, f'remaining {x.remaining_s} without rate, n or total', repr(x))
      else:
        e = (Fr(x.total) - Fr(x.n)) / Fr(x.rate)
        # the float difference may cancel: allow the rounding of the operands
        tol = (abs(Fr(x.total)) + abs(Fr(x.n))) / abs(Fr(x.rate)) * Fr(1, 2**50)
        g = None
        try:
          g = x.remaining_s
        except OverflowError:
          pass
        run.expect(g is not None and (math.isinf(g) or abs(Fr(g) - e) <= tol + Fr(1, 10**300)) and (not math.isinf(g) or abs(e) > Fr(10) ** 307), f'remaining {g}, exact {float(e) if abs(e) < Fr(10)**300 else "huge"}', repr(x))
    try:
      st.n = 5
      run.fail('a progress state is mutable', repr(st))
    except AttributeError:
      pass
    run.saw(repr(st) if len(kw) >= 3 else None, repr(st)[:200])


def close(g, e):
  from fractions import Fraction as Fr

  if math.isinf(g):
    return abs(e) > Fr(10) ** 307
  return abs(Fr(g) - e) <= abs(e) * Fr(1, 2**50) + Fr(1, 10**300)
