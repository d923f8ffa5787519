"""A seeded cooperative thread scheduler for Python code under test.

Real threads run the real code, one at a time; the code under test yields to the
scheduler at every traced line (or bytecode) of the target files and at every
contended lock, so a seed fixes the interleaving.  Locks made through
`threading.Lock/RLock/Condition` while `patched()` is active cooperate with the
scheduler.  If the running thread blocks on something the scheduler does not
know, a watchdog falls back to free running with random sleeps, which loses
determinism but never produces an interleaving the OS could not.
"""
import contextlib
import random
import sys
import threading
import time

_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = None  # the active Sched


class Deadlock(Exception):
  pass


class _CoopLock:
  """A lock whose contended acquire yields to the scheduler."""

  _factory = staticmethod(_RealLock)

  def __init__(self):
    self._l = type(self)._factory()

  def acquire(self, blocking=True, timeout=-1):
    s = _current
    if not blocking:
      return self._l.acquire(False)
    if s is None or not s.managed():
      return self._l.acquire(True, timeout) if timeout != -1 else self._l.acquire()
    if timeout is not None and timeout > 0:
      for _ in range(50):
        if self._l.acquire(False):
          return True
        s.step(must_switch=True)
      return False
    while not self._l.acquire(False):
      if s.free:
        return self._l.acquire()
      s.blocked_step()
    s.unblocked()
    return True

  def release(self):
    self._l.release()

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def locked(self):
    return self._l.locked()


class CoopRLock(_CoopLock):
  _factory = staticmethod(_RealRLock)

  def _is_owned(self):
    return self._l._is_owned()

  def _release_save(self):
    return self._l._release_save()

  def _acquire_restore(self, st):
    return self._l._acquire_restore(st)


class CoopLock(_CoopLock):
  pass


@contextlib.contextmanager
def patched():
  """threading.Lock/RLock create cooperative locks inside this context."""
  old = threading.Lock, threading.RLock
  threading.Lock, threading.RLock = CoopLock, CoopRLock
  try:
    yield
  finally:
    threading.Lock, threading.RLock = old


class Sched:

  def __init__(self, seed, files, p_switch=0.3, opcodes=False, max_steps=200000):
    self.rng = random.Random(seed)
    self.files = tuple(files)
    self.p = p_switch
    self.opcodes = opcodes
    self.max_steps = max_steps
    self.mutex = _RealLock()
    self.sems = {}
    self.live = []
    self.turn = None
    self.steps = 0
    self.switches = 0
    self.trace = []
    self.free = False
    self.blocked = set()
    self.deadlock = False
    self.errors = []

  def managed(self):
    return getattr(threading.current_thread(), '_vp_idx', None) is not None

  def _idx(self):
    return threading.current_thread()._vp_idx

  def _switch_to(self, me, nxt):
    if nxt == me:
      return
    self.switches += 1
    self.trace.append(nxt)
    self.turn = nxt
    self.sems[nxt].release()
    self.sems[me].acquire()

  def step(self, must_switch=False):
    if self.free:
      if self.rng.random() < 0.2:
        time.sleep(self.rng.random() * 2e-4)
      return
    me = self._idx()
    self.steps += 1
    if self.steps > self.max_steps:
      self.go_free()
      return
    if not must_switch and self.rng.random() >= self.p:
      return
    others = [t for t in self.live if t != me]
    if not others:
      return
    self._switch_to(me, self.rng.choice(others))

  def blocked_step(self):
    me = self._idx()
    self.blocked.add(me)
    if self.blocked >= set(self.live):
      # Every live thread failed to take a lock since the last progress.
      self.deadlock = True
      raise Deadlock('every live thread waits for a lock')
    others = [t for t in self.live if t != me]
    pref = [t for t in others if t not in self.blocked] or others
    self.steps += 1
    self._switch_to(me, self.rng.choice(pref))

  def unblocked(self):
    self.blocked.clear()

  def go_free(self):
    self.free = True
    for s in self.sems.values():
      s.release()

  def _tracer(self, frame, event, arg):
    if frame.f_code.co_filename not in self.files:
      return None
    if self.opcodes:
      frame.f_trace_opcodes = True
    return self._local

  def _local(self, frame, event, arg):
    if event == 'line' or (event == 'opcode' and self.opcodes):
      self.blocked.clear()
      self.step()
    return self._local

  def run(self, fns, timeout=20.0):
    """Runs each fn in its own thread; returns when all are done."""
    global _current
    n = len(fns)
    self.sems = {i: threading.Semaphore(0) for i in range(n)}
    self.live = list(range(n))

    def body(i):
      threading.current_thread()._vp_idx = i
      self.sems[i].acquire()
      sys.settrace(self._tracer)
      try:
        fns[i]()
      except BaseException as e:  # pylint: disable=broad-except
        self.errors.append((i, e))
      finally:
        sys.settrace(None)
        self.blocked.discard(i)
        self.blocked.clear()
        self.live.remove(i)
        if self.live and not self.free:
          nxt = self.rng.choice(self.live)
          self.trace.append(nxt)
          self.sems[nxt].release()

    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    _current = self
    try:
      for t in ths:
        t.start()
      first = self.rng.randrange(n)
      self.trace.append(first)
      self.sems[first].release()
      last, last_t = -1, time.time()
      t0 = time.time()
      while any(t.is_alive() for t in ths):
        for t in ths:
          t.join(0.01)
          if t.is_alive():
            break
        if self.steps + len(self.trace) != last:
          last, last_t = self.steps + len(self.trace), time.time()
        elif time.time() - last_t > 1.0 and not self.free:
          self.go_free()
        if time.time() - t0 > timeout:
          return False
      return True
    finally:
      _current = None


def linearizable(ops, init, apply, key):
  """Wing-Gong search.

  ops: list of (call_time, return_time, op, result); apply(state, op) returns
  (new_state, result); key(state) is hashable.  True iff some order respecting
  real time makes the model return exactly the observed results.
  """
  n = len(ops)
  full = (1 << n) - 1
  seen = set()
  stack = [(0, init)]
  while stack:
    done, st = stack.pop()
    if done == full:
      return True
    k = (done, key(st))
    if k in seen:
      continue
    seen.add(k)
    # minimal return time of the pending ops
    mr = min(o[1] for i, o in enumerate(ops) if not done >> i & 1)
    for i, o in enumerate(ops):
      if done >> i & 1 or o[0] > mr:
        continue
      st2, res = apply(st, o[2])
      if res == o[3]:
        stack.append((done | 1 << i, st2))
  return False
