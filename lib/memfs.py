"""An in-memory file system for the storage monitors.

`Store` is the disk: it outlives processes. `Fs(store)` is one process' view of
it, implementing koladata's FileSystemInterface, with every operation recorded
and open to fault injection:

  raise   the operation fails with OSError before doing anything
  after   the operation takes effect, then reports OSError
  torn    a write stores only part of its bytes, then reports OSError (disk full)
  die     the process dies before the operation: Died now and ever after
  dieafter  the process dies right after it took effect
  dietorn the process dies in the middle of a write

Renames are atomic and refuse to overwrite unless asked.
"""
import fnmatch
import io
import os
import re
import threading

KINDS_ANY = ('raise', 'after', 'die', 'dieafter')
KINDS_WRITE = KINDS_ANY + ('torn', 'dietorn')


class Died(BaseException):
  """The process is gone; nothing in it may catch this and go on."""


class Fault(OSError):
  """An injected I/O error."""


def norm(p):
  p = os.path.normpath(p)
  return p


class Store:

  def __init__(self):
    self.files = {}  # path -> bytearray
    self.dirs = {'/', '.'}
    self.lock = threading.RLock()

  def clone(self):
    s = Store()
    with self.lock:
      s.files = {k: bytearray(v) for k, v in self.files.items()}
      s.dirs = set(self.dirs)
    return s

  def snapshot(self):
    with self.lock:
      return {k: bytes(v) for k, v in self.files.items()}, frozenset(self.dirs)

  def delete_tree(self, d):
    d = norm(d)
    with self.lock:
      for k in [k for k in self.files if k.startswith(d + '/')]:
        del self.files[k]
      self.dirs = {k for k in self.dirs if k != d and not k.startswith(d + '/')}

  def move_tree(self, a, b):
    a, b = norm(a), norm(b)
    mv = lambda k: b + k[len(a):] if k == a or k.startswith(a + '/') else k
    with self.lock:
      self.files = {mv(k): v for k, v in self.files.items()}
      self.dirs = {mv(k) for k in self.dirs}
      p = os.path.dirname(b)
      while p and p not in self.dirs:
        self.dirs.add(p)
        p = os.path.dirname(p)


class _Writer(io.RawIOBase):

  def __init__(self, fs, path, text):
    super().__init__()
    self.fs, self.path, self.text = fs, path, text

  def writable(self):
    return True

  def write(self, data):
    raw = data.encode('utf8') if self.text and isinstance(data, str) else bytes(data)

    def effect(part=None):
      buf = self.fs.store.files.get(self.path)
      if buf is None:
        raise FileNotFoundError(self.path)
      buf += raw if part is None else raw[:part]
      return len(data)

    return self.fs._op('write', self.path, effect, torn=len(raw) // 2)

  def close(self):
    super().close()


class Fs:
  """One process' handle. `plan` = (kind, index): inject at the index-th operation."""

  def __init__(self, store, plan=None, on_op=None, only=None):
    self.store = store
    self.plan = plan
    self.on_op = on_op
    self.only = only  # restrict counting/injection to paths containing this
    self.n = 0
    self.log = []
    self.dead = False
    self.fired = None

  # the mechanism
  def _op(self, op, path, effect, torn=None):
    if self.dead:
      raise Died(op)
    if self.on_op is not None:
      self.on_op(self, op, path)
    with self.store.lock:
      if self.dead:
        raise Died(op)
      i = self.n
      self.n += 1
      self.log.append((op, path))
      if self.plan is not None and self.plan[1] == i:
        kind = self.plan[0]
        if torn is None and kind in ('torn', 'dietorn'):
          kind = {'torn': 'raise', 'dietorn': 'die'}[kind]
        self.fired = (kind, op, path)
        if kind == 'raise':
          raise Fault(f'injected before {op} {path}')
        if kind == 'die':
          self.dead = True
          raise Died(op)
        if kind in ('torn', 'dietorn'):
          effect(torn)
          if kind == 'dietorn':
            self.dead = True
            raise Died(op)
          raise Fault(f'injected: no space left at {op} {path}')
        effect()
        if kind == 'dieafter':
          self.dead = True
          raise Died(op)
        raise Fault(f'injected after {op} {path}')
      return effect()

  # the interface
  def exists(self, filepath):
    p = norm(filepath)
    return self._op('exists', p, lambda: p in self.store.files or p in self.store.dirs)

  def is_dir(self, filepath):
    p = norm(filepath)
    return self._op('is_dir', p, lambda: p in self.store.dirs)

  def make_dirs(self, dirpath):
    p = norm(dirpath)

    def effect():
      q = p
      while q and q not in self.store.dirs:
        if q in self.store.files:
          raise FileExistsError(q)
        self.store.dirs.add(q)
        q = os.path.dirname(q)

    return self._op('make_dirs', p, effect)

  def remove(self, filepath):
    p = norm(filepath)

    def effect():
      if p in self.store.files:
        del self.store.files[p]
      elif p in self.store.dirs:
        if any(os.path.dirname(k) == p for k in (*self.store.files, *self.store.dirs) if k != p):
          raise OSError('directory not empty: ' + p)
        self.store.dirs.discard(p)
      else:
        raise FileNotFoundError(p)

    return self._op('remove', p, effect)

  def open(self, filepath, mode='r'):
    p = norm(filepath)
    text = 'b' not in mode
    if 'r' in mode and '+' not in mode:

      def effect():
        if p not in self.store.files:
          raise FileNotFoundError(p)
        data = bytes(self.store.files[p])
        return io.StringIO(data.decode('utf8')) if text else io.BytesIO(data)

      return self._op('read', p, effect)

    def effect():
      if os.path.dirname(p) not in self.store.dirs:
        raise FileNotFoundError('no such directory: ' + os.path.dirname(p))
      if p in self.store.dirs:
        raise IsADirectoryError(p)
      if 'x' in mode and p in self.store.files:
        raise FileExistsError(p)
      if 'a' in mode:
        self.store.files.setdefault(p, bytearray())
      else:
        self.store.files[p] = bytearray()
      return _Writer(self, p, text)

    return self._op('create', p, effect)

  def glob(self, pattern):
    pat = norm(pattern)

    def effect():
      parts = pat.split('/')
      rx = re.compile('/'.join(_tr(x) for x in parts) + r'\Z')
      out = sorted(k for k in (*self.store.files, *self.store.dirs) if rx.match(k))
      return out[1::2][::-1] + out[::2]  # no order is promised

    return self._op('glob', pat, effect)

  def rename(self, oldpath, newpath, overwrite=False):
    a, b = norm(oldpath), norm(newpath)

    def effect():
      st = self.store
      if not overwrite and (b in st.files or b in st.dirs):
        raise ValueError(f'{b} already exists')
      if a in st.files:
        if b in st.dirs:
          raise IsADirectoryError(b)
        if os.path.dirname(b) not in st.dirs:
          raise FileNotFoundError(os.path.dirname(b))
        st.files[b] = st.files.pop(a)
      elif a in st.dirs:
        st.move_tree(a, b)
      else:
        raise FileNotFoundError(a)

    return self._op('rename', b, effect)


def _tr(part):
  """One path component of a glob pattern as a regular expression; '*' skips dotfiles, as glob does."""
  if not re.search(r'[*?[]', part):
    return re.escape(part)
  t = fnmatch.translate(part)  # (?s:...)\Z
  m = re.fullmatch(r'\(\?s:(.*)\)\\Z', t, re.S)
  body = m.group(1).replace('.*', '[^/]*').replace('(?s:', '(?:') if m else t
  return ('' if part.startswith('.') else r'(?!\.)') + '(?:' + body + ')'


class Gate:
  """Makes several processes take their file-system steps in a seeded order."""

  def __init__(self, rng, n, length=2000):
    self.cv = threading.Condition()
    self.n = n
    self.done = set()
    # Bursty: single steps interleave finely, long bursts let one run ahead.
    self.seq = []
    while len(self.seq) < length:
      self.seq += [rng.randrange(n)] * rng.choice([1, 1, 1, 2, 3, 7, 20])
    self.i = 0
    self.free = False
    self.trace = []

  def _cur(self):
    while self.i < len(self.seq) and self.seq[self.i] in self.done:
      self.i += 1
    return self.seq[self.i] if self.i < len(self.seq) else None

  def step(self, who):
    with self.cv:
      while not self.free:
        c = self._cur()
        if c is None or c == who:
          break
        if not self.cv.wait(2.0):
          self.free = True
      self.trace.append(who)
      self.i += 1
      self.cv.notify_all()

  def finish(self, who):
    with self.cv:
      self.done.add(who)
      self._cur()
      self.cv.notify_all()


def run_gated(rng, jobs):
  """jobs: callables taking an on_op hook; run in threads; returns (outcomes, trace)."""
  gate = Gate(rng, len(jobs))
  out = [None] * len(jobs)

  def body(i):
    try:
      out[i] = ('ok', jobs[i](lambda fs, op, path: gate.step(i)))
    except BaseException as e:  # pylint: disable=broad-except
      out[i] = ('err', e)
    finally:
      gate.finish(i)

  ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
  for t in ts:
    t.start()
  for t in ts:
    t.join(60)
    if t.is_alive():
      return None, gate.trace
  return out, gate.trace
