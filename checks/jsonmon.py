"""JSON text streams: operators, salvage, extraction and the incremental parser (J01-J07).

The repository's processors, parser and operators run under the address and
undefined-behaviour sanitizers, the operators through real streams on the eager
executor. Models below say what each has to yield.
"""
import json
import os
import re
import struct
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

import cpp
import native
import native_par
import vp
from vp import prop

R = os.path.join(vp.REPO, 'koladata')
DRV = os.path.join(vp.VERIF, 'cpp/json')
FRONT = [os.path.join(vp.VERIF, 'shim/cppsv')]
SRCS = ['internal/op_utils/json_stream.cc', 'operators/json_stream_parser.cc', 'operators/json_stream.cc', 'functor/parallel/stream_filter_json.cc']
HDRS = ['internal/op_utils/json_stream.h', 'operators/json_stream_parser.h', 'operators/json_stream.h']


def program(name, mode, par=False):
  srcs = [os.path.join(R, f) for f in SRCS] + [os.path.join(native_par.PAR, f + '.cc') for f in native_par.CORE + ['basic_routine']]
  # Files next to these whose names say that they were split off from them.
  for d in ('internal/op_utils', 'operators', 'functor/parallel'):
    for f in sorted(os.listdir(os.path.join(R, d))):
      if f.endswith('.cc') and 'json' in f and not f.endswith(('_test.cc', '_benchmarks.cc')) and os.path.join(d, f) not in SRCS:
        srcs.append(os.path.join(R, d, f))
  known = [p for p in srcs if os.path.relpath(p, R) in SRCS or os.path.dirname(p) == native_par.PAR and 'json' not in p]
  known = [p for p in known if os.path.exists(p)]
  extra = [p for p in srcs if p not in known and os.path.exists(p)]
  own = [os.path.join(DRV, name + '.cc'), os.path.join(native_par.DRV, 'vsched.cc')] + ([os.path.join(native_par.DRV, 'common.cc')] if par else [])
  hdrs = sorted({os.path.join(R, d, f) for d in ('internal/op_utils', 'operators') for f in os.listdir(os.path.join(R, d)) if f.endswith('.h') and 'json' in f})
  return native.Program(name, mode, own, known, [native_par.PAR, native_par.DRV, DRV] + hdrs, extra=['-I' + native_par.DRV], optional=extra, front=FRONT,
                        flags=['-DVSHIM_SOFT_DCHECK'], base_libs=['-labsl_throw_delegate', '-lpthread'], libs=['-licuuc', '-licudata'])


# ------------------------------------------------------------------ the program
SALVAGE, HEAD, PRETTIFY, COMPACTIFY, OBJECTS, ARRAYS, NONNULL, EXTRACT, IMPLODE, EXPLODE, NTH, UNQUOTE, QUOTE, CHUNK_VALUES = range(14)
PARSER = 20
OPS = {n: 30 + i for i, n in enumerate(
    'salvage prettify head select_nonempty_objects select_nonempty_arrays select_nonnull get_object_key_value get_object_key_values implode_array'
    ' explode_array get_array_nth_value unquote quote chunk_values filter_json stream_string_value'.split())}


class Prog:
  """The process; one request at a time."""

  def __init__(self, run=None):
    t0 = time.time()
    try:
      self.path = program('jsonio', 'asan').build()
    except cpp.CompileError as e:
      raise vp.Inconclusive('the sources do not compile with the stand-ins: ' + str(e)[-2500:])
    if run is not None:
      run.t0 += time.time() - t0  # building is not part of the budget
    self.err = tempfile.TemporaryFile()
    self.start()

  def start(self):
    self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=native.sane_env())

  def __call__(self, kind, chunks, flags=0, a=0, s=b'', paths=()):
    """Returns [(tag, [bytes])]; a crash of the process is a violation."""
    if isinstance(s, str):
      s = s.encode('utf8', 'surrogatepass')

    def strs(l):
      return struct.pack('<I', len(l)) + b''.join(struct.pack('<I', len(x)) + x for x in l)

    req = struct.pack('<BBq', kind, flags, a) + struct.pack('<I', len(s)) + s + strs(list(paths)) + strs(list(chunks))
    try:
      self.p.stdin.write(struct.pack('<I', len(req)) + req)
      self.p.stdin.flush()
      d = self._read(struct.unpack('<I', self._read(4))[0])
    except (EOFError, BrokenPipeError):
      rc = self.p.wait()
      self.err.seek(0)
      err = self.err.read().decode('utf8', 'replace')
      m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|[^\n]*[Cc]heck failed[^\n]*|FATAL[^\n]*)', err)
      raise vp.Violation(f'the process ended with {rc}: {m.group(0)[:300] if m else err[-300:]}', f'request kind={kind} flags={flags} a={a} s={s!r} paths={paths!r} chunks={chunks!r}\n{err[-5000:]}')
    out, p = [], 4
    for _ in range(struct.unpack_from('<I', d)[0]):
      tag, n = struct.unpack_from('<BI', d, p)
      p += 5
      l = []
      for _ in range(n):
        k = struct.unpack_from('<I', d, p)[0]
        l.append(d[p + 4:p + 4 + k])
        p += 4 + k
      out.append((tag, l))
    return out

  def _read(self, n):
    b = self.p.stdout.read(n)
    if len(b) < n:
      raise EOFError
    return b

  def op(self, name, chunks, flags=0, a=0, s=b'', missing=()):
    """Runs an operator; returns ([per item: chunks], how it ended, message)."""
    steps = self(OPS[name], chunks, flags, a, s, [str(m).encode() for m in missing])
    tag, last = steps[-1]
    msg = b''
    if tag in (2, 4):
      msg, last = last[0], last[1:]
    return [v for _, v in steps[:-1]] + [last], {0: 'open', 1: 'ok', 2: 'error', 3: 'open', 4: 'refused'}[tag], msg

  def text(self, name, chunks, **kw):
    """The logical output of an operator that has to end well."""
    steps, end, msg = self.op(name, chunks, **kw)
    if end != 'ok':
      raise vp.Violation(f'{name} ends with {end} {msg!r} where its output has to end well', f'{kw} {chunks!r}')
    return b''.join(c for v in steps for c in v)

  def close(self):
    try:
      self.p.stdin.close()
    except BrokenPipeError:
      pass
    rc = self.p.wait()
    if rc:
      raise vp.Violation(f'the process ended with {rc} at exit', self.err.read())


# ---------------------------------------------------------------------- documents
# ('n', text) ('l', text) ('s', raw text between the quotes) ('a', [..]) ('o', [(raw key, value)..])
NUM = re.compile(r'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?')
STR = re.compile(r'"((?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*)"')
WS = re.compile(r'[ \t\n\r]*')
LIT = re.compile(r'true|false|null')
NANS = re.compile(r'NaN|Infinity|-Infinity')


class Bad(Exception):
  pass


def parse_at(t, i, nan=False, ws=WS):
  i = ws.match(t, i).end()
  c = t[i:i + 1]
  if c == '"':
    m = STR.match(t, i)
    if not m:
      raise Bad(f'string at {i}')
    return ('s', m.group(1)), m.end()
  if c == '[':
    out = []
    i = ws.match(t, i + 1).end()
    if t[i:i + 1] == ']':
      return ('a', out), i + 1
    while True:
      v, i = parse_at(t, i, nan, ws)
      out.append(v)
      i = ws.match(t, i).end()
      c = t[i:i + 1]
      if c == ']':
        return ('a', out), i + 1
      if c != ',':
        raise Bad(f'{c!r} in an array at {i}')
      i += 1
  if c == '{':
    out = []
    i = ws.match(t, i + 1).end()
    if t[i:i + 1] == '}':
      return ('o', out), i + 1
    while True:
      i = ws.match(t, i).end()
      m = STR.match(t, i)
      if not m:
        raise Bad(f'key at {i}')
      i = ws.match(t, m.end()).end()
      if t[i:i + 1] != ':':
        raise Bad(f'no colon at {i}')
      v, i = parse_at(t, i + 1, nan, ws)
      out.append((m.group(1), v))
      i = ws.match(t, i).end()
      c = t[i:i + 1]
      if c == '}':
        return ('o', out), i + 1
      if c != ',':
        raise Bad(f'{c!r} in an object at {i}')
      i += 1
  if nan:
    m = NANS.match(t, i)
    if m:
      return ('l', m.group(0)), m.end()
  m = LIT.match(t, i)
  if m:
    return ('l', m.group(0)), m.end()
  m = NUM.match(t, i)
  if not m:
    raise Bad(f'no value at {i}: {t[i:i + 20]!r}')
  return ('n', m.group(0)), m.end()


NOWS = re.compile('')


def parse_lines(b, nan=False, compact=False):
  """The values of newline-separated valid JSON; raises Bad."""
  try:
    t = b.decode('utf8')
  except UnicodeDecodeError as e:
    raise Bad(f'not UTF-8: {e}')
  out = []
  for line in t.split('\n'):
    if not line:
      continue
    v, i = parse_at(line, 0, nan, NOWS if compact else WS)
    if i != len(line):
      raise Bad(f'more after a value: {line[i:i + 30]!r}')
    out.append(v)
  return out


ESC = re.compile(r'\\(?:u([0-9a-fA-F]{4})|(.))', re.S)
SHORT = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
LONE = re.compile('[\ud800-\udfff]')


def pairs(s):
  s = re.sub('[\ud800-\udbff][\udc00-\udfff]', lambda m: chr(0x10000 + ((ord(m.group(0)[0]) - 0xd800) << 10) + ord(m.group(0)[1]) - 0xdc00), s)
  return LONE.sub('\ufffd', s)


def decode(raw):
  """The text of a JSON string; lone surrogates become U+FFFD."""
  return pairs(ESC.sub(lambda m: chr(int(m.group(1), 16)) if m.group(1) else SHORT.get(m.group(2), m.group(2)), raw))


def number(t):
  m = re.fullmatch(r'(-?)([0-9]*)(?:\.([0-9]*))?(?:[eE]([-+]?[0-9]+))?', t)
  digits = m.group(2) + (m.group(3) or '')
  exp = int(m.group(4) or 0) - len(m.group(3) or '')
  d = digits.lstrip('0')
  if not d:
    return ('n', 0, 0)
  k = len(d) - len(d.rstrip('0'))
  return ('n', int(m.group(1) + d.rstrip('0')), exp + k)


def sem(v):
  k = v[0]
  if k == 'n':
    return number(v[1])
  if k == 's':
    return ('s', decode(v[1]))
  if k == 'a':
    return ('a', [sem(x) for x in v[1]])
  if k == 'o':
    return ('o', [(decode(a), sem(b)) for a, b in v[1]])
  return v


def compact(v):
  k = v[0]
  if k == 's':
    return '"' + v[1] + '"'
  if k == 'a':
    return '[' + ','.join(map(compact, v[1])) + ']'
  if k == 'o':
    return '{' + ','.join('"' + a + '":' + compact(b) for a, b in v[1]) + '}'
  return v[1]


def lines(vals):
  return ''.join(compact(v) + '\n' for v in vals).encode()


def pretty(v, indent, depth=0):
  """As Python's json.dumps(..., indent=indent) writes it."""
  k = v[0]
  if k not in 'ao' or not v[1]:
    return compact(v)
  pad, end = '\n' + indent * (depth + 1), '\n' + indent * depth
  if k == 'a':
    return '[' + ','.join(pad + pretty(x, indent, depth + 1) for x in v[1]) + end + ']'
  return '{' + ','.join(pad + '"' + a + '": ' + pretty(b, indent, depth + 1) for a, b in v[1]) + end + '}'


CHARS = ['a', 'b', 'k', 'n', 'u', '0', '9', ' ', ',', ':', '{', '}', '[', ']', '#', '/', "'", '`', '(', ')', '*', '.', '-', '\x7f', '\x80', '\xe9', '\u07ff', '\u0800', '\u2028', '\ufeff', '\u4e2d',
         '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0001f680', '\U0010ffff']


def raw_string(r, lone=False, n=None):
  out = []
  for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20]) if n is None else n):
    k = r.random()
    if k < 0.62:
      out.append(r.choice(CHARS))
    elif k < 0.8:
      out.append('\\' + r.choice('"\\/bfnrt'))
    elif k < 0.9:
      out.append('\\u%04x' % r.choice([0, 1, 0x1f, 0x22, 0x27, 0x5c, 0x2f, 0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff]))
    elif k < 0.96 or not lone:
      c = r.choice([0x10000, 0x1f680, 0x10ffff, 0x103ff, 0x10400])
      out.append(('\\u%04x\\u%04x' if r.random() < 0.5 else '\\u%04X\\u%04X') % (0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)))
    else:
      out.append('\\u%04x' % r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xde00]))
  return ''.join(out)


NUMS = ['0', '-0', '1', '-1', '10', '12', '7', '0.5', '-0.25', '1e5', '1E+3', '2e-7', '0e0', '123456789012345678901234567890', '1.000000000000000000000000000001', '1e400', '-0.0e-0', '9007199254740993',
        '3.14', '100', '42']
KEYS = ['a', 'b', 'k', 'x', 'key', '', 'a.b', '\\u0061', '\\n', '\\"', '\xe9', '\\ud83d\\ude80', '\U0001f680', '/', '\\/', '[*]', 'null', '0', '-1', ':', ',', '{', '}']


def value(r, depth, lone=False, keys=KEYS):
  k = r.random()
  if depth <= 0:
    k *= 0.6
  if k < 0.2:
    return ('n', r.choice(NUMS) if r.random() < 0.8 else str(r.randint(-10**6, 10**6)))
  if k < 0.35:
    return ('l', r.choice(['true', 'false', 'null']))
  if k < 0.6:
    return ('s', raw_string(r, lone))
  n = r.choice([0, 0, 1, 1, 2, 3, 4])
  if k < 0.8:
    return ('a', [value(r, depth - 1, lone, keys) for _ in range(n)])
  return ('o', [(r.choice(keys) if r.random() < 0.85 else raw_string(r, lone), value(r, depth - 1, lone, keys)) for _ in range(n)])


def ws(r, heavy):
  return ''.join(r.choice(' \t\n\r') for _ in range(r.choice([0, 0, 0, 1, 2] if heavy else [0, 0, 0, 0, 0, 1])))


def write(r, v, heavy):
  k = v[0]
  w = lambda: ws(r, heavy)
  if k == 's':
    return '"' + v[1] + '"'
  if k == 'a':
    return '[' + w() + ','.join(w() + write(r, x, heavy) + w() for x in v[1]) + ']'
  if k == 'o':
    return '{' + w() + ','.join(w() + '"' + a + '"' + w() + ':' + w() + write(r, b, heavy) + w() for a, b in v[1]) + '}'
  return v[1]


def docs(r, lone=False, keys=KEYS):
  """A stream of values and one way of writing it."""
  depth = r.choice([0, 1, 2, 3, 4])
  vals = [value(r, depth, lone, keys) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6]))]
  if r.random() < 0.04:
    deep = value(r, 1, lone, keys)
    for _ in range(r.randint(20, 90)):
      deep = r.choice([('a', [deep]), ('o', [(r.choice(keys), deep)])])
    vals.append(deep)
  heavy = r.random() < 0.5
  t = ws(r, heavy)
  for v in vals:
    t += write(r, v, heavy) + r.choice(['\n', ' ', '\r\n', '\t', '\n\n', ' \n '])
  if vals and r.random() < 0.4:
    t = t.rstrip(' \t\r\n')
  return vals, t.encode()


def split(r, b, chars=False):
  """One way of cutting text into items; with `chars`, not within a character."""
  n = len(b)
  how = r.random()
  if how < 0.1 or n == 0:
    cuts = []
  elif how < 0.3:
    cuts = list(range(1, n))
  else:
    cuts = sorted(r.sample(range(1, n), min(n - 1, r.choice([1, 1, 2, 3, 5, 10])))) if n > 1 else []
  if chars:
    cuts = [c for c in cuts if (b[c] & 0xc0) != 0x80]
  out, at = [], 0
  for c in cuts:
    out.append(b[at:c])
    at = c
  out.append(b[at:])
  for _ in range(r.choice([0, 0, 0, 1, 3])):
    out.insert(r.randrange(len(out) + 1), b'')
  return out


def cut_and_gaps(r, b):
  """Items, some of them missing, whose concatenation is `b`."""
  out = split(r, b, chars=r.random() < 0.5)
  gaps = set()
  if r.random() < 0.3:
    for i, c in enumerate(out):
      if not c and r.random() < 0.7:
        gaps.add(i)
  return out, gaps


# ------------------------------------------------------------------------ models
def first(l, default):
  return l[0] if l else default


NULL = ('l', 'null')


def model(name, vals, a=0, s=''):
  """The values an operator has to yield; bytes for those that yield text."""
  if name in ('salvage', 'chunk_values', 'prettify'):
    return vals
  if name == 'head':
    return vals[:max(a, 0)]
  if name == 'select_nonempty_objects':
    return [v for v in vals if v[0] == 'o' and v[1]]
  if name == 'select_nonempty_arrays':
    return [v for v in vals if v[0] == 'a' and v[1]]
  if name == 'select_nonnull':
    return [v for v in vals if v != NULL]
  if name == 'get_object_key_value':
    return [first([x for k, x in v[1] if decode(k) == s], NULL) if v[0] == 'o' else NULL for v in vals]
  if name == 'get_object_key_values':
    return [('a', [x for k, x in v[1] if decode(k) == s] if v[0] == 'o' else []) for v in vals]
  if name == 'implode_array':
    return [('a', vals)]
  if name == 'explode_array':
    return [x for v in vals if v[0] == 'a' for x in v[1]]
  if name == 'get_array_nth_value':
    return [v[1][a] if v[0] == 'a' and 0 <= a < len(v[1]) else NULL for v in vals]
  raise KeyError(name)


def all_strings(v):
  if v[0] == 's':
    return decode(v[1])
  if v[0] == 'a':
    return ''.join(map(all_strings, v[1]))
  if v[0] == 'o':
    return ''.join(decode(k) + all_strings(x) for k, x in v[1])
  return ''


def args(r, name, vals):
  if name == 'head':
    return dict(a=r.choice([-1, 0, 1, 1, 2, 3, len(vals), len(vals) + 1, 2**40]))
  if name == 'get_array_nth_value':
    return dict(a=r.choice([0, 0, 1, 1, 2, 3, 5, -1, -2, 2**40]))
  if name in ('get_object_key_value', 'get_object_key_values'):
    keys = [decode(k) for v in vals if v[0] == 'o' for k, _ in v[1]]
    return dict(s=r.choice(keys + ['a', 'missing']))
  if name == 'prettify':
    return dict(s=r.choice(['  ', '', '\t', '    ', ' ', '\xe9', '""']))
  return {}


def shown(name, kw, chunks):
  return f'{name} {kw} on {b"".join(chunks)!r} in {len(chunks)} items'


STRUCT = ['head', 'select_nonempty_objects', 'select_nonempty_arrays', 'select_nonnull', 'get_object_key_value', 'get_object_key_values', 'implode_array', 'explode_array', 'get_array_nth_value',
          'chunk_values']


def check_values(run, name, kw, chunks, want, got):
  """The output is the wanted values, one per line, without any other whitespace."""
  try:
    vals = parse_lines(got, compact=True)
  except Bad as e:
    run.fail(f'{name}: the output is not newline-separated JSON: {e}', f'{shown(name, kw, chunks)}\noutput {got!r}')
  run.expect(got == lines(vals), f'{name}: the output is not one value per line', f'{shown(name, kw, chunks)}\noutput {got!r}')
  run.expect(vals == want, f'{name}: other values than it has to yield', f'{shown(name, kw, chunks)}\nwanted {lines(want)!r}\noutput {got!r}')


def check_prettify(run, kw, chunks, want, got):
  text = got.decode()
  run.expect(text.strip('\n') == '\n'.join(pretty(v, kw['s']) for v in want).strip('\n'), 'prettify: not what json.dumps with this indent writes',
             f'{shown("prettify", kw, chunks)}\noutput {got!r}')


def lone_free(vals):
  return '\ufffd' not in ''.join(map(all_strings, vals))


# -------------------------------------------------------------------- J04: reshape
@prop('J04', level='exploration', min_eval=300, min_distinct=150, shards=6)
def reshape(run):
  """Operators that pick and reformat whole values."""
  run.rule = 'a case is non-trivial by the operator, its arguments and the text it was fed'
  prog = Prog(run)
  names = ['prettify', 'head', 'select_nonempty_objects', 'select_nonempty_arrays', 'select_nonnull', 'chunk_values', 'implode_array', 'explode_array', 'get_array_nth_value']
  for i in run.cases(9000, 200000):
    r = run.sub(i)
    vals, b = docs(r, lone=True)
    name = names[(i // run.shards) % len(names)]
    kw = args(r, name, vals)
    chunks, gaps = cut_and_gaps(r, b)
    want = model(name, vals, **kw) if name != 'prettify' else vals
    steps, end, msg = prog.op(name, chunks, missing=gaps, flags=128, **kw)
    run.expect(end == 'ok' or name == 'head' and end == 'open' and kw['a'] <= len(vals), f'{name}: the output ends with {end} {msg!r}', shown(name, kw, chunks))
    got = b''.join(c for v in steps for c in v)
    if name == 'prettify':
      check_prettify(run, kw, chunks, want, got)
    else:
      check_values(run, name, kw, chunks, want, got)
    if name == 'chunk_values':
      items = [c for v in steps for c in v]
      run.expect(items == [lines([v]) for v in vals], 'chunk_values: an item is not exactly one value and a newline', f'{shown(name, kw, chunks)}\nitems {items!r}')
    if name == 'head' and len(vals) > kw['a'] > 0:
      run.count('head_ends_early')
      # By the first byte of the next value the last wanted one has come.
      text, at = b.decode(), 0
      for _ in range(kw['a']):
        at = json.JSONDecoder().raw_decode(text, WS.match(text, at).end())[1]
      due, total = len(text[:WS.match(text, at).end()].encode()), 0
      for k, c in enumerate(chunks):
        total += len(c)
        if total > due:
          break
      run.expect(len(steps) <= k + 1, f'head: has {kw["a"]} values by item {k} but still goes on', shown(name, kw, chunks))
    run.count(name)
    run.saw((name, sorted(kw.items()), b), sample=f'{name} {kw} {b[:60]!r} -> {got[:60]!r}')
  prog.close()


# ---------------------------------------------------------------- J05: extraction
def by_path(v, wanted, path=''):
  """The values at the wanted paths, outermost only, in document order."""
  if path in wanted:
    yield path, v
  elif v[0] == 'a':
    for i, x in enumerate(v[1]):
      yield from by_path(x, wanted, path + f'i{i}/')
  elif v[0] == 'o':
    for k, x in v[1]:
      d = decode(k)
      yield from by_path(x, wanted, path + f'k{len(d.encode())}:{d}')


def all_paths(v, path=''):
  yield path
  if v[0] == 'a':
    for i, x in enumerate(v[1]):
      yield from all_paths(x, path + f'i{i}/')
  elif v[0] == 'o':
    for k, x in v[1]:
      d = decode(k)
      yield from all_paths(x, path + f'k{len(d.encode())}:{d}')


def path_value(path):
  """The JSON array that names a path, decoded."""
  out, b, i = [], path.encode(), 0
  while i < len(b):
    if b[i:i + 1] == b'i':
      j = b.index(b'/', i)
      out.append(number(b[i + 1:j].decode()))
      i = j + 1
    else:
      j = b.index(b':', i)
      n = int(b[i + 1:j])
      out.append(('s', b[j + 1:j + 1 + n].decode()))
      i = j + 1 + n
  return ('a', out)


@prop('J05', level='exploration', min_eval=300, min_distinct=150, shards=6)
def extraction(run):
  """Values by key and by path."""
  run.rule = 'a case is non-trivial by the key or the paths asked for and the text'
  prog = Prog(run)
  for i in run.cases(9000, 200000):
    r = run.sub(i)
    vals, b = docs(r, keys=['a', 'b', 'k', 'a', 'b', '', '\\u0061', '\\n', '\xe9', '\\ud83d\\ude80', '0', '"'.replace('"', '\\"')])
    vals = [v for v in vals]
    if r.random() < 0.5:
      name = r.choice(['get_object_key_value', 'get_object_key_values'])
      kw = args(r, name, vals)
      chunks, gaps = cut_and_gaps(r, b)
      got = prog.text(name, chunks, missing=gaps, flags=128, **kw)
      check_values(run, name, kw, chunks, model(name, vals, **kw), got)
      run.count(name)
      run.saw((name, kw['s'], b), sample=f'{name} {kw} {b[:60]!r} -> {got[:60]!r}')
      continue
    flat = lines(vals)
    paths = sorted({p for v in vals for p in all_paths(v)})
    wanted = set(r.sample(paths, min(len(paths), r.choice([0, 1, 1, 2, 3])))) if paths else set()
    if r.random() < 0.7:
      wanted.discard('')
    with_path = r.random() < 0.5
    chunks = split(r, flat)
    steps = prog(EXTRACT, chunks, flags=128 | (2 if with_path else 0) | r.choice([0, 1]), paths=[p.encode() for p in wanted])
    asked = [p.decode() for p in steps.pop()[1]]
    got = b''.join(c for _, l in steps for c in l)
    what = f'extract {sorted(wanted)} with_path={with_path} from {flat!r} in {len(chunks)} items'
    try:
      out = parse_lines(got, compact=True)
    except Bad as e:
      run.fail(f'extraction by path: the output is not newline-separated JSON: {e}', f'{what}\noutput {got!r}')
    run.expect(len(out) == len(vals), 'extraction by path: not one array per value', f'{what}\noutput {got!r}')
    for v, o in zip(vals, out):
      want = list(by_path(v, wanted))
      if with_path:
        run.expect(sem(o) == ('a', [('a', [path_value(p), sem(x)]) for p, x in want]), 'extraction by path: other values or paths', f'{what}\nwanted {want!r}\noutput {got!r}')
        run.expect([x[1][1] if x[0] == 'a' and len(x[1]) == 2 else None for x in o[1]] == [x for _, x in want], 'extraction by path: a value was rewritten', f'{what}\noutput {got!r}')
      else:
        run.expect(o == ('a', [x for _, x in want]), 'extraction by path: other values', f'{what}\nwanted {want!r}\noutput {got!r}')

    def visited(v, path=''):
      yield path
      if path in wanted:
        return
      if v[0] == 'a':
        for i, x in enumerate(v[1]):
          yield from visited(x, path + f'i{i}/')
      elif v[0] == 'o':
        for k, x in v[1]:
          d = decode(k)
          yield from visited(x, path + f'k{len(d.encode())}:{d}')

    # A value may be asked about again before anything else is.
    squeeze = lambda l: [p for i, p in enumerate(l) if i == 0 or l[i - 1] != p]
    run.expect(squeeze(asked) == squeeze([p for v in vals for p in visited(v)]), 'extraction by path: the paths asked about are not those of the unmatched values in document order', f'{what}\nasked {asked}')
    run.count('by_path')
    run.count('paths_asked', len(asked))
    run.saw(('path', sorted(wanted), with_path, flat), sample=f'{what[:80]} -> {got[:60]!r}')
  prog.close()


# ----------------------------------------------------------------- J06: quoting
@prop('J06', level='exploration', min_eval=300, min_distinct=150, shards=6)
def quoting(run):
  """Text to one JSON string and the strings of a document to text."""
  run.rule = 'a case is non-trivial by its text'
  prog = Prog(run)
  for i in run.cases(9000, 200000):
    r = run.sub(i)
    if r.random() < 0.5:
      n = r.choice([0, 1, 2, 5, 10, 40])
      text = ''.join(chr(r.choice([r.randrange(32), r.randrange(32), 34, 92, 47, 39, 127, 128, r.randrange(32, 127), 0x7ff, 0x800, 0x2028, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff])) for _ in range(n))
      b = text.encode()
      chunks, gaps = cut_and_gaps(r, b)
      q = prog.text('quote', chunks, missing=gaps, flags=128)
      m = STR.fullmatch(q.decode())
      run.expect(m is not None, 'quote: the output is not one JSON string', f'{shown("quote", {}, chunks)}\noutput {q!r}')
      run.expect(decode(m.group(1)) == text, 'quote: the string is not the text', f'{shown("quote", {}, chunks)}\noutput {q!r}')
      for e in ESC.finditer(m.group(1)):
        c = decode(e.group(0))
        run.expect(c in '"\\' or c < ' ', 'quote: an escape that is not necessary', f'{shown("quote", {}, chunks)}\noutput {q!r}')
      back = prog.text('unquote', cut_and_gaps(r, q)[0], flags=128)
      run.expect(back == b, 'unquoting what was quoted does not give the text', f'{text!r} -> {q!r} -> {back!r}')
      run.count('quoted')
      run.saw(('q', b), sample=f'{b[:40]!r} -> {q[:60]!r}')
    else:
      vals, b = docs(r)
      chunks, gaps = cut_and_gaps(r, b)
      got = prog.text('unquote', chunks, missing=gaps, flags=128)
      want = ''.join(map(all_strings, vals)).encode()
      run.expect(got == want, 'unquote: not the strings of the document in order', f'{shown("unquote", {}, chunks)}\nwanted {want!r}\noutput {got!r}')
      run.count('unquoted')
      run.saw(('u', b), sample=f'{b[:40]!r} -> {got[:40]!r}')
  prog.close()


# ------------------------------------------------------- variants of JSON for salvage
SPACES = [' ', ' ', ' ', '\n', '\n', '\t', '\r', '\r\n', '\v', '\f', '\xa0', '\ufeff', '\u2028', '\u2029', '\u3000', '\u2003']
COMMENTS = ['/**/', '/***/', '/* * / **/', '/* c\n */', '/*"*/', "/*'*/", '/*//*/', '/*#*/', '/* ] } ) */', '/*/*/', '/** doc **/', '/*\u4e2d*/', '/* ****/', '// c\n', '//\n', '// /* \n', '# c\n', '#\n', '#"\r',
            "// '\u2028", '# // ] }\r\n']


def junk(r, need=False, heavy=0.4):
  """Whitespace and comments; with `need`, whitespace first."""
  out = r.choice(SPACES) if need else ''
  while r.random() < heavy:
    out += r.choice(SPACES) if r.random() < 0.6 else r.choice(COMMENTS)
  return out


def variant_string(r):
  """(text, value) of one quoted string in some syntax."""
  q = r.choice(['"', '"', "'", "'", '"""', "'''", '`'])
  triple = len(q) == 3
  cps = []
  for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
    cps.append(r.choice([0, 1, 7, 8, 9, 10, 11, 12, 13, 0x1f, 34, 39, 96, 92, 47, ord('0'), ord('7'), ord('8'), ord('a'), ord('n'), ord('u'), ord('x'), ord('{'), ord('}'), ord(','), ord(':'), ord('#'), 32,
                         ord('*'), ord('g'), 127, 0x80, 0xe9, 0xff, 0x100, 0x1ff, 0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xffff, 0x10000, 0x1f680, 0x10ffff]))
  if q == '`' and not cps:
    cps = [ord('a')]
  pieces = []  # (text, is a literal character, short octal)
  for c in cps:
    ch = chr(c)
    opts = []
    lit = c != 92 and (c not in (10, 13) or (triple and c == 10) or (q == '`' and c == 10)) and (ch != q)
    if q == '`' and c in (36,):
      lit = False
    if lit:
      opts += ['lit'] * 3
    opts += {8: ['\\b'], 12: ['\\f'], 10: ['\\n'], 13: ['\\r'], 9: ['\\t'], 11: ['\\v'], 7: ['\\a'], 92: ['\\\\'] * 3, 34: ['\\"'] * 3, 39: ["\\'"] * 3, 96: ['\\`'] if q == '`' else [], 47: ['\\/'] * 2}.get(c, [])
    if c < 256:
      opts += ['\\x%02x' % c, '\\x%02X' % c]
    if c < 512:
      opts += ['\\%03o' % c]
      if c < 64:
        opts += ['oct\\%02o' % c]
      if c < 8:
        opts += ['oct\\%o' % c] * 2
    if c < 0x10000:
      opts += ['\\u%04x' % c, '\\u%04X' % c]
    else:
      opts += ['\\u%04x\\u%04x' % (0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff))] * 2
    opts += ['\\u{%x}' % c, '\\u{%06X}' % c, '\\U%08x' % c]
    o = r.choice(opts)
    if o == 'lit':
      pieces.append((ch, True, False))
    elif o.startswith('oct'):
      pieces.append((o[3:], False, True))
    else:
      pieces.append((o, False, False))
    if r.random() < 0.06:
      pieces.append((r.choice(['\\\n', '\\\r\n', '\\\r', '\\\u2028', '\\\u2029']), False, False))
  # What may not stand next to each other.
  out = []
  run_len = 0
  for k, (t, lit, short) in enumerate(pieces):
    nxt = pieces[k + 1][0] if k + 1 < len(pieces) else None
    if short and nxt is not None and nxt[0] in '01234567':
      t = '\\%03o' % int(t[1:], 8)
    if t == '\\\r' and nxt is not None and nxt[0] == '\n':
      t = '\\\r\n'
    if triple and lit and t == q[0]:
      # At most two in a row, and none before the end.
      rest = [p[0] for p in pieces[k + 1:]]
      if run_len == 2 or not rest or all(x == q[0] for x in rest):
        t, lit = '\\' + t, False
    run_len = run_len + 1 if lit and t == q[0] else 0
    out.append(t)
  prefix = r.choice(['', '', '', '', 'u', 'b']) if q != '`' else ''
  return prefix + q + ''.join(out) + q, ('s', ''.join(map(chr, cps)))


def under(r, digits):
  return ''.join(d + ('_' if k + 1 < len(digits) and r.random() < 0.15 else '') for k, d in enumerate(digits))


def variant_number(r):
  sign = r.choice(['', '', '', '-', '+'])
  s = '-' if sign == '-' else ''
  k = r.random()
  if k < 0.35:
    v = r.choice([0, 1, 7, 8, 10, 255, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, r.randrange(2**64)])
    base = r.choice('xXoObB')
    d = {'x': '%x' % v, 'X': '%X' % v, 'o': '%o' % v, 'O': '%o' % v, 'b': bin(v)[2:], 'B': bin(v)[2:]}[base]
    t = '0' + base + r.choice(['', '', '', '0', '000']) + under(r, d) + r.choice(['', '', '', 'n', 'l', 'L'])
    return sign + t, number(s + str(v))
  whole = r.choice(['0', '1', '9', '10', '123', '9007199254740993', '340282366920938463463374607431768211456'])
  if k < 0.5:
    return sign + under(r, whole) + r.choice(['', 'n', 'l', 'L']), number(s + whole)
  frac = r.choice(['', '0', '5', '25', '000001', '10', '3333333333333333333333'])
  form = r.choice(['w', 'w.', 'w.f', '.f', 'we'])
  frac = frac or '5'
  t, m = {'w': (under(r, whole), whole), 'w.': (under(r, whole) + '.', whole), 'w.f': (under(r, whole) + '.' + under(r, frac), whole + '.' + frac), '.f': ('.' + under(r, frac), '0.' + frac),
          'we': (under(r, whole), whole)}[form]
  if form == 'we' or r.random() < 0.4:
    e = r.choice(['', '+', '-']) + r.choice(['0', '1', '5', '10', '300', '10000'])
    t += r.choice('eE') + e
    m += 'e' + e
  return sign + t, number(s + m)


def variant(r, depth, nan):
  """(text, value, needs whitespace before a comment)."""
  k = r.random()
  if depth <= 0:
    k *= 0.65
  if k < 0.25:
    return variant_number(r) + (False,)
  if k < 0.35:
    t, v = r.choice([('true', 'true'), ('false', 'false'), ('null', 'null'), ('True', 'true'), ('False', 'false'), ('None', 'null')])
    return t, ('l', v), False
  if k < 0.4:
    t, v = r.choice([('NaN', 'NaN'), ('Infinity', 'Infinity'), ('-Infinity', '-Infinity'), ('+Infinity', 'Infinity'), ('-NaN', 'NaN'), ('+NaN', 'NaN')])
    return t, (('l', v) if nan else ('s', t)), not nan
  if k < 0.65:
    return variant_string(r) + (False,)
  n = r.choice([0, 1, 1, 2, 3])
  if k < 0.83:
    xs = [variant(r, depth - 1, nan) for _ in range(n)]
    t = ''
    tup = r.random() < 0.3
    for j, (x, _, need) in enumerate(xs):
      comma = j + 1 < n or (r.random() < 0.3) or (tup and n == 1)
      t += junk(r, heavy=0.25) + x + (junk(r, True, 0.25) if need else junk(r, heavy=0.25)) + (',' if comma else '')
    t += junk(r, heavy=0.25)
    return ('(%s)' if tup else '[%s]') % t, ('a', [v for _, v, _ in xs]), False
  out, kv = '', []
  for j in range(n):
    h = r.random()
    if h < 0.45:
      key, kval = variant_string(r)
      while key[0] in 'ub`':
        key, kval = variant_string(r)
      after = junk(r, heavy=0.2)
    else:
      key = r.choice(['a', 'k', 'key', '$', '_x', 'a1', 'true', 'None', 'NaN', 'Infinity', 'u', 'b', '\xe9t\xe9', 'null', 'n', 'bb', '\u4e2d']) if h < 0.9 else r.choice(['0', '7', '100', '12'])
      kval = ('s', key)
      after = r.choice(['', junk(r, True, 0.2)])
    x, v, need = variant(r, depth - 1, nan)
    out += junk(r, heavy=0.2) + key + after + ':' + junk(r, heavy=0.2) + x + (junk(r, True, 0.2) if need else junk(r, heavy=0.2)) + (',' if j + 1 < n or r.random() < 0.3 else '')
    kv.append((kval[1], v))
  return '{' + out + junk(r, heavy=0.2) + '}', ('o', kv), False


def variants(r, nan):
  t, vals = junk(r), []
  for _ in range(r.choice([1, 1, 2, 3])):
    x, v, _ = variant(r, r.choice([0, 1, 2, 3]), nan)
    t += x + junk(r, True)
    vals.append(v)
  return vals, t.encode()


# --------------------------------------------------------------- hostile text
TOKENS = [b'{', b'}', b'[', b']', b'(', b')', b',', b':', b'"', b"'", b'`', b'"""', b"'''", b'``', b'\\', b'\\u', b'\\ud83d', b'\\ude00', b'\\u{', b'\\x', b'\\U', b'\\0', b'\\n', b'\\"', b"\\'", b'\\\x01',
          b'\\\xc3\xa9', b'\n', b' ', b'\r', b'\t', b'/', b'//', b'/*', b'*/', b'*', b'#', b'-', b'+', b'.', b'0', b'1', b'9', b'0x', b'0b', b'0o', b'e', b'E', b'_', b'n', b'L', b'-1', b'+0', b'-.', b'1e', b'1.',
          b'true', b'null', b'None', b'nan', b'-infinity', b'inf', b'a', b'abc', b'b"', b"u'", b'\x00', b'\x01', b'\x1f', b'\x7f', b'\xc3\xa9', b'\xe4\xb8\xad', b'\xf0\x9f\x9a\x80', b'\xe2\x80\xa8', b'\xef\xbb\xbf',
          b'```json', b'```']
BROKEN = [b'\x80', b'\xc3', b'\xe4\xb8', b'\xf0\x9f', b'\xff', b'\xed\xa0\x80', b'\xc0\x80', b'\xf5\x80\x80\x80', b'\xf4\x90\x80\x80']


def hostile(r, utf8=True):
  k = r.random()
  if k < 0.45:
    b = b''.join(r.choice(TOKENS) for _ in range(r.choice([1, 2, 3, 4, 6, 10, 20, 40])))
  elif k < 0.5:
    b = r.choice([b'[', b'{', b'{"a":', b'(', b'[{', b'"\\u{', b'0x1', b'1', b'/*', b'"""']) * r.choice([90, 99, 100, 101, 150]) + r.choice([b'', b'1', b'"', b']'])
  else:
    b = bytearray((variants(r, False) if r.random() < 0.5 else docs(r, lone=True))[1])
    for _ in range(r.choice([1, 1, 2, 4])):
      h = r.random()
      p = r.randrange(len(b) + 1)
      if h < 0.4:
        b[p:p] = r.choice(TOKENS)
      elif h < 0.7:
        del b[p:p + r.choice([1, 1, 2, 5])]
      elif h < 0.85:
        del b[p:]
      else:
        b[p:p] = b[max(0, p - r.randrange(10)):p]
    b = bytes(b)
    if utf8:
      b = b.decode('utf8', 'ignore').encode()
  if not utf8:
    for _ in range(r.choice([0, 1, 2])):
      p = r.randrange(len(b) + 1)
      b = b[:p] + r.choice(BROKEN) + b[p:]
  return b


def salvage_flags(r):
  return dict(flags=128 | r.choice([0, 2]) | r.choice([0, 4, 4]), a=100)


# -------------------------------------------------------- J02, J03: salvaging
def salvaged(run, prog, chunks, kw, gaps=()):
  """The values of the salvaged text, after checking its form."""
  got = prog.text('salvage', chunks, missing=gaps, **kw)
  what = f'{shown("salvage", kw, chunks)}\noutput {got!r}'
  try:
    vals = parse_lines(got, nan=bool(kw['flags'] & 2))
  except Bad as e:
    run.fail(f'salvage: the output is not newline-separated valid JSON: {e}', what)
  except RecursionError:
    run.fail('salvage: the output is nested deeper than its limit', what)
  run.count('oracle_evaluations')
  if kw['flags'] & 4:
    run.expect(got.isascii(), 'salvage: the output is not ASCII', what)
  return vals, what


def depth_of(v):
  if v[0] == 'a':
    return 1 + max(map(depth_of, v[1]), default=0)
  if v[0] == 'o':
    return 1 + max((depth_of(x) for _, x in v[1]), default=0)
  return 0


@prop('J02', level='exploration', min_eval=300, min_distinct=150, shards=6)
def salvage_valid(run):
  """Whatever comes in, valid JSON goes out; valid JSON stays what it is."""
  sys.setrecursionlimit(20000)
  run.rule = 'a case is non-trivial by its text and options'
  prog = Prog(run)
  for i in run.cases(20000, 400000):
    r = run.sub(i)
    kw = salvage_flags(r)
    if r.random() < 0.3:
      kw['a'] = r.choice([0, 1, 2, 3, 5, 30])
    k = r.random()
    if k < 0.35:
      vals, b = docs(r, lone=True)
      chunks, gaps = cut_and_gaps(r, b)
      out, what = salvaged(run, prog, chunks, kw, gaps)
      if max(map(depth_of, vals), default=0) <= kw['a']:
        run.expect([sem(v) for v in out] == [sem(v) for v in vals], 'salvage: valid JSON came out as other values', what)
        run.count('valid')
      else:
        run.count('too_deep')
    else:
      b = hostile(r, utf8=k < 0.85)
      out, what = salvaged(run, prog, split(r, b), kw)
      run.expect(max(map(depth_of, out), default=0) <= max(kw['a'], 0), 'salvage: the output is nested deeper than its limit', what)
      run.count('hostile')
    run.saw((b, sorted(kw.items())), sample=f'{b[:60]!r}')
  prog.close()


# JSON5 that is known to be read otherwise; see known_findings.txt.
ODD = [
    ('unquoted-then-comment', '{a/*c*/:1}', [('o', [('a', number('1'))])], 0),
    ('unquoted-then-comment', '{key//c\n:1}', [('o', [('key', number('1'))])], 0),
    ('unquoted-then-comment', '[NaN/*c*/]', [('a', [('s', 'NaN')])], 0),
    ('unquoted-key-escape', '{\\u0061b:1}', [('o', [('ab', number('1'))])], 0),
    ('unquoted-key-escape', '{a\\u0062:1}', [('o', [('ab', number('1'))])], 0),
]


@prop('J03', level='exploration', min_eval=300, min_distinct=150, shards=6)
def salvage_variants(run):
  """The documented variants of JSON mean what they say."""
  run.rule = 'a case is non-trivial by its text and options'
  prog = Prog(run)
  if run.shard == 0:
    for key, text, want, flags in ODD:
      try:
        out, what = salvaged(run, prog, [text.encode()], dict(flags=128 | flags, a=100))
        run.expect([sem(v) for v in out] == want, f'salvage: {text!r} means something else', what, key)
      except vp.Violation as v:
        if v.key is None:
          raise
        run.record(v)
  for i in run.cases(20000, 400000):
    r = run.sub(i)
    kw = salvage_flags(r)
    vals, b = variants(r, bool(kw['flags'] & 2))
    chunks, gaps = cut_and_gaps(r, b)
    out, what = salvaged(run, prog, chunks, kw, gaps)
    run.expect([sem(v) for v in out] == vals, 'salvage: the text means something else', f'{what}\nwanted {vals!r}')
    run.saw((b, sorted(kw.items())), sample=f'{b[:60]!r}')
  prog.close()


# ---------------------------------------------------------------- J01: any cut
@prop('J01', level='exploration', min_eval=300, min_distinct=150, shards=6)
def any_cut(run):
  """How text is cut into items does not matter, and no text does harm."""
  run.rule = 'a case is non-trivial by the operator, its arguments and the text'
  prog = Prog(run)
  names = sorted(OPS)
  for i in run.cases(9000, 200000):
    r = run.sub(i)
    name = names[(i // run.shards) % len(names)]
    valid = r.random() < 0.5
    vals, b = docs(r, lone=name != 'unquote') if valid else ([], hostile(r, utf8=r.random() < 0.8))
    kw = args(r, name, vals)
    if name == 'salvage':
      kw = salvage_flags(r)
    if name in ('filter_json', 'stream_string_value'):
      kw = dict(s=r.choice(['$', '$.a', '$[*]', '$[*][*]', '$.k', '$[*].a', '$.a[*]']))
    kw.setdefault('flags', 128 if valid or name == 'salvage' else 0)
    results = []
    for how in range(3):
      chunks, gaps = ([b], set()) if how == 0 else cut_and_gaps(r, b)
      steps, end, msg = prog.op(name, chunks, missing=gaps, **kw)
      out = [c for v in steps for c in v]
      if name not in ('filter_json', 'chunk_values'):
        out = b''.join(out)
      results.append((out, 'ok' if end == 'open' and name == 'head' else end, msg, chunks, gaps))
    if valid or name in ('salvage', 'quote'):
      for out, end, msg, chunks, gaps in results:
        run.expect(end == 'ok', f'{name}: the output ends with {end} {msg!r} on what has to be accepted', shown(name, kw, chunks) + f' missing {gaps}')
        run.expect(out == results[0][0], f'{name}: the output depends on how the text is cut into items', f'{shown(name, kw, chunks)} missing {gaps}\n{chunks!r}\noutput {out!r}\nof the whole {results[0][0]!r}')
    run.count('valid' if valid else 'hostile')
    run.count(name)
    run.saw((name, sorted(kw.items()), b), sample=f'{name} {b[:60]!r} {len(results[1][3])} items')
  prog.close()


# ------------------------------------------- J07: the incremental parser and filters
PKEYS = ['a', 'b', 'k', 'id', 'docs', 'x1', '\xe9t\xe9', '\u4e2d', 'a_b', 'a-b', '$', '0', 'true', '[*]', 'a.b']
STRICT, REMOVE, SINGLE, UNQUOTED, BREAKS, TOKENS_Q = 0, 2, 4, 8, 16, 32
BAD_TOKENS = ['report', 'foo"bar', "it's", 'a\\b', '1x', 'c:d', 'tru', 'nulll', '\xe9', '"'[:0] + 'x', '-', '--1', '(1)', '1-2', '\x01q', '```json', '\\', '\\"', 'x{', 'y[', '\u4e2d"']


def loose_string(r, f, key=False):
  """(text, the characters) of a string in one of the accepted forms."""
  if key:
    k = r.choice(PKEYS)
    if f & UNQUOTED and k not in ('a.b', '[*]') and r.random() < 0.5:
      return k, k
    if f & SINGLE and r.random() < 0.4:
      k += r.choice(['', '', '"', ' x', ','])
      return "'" + k + "'", k
    k += r.choice(['', '', "'", ' x', ',', ':', '{', ']'])
    return '"' + k + '"', k
  q = "'" if f & SINGLE and r.random() < 0.5 else '"'
  t, v = '', ''
  for _ in range(r.choice([0, 1, 2, 4, 8])):
    h = r.random()
    if h < 0.6:
      raw = raw_string(r, True, 1)
      if raw == q:
        raw = '\\' + raw if q == '"' or r.random() < 0.7 else '"'
      t += raw
      v += raw if raw != "\\'" else "'"
    elif h < 0.7 and f & BREAKS:
      c = r.choice('\n\r')
      t += c
      v += {'\n': '\\n', '\r': '\\r'}[c]
    elif h < 0.8 and f & SINGLE:
      if q == "'" and r.random() < 0.6:
        t += '"'
        v += '\\"'
      else:
        t += "\\'"
        v += "'"
    elif h < 0.9:
      c = r.choice([' ', ',', ' , ', '\t' if False else ' ', ':', '}'])
      t += c
      v += c
    else:
      t += '\\\\'
      v += '\\\\'
  return q + t + q, ('s', v)


def loose(r, f, depth, path, events):
  """Text; the begin and end events it causes are appended: (kind, path, type or value)."""
  k = r.random()
  if depth <= 0:
    k *= 0.6
  w = lambda: ws(r, True)
  if k < 0.25:
    v = ('n', r.choice(NUMS)) if r.random() < 0.6 else ('l', r.choice(['true', 'false', 'null']))
    events += [('B', path, 3), ('E', path, sem(v), v[1])]
    return v[1]
  if k < 0.32 and f & TOKENS_Q:
    t = r.choice(BAD_TOKENS)
    events += [('B', path, 2), ('E', path, ('s', t), None)]
    return t
  if k < 0.6:
    t, v = loose_string(r, f)
    events += [('B', path, 2), ('E', path, sem(v), t)]
    return t
  n = r.choice([0, 1, 1, 2, 3])
  more = lambda j: ',' if j + 1 < n or (f & REMOVE and r.random() < 0.2) else ''
  at = len(events)
  if k < 0.8:
    events.append(('B', path, 1))
    t, vals = '[' + w(), []
    for j in range(n):
      x = len(events)
      t += w() + loose(r, f, depth - 1, path + '[*]', events) + w() + more(j)
      vals.append(next(e[2] for e in reversed(events[x:]) if e[0] == 'E' and e[1] == path + '[*]'))
    t += w() + ']'
    events.append(('E', path, ('a', vals), t))
    return t
  events.append(('B', path, 0))
  t, kv = '{' + w(), []
  for j in range(n):
    key, name = loose_string(r, f, True)
    sub_events = []
    x = loose(r, f, depth - 1, path + '.' + name, sub_events)
    t += w() + key + w() + ':' + w() + x + w() + more(j)
    kv.append((name, sub_events[-1][2]))
    events += sub_events
  t += w() + '}'
  events.append(('E', path, ('o', kv), t))
  return t


def loose_docs(r, f):
  """(text, events)"""
  t, events = ws(r, True), []
  for _ in range(r.choice([1, 1, 1, 2, 3])):
    t += loose(r, f, r.choice([0, 1, 2, 3, 4]), '$', events) + r.choice([' ', '\n', '\r\n', '  '])
  return (t.rstrip() if r.random() < 0.4 else t), events


def one_value(b):
  v, i = parse_at(b.decode('utf8'), 0)
  if i != len(b.decode('utf8')):
    raise Bad('more after the value')
  return v


def events_of(steps):
  out, status, pieces = [], None, []
  for tag, l in steps:
    tag = chr(tag)
    if tag == 'S':
      status = l
    elif tag == 'C':
      pieces.append((None, l[0]))
    else:
      out.append((tag, l[0].decode('utf8', 'replace'), l[1]))
      if len(l) > 2:
        pieces.append((len(out) - 1, l[2]))
  return out, status, pieces


def check_events(run, r, prog, f, t, events):
  """The parser alone, event by event."""
  a = r.choice([0, 7, 7, 4, 3])
  chunks = split(r, t.encode(), chars=r.random() < 0.5)
  got, status, pieces = events_of(prog(PARSER, chunks, f, a))
  what = f'parser flags={f} consume={a} chunks={chunks!r}\nevents {got!r}\nstatus {status!r}'
  run.expect(status[0] == b'ok', f'the parser refuses what it has to accept: {status[1]!r}', what)
  run.expect([e[:2] for e in got] == [e[:2] for e in events], 'the parser reports other values or paths', f'{what}\nwanted {events!r}')
  ends = {}
  for k, (e, w) in enumerate(zip(got, events)):
    if e[0] == 'B':
      run.expect(int(e[2]) == w[2], 'the parser reports a value of another type', f'{what}\nwanted {w!r}')
      continue
    try:
      v = one_value(e[2])
    except (Bad, UnicodeDecodeError) as x:
      run.fail(f'the parser yields a value that is not JSON: {x}', f'{what}\nvalue {e!r}')
    run.expect(sem(v) == w[2], 'the parser yields another value', f'{what}\nvalue {e!r}\nwanted {w!r}')
    if f & REMOVE:
      run.expect(compact(v).encode() == e[2], 'the parser leaves space around the parts of a value', f'{what}\nvalue {e!r}')
    elif f == STRICT:
      run.expect(w[3] is not None and e[2] == w[3].encode(), 'the parser changes the text of a value', f'{what}\nvalue {e!r}\nwanted {w!r}')
    ends[k] = e[2]
  if a == 7:
    whole = b''.join(p for _, p in pieces)
    if f == STRICT:
      run.expect(whole == t.encode(), 'the consumed pieces do not make up the text', f'{what}\npieces {pieces!r}')
    pos, begins = 0, []
    for k, p in pieces:
      pos += len(p)
      if k is None:
        continue
      if got[k][0] == 'B':
        begins.append(pos)
      else:
        b = begins.pop()
        run.expect(whole[b:pos] == ends[k], 'what is consumed between the begin and the end of a value is not the value', f'{what}\npieces {pieces!r}\nat {k}: {whole[b:pos]!r}, value {ends[k]!r}')
    run.count('consumed')


def plain(events):
  return all(e[0] == 'B' or e[3] is not None for e in events)


def check_broken(run, r, prog, f, t, events):
  """Text that is cut short or has the wrong bracket must not pass."""
  spots, depth, quote, esc = [], 0, None, False
  closers = []
  for i, c in enumerate(t):
    if quote:
      if esc:
        esc = False
      elif c == '\\':
        esc = True
      elif c == quote:
        quote = None
    elif c == '"' or (c == "'" and f & SINGLE):
      quote = c
    elif c in '[{':
      depth += 1
    elif c in ']}':
      depth -= 1
      closers.append(i)
    if depth or quote:
      spots.append(i + 1)
  how = r.random()
  if how < 0.5 and spots:
    b, kind = t[:r.choice(spots)], 'is cut short'
  elif how < 0.9 and closers:
    i = r.choice(closers)
    b, kind = t[:i] + (']' if t[i] == '}' else '}') + t[i + 1:], 'has the wrong bracket'
  else:
    b, kind = t + ' ' + r.choice([']', '}', '"', '[', '{', '{"a"', '{"a":']), 'does not end well'
  if '\\' in b or not plain(events):
    return
  chunks = split(r, b.encode(), chars=True)
  got, status, _ = events_of(prog(PARSER, chunks, f, 0))
  what = f'parser flags={f} chunks={chunks!r}\nevents {got!r}\nstatus {status!r}'
  run.expect(status[0] != b'ok', f'the parser accepts text that {kind}', what)
  out, end, msg = prog.op('filter_json', chunks, s='$.nowhere')
  run.expect(end == 'error', f'filter_json accepts text that {kind}', f'{what} {end} {msg!r}') if f == TOLERANT else None
  run.count('broken')


TOLERANT = REMOVE | SINGLE | UNQUOTED | BREAKS | TOKENS_Q


def safe_cuts(t):
  """Where text can be cut without cutting a bare word."""
  out, quote, esc = [0], None, False
  for i, c in enumerate(t):
    if quote:
      if esc:
        esc = False
      elif c == '\\':
        esc = True
      elif c == quote:
        quote = None
    elif c in '"\'':
      quote = c
    if quote or c in ' \t\r\n[]{},:"\'':
      out.append(i + 1)
  return out


def check_filters(run, r, prog, t, events):
  """filter_json and stream_string_value."""
  paths = sorted({e[1] for e in events})
  path = r.choice(paths) if r.random() < 0.9 else r.choice(['$', '$.a', '$[*]', '$.zz', '$.a[*].b', '', '$.'])
  chunks, gaps = cut_and_gaps(r, t.encode())
  what = f'path={path!r} chunks={chunks!r} missing={gaps}'
  want = [e for e in events if e[0] == 'E' and e[1] == path]
  steps, end, msg = prog.op('filter_json', chunks, s=path, missing=gaps)
  got = [c for v in steps for c in v]
  run.expect(end == 'ok', f'filter_json ends with {end} {msg!r}', what)
  try:
    vals = [one_value(g) for g in got]
  except (Bad, UnicodeDecodeError) as e:
    run.fail(f'filter_json yields what is not JSON: {e}', f'{what}\noutput {got!r}')
  run.expect([sem(v) for v in vals] == [e[2] for e in want], 'filter_json yields other values', f'{what}\noutput {got!r}\nwanted {want!r}')
  run.expect([compact(v).encode() for v in vals] == got, 'filter_json leaves space around the parts of a value', f'{what}\noutput {got!r}')
  run.count('filtered', len(got))
  strings = [e for k, e in enumerate(events) if e[0] == 'E' and e[1] == path and e[2][0] == 's']
  text = strings[0][2][1].encode() if strings else b''
  steps, end, msg = prog.op('stream_string_value', chunks, s=path, missing=gaps)
  got = b''.join(c for v in steps for c in v)
  run.expect(end == 'ok', f'stream_string_value ends with {end} {msg!r}', what)
  run.expect(got == text, 'stream_string_value yields another text', f'{what}\noutput {got!r}\nwanted {text!r}')
  run.count('strings' if strings else 'no_string')
  # Cut short, it may only yield a part of the text, and must say so.
  chunks = split(r, t[:r.choice(safe_cuts(t))].encode())
  steps, end, msg = prog.op('stream_string_value', chunks, s=path)
  part = b''.join(c for v in steps for c in v)
  what = f'path={path!r} chunks={chunks!r}\noutput {part!r} {end} {msg!r}, of the whole {text!r}'
  lone = part.endswith(b'\xef\xbf\xbd')
  run.expect(text.startswith(part) or lone or not plain(events), 'stream_string_value yields what is not the beginning of the text', what)
  if end == 'ok' and strings and plain(events) and not lone and part:
    run.expect(part == text, 'stream_string_value ends well although the text is cut short', what)
  run.count('cut_short')


@prop('J07', level='exploration', min_eval=300, min_distinct=150, shards=6)
def parser(run):
  """Values are found at their paths, as valid compact JSON, whatever the forms."""
  run.rule = 'a case is non-trivial by its text and the forms allowed'
  prog = Prog(run)
  for i in run.cases(20000, 400000):
    r = run.sub(i)
    f = r.choice([TOLERANT, TOLERANT, TOLERANT, STRICT, REMOVE, r.randrange(0, 64, 2)])
    t, events = loose_docs(r, f)
    check_events(run, r, prog, f, t, events)
    check_broken(run, r, prog, f, t, events)
    if f == TOLERANT:
      check_filters(run, r, prog, t, events)
    run.saw((f, t), sample=f'{f} {t[:60]!r}')
  if run.shard == 0:
    for text, f in (("{'a': 1}", TOLERANT ^ SINGLE ^ TOKENS_Q), ("['a']", TOLERANT ^ SINGLE ^ TOKENS_Q), ('{a: 1}', TOLERANT ^ UNQUOTED), ('["a\nb"]', TOLERANT ^ BREAKS), ('["a\rb"]', TOLERANT ^ BREAKS),
                    ('{"a\nb":1}', TOLERANT ^ BREAKS)):
      got = events_of(prog(PARSER, [text.encode()], f, 0))
      run.expect(got[1][0] == b'error', 'the parser accepts a form that is not allowed', f'{text!r} flags={f}\n{got!r}')
  prog.close()


# ------------------------------------------------------------ J08: any schedule
@prop('J08', level='exploration', min_eval=150, min_distinct=50)
def schedules(run):
  """Schedules, cancellation, errors, abandonment: the output is what it has to be, or a beginning of it."""
  native_par.drive(run, 'jsonpar', native_par._S, program=lambda n, m: program(n, m, par=True))
