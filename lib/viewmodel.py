"""Reference model of jagged views: flat items plus per-dimension sizes.

Written independently of the nested-tuple recursion used by the code: a view is
(sizes, items) where sizes[d] lists, for each element at level d, how many
children it has.
"""


class Err(Exception):
  """The specification says this call must be refused."""


class V:

  def __init__(self, sizes, items):
    self.sizes = [list(s) for s in sizes]
    self.items = list(items)

  @property
  def depth(self):
    return len(self.sizes)

  def __repr__(self):
    return f'V{self.sizes}{self.items!r}'


def from_nested(obj, depth):
  level = [obj]
  sizes = []
  for _ in range(depth):
    sizes.append([len(x) for x in level])
    level = [y for x in level for y in x]
  return V(sizes, level)


def to_nested(v):
  level = list(v.items)
  for s in reversed(v.sizes):
    out, i = [], 0
    for n in s:
      out.append(tuple(level[i:i + n]))
      i += n
    level = out
  return level[0]


def scalar(x):
  return V([], [x])


def broadcast(v, sizes):
  """Repeats the items of v along the extra dimensions of `sizes`."""
  if v.sizes != sizes[: v.depth]:
    raise Err('shape mismatch')
  items = v.items
  for s in sizes[v.depth:]:
    items = [x for x, n in zip(items, s) for _ in range(n)]
  return items


def common(args):
  ref = max(args, key=lambda a: a.depth)
  return ref.sizes


def map_n(f, args, include_missing=False):
  sizes = common(args)
  cols = [broadcast(a, sizes) for a in args]
  out = []
  for row in zip(*cols):
    if not include_missing and any(x is None for x in row):
      out.append(None)
    else:
      out.append(f(*row))
  return V(sizes, out)


def explode(v, n=1):
  if n < 0:
    raise Err()
  for _ in range(n):
    kids = [() if x is None else tuple(x) for x in v.items]
    v = V(v.sizes + [[len(k) for k in kids]], [y for k in kids for y in k])
  return v


def implode(v, n=1):
  if n < 0:
    n = v.depth
  if n > v.depth:
    raise Err()
  for _ in range(n):
    s, out, i = v.sizes[-1], [], 0
    for k in s:
      out.append(tuple(v.items[i:i + k]))
      i += k
    v = V(v.sizes[:-1], out)
  return v


def flatten(v, a=0, b=None):
  d = v.depth
  if a < 0:
    a = max(0, a + d)
  a = min(a, d)
  if b is None:
    b = d
  elif b < 0:
    b = max(0, b + d)
  b = max(a, min(b, d))
  if a == b:
    count = 1 if a == 0 else sum(v.sizes[a - 1])
    return V(v.sizes[:a] + [[1] * count] + v.sizes[a:], v.items)
  # merge dims a..b-1: children counts multiply through
  cur = v.sizes[a]
  for s in v.sizes[a + 1:b]:
    out, i = [], 0
    for k in cur:
      out.append(sum(s[i:i + k]))
      i += k
    cur = out
  return V(v.sizes[:a] + [cur] + v.sizes[b:], v.items)


def expand_to(v, other, ndim=0):
  if ndim < 0:
    raise Err()
  w = implode(v, ndim) if ndim else v
  if w.depth > other.depth:
    raise Err()
  res = V(other.sizes, broadcast(w, other.sizes))
  return explode(res, ndim) if ndim else res


def group_by(v, keys, sort):
  if not v.depth:
    raise Err()
  for k in keys:
    if k.sizes != v.sizes:
      raise Err()
  kk = keys or [v]
  outer, inner, items = [], [], []
  i = 0
  for n in v.sizes[-1]:
    order, groups = [], {}
    for j in range(i, i + n):
      key = tuple(k.items[j] for k in kk)
      if any(x is None for x in key):
        continue
      if key not in groups:
        groups[key] = []
        order.append(key)
      groups[key].append(v.items[j])
    if sort:
      order = sorted(order)
    outer.append(len(order))
    for key in order:
      inner.append(len(groups[key]))
      items.extend(groups[key])
    i += n
  return V(v.sizes[:-1] + [outer, inner], items)


def collapse(v, ndim):
  if ndim < 0 or ndim > v.depth:
    raise Err()
  w = implode(flatten(v, v.depth - ndim), 1)
  out = []
  for t in w.items:
    vals = [x for x in t if x is not None]
    out.append(vals[0] if vals and all(x == vals[0] for x in vals) else None)
  return V(w.sizes, out)


def keep(v, level, mask):
  """Removes elements at `level` (1-based depth of the mask) not in mask."""
  sizes = [list(s) for s in v.sizes]
  # children counts of level-1 parents
  out, i = [], 0
  for n in sizes[level - 1]:
    out.append(sum(1 for j in range(i, i + n) if mask[j]))
    i += n
  new = sizes[: level - 1] + [out]
  alive = list(mask)
  for d in range(level, len(sizes)):
    new.append([n for n, a in zip(sizes[d], alive) if a])
    alive = [a for n, a in zip(sizes[d], alive) for _ in range(n)]
  return V(new, [x for x, a in zip(v.items, alive) if a])


def select(v, f, expand, present):
  if f.depth > v.depth:
    raise Err()
  lvl = v.depth if expand else f.depth
  if lvl < 1:
    raise Err()
  if f.sizes != v.sizes[: f.depth]:
    raise Err()
  if any(x is not None and x is not present for x in f.items):
    raise Err()
  mask = [x is present for x in broadcast(f, v.sizes[:lvl])]
  return keep(v, lvl, mask)


def inverse_select(v, f, present):
  if f.depth != v.depth or not v.depth:
    raise Err()
  if f.sizes[:-1] != v.sizes[:-1]:
    raise Err()
  if any(x is not None and x is not present for x in f.items):
    raise Err()
  out, i, j = [], 0, 0
  for nf, nv in zip(f.sizes[-1], v.sizes[-1]):
    row = f.items[j:j + nf]
    if sum(x is present for x in row) != nv:
      raise Err()
    it = iter(v.items[i:i + nv])
    out.extend(next(it) if x is present else None for x in row)
    i += nv
    j += nf
  return V(f.sizes, out)
