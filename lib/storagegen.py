"""Generators and oracles for the data-slice manager checks.

`Vanilla` is the oracle: the plain in-memory slice obtained by applying every
update directly, kept per revision. Updates are drawn so that their outcome is
determined by the documentation: one schema per itemid, an attribute keeps its
type unless the update covers every entity of that schema, and no stale copies
are written back after a type changed.
"""
import minikd

kd = minikd.install()
from koladata.ext.storage import data_slice_path as dsp  # noqa: E402

R = minikd.REMOVED
PRIMS = ['INT32', 'INT64', 'FLOAT32', 'FLOAT64', 'STRING', 'BYTES', 'BOOLEAN', 'MASK']
ATTRS = ['a', 'b', 'c', 'name', 'id', 'data', 'x', 'get_attr', 'items', 'class', 'λ', 'Ünï', 'a b', 'a.b', '[:]', '"q"', '0', 'get_keys()', 'x:INT32', ':', 'UPPER', 'a_b', '.', 'lstm[', 'é']
NAMED = ['Doc', 'Tree', 'Person', 'Query']


def path(actions):
  out = []
  for a in actions:
    if a[0] == 'a':
      out.append(dsp.GetAttr(a[1]))
    else:
      out.append({'i': dsp.ListExplode, 'k': dsp.DictGetKeys, 'v': dsp.DictGetValues}[a[0]]())
  return dsp.DataSlicePath.from_actions(out)


ROOT = path(())


def evaluate(ds, actions):
  """The subslice at a path, computed without the code under test."""
  for a in actions:
    if a[0] == 'a':
      ds = ds.get_attr(a[1])
    elif a[0] == 'i':
      ds = ds.explode()
    elif a[0] == 'k':
      ds = ds.get_keys()
    else:
      ds = ds.get_values()
  return ds


def edges(bag, s):
  """Outgoing (action, child schema) of a schema, in the documented order."""
  if not isinstance(s, minikd.ItemId):
    return []
  m = bag._a.get(s, {})
  if '__items__' in m:
    return [(('i',), m['__items__'])]
  if '__keys__' in m:
    return [(('k',), m['__keys__']), (('v',), m['__values__'])]
  return [(('a', n), m[n]) for n in sorted(m) if not n.startswith('__') and m[n] is not R]


def kind_of(bag, s):
  if not isinstance(s, minikd.ItemId):
    return 'prim'
  m = bag._a.get(s, {})
  return 'list' if '__items__' in m else 'dict' if '__keys__' in m else 'entity'


def all_paths(ds, depth, limit=400):
  """(actions, schema) breadth first."""
  out, level = [], [((), ds._s)]
  for d in range(depth + 1):
    nxt = []
    for p, s in level:
      out.append((p, s))
      if len(out) >= limit:
        return out
      if d < depth:
        nxt += [(p + (a,), c) for a, c in edges(ds._b, s)]
    level = nxt
  return out


def reachable(ds):
  """schema id -> ids of the items of that schema reachable from ds."""
  out, seen, todo = {}, set(), [(v, ds._s) for v in ds._v]
  b = ds._b
  while todo:
    v, s = todo.pop()
    if not isinstance(v, minikd.ItemId) or not isinstance(s, minikd.ItemId) or (v, s) in seen:
      continue
    seen.add((v, s))
    out.setdefault(s, []).append(v)
    for a, c in edges(b, s):
      if a[0] == 'a':
        x = b._a.get(v, {}).get(a[1])
        todo.append((x, c))
      elif a[0] == 'i':
        todo += [(x, c) for x in b._l.get(v, ())]
      elif a[0] == 'k':
        todo += [(k, c) for k, x in b._d.get(v, {}).values()]
      else:
        todo += [(x, c) for k, x in b._d.get(v, {}).values()]
  for k in out:
    out[k].sort(key=lambda i: i.n)
  return out


def snap(ds):
  return minikd.snapshot(ds, ids=True)


def facts(ds):
  return set(snap(ds)[1])


def head(ds):
  return snap(ds)[0]


class Gen:
  """Draws updates for a given vanilla slice."""

  def __init__(self, rng, root, attrs=ATTRS, aliases=0.3, allow_none=True, retype=0.4):
    self.rng = rng
    self.attrs = rng.sample(attrs, min(len(attrs), rng.randint(3, 6)))
    if attrs is ATTRS and 'a' not in self.attrs:
      self.attrs.append('a')
    self.aliases = aliases
    self.made = {}  # schema -> items created for the value being drawn
    self.sharing = rng.choice([0, 0.2, 0.5])
    self.allow_none = allow_none
    self.retype = retype
    self.old = []  # earlier states of the slice, for stale copies
    self.root = root
    self.pool = reachable(root)
    S = kd
    tree = S.named_schema('Tree', value=kd.STRING, children=S.list_schema(S.named_schema('Tree')))
    person = S.named_schema('Person', name=kd.STRING, boss=S.named_schema('Person'))
    doc = S.named_schema('Doc', id=kd.INT32, title=kd.STRING, author=person, tags=S.list_schema(kd.STRING))
    query = S.named_schema('Query', docs=S.list_schema(doc), by=S.dict_schema(kd.STRING, doc))
    self.named = [tree, person, doc, query]
    if rng.random() < 0.3:
      # Schema metadata travels along with a schema.
      self.named[1] = kd.with_metadata(person, proto='my.Person', version=3)

  def sync(self, root, types_changed):
    self.old = [] if types_changed else (self.old + [self.root])[-3:]
    self.root = root
    self.pool = reachable(root)

  # schemas
  def schema(self, depth=0):
    rng = self.rng
    r = rng.random()
    if depth >= 2 or r < 0.35:
      return getattr(kd, rng.choice(PRIMS))
    if r < 0.55:
      return rng.choice(self.named)
    if r < 0.62 and self.pool:
      s = rng.choice(sorted(self.pool, key=lambda i: i.n))
      return minikd._item(s, minikd.C_SCHEMA, self.root._b)
    if r < 0.78:
      return kd.list_schema(self.schema(depth + 1))
    if r < 0.88:
      k = getattr(kd, rng.choice(['STRING', 'INT32'])) if rng.random() < 0.8 else rng.choice(self.named)
      return kd.dict_schema(k, self.schema(depth + 1))
    if r < 0.91:
      return kd.ITEMID
    if r < 0.93 and self.allow_none:
      return kd.NONE
    return minikd.new_schema(**{n: self.schema(depth + 1) for n in rng.sample(['p', 'q', 'é é'], rng.randint(0, 2))})

  # items
  def prim(self, name):
    rng = self.rng
    if name in ('INT32', 'INT64'):
      return kd.item(rng.choice([0, 1, -1, 7, 2**31 - 1, rng.randrange(1000)]), getattr(kd, name))
    if name in ('FLOAT32', 'FLOAT64'):
      return kd.item(rng.choice([0.0, 0.5, -2.25, 1e10]), getattr(kd, name))
    if name == 'STRING':
      return kd.item(rng.choice(['', 'x', 'δ', 'long ' * 9, 's%d' % rng.randrange(99)]), kd.STRING)
    if name == 'BYTES':
      return kd.item(rng.choice([b'', b'\0', b'\xff\xfe']), kd.BYTES)
    if name == 'BOOLEAN':
      return kd.item(rng.random() < 0.5, kd.BOOLEAN)
    if name == 'MASK':
      return kd.present
    if name == 'ITEMID':
      ids = [i for v in self.pool.values() for i in v]
      return minikd._item(rng.choice(ids), minikd.C_ITEMID) if ids and rng.random() < 0.5 else kd.new_itemid()
    return kd.item(None, getattr(kd, name))

  def item(self, schema, depth=0, missing=0.12):
    """A DataItem of the given schema."""
    rng = self.rng
    s, b = schema._v[0], schema._b
    if isinstance(s, minikd.SchemaConst):
      if rng.random() < missing:
        return kd.item(None, schema)
      return self.prim(s.name)
    k = kind_of(b, s)
    have = self.pool.get(s)
    if have and rng.random() < self.aliases * (1 if depth else 0.6):
      i = rng.choice(have)
      r = rng.random()
      src = self.root
      if r < 0.3 and self.old:
        src = rng.choice(self.old)
        if i not in (reachable(src).get(s) or ()):
          src = self.root
      it = minikd._item(i, s, src._b)
      return it.stub() if r > 0.7 else it.extract()
    if rng.random() < missing:
      return minikd._item(None, s, minikd._extract_bag(schema))
    # The same new item in several places of one value.
    made = self.made.get(s)
    if made and rng.random() < self.sharing:
      return rng.choice(made)
    it = self._new_item(schema, s, b, k, depth)
    self.made.setdefault(s, []).append(it)
    return it

  def _new_item(self, schema, s, b, k, depth):
    rng = self.rng
    if k == 'list':
      n = rng.choice([0, 1, 2, 3]) if depth < 3 else 0
      return kd.list([self.item(schema.get_item_schema(), depth + 1) for _ in range(n)], item_schema=schema.get_item_schema())
    if k == 'dict':
      n = rng.choice([0, 1, 2]) if depth < 3 else 0
      ks = [self.item(schema.get_key_schema(), depth + 1, missing=0) for _ in range(n)]
      vs = [self.item(schema.get_value_schema(), depth + 1) for _ in range(n)]
      uniq = {}
      for a, c in zip(ks, vs):
        uniq.setdefault(minikd._key(a._v[0]), (a, c))
      ks, vs = [a for a, _ in uniq.values()], [c for _, c in uniq.values()]
      if not ks:
        return kd.dict(key_schema=schema.get_key_schema(), value_schema=schema.get_value_schema())
      return kd.dict(kd.slice(ks), kd.slice(vs), key_schema=schema.get_key_schema(), value_schema=schema.get_value_schema())
    kw = {}
    for a, c in edges(b, s):
      if rng.random() < (0.75 if depth < 3 else 0.2) and (depth < 4 or not isinstance(c, minikd.ItemId)):
        kw[a[1]] = self.item(minikd._item(c, minikd.C_SCHEMA, b), depth + 1)
    return minikd.new(schema=minikd._item(s, minikd.C_SCHEMA, minikd._extract_bag(schema)), **kw)

  def value_for(self, target, schema):
    """A value for the attribute of `target`: one item for all, or one per entity."""
    rng = self.rng
    self.made = {}
    if not target._shape or rng.random() < 0.35:
      return self.item(schema)
    per = {}
    missing = kd.item(None, schema) if isinstance(schema._v[0], minikd.SchemaConst) else minikd._item(None, schema._v[0], minikd._extract_bag(schema))
    items = []
    for v in target._v:
      if v is None:
        items.append(missing)
      else:
        if v not in per:
          per[v] = self.item(schema, 1)
        items.append(per[v])
    if not items:
      return missing
    flat = kd.slice(items)
    return flat.reshape(target.get_shape())

  def update(self, depth=4):
    """(actions, attr name, value, types_changed)"""
    rng = self.rng
    ents = [(p, s) for p, s in all_paths(self.root, depth) if kind_of(self.root._b, s) == 'entity']
    p, s = rng.choice(ents) if rng.random() < 0.75 else ents[0]
    target = evaluate(self.root, p)
    m = self.root._b._a.get(s, {})
    name = rng.choice(self.attrs) if rng.random() < 0.7 else rng.choice([n for n in m if not n.startswith('__')] or self.attrs)
    cur = m.get(name)
    changed = False
    if cur is not None and cur is not R:
      covers = set(self.pool.get(s, ())) <= {v for v in target._v if v is not None}
      if covers and rng.random() < self.retype:
        schema = self.schema()
        if schema._v[0] != cur:
          # A schema that carries another version of this one would undo itself.
          if self._mentions(schema, s):
            schema = kd.INT32
          changed = schema._v[0] != cur
      else:
        schema = minikd._item(cur, minikd.C_SCHEMA, self.root._b)
    else:
      schema = self.schema()
    if self._conflicts(schema, s, name):
      schema = kd.STRING if cur is None or cur is R else minikd._item(cur, minikd.C_SCHEMA, self.root._b)
      changed = False
    if changed and (kind_of(self.root._b, cur) != 'prim' or True):
      saved = self.aliases
      self.aliases = 0
      v = self.value_for(target, schema)
      self.aliases = saved
    else:
      v = self.value_for(target, schema)
    # Whatever the value says about existing schemas must agree with them.
    if self._redefines(v, s, name):
      v = kd.item(rng.randrange(9), kd.INT32)
      if cur is not None and cur is not R and cur is not minikd.C_INT32:
        return self.update(depth)
      changed = False
    return p, name, v, changed

  def _mentions(self, schema, s):
    return schema._b is not None and s in minikd._extract_bag(schema)._a

  def _conflicts(self, schema, s, name):
    """The value's own version of schema s defines `name` differently."""
    if schema._b is None:
      return False
    x = schema._b._a.get(s, {}).get(name)
    return x is not None and x is not R and x != schema._v[0] and self._mentions(schema, s)

  def _redefines(self, v, at, name):
    if v._b is None:
      return False
    for s, m in v._b._a.items():
      if s.kind != 's':
        continue
      have = self.root._b._a.get(s, {})
      for n, x in m.items():
        if n.startswith('__') or x is R:
          continue
        if s == at and n == name:
          if x != v._s:
            return True
          continue
        if n in have and have[n] is not R and have[n] != x:
          return True
    return False


def apply(root, actions, name, value, detached=False):
  """The documented meaning of an update, on the whole slice in memory.

  Only what gets attached to some entity counts: where the path has no entity at
  all, the value contributes its schema and nothing else (`detached`: it
  contributes its data, too, as plain bag updates do).
  """
  target = evaluate(root, actions)
  if value._b is not None:
    if not detached and all(v is None for v in target._v):
      value = minikd._mk([None] * len(value._v), value._shape, value._s, value._b)
    value = value.extract()
  return root.updated(minikd.attrs(target, True, **{name: value}))
