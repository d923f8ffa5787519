"""A small executable model of the Koda data model, written for the storage checks.

The storage library (py/koladata/ext/storage) is pure Python on top of the `kd`
API, whose implementation is C++ on Arolla and cannot be built here. This module
implements the parts of `kd` the library uses - slices, bags with removed values,
updates and fallbacks, structured schemas, extraction - directly from Koda's
documented semantics, so the library's real code can run under monitors.

A bag is three maps: attributes (of entities and of schemas), list items, dict
entries. A removed attribute is REMOVED, which differs from "nothing known".
Anything the library asks for that is not modelled raises MissingFake, which the
runner reports as "no answer" and never as a violation.
"""
import base64
import binascii
import contextlib
import hashlib
import io
import itertools
import pickle
import struct
import sys
import threading
import types as pytypes
import zlib


class MissingFake(NotImplementedError):
  """The code under test used a part of `kd` that this model does not have."""


# ---------------------------------------------------------------- values


class SchemaConst:
  __slots__ = ('name',)

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return self.name

  def __reduce__(self):
    return (_schema_const, (self.name,))


_CONSTS = {}


def _schema_const(name):
  c = _CONSTS.get(name)
  if c is None:
    c = _CONSTS[name] = SchemaConst(name)
  return c


(C_INT32, C_INT64, C_FLOAT32, C_FLOAT64, C_STRING, C_BYTES, C_BOOLEAN, C_MASK,
 C_EXPR, C_ITEMID, C_SCHEMA, C_OBJECT, C_NONE) = [
     _schema_const(n) for n in (
         'INT32', 'INT64', 'FLOAT32', 'FLOAT64', 'STRING', 'BYTES', 'BOOLEAN',
         'MASK', 'EXPR', 'ITEMID', 'SCHEMA', 'OBJECT', 'NONE')
 ]
_PRIMITIVES = {C_INT32, C_INT64, C_FLOAT32, C_FLOAT64, C_STRING, C_BYTES, C_BOOLEAN, C_MASK, C_EXPR}
_NUMERIC_ORDER = [C_INT32, C_INT64, C_FLOAT32, C_FLOAT64]


class _Present:

  def __repr__(self):
    return 'present'

  def __reduce__(self):
    return (_get_present, ())


PRESENT = _Present()


def _get_present():
  return PRESENT


class _Removed:

  def __repr__(self):
    return 'removed'

  def __reduce__(self):
    return (_get_removed, ())


REMOVED = _Removed()


def _get_removed():
  return REMOVED


class Expr:

  def __init__(self, text):
    self.text = text

  def __eq__(self, o):
    return isinstance(o, Expr) and o.text == self.text

  def __hash__(self):
    return hash(self.text)

  def __add__(self, o):
    return Expr(f'({self.text} + {o.text})')

  def __repr__(self):
    return f'Expr({self.text})'


_B62 = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
_KIND_BITS = {'e': 1, 'l': 2, 'd': 3, 's': 4}


_ENC = {}


class ItemId:
  """A 128-bit identifier; the kind is e(ntity), l(ist), d(ict) or s(chema)."""
  __slots__ = ('kind', 'n')

  def __init__(self, kind, n):
    self.kind = kind
    self.n = n

  def __eq__(self, o):
    return isinstance(o, ItemId) and o.n == self.n

  def __hash__(self):
    return hash(self.n)

  def __lt__(self, o):
    return self.n < o.n

  def __reduce__(self):
    return (ItemId, (self.kind, self.n))

  def encode(self):
    e = _ENC.get(self.n)
    if e is not None:
      return e
    n, out = self.n, []
    for _ in range(22):
      n, r = divmod(n, 62)
      out.append(_B62[r])
    if len(_ENC) > 20000:
      _ENC.clear()
    e = _ENC[self.n] = ''.join(reversed(out))
    return e

  def __repr__(self):
    return f'${self.kind}{self.encode()[-5:]}'


_counter = itertools.count(1)
_salt = [0]


def seed_ids(seed):
  """Makes the ids allocated from here on a function of `seed`."""
  global _counter
  _counter = itertools.count(1)
  _salt[0] = seed


def _new_id(kind):
  i = next(_counter)
  h = hashlib.blake2b(f'{_salt[0]}/{i}'.encode(), digest_size=15).digest()
  return ItemId(kind, (_KIND_BITS[kind] << 120) | int.from_bytes(h, 'big'))


def _uu_id(kind, *key):
  h = hashlib.blake2b(repr(key).encode(), digest_size=15).digest()
  return ItemId(kind, ((_KIND_BITS[kind] | 8) << 120) | int.from_bytes(h, 'big'))


def _key(v):
  """A hashable, type-distinguishing key for a raw value."""
  if isinstance(v, bool):
    return ('b', v)
  if isinstance(v, int):
    return ('i', v)
  if isinstance(v, float):
    return ('f', struct.pack('<d', v))
  if isinstance(v, str):
    return ('s', v)
  if isinstance(v, bytes):
    return ('y', v)
  if isinstance(v, ItemId):
    return ('o', v.n)
  if isinstance(v, SchemaConst):
    return ('c', v.name)
  if v is None:
    return ('n',)
  return (type(v).__name__, repr(v))


def _order(v):
  k = _key(v)
  return (k[0], k[1:])


# ---------------------------------------------------------------- bags


class DataBag:
  """attrs {ItemId: {name: raw|REMOVED}}, lists {ItemId: tuple}, dicts {ItemId: {key: (raw key, raw)}}."""

  def __init__(self, attrs=None, lists=None, dicts=None):
    self._a = attrs if attrs is not None else {}
    self._l = lists if lists is not None else {}
    self._d = dicts if dicts is not None else {}

  # -- construction helpers (a bag is never changed once handed out)
  def _set(self, i, name, v):
    self._a.setdefault(i, {})[name] = v

  def _copy(self):
    return DataBag(
        {k: dict(v) for k, v in self._a.items()}, dict(self._l),
        {k: dict(v) for k, v in self._d.items()})

  def _overlay(self, other):
    """Adds `other` in place; other wins."""
    for i, m in other._a.items():
      self._a.setdefault(i, {}).update(m)
    self._l.update(other._l)
    for i, m in other._d.items():
      self._d.setdefault(i, {}).update(m)
    return self

  # -- reads
  def _attr(self, i, name):
    return self._a.get(i, {}).get(name)

  def _dict(self, i):
    return [(k, v) for _, (k, v) in sorted(self._d.get(i, {}).items(), key=lambda kv: (kv[0][0], kv[0][1:]))]

  def _keys(self):
    """Every fact the bag states (for monitors)."""
    out = {('a', i, n): v for i, m in self._a.items() for n, v in m.items()}
    out.update({('l', i): v for i, v in self._l.items()})
    out.update({('d', i, k): v for i, m in self._d.items() for k, v in m.items()})
    return out

  # -- public API
  def merge_fallbacks(self):
    return self

  def freeze(self):
    return self

  def is_mutable(self):
    return False

  def get_approx_byte_size(self):
    return 64 + 48 * sum(map(len, self._a.values())) + 32 * sum(map(len, self._l.values())) + 64 * sum(
        map(len, self._d.values()))

  def __lshift__(self, o):
    return bags_updated(self, o)

  def __rshift__(self, o):
    return bags_enriched(self, o)

  def __repr__(self):
    return f'DataBag({len(self._a)} objects, {len(self._l)} lists, {len(self._d)} dicts)'

  def __eq__(self, o):
    return isinstance(o, DataBag) and self is o

  __hash__ = object.__hash__

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise MissingFake(f'DataBag.{name}')


def bags_updated(*bags):
  out = DataBag()
  for b in bags:
    if b is None:
      continue
    out._overlay(_as_bag(b))
  return out


def bags_enriched(*bags):
  return bags_updated(*reversed(bags))


def _as_bag(b):
  if not isinstance(b, DataBag):
    raise ValueError(f'expected a DataBag, got {type(b).__name__}')
  return b


class MutableBag:
  """kd.mutable_bag(): only dict() on it is modelled."""

  def dict(self, items_or_keys=None, values=None, *, key_schema=None, value_schema=None, schema=None):
    if items_or_keys is not None or values is not None or schema is not None:
      raise MissingFake('mutable_bag().dict(items)')
    return MutableDict(_schema_raw(key_schema) or C_OBJECT, _schema_raw(value_schema) or C_OBJECT)

  def __getattr__(self, name):
    raise MissingFake(f'mutable bag .{name}')


class MutableDict:

  def __init__(self, ks, vs):
    self._ks, self._vs, self._m = ks, vs, {}

  def __getitem__(self, k):
    k = _to_ds(k)
    return _mk([None if x is None else self._m.get(_key(x)) for x in k._v], k._shape, self._vs, None)

  def __setitem__(self, k, v):
    k = _to_ds(k)
    v = _broadcast(_to_ds(v), k._shape)
    for x, y in zip(k._v, v._v):
      if x is not None:
        if y is None:
          self._m.pop(_key(x), None)
        else:
          self._m[_key(x)] = y

  def __contains__(self, k):
    k = _to_ds(k)
    return _key(k._v[0]) in self._m

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise MissingFake(f'mutable dict .{name}')


# ---------------------------------------------------------------- shapes

# A shape is a tuple of tuples of sizes: () for an item, ((2,), (3, 1)) for a
# 2-dimensional slice with rows of 3 and 1.


class JaggedShape:

  def __init__(self, dims):
    self._dims = dims

  def rank(self):
    return len(self._dims)

  def __eq__(self, o):
    return isinstance(o, JaggedShape) and o._dims == self._dims

  def __hash__(self):
    return hash(self._dims)

  def __repr__(self):
    return f'JaggedShape{self._dims}'

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise MissingFake(f'JaggedShape.{name}')


def _size(dims):
  return 1 if not dims else sum(dims[-1])


def _is_prefix(a, b):
  return b[:len(a)] == a


def _group_sizes(frm, to):
  """How many elements of shape `to` each element of shape `frm` covers."""
  n = [1] * _size(to)
  for d in range(len(to) - 1, len(frm) - 1, -1):
    out, pos = [], 0
    for s in to[d]:
      out.append(sum(n[pos:pos + s]))
      pos += s
    n = out
  return n


def _broadcast(ds, dims):
  if ds._shape == dims:
    return ds
  if not _is_prefix(ds._shape, dims):
    raise ValueError(f'shapes are not compatible: {ds._shape} vs {dims}')
  out = []
  for v, n in zip(ds._v, _group_sizes(ds._shape, dims)):
    out.extend([v] * n)
  return _mk(out, dims, ds._s, ds._b)


def _align(a, b):
  if len(a._shape) >= len(b._shape):
    return a, _broadcast(b, a._shape)
  return _broadcast(a, b._shape), b


# ---------------------------------------------------------------- slices


class KodaAttrError(ValueError, AttributeError):
  pass


class KodaError(ValueError):
  pass


def _mk(values, dims, schema, bag):
  values = tuple(values)
  assert len(values) == _size(dims), (len(values), dims)
  if not dims:
    if schema is C_SCHEMA:
      cls = SchemaItem
    elif isinstance(schema, ItemId) and bag is not None and bag._attr(schema, '__items__') is not None:
      cls = ListItem
    elif isinstance(schema, ItemId) and bag is not None and bag._attr(schema, '__keys__') is not None:
      cls = DictItem
    else:
      cls = DataItem
  else:
    cls = DataSlice
  d = object.__new__(cls)
  d._v, d._shape, d._s, d._b = values, dims, schema, bag
  return d


def _item(v, schema, bag=None):
  return _mk([v], (), schema, bag)


_RESERVED = frozenset(('L', 'S'))


class DataSlice:
  """A jagged slice of raw values with one schema and an optional bag."""

  # -- attribute access by dot
  def __getattr__(self, name):
    if name.startswith('_') or name in _RESERVED:
      raise AttributeError(name)
    if name in _UNMODELLED_METHODS:
      raise MissingFake(f'DataSlice.{name}')
    return self.get_attr(name)

  # -- basics
  def get_schema(self):
    return _item(self._s, C_SCHEMA, self._b)

  def get_bag(self):
    return self._b

  def has_bag(self):
    return _mask_item(self._b is not None)

  def no_bag(self):
    return _mk(self._v, self._shape, self._s, None)

  def with_bag(self, bag):
    if bag is not None and not isinstance(bag, DataBag):
      raise MissingFake('with_bag(mutable)')
    return _mk(self._v, self._shape, self._s, bag)

  def freeze_bag(self):
    return self

  freeze = freeze_bag

  def is_mutable(self):
    return False

  def with_schema(self, schema):
    s = _to_ds(schema)
    return _mk(self._v, self._shape, s._v[0],
               s._b if self._b is None else self._b if s._b is None else bags_updated(self._b, _extract_bag(s)))

  set_schema = with_schema

  def with_merged_bag(self, *bags):
    return self.enriched(*bags)

  def get_shape(self):
    return JaggedShape(self._shape)

  def get_ndim(self):
    return _item(len(self._shape), C_INT64)

  def get_size(self):
    return _item(len(self._v), C_INT64)


  def get_present_count(self):
    return _item(sum(v is not None for v in self._v), C_INT64)

  def is_empty(self):
    return all(v is None for v in self._v)

  def flatten(self, from_dim=0, to_dim=None):
    if from_dim or to_dim is not None:
      raise MissingFake('flatten(from_dim, to_dim)')
    return _mk(self._v, ((len(self._v),),), self._s, self._b)

  def reshape(self, shape):
    if not isinstance(shape, JaggedShape) or _size(shape._dims) != len(self._v):
      raise ValueError('reshape: sizes do not match')
    return _mk(self._v, shape._dims, self._s, self._b)

  def expand_to(self, target, ndim=0):
    if ndim:
      raise MissingFake('expand_to(ndim)')
    return _broadcast(self, _to_ds(target)._shape)

  def repeat(self, sizes):
    sizes = _broadcast(_to_ds(sizes), self._shape)
    out, ns = [], []
    for v, n in zip(self._v, sizes._v):
      out.extend([v] * n)
      ns.append(n)
    return _mk(out, self._shape + (tuple(ns),), self._s, self._b)

  def __len__(self):
    if not self._shape:
      raise TypeError('DataItem has no len()')
    return self._shape[0][0]

  def _first_dim(self):
    if not self._shape:
      raise ValueError('a DataItem has no dimension to list')
    rest = self._shape[1:]
    n = self._shape[0][0]
    if not rest:
      return [_mk([v], (), self._s, self._b) for v in self._v]
    out, offs = [], [0] * len(rest)
    voff = 0
    for i in range(n):
      dims, cnt = [], 1
      for d, sizes in enumerate(rest):
        part = sizes[offs[d]:offs[d] + cnt]
        offs[d] += cnt
        dims.append(tuple(part))
        cnt = sum(part)
      out.append(_mk(self._v[voff:voff + cnt], tuple(dims), self._s, self._b))
      voff += cnt
    return out

  L = property(lambda self: self._first_dim())
  S = property(lambda self: _Sub(self))

  # -- schemas
  def is_struct_schema(self):
    return _all_mask(self, lambda v: isinstance(v, ItemId))

  def is_list_schema(self):
    return _all_mask(self, lambda v: isinstance(v, ItemId) and self._b is not None and
                     self._b._attr(v, '__items__') is not None)

  def is_dict_schema(self):
    return _all_mask(self, lambda v: isinstance(v, ItemId) and self._b is not None and self._b._attr(
        v, '__keys__') is not None and self._b._attr(v, '__values__') is not None)

  def is_entity_schema(self):
    return _all_mask(self, lambda v: isinstance(v, ItemId) and v.kind == 's' and not any(
        self._b is not None and self._b._attr(v, a) is not None for a in ('__items__', '__keys__', '__values__')))

  def is_primitive_schema(self):
    return _all_mask(self, lambda v: v in _PRIMITIVES)

  def is_primitive(self):
    s = self._s
    if s in _PRIMITIVES:
      return PRESENT_ITEM
    if s is C_OBJECT or s is C_NONE:
      return _mask_item(all(v is None or not isinstance(v, (ItemId, SchemaConst)) for v in self._v) and
                        not self.is_empty())
    return MISSING_ITEM

  def is_list(self):
    return _mask_item(self.get_schema().is_list_schema()) if not isinstance(self._s, SchemaConst) else MISSING_ITEM

  def is_dict(self):
    return _mask_item(self.get_schema().is_dict_schema()) if not isinstance(self._s, SchemaConst) else MISSING_ITEM

  def is_entity(self):
    return _mask_item(self.get_schema().is_entity_schema()) if not isinstance(self._s, SchemaConst) else MISSING_ITEM

  def get_item_schema(self):
    return self.get_attr('__items__')

  def get_key_schema(self):
    return self.get_attr('__keys__')

  def get_value_schema(self):
    return self.get_attr('__values__')

  def get_obj_schema(self):
    return self.get_attr('__schema__')

  def get_itemid(self):
    if self._s in _PRIMITIVES or (self._s is C_SCHEMA and any(isinstance(v, SchemaConst) for v in self._v)) or any(
        v is not None and not isinstance(v, ItemId) for v in self._v):
      raise ValueError(f'{self!r} has no itemid')
    return _mk(self._v, self._shape, C_ITEMID, None)

  def has_attr(self, name):
    return has_attr(self, name)

  def get_attr_names(self, *, intersection=False):
    return dir_(self)

  def get_attr(self, name, default=_get_removed):  # pylint: disable=unused-argument
    name = _pystr(name)
    no_default = default is _get_removed
    s, b = self._s, self._b
    if s in _PRIMITIVES or s is C_ITEMID:
      raise KodaAttrError(f"cannot get attribute '{name}' of {s}")
    if b is None:
      raise KodaAttrError(f"cannot get attribute '{name}': no bag")
    if s is C_SCHEMA:
      out = []
      for v in self._v:
        if v is None:
          out.append(None)
          continue
        if isinstance(v, SchemaConst):
          raise KodaAttrError(f"cannot get attribute '{name}' of primitive schema {v}")
        x = b._attr(v, name)
        if x is None or x is REMOVED:
          if not no_default:
            out.append(None)
            continue
          raise KodaAttrError(f"the attribute '{name}' is missing on the schema {v}")
        out.append(x)
      if name == '__schema_name__':
        return _mk(out, self._shape, C_STRING, None)
      if name == '__schema_metadata__':
        return _mk(out, self._shape, C_OBJECT, b)
      return _mk(out, self._shape, C_SCHEMA, b)
    if s is C_OBJECT:
      schemas, out = [], []
      for v in self._v:
        if v is None:
          out.append(None)
          continue
        if not isinstance(v, ItemId):
          raise KodaAttrError('primitives do not have attributes')
        os = b._attr(v, '__schema__')
        if name == '__schema__':
          out.append(os)
          continue
        fs = os is not None and b._attr(os, name)
        if not fs or fs is REMOVED:
          if not no_default:
            out.append(None)
            continue
          raise KodaAttrError(f"the attribute '{name}' is missing")
        schemas.append(fs)
        x = b._attr(v, name)
        out.append(None if x is REMOVED else x)
      if name == '__schema__':
        return _mk(out, self._shape, C_SCHEMA, b)
      return _mk(out, self._shape, _common_schema(schemas), b)
    if s is C_NONE:
      return _mk([None] * len(self._v), self._shape, C_NONE, b)
    fs = b._attr(s, name)
    if fs is None or fs is REMOVED:
      if not no_default:
        d = _broadcast(_to_ds(default), self._shape)
        return _mk(d._v, self._shape, d._s, _merge_bags(b, d._b))
      raise KodaAttrError(f"the attribute '{name}' is missing on schema {s}")
    out = []
    for v in self._v:
      x = None if v is None else b._attr(v, name)
      out.append(None if x is REMOVED else x)
    res = _mk(out, self._shape, fs, b)
    if not no_default:
      d = _broadcast(_to_ds(default), self._shape)
      res = _mk([x if x is not None else y for x, y in zip(res._v, d._v)], self._shape,
                fs if fs is not C_NONE else d._s, _merge_bags(b, d._b))
    return res

  def maybe(self, name):
    return maybe(self, name)

  # -- lists and dicts
  def explode(self, ndim=1):
    if ndim != 1:
      if ndim == 0:
        return self
      if ndim < 0:
        r = self
        while r.get_schema().is_list_schema():
          r = r.explode()
        return r
      return self.explode().explode(ndim - 1)
    b, s = self._b, self._s
    if b is None or isinstance(s, SchemaConst) or b._attr(s, '__items__') is None:
      raise ValueError(f'can only explode lists; {self!r} is not a LIST')
    out, sizes = [], []
    for v in self._v:
      items = () if v is None else b._l.get(v, ())
      out.extend(items)
      sizes.append(len(items))
    return _mk(out, self._shape + (tuple(sizes),), b._attr(s, '__items__'), b)

  def _kv(self, need='__keys__'):
    b, s = self._b, self._s
    if b is None or isinstance(s, SchemaConst) or b._attr(s, need) is None:
      raise ValueError(f'{self!r} is not a DICT')
    keys, values, sizes = [], [], []
    for v in self._v:
      kv = [] if v is None else b._dict(v)
      keys.extend(k for k, _ in kv)
      values.extend(x for _, x in kv)
      sizes.append(len(kv))
    return keys, values, self._shape + (tuple(sizes),)

  def get_keys(self):
    keys, _, dims = self._kv()
    return _mk(keys, dims, self._b._attr(self._s, '__keys__'), self._b)

  def get_values(self, key_ds=None):
    if key_ds is not None:
      return self[key_ds]
    _, values, dims = self._kv('__values__')
    return _mk(values, dims, self._b._attr(self._s, '__values__'), self._b)

  def list_size(self):
    return lists_size(self)

  def dict_size(self):
    keys, _, dims = self._kv()
    return _mk(dims[-1], self._shape, C_INT64, None)

  def __getitem__(self, k):
    if isinstance(k, slice):
      if k != slice(None):
        b, s = self._b, self._s
        if k.step is not None or b is None or isinstance(s, SchemaConst) or b._attr(s, '__items__') is None:
          raise MissingFake('list slicing')
        out, sizes = [], []
        for v in self._v:
          items = () if v is None else b._l.get(v, ())[k]
          out.extend(items)
          sizes.append(len(items))
        return _mk(out, self._shape + (tuple(sizes),), b._attr(s, '__items__'), b)
      return self.explode()
    b, s = self._b, self._s
    k = _to_ds(k)
    if b is not None and isinstance(s, ItemId) and b._attr(s, '__items__') is not None:
      a, k = _align(self, k)
      out = []
      for v, i in zip(a._v, k._v):
        items = () if v is None else b._l.get(v, ())
        out.append(items[i] if i is not None and -len(items) <= i < len(items) else None)
      return _mk(out, a._shape, b._attr(s, '__items__'), b)
    if b is None or isinstance(s, SchemaConst) or b._attr(s, '__keys__') is None:
      raise ValueError(f'{self!r} is not a LIST or DICT')
    a, k = _align(self, k)
    out = []
    for v, kk in zip(a._v, k._v):
      x = None
      if v is not None and kk is not None:
        e = b._d.get(v, {}).get(_key(kk))
        x = None if e is None else e[1]
      out.append(x)
    return _mk(out, a._shape, b._attr(s, '__values__'), b)

  def implode(self, ndim=1, itemid=None):
    if ndim != 1:
      if ndim < 0:
        ndim = len(self._shape)
      r = self
      for i in range(ndim):
        r = r.implode(itemid=itemid if i == ndim - 1 else None)
      return r
    if not self._shape:
      raise ValueError('cannot implode a DataItem')
    dims = self._shape[:-1]
    if itemid is not None:
      ids = _broadcast(_to_ds(itemid), dims)._v
      seen = [i for i in ids if i is not None]
      if len(set(seen)) != len(seen):
        raise ValueError('itemid must not have duplicates')
      if any(i is not None and i.kind != 'l' for i in ids):
        raise ValueError('itemid must be list ids')
    else:
      ids = [_new_id('l') for _ in range(_size(dims))]
    ls = _list_schema_id(self._s)
    bag = DataBag()
    if self._b is not None:
      bag._overlay(_extract_bag(self))
    bag._set(ls, '__items__', self._s)
    pos = 0
    for i, n in zip(ids, self._shape[-1]):
      if i is not None:
        bag._l[i] = tuple(self._v[pos:pos + n])
      pos += n
    return _mk(ids, dims, ls, bag)

  # -- updates
  def updated(self, *bags):
    return _mk(self._v, self._shape, self._s, bags_updated(self._b, *bags))

  def enriched(self, *bags):
    return _mk(self._v, self._shape, self._s, bags_enriched(*([self._b] if self._b is not None else []), *bags))

  def with_attrs(self, *, overwrite_schema=False, **attrs_):
    return self.updated(attrs(self, overwrite_schema=overwrite_schema, **attrs_))

  def with_attr(self, name, value, overwrite_schema=False):
    return self.updated(attrs(self, overwrite_schema=overwrite_schema, **{_pystr(name): value}))

  def with_list_append_update(self, x):
    return self.updated(list_append_update(self, x))

  def with_dict_update(self, *a):
    return self.updated(dict_update(self, *a))

  def stub(self, attrs=None):  # pylint: disable=redefined-outer-name
    if attrs is not None:
      raise MissingFake('stub(attrs)')
    if self._b is None:
      return self
    bag = DataBag()
    _adopt_stub(bag, self)
    return _mk(self._v, self._shape, self._s, bag)

  def extract(self, schema=None):
    if self._b is None:
      raise ValueError('cannot extract without a DataBag')
    ds = self
    if schema is not None:
      # Only what the given schema mentions is extracted.
      sb = _extract_bag(schema) if schema._b is not None else DataBag()
      b = self._b._copy()
      for sid in [i for i in sb._a if i.kind == 's']:
        b._a[sid] = dict(sb._a[sid])
      ds = _mk(self._v, self._shape, schema._v[0], b)
    return _mk(ds._v, ds._shape, ds._s, _extract_bag(ds))

  def extract_update(self, schema=None):
    return self.extract(schema)._b

  extract_bag = extract_update

  def clone(self, *a, **k):
    raise MissingFake('clone')

  def new(self, **kw):
    """schema.new(...)"""
    if self._s is not C_SCHEMA:
      return self.get_attr('new')(**kw)
    return new(schema=self, **kw)

  # -- pointwise
  def __and__(self, mask):
    mask = _to_ds(mask)
    if mask._s is not C_MASK and not mask.is_empty():
      raise ValueError('the second argument of & must have MASK schema')
    a, m = _align(self, mask)
    return _mk([v if x is not None else None for v, x in zip(a._v, m._v)], a._shape, a._s, a._b)

  def __or__(self, o):
    o = _to_ds(o)
    a, o = _align(self, o)
    s = _common_schema([a._s, o._s])
    return _mk([v if v is not None else x for v, x in zip(a._v, o._v)], a._shape, s, _merge_bags(a._b, o._b))

  def __ror__(self, o):
    return _to_ds(o) | self

  def __rand__(self, o):
    return _to_ds(o) & self

  def __xor__(self, o):
    a, o = _align(self, _to_ds(o))
    return _mk([PRESENT if (v is None) != (x is None) else None for v, x in zip(a._v, o._v)], a._shape, C_MASK, None)

  def __invert__(self):
    if self._s is not C_MASK and not (self._s is C_NONE):
      raise ValueError('~ needs a MASK')
    return _mk([PRESENT if v is None else None for v in self._v], self._shape, C_MASK, None)

  def _cmp(self, o, f):
    a, o = _align(self, _to_ds(o))
    return _mk([PRESENT if v is not None and x is not None and f(v, x) else None for v, x in zip(a._v, o._v)],
               a._shape, C_MASK, None)

  def __eq__(self, o):
    return self._cmp(o, _eq_raw)

  def __ne__(self, o):
    return self._cmp(o, lambda a, b: not _eq_raw(a, b))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def _arith(self, o, f):
    a, o = _align(self, _to_ds(o))
    return _mk([f(v, x) if v is not None and x is not None else None for v, x in zip(a._v, o._v)], a._shape,
               _common_schema([a._s, o._s]), None)

  def __add__(self, o):
    return self._arith(o, lambda a, b: a + b)

  def __radd__(self, o):
    return _to_ds(o) + self

  def __sub__(self, o):
    return self._arith(o, lambda a, b: a - b)

  def __mul__(self, o):
    return self._arith(o, lambda a, b: a * b)

  def __mod__(self, o):
    return self._arith(o, lambda a, b: a % b)

  def __hash__(self):
    return object.__hash__(self)

  def __bool__(self):
    if self._shape:
      raise ValueError('bool() of a slice: use kd.all or kd.any')
    if self._s is C_MASK or (self._s in (C_OBJECT, C_NONE) and self._v[0] in (None, PRESENT)):
      return self._v[0] is not None
    if self._s is C_BOOLEAN and isinstance(self._v[0], bool):
      return self._v[0]
    raise ValueError(f'cannot cast {self!r} to bool')

  def __int__(self):
    self._need_item()
    return int(self._v[0])

  __index__ = __int__

  def __float__(self):
    self._need_item()
    return float(self._v[0])

  def _need_item(self):
    if self._shape:
      raise ValueError('only a DataItem can be converted')

  # -- selection
  def select(self, fltr, expand_filter=True):  # pylint: disable=unused-argument
    if callable(fltr):
      fltr = fltr(self)
    fltr = _to_ds(fltr)
    if fltr._s is not C_MASK and not fltr.is_empty():
      raise ValueError('filter must have MASK schema')
    m = _broadcast(fltr, self._shape)
    if not self._shape:
      if m._v[0] is None:
        raise MissingFake('select on an item')
      return self
    out, sizes, pos = [], [], 0
    for n in self._shape[-1]:
      kept = [v for v, x in zip(self._v[pos:pos + n], m._v[pos:pos + n]) if x is not None]
      out.extend(kept)
      sizes.append(len(kept))
      pos += n
    return _mk(out, self._shape[:-1] + (tuple(sizes),), self._s, self._b)

  def select_present(self):
    return self.select(has(self))

  # -- to python
  def to_py(self, max_depth=2, obj_as_dict=False, include_missing_attrs=True):  # pylint: disable=unused-argument
    if self._shape:
      return [x.to_py(max_depth=max_depth, obj_as_dict=obj_as_dict) for x in self._first_dim()]
    return _to_py(self._v[0], self._s, self._b, {}, max_depth)

  def to_pytree(self, max_depth=-1, include_missing_attrs=True):
    return self.to_py(max_depth=max_depth, obj_as_dict=True, include_missing_attrs=include_missing_attrs)

  def internal_as_py(self):
    if self._shape:
      return [x.internal_as_py() for x in self._first_dim()]
    return _to_py(self._v[0], self._s, self._b, {}, 0)

  def __str__(self):
    if self._s is C_SCHEMA and not self._shape:
      return _schema_str(self._v[0], self._b, set())
    return repr(self)

  def __repr__(self):
    kind = 'DataItem' if not self._shape else 'DataSlice'
    if self._s is C_SCHEMA and not self._shape:
      return f'DataItem({_schema_str(self._v[0], self._b, set())}, schema: SCHEMA)'
    shown = self._v[0] if not self._shape else list(self._v[:20])
    return f'{kind}({shown!r}, schema: {_schema_str(self._s, self._b, set())})'


class _Sub:
  """ds.S[i, j]: integer indices into the last dimensions."""

  def __init__(self, ds):
    self._ds = ds

  def __getitem__(self, idx):
    idx = idx if isinstance(idx, tuple) else (idx,)
    if not all(isinstance(i, int) for i in idx) or len(idx) > len(self._ds._shape):
      raise MissingFake('S[...]')

    def pick(ds, idx):
      if len(ds._shape) > len(idx):
        parts = [pick(x, idx) for x in ds._first_dim()]
        return slice_([p if p._shape else p for p in parts]) if parts else MISSING_ITEM
      for i in idx:
        items = ds._first_dim()
        if not -len(items) <= i < len(items):
          return _item(None, ds._s, ds._b)
        ds = items[i]
      return ds

    return pick(self._ds, idx)


class DataItem(DataSlice):

  def __iter__(self):
    raise TypeError('DataItem is not iterable')


class SchemaItem(DataItem):

  def get_nofollowed_schema(self):
    raise MissingFake('nofollow')


class ListItem(DataItem):

  def __len__(self):
    return len(() if self._v[0] is None else self._b._l.get(self._v[0], ()))

  def __iter__(self):
    return iter(self.explode()._first_dim())


class DictItem(DataItem):

  def __len__(self):
    return len(self.get_keys()._v)

  def __iter__(self):
    return iter(self.get_keys()._first_dim())

  def __contains__(self, k):
    return self[k]._v[0] is not None


# Real methods that are deliberately not modelled: asking for one is "no answer",
# not "the data has no such attribute".
_UNMODELLED_METHODS = frozenset((
    'append', 'clear', 'clone_as_full', 'deep_clone', 'deep_uuid', 'display', 'embed_schema', 'follow', 'fork_bag',
    'get_dtype', 'get_from_dim', 'get_present_count', 'get_sizes', 'internal_as_arolla_value', 'pop', 'qtype', 'ref',
    'reverse', 'set_attr', 'set_attrs', 'shallow_clone', 'sort', 'strict_with_attrs', 'take', 'with_metadata',
    'with_name', 'with_print', 'from_vals', 'get_metadata', 'reshape_as', 'add_dim', 'strict_new', 'agg_any', 'fingerprint', 'eval', 'bind', 'returns',
))


def _eq_raw(a, b):
  if isinstance(a, bool) != isinstance(b, bool):
    return False
  if isinstance(a, (int, float)) and isinstance(b, (int, float)):
    return a == b
  return type(a) is type(b) and a == b


def _schema_raw(s):
  if s is None:
    return None
  if isinstance(s, DataSlice):
    return s._v[0]
  raise MissingFake(f'schema from {type(s).__name__}')


def _mask_item(b):
  return PRESENT_ITEM if b else MISSING_ITEM


def _all_mask(ds, f):
  if ds._s is not C_SCHEMA and ds._s is not C_NONE:
    return MISSING_ITEM
  vals = [v for v in ds._v if v is not None]
  return _mask_item(bool(vals) and all(f(v) for v in vals))


def _merge_bags(a, b):
  if a is None or a is b:
    return b
  if b is None:
    return a
  return bags_enriched(a, b)


def _pystr(x):
  if isinstance(x, str):
    return x
  if isinstance(x, DataSlice) and not x._shape and isinstance(x._v[0], str):
    return x._v[0]
  raise MissingFake(f'attribute name {x!r}')


def _schema_str(s, bag, seen):
  if s is None:
    return 'None'
  if isinstance(s, SchemaConst):
    return s.name
  name = bag._attr(s, '__schema_name__') if bag is not None else None
  if s in seen:
    return str(name or s)
  seen = seen | {s}
  if bag is None:
    return repr(s)
  it = bag._attr(s, '__items__')
  if it is not None:
    return f'LIST[{_schema_str(it, bag, seen)}]'
  k, v = bag._attr(s, '__keys__'), bag._attr(s, '__values__')
  if k is not None and v is not None:
    return f'DICT{{{_schema_str(k, bag, seen)}, {_schema_str(v, bag, seen)}}}'
  attrs_ = ', '.join(f'{n}={_schema_str(x, bag, seen)}' for n, x in sorted(bag._a.get(s, {}).items())
                     if not n.startswith('__') and x is not REMOVED)
  return f'{name}({attrs_})' if name else f'ENTITY({attrs_})'


def _to_py(v, s, b, memo, depth):
  if v is None or not isinstance(v, ItemId):
    if v is None or isinstance(v, (int, float, str, bytes)):
      return v
    return _item(v, s, b)
  if b is None or s is C_ITEMID or s is C_SCHEMA:
    return _item(v, s, b)
  if v in memo:
    return memo[v]
  if s is C_OBJECT:
    s = b._attr(v, '__schema__')
    if s is None:
      return _item(v, C_OBJECT, b)
  if depth == 0:
    return _item(v, s, b)
  it = b._attr(s, '__items__')
  if it is not None or v.kind == 'l':
    out = memo[v] = []
    out.extend(_to_py(x, it, b, memo, depth - 1) for x in b._l.get(v, ()))
    return out
  ks = b._attr(s, '__keys__')
  if ks is not None:
    out = memo[v] = {}
    vs = b._attr(s, '__values__')
    for k, x in b._dict(v):
      kk = k if not isinstance(k, ItemId) else _item(k, ks, b)
      out[kk] = _to_py(x, vs, b, memo, depth - 1)
    return out
  out = memo[v] = {}
  for n, fs in sorted(b._a.get(s, {}).items()):
    if n.startswith('__') or fs is REMOVED:
      continue
    x = b._attr(v, n)
    out[n] = None if x is REMOVED else _to_py(x, fs, b, memo, depth - 1)
  return out


# ---------------------------------------------------------------- making slices


def _f32(x):
  try:
    return struct.unpack('<f', struct.pack('<f', x))[0]
  except OverflowError:
    return float('inf') if x > 0 else float('-inf')


def _scalar_schema(v):
  if v is None:
    return C_NONE
  if v is PRESENT:
    return C_MASK
  if isinstance(v, bool):
    return C_BOOLEAN
  if isinstance(v, int):
    return C_INT32 if -2**31 <= v < 2**31 else C_INT64
  if isinstance(v, float):
    return C_FLOAT32
  if isinstance(v, str):
    return C_STRING
  if isinstance(v, bytes):
    return C_BYTES
  if isinstance(v, Expr):
    return C_EXPR
  if isinstance(v, SchemaConst):
    return C_SCHEMA
  raise ValueError(f'object with unsupported type: {type(v).__name__}')


def _common_schema(schemas):
  schemas = [s for s in schemas if s is not C_NONE and s is not None]
  if not schemas:
    return C_NONE
  first = schemas[0]
  if all(s == first for s in schemas):
    return first
  if all(s in _NUMERIC_ORDER for s in schemas):
    return max(schemas, key=_NUMERIC_ORDER.index)
  if all(isinstance(s, SchemaConst) and s is not C_SCHEMA and s is not C_ITEMID for s in schemas):
    return C_OBJECT
  raise ValueError(f'no common schema for {schemas}')


def _cast_raw(v, s):
  if v is None:
    return None
  if s in (C_FLOAT32, C_FLOAT64) and isinstance(v, int) and not isinstance(v, bool):
    v = float(v)
  if s is C_FLOAT32 and isinstance(v, float):
    return _f32(v)
  return v


def _cast(ds, s, implicit=True):
  """Casts to the raw schema `s` following Koda's implicit casting."""
  if ds._s == s or ds._s is C_NONE or ds.is_empty() and ds._s in (C_NONE, C_OBJECT):
    return _mk(ds._v, ds._shape, s, ds._b)
  if ds._s in _NUMERIC_ORDER and s in _NUMERIC_ORDER and (
      not implicit or _NUMERIC_ORDER.index(ds._s) <= _NUMERIC_ORDER.index(s)):
    return _mk([_cast_raw(v, s) for v in ds._v], ds._shape, s, ds._b)
  if s is C_OBJECT and ds._s in _PRIMITIVES:
    return _mk(ds._v, ds._shape, s, ds._b)
  if ds._s is C_OBJECT and s in _PRIMITIVES and all(v is None or _scalar_schema(v) == s for v in ds._v):
    return _mk(ds._v, ds._shape, s, ds._b)
  raise ValueError(f'the schema is incompatible: expected {s}, assigned {ds._s}')


def _to_ds(x):
  if isinstance(x, DataSlice):
    return x
  if isinstance(x, MutableDict):
    raise MissingFake('mutable dict as a value')
  if isinstance(x, (list, tuple)):
    return slice_(x)
  if isinstance(x, dict):
    return dict_(x)
  v = _f32(x) if isinstance(x, float) else x
  return _item(v, _scalar_schema(x))


def slice_(x, schema=None):
  s = _schema_raw(schema)
  sb = schema._b if isinstance(schema, DataSlice) else None
  if isinstance(x, DataSlice):
    ds = x
  else:
    leaves, schemas, bags = [], [], []
    dims = []

    def walk(v, depth):
      if isinstance(v, (list, tuple)):
        while len(dims) <= depth:
          dims.append([])
        dims[depth].append(len(v))
        for w in v:
          walk(w, depth + 1)
      else:
        if isinstance(v, dict):
          v = dict_(v)
        if isinstance(v, DataSlice):
          if v._shape:
            while len(dims) < depth + len(v._shape):
              dims.append([])
            for k, sizes in enumerate(v._shape):
              dims[depth + k].extend(sizes)
            leaves.extend(v._v)
          else:
            leaves.append(v._v[0])
          schemas.append(v._s)
          if v._b is not None:
            bags.append(v._b)
        else:
          schemas.append(_scalar_schema(v))
          leaves.append(_f32(v) if isinstance(v, float) and s is not C_FLOAT64 else v)

    walk(x, 0)
    cs = s if s is not None and all(isinstance(q, SchemaConst) for q in schemas) else _common_schema(schemas)
    bag = None
    for b in bags:
      bag = _merge_bags(bag, b)
    ds = _mk([_cast_raw(v, cs) for v in leaves], tuple(map(tuple, dims)), cs, bag)
  if s is not None:
    ds = _mk([_cast_raw(v, s) for v in ds._v], ds._shape, s, _merge_bags(ds._b, sb))
  return ds


def item_(x, schema=None):
  ds = slice_(x, schema=schema)
  if ds._shape:
    raise ValueError('kd.item: not an item')
  return ds


def int32(x):
  return _num(x, C_INT32, int)


def int64(x):
  return _num(x, C_INT64, int)


def float32(x):
  return _num(x, C_FLOAT32, float)


def float64(x):
  return _num(x, C_FLOAT64, float)


def _num(x, s, conv):
  ds = _to_ds(x)
  return _mk([None if v is None else _cast_raw(conv(v), s) for v in ds._v], ds._shape, s, None)


def bytes_(x):
  ds = _to_ds(x)
  return _mk(ds._v, ds._shape, C_BYTES, None)


PRESENT_ITEM = _item(PRESENT, C_MASK)
MISSING_ITEM = _item(None, C_MASK)


# -- schemas


def _list_schema_id(item_schema):
  return _uu_id('s', 'list', _key(item_schema))


def _dict_schema_id(k, v):
  return _uu_id('s', 'dict', _key(k), _key(v))


def list_schema(item_schema):
  s = _list_schema_id(item_schema._v[0])
  bag = DataBag()
  if item_schema._b is not None:
    bag._overlay(_extract_bag(item_schema))
  bag._set(s, '__items__', item_schema._v[0])
  return _item(s, C_SCHEMA, bag)


def dict_schema(key_schema, value_schema):
  s = _dict_schema_id(key_schema._v[0], value_schema._v[0])
  bag = DataBag()
  for q in (key_schema, value_schema):
    if q._b is not None:
      bag._overlay(_extract_bag(q))
  bag._set(s, '__keys__', key_schema._v[0])
  bag._set(s, '__values__', value_schema._v[0])
  return _item(s, C_SCHEMA, bag)


def _schema_with(sid, name, attrs_):
  bag = DataBag()
  if name is not None:
    bag._set(sid, '__schema_name__', name)
  for q in attrs_.values():
    q = _to_ds(q)
    if q._s is not C_SCHEMA:
      raise ValueError('schema attributes must be schemas')
    if q._b is not None:
      # The new schema's own attributes win over what the arguments say.
      bag = _extract_bag(q)._overlay(bag)
  for n, q in attrs_.items():
    bag._set(sid, n, _to_ds(q)._v[0])
  if not bag._a.get(sid):
    bag._a.setdefault(sid, {})
  return _item(sid, C_SCHEMA, bag)


def named_schema(name, /, **attrs_):
  name = _pystr(name)
  return _schema_with(_uu_id('s', 'named', name), name, attrs_)


def new_schema(**attrs_):
  return _schema_with(_new_id('s'), None, attrs_)


def uu_schema(seed='', **attrs_):
  return _schema_with(_uu_id('s', 'uu', seed, sorted((n, _key(_to_ds(q)._v[0])) for n, q in attrs_.items())), None,
                      attrs_)


# -- adoption and extraction


def _extract_bag(ds):
  """The part of ds's bag reachable from ds according to its schema."""
  src = ds._b
  out = DataBag()
  if src is None:
    return out
  seen_schema, seen = set(), set()
  todo = []

  def schema_(s):
    stack = [s]
    while stack:
      s = stack.pop()
      if not isinstance(s, ItemId) or s in seen_schema:
        continue
      seen_schema.add(s)
      for n, v in src._a.get(s, {}).items():
        out._set(s, n, v)
        if n == '__schema_metadata__':
          todo.append((v, C_OBJECT))
        elif n != '__schema_name__' and v is not REMOVED:
          stack.append(v)

  schema_(ds._s)
  todo.extend((v, ds._s) for v in ds._v)
  while todo:
    v, s = todo.pop()
    if s is C_SCHEMA:
      schema_(v)
      continue
    if not isinstance(v, ItemId) or s is C_ITEMID:
      continue
    if (v, s) in seen:
      continue
    seen.add((v, s))
    if s is C_OBJECT:
      os = src._attr(v, '__schema__')
      if os is None:
        continue
      out._set(v, '__schema__', os)
      schema_(os)
      s = os
      if (v, s) in seen:
        continue
      seen.add((v, s))
    if isinstance(s, SchemaConst):
      continue
    it = src._attr(s, '__items__')
    if it is not None:
      if v in src._l:
        out._l[v] = src._l[v]
        todo.extend((x, it) for x in src._l[v])
      continue
    ks, vs = src._attr(s, '__keys__'), src._attr(s, '__values__')
    if ks is not None or vs is not None:
      if v in src._d:
        out._d[v] = dict(src._d[v])
        for k, x in src._d[v].values():
          if ks is not None:
            todo.append((k, ks))
          if vs is not None:
            todo.append((x, vs))
      continue
    have = src._a.get(v, {})
    for n, fs in src._a.get(s, {}).items():
      if n.startswith('__') or fs is REMOVED:
        continue
      if n in have:
        out._set(v, n, have[n])
        if have[n] is not REMOVED:
          todo.append((have[n], fs))
  return out


def _adopt_stub(bag, ds):
  src = ds._b
  if src is None:
    return
  while True:
    s = ds._s
    if s is C_OBJECT:
      for v in ds._v:
        if isinstance(v, ItemId) and src._attr(v, '__schema__') is not None:
          bag._set(v, '__schema__', src._attr(v, '__schema__'))
      return
    if isinstance(s, SchemaConst):
      return
    it = src._attr(s, '__items__')
    if it is not None:
      bag._set(s, '__items__', it)
      for v in ds._v:
        if v is not None:
          bag._l[v] = src._l.get(v, ())
      ds = ds.explode()
      continue
    ks, vs = src._attr(s, '__keys__'), src._attr(s, '__values__')
    if ks is not None and vs is not None:
      bag._set(s, '__keys__', ks)
      bag._set(s, '__values__', vs)
    return


def attrs(x, overwrite_schema=False, /, **kw):
  if 'overwrite_schema' in kw and isinstance(kw['overwrite_schema'], bool):
    overwrite_schema = kw.pop('overwrite_schema')
  x = _to_ds(x)
  if x._s in _PRIMITIVES or x._s is C_ITEMID or any(isinstance(v, SchemaConst) for v in x._v):
    raise KodaAttrError(f'failed to create attribute update; primitives do not have attributes: {x!r}')
  bag = DataBag()
  _adopt_stub(bag, x)
  if x._s is C_SCHEMA:
    for n, q in kw.items():
      q = _to_ds(q)
      if q._b is not None:
        bag = _extract_bag(q)._overlay(bag)
    for n, q in kw.items():
      q = _broadcast(_to_ds(q), x._shape)
      if n in ('__schema_name__', '__schema_metadata__'):
        pass
      elif q._s is not C_SCHEMA:
        raise ValueError("only schemas can be assigned as attributes of schemas")
      for v, w in zip(x._v, q._v):
        if v is not None:
          bag._set(v, n, w)
    return bag
  if x._s is C_NONE or (isinstance(x._s, SchemaConst) and x._s is not C_OBJECT):
    return bag
  values = {n: _broadcast(_to_ds(q), x._shape) for n, q in kw.items()}
  for q in values.values():
    if q._b is not None:
      bag = _extract_bag(q)._overlay(bag)
  for n, q in values.items():
    if x._s is C_OBJECT:
      for v, w in zip(x._v, q._v):
        if v is None:
          continue
        os = x._b._attr(v, '__schema__')
        bag._set(os, n, q._s)
        bag._set(v, n, REMOVED if w is None else w)
      continue
    cur = x._b._attr(x._s, n) if x._b is not None else None
    if cur is not None and cur is not REMOVED and not overwrite_schema:
      q = _cast(q, cur)
    bag._set(x._s, n, q._s)
    for v, w in zip(x._v, q._v):
      if v is not None:
        bag._set(v, n, REMOVED if w is None else w)
  return bag


def attr(x, name, value, overwrite_schema=False):
  return attrs(x, overwrite_schema, **{_pystr(name): value})


def new(arg=None, *, schema=None, overwrite_schema=False, itemid=None, **kw):
  if arg is not None:
    raise MissingFake('kd.new(obj)')
  if isinstance(schema, str):
    schema = named_schema(schema)
  elif isinstance(schema, DataSlice) and schema._s is C_STRING:
    schema = named_schema(schema._v[0])
  kw = {n: (list_(v) if isinstance(v, (list, tuple)) else _to_ds(v)) for n, v in kw.items()}
  dims = max((q._shape for q in kw.values()), key=len, default=())
  if itemid is not None:
    ids = _to_ds(itemid)
    if len(ids._shape) >= len(dims):
      dims = ids._shape
    ids = _broadcast(ids, dims)._v
  else:
    ids = [_new_id('e') for _ in range(_size(dims))]
  if schema is None:
    sid = _new_id('s')
    bag = DataBag()
    bag._a.setdefault(sid, {})
  else:
    sid = schema._v[0]
    if sid is C_OBJECT:
      return obj(**kw)
    if not isinstance(sid, ItemId):
      raise ValueError(f'kd.new: expected a structured schema, got {schema}')
    bag = DataBag() if schema._b is None else _extract_bag(schema)
  for q in kw.values():
    if q._b is not None:
      # The schema given to kd.new is the one that counts.
      bag = _extract_bag(q)._overlay(bag)
  ent = _mk(ids, dims, sid, bag)
  return ent.updated(attrs(ent, overwrite_schema, **kw)) if kw else ent


def obj(arg=None, *, itemid=None, **kw):
  if arg is not None:
    a = _to_ds(arg)
    if isinstance(a._s, ItemId) and a._b is not None:
      b = a._b._copy()
      for v in a._v:
        if v is not None:
          b._set(v, '__schema__', a._s)
      return _mk(a._v, a._shape, C_OBJECT, b)
    return _mk(a._v, a._shape, C_OBJECT, a._b)
  e = new(itemid=itemid, **kw)
  b = e._b._copy()
  for v in e._v:
    b._set(v, '__schema__', e._s)
  return _mk(e._v, e._shape, C_OBJECT, b)


def uu(seed='', schema=None, **kw):
  kw = {n: _to_ds(v) for n, v in kw.items()}
  key = (seed, sorted((n, _key(q._v[0])) for n, q in kw.items()))
  if any(q._shape for q in kw.values()):
    raise MissingFake('kd.uu of slices')
  sch = schema or uu_schema(seed, **{n: q.get_schema() for n, q in kw.items()})
  return new(schema=sch, itemid=_item(_uu_id('e', 'uu', key), C_ITEMID), **kw)


def uuid_(seed='', **kw):
  kw = {n: _to_ds(v) for n, v in kw.items()}
  return _item(_uu_id('e', 'uuid', seed, sorted((n, [_key(v) for v in q._v]) for n, q in kw.items())), C_ITEMID)


def list_(items=None, *, item_schema=None, schema=None, itemid=None):
  if schema is not None:
    item_schema = schema.get_item_schema()
  if items is None:
    ds = _mk([], ((0,),), C_NONE, None)
  elif isinstance(items, DataSlice):
    ds = items
  else:
    conv = []
    for v in items:
      if isinstance(v, (list, tuple)):
        v = list_(v, item_schema=item_schema.get_item_schema() if item_schema is not None else None)
      conv.append(v)
    ds = slice_(conv)
    if not conv:
      ds = _mk([], ((0,),), C_NONE, None)
  if item_schema is not None:
    s = item_schema._v[0]
    b = ds._b
    if item_schema._b is not None:
      b = bags_updated(b, _extract_bag(item_schema)) if b is not None else _extract_bag(item_schema)
    if isinstance(s, SchemaConst):
      ds = _cast(ds, s) if s is not C_OBJECT else ds
    elif ds._s is not C_NONE and ds._s != s:
      raise ValueError('the schema for list items is incompatible')
    ds = _mk(ds._v, ds._shape, s, b)
  elif ds._s is C_NONE and not ds._v:
    ds = _mk(ds._v, ds._shape, C_OBJECT, ds._b)
  return ds.implode(itemid=itemid)


def dict_(items_or_keys=None, values=None, *, key_schema=None, value_schema=None, schema=None, itemid=None):
  if schema is not None:
    key_schema, value_schema = schema.get_key_schema(), schema.get_value_schema()
  if items_or_keys is None:
    keys, vals = _mk([], ((0,),), C_NONE, None), _mk([], ((0,),), C_NONE, None)
  elif isinstance(items_or_keys, dict):
    keys = slice_(list(items_or_keys.keys()))
    vs = [list_(v) if isinstance(v, (list, tuple)) else v for v in items_or_keys.values()]
    vals = slice_(vs)
    if not vs:
      keys = vals = _mk([], ((0,),), C_NONE, None)
  else:
    keys, vals = _to_ds(items_or_keys), _to_ds(values)
    vals = _broadcast(vals, keys._shape)
    if not keys._shape:
      keys, vals = [_mk(q._v, ((1,),), q._s, q._b) for q in (keys, vals)]
  bag = DataBag()
  for q in (keys, vals):
    if q._b is not None:
      bag = bags_enriched(bag, _extract_bag(q))
  ss = []
  for q, want in ((keys, key_schema), (vals, value_schema)):
    s = q._s
    if want is not None:
      s = want._v[0]
      if want._b is not None:
        bag = bags_updated(bag, _extract_bag(want))
    elif s is C_NONE and not q._v:
      s = C_OBJECT
    ss.append(s)
  keys = _cast(keys, ss[0]) if isinstance(ss[0], SchemaConst) else keys
  vals = _cast(vals, ss[1]) if isinstance(ss[1], SchemaConst) else vals
  dims = keys._shape[:-1]
  if itemid is not None:
    ids = _broadcast(_to_ds(itemid), dims)._v
    pres = [i for i in ids if i is not None]
    if len(set(pres)) != len(pres):
      raise ValueError('itemid must not have duplicates')
  else:
    ids = [_new_id('d') for _ in range(_size(dims))]
  sid = _dict_schema_id(*ss)
  bag = bag._copy()
  bag._set(sid, '__keys__', ss[0])
  bag._set(sid, '__values__', ss[1])
  pos = 0
  for i, n in zip(ids, keys._shape[-1]):
    if i is not None:
      m = bag._d.setdefault(i, {})
      for k, v in zip(keys._v[pos:pos + n], vals._v[pos:pos + n]):
        if k is not None:
          m[_key(k)] = (k, v)
    pos += n
  return _mk(ids, dims, sid, bag)


def list_append_update(x, append):
  x = _to_ds(x)
  append = _to_ds(append)
  src = x._b
  if src is None or isinstance(x._s, SchemaConst) or src._attr(x._s, '__items__') is None:
    raise ValueError('expected a LIST')
  it = src._attr(x._s, '__items__')
  bag = DataBag()
  if append._b is not None:
    bag._overlay(_extract_bag(append))
  if append._s != it and append._s is not C_NONE:
    append = _cast(append, it)
  bag._set(x._s, '__items__', it)
  if len(append._shape) <= len(x._shape):
    a = _broadcast(append, x._shape)
    groups = [(v,) for v in a._v]
  else:
    if not _is_prefix(x._shape, append._shape) or len(append._shape) != len(x._shape) + 1:
      raise ValueError('list_append_update: incompatible shapes')
    groups, pos = [], 0
    for n in append._shape[-1]:
      groups.append(append._v[pos:pos + n])
      pos += n
  for v, g in zip(x._v, groups):
    if v is not None:
      bag._l[v] = tuple(src._l.get(v, ())) + tuple(g)
  return bag


def dict_update(x, keys, values=None):
  x = _to_ds(x)
  src = x._b
  if src is None or isinstance(x._s, SchemaConst) or src._attr(x._s, '__keys__') is None:
    raise ValueError('expected a DICT')
  ks, vs = src._attr(x._s, '__keys__'), src._attr(x._s, '__values__')
  bag = DataBag()
  bag._set(x._s, '__keys__', ks)
  bag._set(x._s, '__values__', vs)
  if values is None:
    d = _to_ds(keys)
    keys, values = d.get_keys(), d.get_values()
  else:
    keys = _to_ds(keys)
    values = _broadcast(_to_ds(values), keys._shape)
  for q in (keys, values):
    if q._b is not None:
      bag = bags_enriched(bag, _extract_bag(q))._copy()
  keys = keys if keys._s == ks else _cast(keys, ks)
  values = values if values._s == vs else _cast(values, vs)
  xx = _broadcast(x, keys._shape) if len(keys._shape) >= len(x._shape) else x
  if xx is x and keys._shape != x._shape:
    keys, values = _broadcast(keys, x._shape), _broadcast(values, x._shape)
  for v, k, w in zip(xx._v, keys._v, values._v):
    if v is not None and k is not None:
      bag._d.setdefault(v, {})[_key(k)] = (k, w)
  return bag


def lists_size(x):
  x = _to_ds(x)
  if x._b is None or isinstance(x._s, SchemaConst) or x._b._attr(x._s, '__items__') is None:
    raise ValueError('expected a LIST')
  return _mk([None if v is None else len(x._b._l.get(v, ())) for v in x._v], x._shape, C_INT64, None)


# -- functions


def has(x):
  x = _to_ds(x)
  return _mk([None if v is None else PRESENT for v in x._v], x._shape, C_MASK, None)


def has_not(x):
  return ~has(x)


def has_attr(x, name):
  x, name = _to_ds(x), _pystr(name)
  if x._s is C_SCHEMA:
    ok = [v is not None and isinstance(v, ItemId) and x._b is not None and x._b._attr(v, name) not in (None, REMOVED)
          for v in x._v]
    return _mk([PRESENT if o else None for o in ok], x._shape, C_MASK, None)
  try:
    x.get_attr(name)
  except KodaAttrError:
    return _mk([None] * len(x._v), x._shape, C_MASK, None)
  return has(x)


def maybe(x, name):
  return _to_ds(x).get_attr(name, _item(None, C_NONE))


def dir_(x, *, intersection=None):  # pylint: disable=unused-argument
  x = _to_ds(x)
  b = x._b
  if x._s is C_SCHEMA:
    sids = [v for v in x._v if v is not None]
  elif x._s is C_OBJECT:
    sids = [b._attr(v, '__schema__') for v in x._v if isinstance(v, ItemId)] if b is not None else []
  else:
    sids = [x._s]
  names = None
  for s in sids:
    mine = set()
    if isinstance(s, ItemId):
      if b is None:
        raise ValueError('cannot get attribute names without a DataBag')
      mine = {n for n, v in b._a.get(s, {}).items() if not n.startswith('__') and v is not REMOVED}
    names = mine if names is None else names & mine
  return sorted(names or ())


def unique(x, sort=False):
  x = _to_ds(x)
  if not x._shape:
    return x
  out, sizes, pos = [], [], 0
  for n in x._shape[-1]:
    seen = {}
    for v in x._v[pos:pos + n]:
      if v is not None:
        seen.setdefault(_key(v), v)
    vs = list(seen.values())
    if sort:
      vs.sort(key=_order)
    out.extend(vs)
    sizes.append(len(vs))
    pos += n
  return _mk(out, x._shape[:-1] + (tuple(sizes),), x._s, x._b)


def all_(x):
  return _mask_item(all(v is not None for v in _to_ds(x)._v))


def any_(x):
  return _mask_item(any(v is not None for v in _to_ds(x)._v))


def _agg(x, f, ndim=None):
  x = _to_ds(x)
  if ndim not in (None, 1):
    if ndim == 0:
      return x
    return _agg(_agg(x, f), f, ndim - 1)
  if not x._shape:
    raise ValueError('expected a slice with at least one dimension')
  out, pos = [], 0
  for n in x._shape[-1]:
    out.append(PRESENT if f(v is not None for v in x._v[pos:pos + n]) else None)
    pos += n
  return _mk(out, x._shape[:-1], C_MASK, None)


def agg_any(x, ndim=None):
  return _agg(x, any, ndim)


def agg_all(x, ndim=None):
  return _agg(x, all, ndim)


def agg_has(x, ndim=None):
  return agg_any(has(x), ndim)


def is_item(x):
  return isinstance(x, DataItem)


def is_itemid(x):
  x = _to_ds(x)
  return _mask_item(x._s is C_ITEMID)


def encode_itemid(x):
  x = _to_ds(x)
  if x._s in _PRIMITIVES or any(isinstance(v, SchemaConst) for v in x._v):
    raise ValueError('only ItemIds can be encoded')
  return _mk([None if v is None else v.encode() for v in x._v], x._shape, C_STRING, None)


def hash_itemid(x):
  x = _to_ds(x)
  return _mk([None if v is None else v.n & (2**63 - 1) for v in x._v], x._shape, C_INT64, None)


def new_itemid():
  return _item(_new_id('e'), C_ITEMID)


def expand_to_shape(x, shape, ndim=0):
  x = _to_ds(x)
  if ndim:
    raise MissingFake('expand_to_shape(ndim)')
  return _broadcast(x, shape._dims)


def expand_to(x, target, ndim=0):
  return _to_ds(x).expand_to(target, ndim)


def val_like(x, val):
  x = _to_ds(x)
  return _broadcast(_to_ds(val), x._shape) & has(x)


def cond(condition, yes, no=None):
  condition = _to_ds(condition)
  yes, no = _to_ds(yes), _to_ds(no)
  shape = max((condition._shape, yes._shape, no._shape), key=len)
  c, y, n = [_broadcast(q, shape) for q in (condition, yes, no)]
  return _mk([a if m is not None else b for m, a, b in zip(c._v, y._v, n._v)], shape, _common_schema([y._s, n._s]),
             _merge_bags(y._b, n._b))


def coalesce(x, *args):
  for a in args:
    x = _to_ds(x) | a
  return x


def translate_group(keys_to, keys_from, values_from):
  keys_to, keys_from = _to_ds(keys_to), _to_ds(keys_from)
  if len(keys_to._shape) != 1 or len(keys_from._shape) != 1:
    raise MissingFake('translate_group with more dimensions')
  values_from = _broadcast(values_from, keys_from._shape)
  out, sizes = [], []
  for k in keys_to._v:
    g = [v for kk, v in zip(keys_from._v, values_from._v) if k is not None and kk is not None and _eq_raw(k, kk)]
    out.extend(g)
    sizes.append(len(g))
  return _mk(out, keys_to._shape + (tuple(sizes),), values_from._s, values_from._b)


def translate(keys_to, keys_from, values_from):
  keys_to, keys_from = _to_ds(keys_to), _to_ds(keys_from)
  if len(keys_to._shape) > 1 or len(keys_from._shape) != 1:
    raise MissingFake('translate with more dimensions')
  values_from = _broadcast(_to_ds(values_from), keys_from._shape)
  m = {_key(k): v for k, v in zip(keys_from._v, values_from._v) if k is not None}
  return _mk([None if k is None else m.get(_key(k)) for k in keys_to._v], keys_to._shape, values_from._s,
             values_from._b)


# -- metadata


def metadata(x, **kw):
  """The bag that sets metadata attributes on a schema."""
  x = _to_ds(x)
  if x._s is not C_SCHEMA:
    raise ValueError('failed to create metadata; only supported for schemas')
  bag = DataBag()
  for s in x._v:
    if s is None:
      continue
    if not isinstance(s, ItemId):
      raise ValueError('failed to create metadata; primitives have none')
    mid = _uu_id('e', 'metadata', _key(s))
    ms = x._b._attr(mid, '__schema__') if x._b is not None else None
    if ms is None:
      ms = _uu_id('s', 'metadata', _key(s))
    bag._set(s, '__schema_metadata__', mid)
    bag._set(mid, '__schema__', ms)
    bag._a.setdefault(ms, {})
    for n, v in kw.items():
      v = _to_ds(v)
      if v._b is not None:
        bag._overlay(_extract_bag(v))
      bag._set(mid, n, REMOVED if v._v[0] is None else v._v[0])
      bag._set(ms, n, v._s)
  return bag


def with_metadata(x, **kw):
  return x.updated(metadata(x, **kw))


def get_metadata(x):
  x = _to_ds(x)
  if x._s is not C_SCHEMA:
    raise ValueError('failed to get metadata; only supported for schemas')
  return x.get_attr('__schema_metadata__')


# -- strings


def _map_str(f, s):

  def g(x):
    x = _to_ds(x)
    return _mk([None if v is None else f(v) for v in x._v], x._shape, s, None)

  return g


def _b64decode(x, missing_if_invalid=False):
  x = _to_ds(x)
  out = []
  for v in x._v:
    if v is None:
      out.append(None)
      continue
    try:
      # Like the real operator: padding is optional, everything else is strict.
      raw = v if isinstance(v, bytes) else v.encode('utf8')
      body = raw.rstrip(b'=')
      if len(raw) - len(body) > 2 or (len(raw) != len(body) and len(raw) % 4):
        raise ValueError('invalid base64 string')
      out.append(base64.b64decode(body + b'=' * (-len(body) % 4), validate=True))
    except (binascii.Error, ValueError) as e:
      if missing_if_invalid:
        out.append(None)
      else:
        raise ValueError(f'invalid base64 string: {v!r}') from e
  return _mk(out, x._shape, C_BYTES, None)


def _decode(x):
  x = _to_ds(x)
  try:
    return _mk([None if v is None else v.decode('utf8') for v in x._v], x._shape, C_STRING, None)
  except UnicodeDecodeError as e:
    raise ValueError(f'invalid UTF-8 sequence: {e}') from e


def _contains(x, sub):
  a, b = _align(_to_ds(x), _to_ds(sub))
  return _mk([PRESENT if v is not None and w is not None and w in v else None for v, w in zip(a._v, b._v)], a._shape,
             C_MASK, None)


# -- serialisation

_MAGIC = b'MKD1'


def dumps(x):
  if isinstance(x, DataBag):
    state = ('bag', x._a, x._l, x._d)
  else:
    b = None if x._b is None else (x._b._a, x._b._l, x._b._d)
    state = ('ds', x._v, x._shape, x._s, b)
  body = pickle.dumps(state)
  return _MAGIC + struct.pack('<II', len(body), zlib.crc32(body)) + body


def loads(data):
  if len(data) < 12 or data[:4] != _MAGIC:
    raise ValueError('corrupt file: bad header')
  n, crc = struct.unpack('<II', data[4:12])
  body = data[12:]
  if len(body) != n or zlib.crc32(body) != crc:
    raise ValueError('corrupt file: truncated or damaged')
  state = pickle.loads(body)
  if state[0] == 'bag':
    return DataBag(*state[1:])
  _, v, shape, s, b = state
  return _mk(v, shape, s, None if b is None else DataBag(*b))


def s11n_dump(x, path, /, *, overwrite=False, riegeli_options=None, fs=None):  # pylint: disable=unused-argument
  from koladata.file_io import file_io  # pylint: disable=g-import-not-at-top
  fs = fs or file_io.get_default_file_system_interaction()
  if not overwrite and fs.exists(path):
    raise ValueError(f'File {path} already exists.')
  data = dumps(x)
  with fs.open(path, 'wb') as f:
    f.write(data)


def s11n_load(path, /, *, fs=None):
  from koladata.file_io import file_io  # pylint: disable=g-import-not-at-top
  fs = fs or file_io.get_default_file_system_interaction()
  with fs.open(path, 'rb') as f:
    return loads(f.read())


# -- comparison


def snapshot(ds, ids=False, tombstones=False):
  """A canonical, comparable value of everything reachable from `ds`.

  Without `ids`, items are renumbered in traversal order, so only the sharing
  structure counts. Removed and unknown values are the same unless `tombstones`.
  """
  b = ds._b
  num, scount = {}, {}
  facts = []

  def name_of(v):
    if not isinstance(v, ItemId):
      return _key(v)
    if ids:
      return ('id', v.n)
    if v not in num:
      num[v] = len(num)
    return ('id', num[v])

  todo = []

  def ref(v, s):
    if isinstance(v, ItemId):
      todo.append((v, s))
    return name_of(v)

  def sref(s):
    if isinstance(s, ItemId):
      todo.append((s, C_SCHEMA))
    return name_of(s)

  head = (ds._shape, sref(ds._s), tuple(ref(v, ds._s) for v in ds._v))
  done = set()
  i = 0
  while i < len(todo):
    v, s = todo[i]
    i += 1
    if (v, s) in done or s is C_ITEMID or not isinstance(v, ItemId) or b is None:
      continue
    done.add((v, s))
    if s is C_SCHEMA:
      for n, x in sorted(b._a.get(v, {}).items()):
        if x is REMOVED:
          if tombstones:
            facts.append((name_of(v), 'schema', n, 'removed'))
          continue
        if n == '__schema_metadata__':
          facts.append((name_of(v), 'schema', n, ref(x, C_OBJECT)))
        elif n == '__schema_name__':
          facts.append((name_of(v), 'schema', n, x))
        else:
          facts.append((name_of(v), 'schema', n, sref(x)))
      continue
    if s is C_OBJECT:
      os = b._attr(v, '__schema__')
      if os is None:
        continue
      facts.append((name_of(v), '__schema__', sref(os)))
      s = os
    if isinstance(s, SchemaConst):
      continue
    it = b._attr(s, '__items__')
    if it is not None:
      if v in b._l:
        facts.append((name_of(v), 'list', tuple(ref(x, it) for x in b._l[v])))
      continue
    ks, vs = b._attr(s, '__keys__'), b._attr(s, '__values__')
    if ks is not None or vs is not None:
      # One fact per key and one per value; an empty dict says nothing.
      for k, x in b._dict(v):
        kr = ref(k, ks) if ks is not None or not ids else ref(k, C_ITEMID)
        if ks is not None:
          facts.append((name_of(v), 'key', kr))
        if vs is not None and x is not None:
          facts.append((name_of(v), 'value', kr, ref(x, vs)))
      continue
    have = b._a.get(v, {})
    for n, fs in sorted(b._a.get(s, {}).items()):
      if n.startswith('__') or fs is REMOVED:
        continue
      if n in have:
        if have[n] is REMOVED or have[n] is None:
          if tombstones:
            facts.append((name_of(v), 'attr', n, 'removed'))
          continue
        facts.append((name_of(v), 'attr', n, ref(have[n], fs)))
  return head, sorted(facts, key=repr)


def bag_snapshot(bag):
  return sorted(((repr(k), repr(v)) for k, v in bag._keys().items()))


def assert_equivalent(actual, expected, *, partial=False, ids_equality=False, schemas_equality=True, msg=None):
  if partial:
    raise MissingFake('assert_equivalent(partial)')
  if isinstance(actual, DataBag) or isinstance(expected, DataBag):
    if bag_snapshot(actual) != bag_snapshot(expected):
      raise AssertionError(f'bags differ: {bag_snapshot(actual)} vs {bag_snapshot(expected)}')
    return
  actual, expected = _to_ds(actual), _to_ds(expected)

  if not schemas_equality:
    a, e = _values_only(actual), _values_only(expected)
  else:
    a, e = snapshot(actual, ids_equality), snapshot(expected, ids_equality)
  if a != e:
    raise AssertionError(f'not equivalent {msg or ""}:\nactual   {actual} {a}\nexpected {expected} {e}')


def _values_only(ds):

  def val(v, s, seen):
    b = ds._b
    if not isinstance(v, ItemId) or b is None or s is C_ITEMID:
      return _key(v)
    if s is C_SCHEMA:
      return ('schema',)
    if v in seen:
      return ('loop', seen.index(v))
    seen = seen + [v]
    if s is C_OBJECT:
      s = b._attr(v, '__schema__')
    it = b._attr(s, '__items__')
    if it is not None:
      return ('list', tuple(val(x, it, seen) for x in b._l.get(v, ())))
    ks, vs = b._attr(s, '__keys__'), b._attr(s, '__values__')
    if ks is not None:
      return ('dict', tuple((val(k, ks, seen), val(x, vs, seen)) for k, x in b._dict(v)))
    return ('ent', tuple(
        (n, val(b._attr(v, n), fs, seen)) for n, fs in sorted(b._a.get(s, {}).items())
        if not n.startswith('__') and fs is not REMOVED and b._attr(v, n) not in (None, REMOVED)))

  return ds._shape, [val(v, ds._s, []) for v in ds._v]


def assert_equal(actual, expected, *, msg=None):
  if isinstance(actual, DataBag) or isinstance(expected, DataBag):
    assert_equivalent(actual, expected)
    return
  if not isinstance(actual, DataSlice) or not isinstance(expected, DataSlice):
    assert actual == expected, (actual, expected)
    return
  if (actual._shape, _key(actual._s), [_key(v) for v in actual._v]) != (expected._shape, _key(
      expected._s), [_key(v) for v in expected._v]):
    raise AssertionError(f'not equal {msg or ""}: {actual} vs {expected}')


# ---------------------------------------------------------------- the module


class _Ns(pytypes.ModuleType):

  def __init__(self, name, **members):
    super().__init__(name)
    self.__dict__.update(members)

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise MissingFake(f'{self.__name__}.{name}')


class _Inputs:

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Expr(f'I.{name}')


def _const_item(c):
  return _item(c, C_SCHEMA, None)


def _compliant_attr_name(name):
  """kd.slices.internal_is_compliant_attr_name: safe for the dot syntax."""
  return (isinstance(name, str) and name.isidentifier() and not name.startswith('_') and
          not hasattr(DataSlice, name) and name not in _UNMODELLED_METHODS)


def make_kd():
  kd = _Ns('koladata.kd')
  kd.__dict__.update(
      types=_Ns('kd.types', DataSlice=DataSlice, DataItem=DataItem, SchemaItem=SchemaItem, ListItem=ListItem,
                DictItem=DictItem, DataBag=DataBag, JaggedShape=JaggedShape),
      present=PRESENT_ITEM, missing=MISSING_ITEM,
      has=has, has_not=has_not, has_attr=has_attr, maybe=maybe, get_attr=lambda x, n, *d: _to_ds(x).get_attr(n, *d),
      attrs=attrs, attr=attr, new=new, obj=obj, uu=uu, uuid=uuid_, dir=dir_, unique=unique, item=item_, slice=slice_,
      list=list_, dict=dict_, named_schema=named_schema, list_schema=list_schema, dict_schema=dict_schema,
      uu_schema=uu_schema, int32=int32, int64=int64, float32=float32, float64=float64, bytes=bytes_, all=all_,
      any=any_, agg_any=agg_any, agg_all=agg_all, agg_has=agg_has, is_item=is_item, is_itemid=is_itemid,
      encode_itemid=encode_itemid, hash_itemid=hash_itemid, new_itemid=new_itemid, expand_to_shape=expand_to_shape,
      expand_to=expand_to, val_like=val_like, cond=cond, coalesce=coalesce, translate_group=translate_group,
      translate=translate, metadata=metadata, with_metadata=with_metadata, get_metadata=get_metadata,
      list_append_update=list_append_update, dict_update=dict_update, bag=DataBag, mutable_bag=MutableBag,
      stub=lambda x: x.stub(), extract=lambda x: x.extract(), updated=lambda x, *b: x.updated(*b),
      enriched=lambda x, *b: x.enriched(*b), with_attrs=lambda x, **k: x.with_attrs(**k),
      with_attr=lambda x, n, v, o=False: x.with_attr(n, v, o), extract_update=lambda x: x.extract_update(),
      get_schema=lambda x: _to_ds(x).get_schema(), get_itemid=lambda x: _to_ds(x).get_itemid(),
      get_bag=lambda x: x.get_bag(), no_bag=lambda x: x.no_bag(), with_bag=lambda x, b: x.with_bag(b),
      get_shape=lambda x: _to_ds(x).get_shape(), flatten=lambda x: x.flatten(), explode=lambda x, n=1: x.explode(n),
      implode=lambda x, n=1, **k: x.implode(n, **k), get_keys=lambda x: x.get_keys(),
      get_values=lambda x: x.get_values(), select=lambda x, f: x.select(f), to_py=lambda x, **k: x.to_py(**k),
      to_pytree=lambda x, **k: x.to_pytree(**k), is_primitive=lambda x: _to_ds(x).is_primitive(),
      is_empty=lambda x: _mask_item(_to_ds(x).is_empty()), is_list=lambda x: x.is_list(), is_dict=lambda x: x.is_dict(),
      is_entity=lambda x: x.is_entity(), size=lambda x: x.get_size(), count=lambda x: _agg_count(x),
      get_item_schema=lambda x: x.get_item_schema(), get_key_schema=lambda x: x.get_key_schema(),
      get_value_schema=lambda x: x.get_value_schema(), implode_=None,
      get_item=lambda x, k: x[k], list_size=lists_size, dict_size=lambda x: x.dict_size(),
      apply_mask=lambda a, m: _to_ds(a) & m, equal=lambda a, b: _to_ds(a) == b, not_equal=lambda a, b: _to_ds(a) != b,
      select_present=lambda x: x.select_present(), shape=None, freeze_bag=lambda x: x,
      freeze=lambda x: x, I=_Inputs(),
  )
  for n in ('implode_', 'shape'):
    del kd.__dict__[n]
  for c in _CONSTS.values():
    kd.__dict__[c.name] = _const_item(c)
  kd.bags = _Ns('kd.bags', updated=bags_updated, enriched=bags_enriched, new=DataBag)
  kd.core = _Ns('kd.core', get_metadata=get_metadata, metadata=metadata, with_metadata=with_metadata, attrs=attrs,
                stub=kd.stub, extract=kd.extract, updated=kd.updated, enriched=kd.enriched, has=has,
                get_attr=kd.get_attr, has_attr=has_attr, maybe=maybe, with_attrs=kd.with_attrs, attr=attr,
                extract_update=kd.extract_update, get_bag=kd.get_bag, no_bag=kd.no_bag)
  kd.lists = _Ns('kd.lists', size=lists_size, new=list_, list_append_update=list_append_update, implode=kd.implode,
                 explode=kd.explode)
  kd.dicts = _Ns('kd.dicts', dict_update=dict_update, new=dict_, size=lambda x: x.dict_size(), get_keys=kd.get_keys,
                 get_values=kd.get_values)
  kd.entities = _Ns('kd.entities', new=new, uu=uu)
  kd.ids = _Ns('kd.ids', encode_itemid=encode_itemid, hash_itemid=hash_itemid, uuid=uuid_, new_itemid=new_itemid)
  kd.allocation = _Ns('kd.allocation', new_itemid=new_itemid)
  kd.masking = _Ns('kd.masking', has=has, has_not=has_not, present=PRESENT_ITEM, missing=MISSING_ITEM, all=all_,
                   any=any_, agg_any=agg_any, agg_all=agg_all, cond=cond, coalesce=coalesce)
  kd.schema = _Ns(
      'kd.schema', new_schema=new_schema, named_schema=named_schema, list_schema=list_schema, dict_schema=dict_schema,
      uu_schema=uu_schema, get_schema=kd.get_schema, get_item_schema=kd.get_item_schema,
      get_key_schema=kd.get_key_schema, get_value_schema=kd.get_value_schema,
      is_entity_schema=lambda x: x.is_entity_schema(), is_list_schema=lambda x: x.is_list_schema(),
      is_dict_schema=lambda x: x.is_dict_schema(), is_struct_schema=lambda x: x.is_struct_schema(),
      is_primitive_schema=lambda x: x.is_primitive_schema(),
      to_bool=lambda x: _mk([None if v is None else bool(v) for v in _to_ds(x)._v], _to_ds(x)._shape, C_BOOLEAN, None),
      to_int32=int32, to_int64=int64, to_float32=float32, to_float64=float64)
  kd.slices = _Ns('kd.slices', internal_is_compliant_attr_name=_compliant_attr_name, unique=unique, size=kd.size,
                  select=kd.select, expand_to=expand_to, translate=translate, translate_group=translate_group,
                  val_like=val_like)
  kd.shapes = _Ns('kd.shapes', get_shape=kd.get_shape, flatten=kd.flatten, expand_to_shape=expand_to_shape)
  kd.strings = _Ns('kd.strings', encode=_map_str(lambda v: v.encode('utf8'), C_BYTES), decode=_decode,
                   encode_base64=_map_str(lambda v: base64.b64encode(v).decode(), C_STRING),
                   decode_base64=_b64decode, contains=_contains)
  kd.expr = _Ns('kd.expr', pack_expr=lambda e: _item(e, C_EXPR))
  kd.s11n = _Ns('kd.s11n', dump=s11n_dump, load=s11n_load, dumps=dumps, loads=loads)
  kd.dumps, kd.loads = dumps, loads
  kd.testing = _Ns('kd.testing', assert_equivalent=assert_equivalent, assert_equal=assert_equal)
  return kd


def _agg_count(x):
  x = _to_ds(x)
  return _item(sum(v is not None for v in x._v), C_INT64)


_installed = [None]


def install():
  """Makes `from koladata import kd` load this model (call before importing storage)."""
  if _installed[0] is not None:
    return _installed[0]
  import koladata  # pylint: disable=g-import-not-at-top
  kd = make_kd()
  sys.modules['koladata.kd'] = kd
  koladata.kd = kd
  from koladata.file_io import file_io  # pylint: disable=g-import-not-at-top
  from koladata.file_io import fs_implementation  # pylint: disable=g-import-not-at-top
  from koladata.file_io import fs_interface  # pylint: disable=g-import-not-at-top
  kd.file_io = _Ns('kd.file_io', get_default_file_system_interaction=file_io.get_default_file_system_interaction,
                   FileSystemInterface=fs_interface.FileSystemInterface,
                   FileSystemInteraction=fs_implementation.FileSystemInteraction)
  if 're2' not in sys.modules:
    import re  # pylint: disable=g-import-not-at-top
    sys.modules['re2'] = re
  _installed[0] = kd
  return kd
