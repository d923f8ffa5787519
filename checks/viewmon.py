"""V01-V04: Koda View over the native structure mapper, built from /repo."""
import copy
import gc
import importlib.util
import json
import os
import subprocess
import sys
import types

import cpp
import repoenv
import vp
from vp import prop
import viewmodel as M

repoenv.setup_path()


def load_ext(d):
  spec = importlib.util.spec_from_file_location('koladata.ext.view.clib_py_ext', os.path.join(d, 'clib_py_ext.so'))
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  sys.modules['koladata.ext.view.clib_py_ext'] = mod
  return mod


_kv = None


def kv():
  global _kv
  if _kv is None:
    load_ext(os.environ.get('VP_VIEW_EXT') or cpp.view_ext('plain'))
    from koladata.ext.view import kv as m  # pylint: disable=g-import-not-at-top

    _kv = m
  return _kv


class Obj:
  """An attribute bag with identity and recorded writes."""

  def __init__(self, tag, **kw):
    object.__setattr__(self, 'tag', tag)
    object.__setattr__(self, 'log', [])
    self.__dict__.update(kw)

  def __setattr__(self, k, v):
    self.log.append((k, v))
    object.__setattr__(self, k, v)

  def __repr__(self):
    return f'O{self.tag}'


def gen_sizes(r, depth, prefix=()):
  sizes = [list(s) for s in prefix]
  n = 1 if not sizes else sum(sizes[-1])
  for _ in range(len(sizes), depth):
    s = [r.choice([0, 1, 1, 2, 2, 3]) for _ in range(n)]
    sizes.append(s)
    n = sum(s)
  return sizes


def n_items(sizes):
  return 1 if not sizes else sum(sizes[-1])


def gen_view(r, item, depth=None, prefix=()):
  depth = r.choice([0, 1, 1, 2, 2, 3, 4]) if depth is None else depth
  sizes = gen_sizes(r, depth, prefix)
  return M.V(sizes, [item(r) for _ in range(n_items(sizes))])


def real(v):
  k = kv()
  w = k.view(M.to_nested(v))
  return w.explode(v.depth) if v.depth else w


def related(r, v, item, bad=0.12):
  """A view whose shape is a prefix, equal, extension of v, or (rarely) wrong."""
  x = r.random()
  if x < 0.25:
    return gen_view(r, item, 0)
  if x < 0.6:
    return M.V(v.sizes, [item(r) for _ in v.items])
  if x < 0.8 and v.depth:
    d = r.randrange(v.depth)
    return M.V(v.sizes[:d], [item(r) for _ in range(n_items(v.sizes[:d]))])
  if x < 1 - bad:
    return gen_view(r, item, v.depth + r.choice([1, 1, 2]), v.sizes)
  return gen_view(r, item)


def small(r):
  return r.choice([None, None, 0, 1, 2, 3, -1, 2.5, 1])


def num(r):
  return r.choice([None, 0, 1, 2, 3, 7, -1])


def texty(r):
  return r.choice([None, 'a', 'b', '', 'ab'])


def maybe_box(r, v):
  """Scalars of autoboxable type may be passed without a view."""
  if v.depth == 0 and r.random() < 0.5:
    return v.items[0]
  return real(v)


class Checker:

  def __init__(self, run):
    self.run = run

  def compare(self, what, model_fn, real_fn, witness):
    run = self.run
    try:
      want = model_fn()
      werr = None
    except M.Err:
      want, werr = None, True
    try:
      got = real_fn()
      gerr = None
    except (TypeError, ValueError, AttributeError) as e:
      got, gerr = None, e
    if werr:
      run.expect(gerr is not None, f'{what}: incompatible arguments were accepted', witness + [repr(got)])
      run.count('refusals')
      return None
    if gerr is not None:
      run.fail(f'{what}: raised {gerr!r}', witness)
    nested = M.to_nested(want)
    run.expect(got.get_depth() == want.depth, f'{what}: depth {got.get_depth()}, expected {want.depth}', witness)
    run.expect(same(got.get(), nested), f'{what}: got {short(got.get())}, expected {short(nested)}', witness)
    run.count(f'op_{what}')
    return want


def short(x):
  s = repr(x)
  return s if len(s) < 300 else s[:300] + '...'


def same(a, b):
  """Structural equality that also compares types and object identity."""
  if isinstance(b, tuple):
    return type(a) is tuple and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(b, (int, float, str, bytes, bool, type(None))):
    return type(a) is type(b) and a == b
  return a is b or (type(a) is type(b) and type(b) in (list, dict, set) and a == b)


@prop('V01', min_eval=300, min_distinct=200)
def elementwise(run):
  run.rule = (
      'random jagged arrays (depth 0-5, empty rows, missing items) with shapes equal / prefix / extension /'
      ' incompatible, under map (0-5 args, keyword args, ndim 0-2, both missing modes), comparisons, masks,'
      ' coalesce, attribute and item lookup, expand_to, align; every result (items, types, shape, identity of'
      ' objects, number and order of calls) is compared with a flat reference model; non-trivial when two'
      ' different shapes were broadcast'
  )
  k = kv()
  P = k.present
  ck = Checker(run)
  for case in run.cases(25000, 400000):
    r = run.sub(case)
    v = gen_view(r, small)
    op = r.choice(['map', 'map', 'mapnd', 'cmp', 'and', 'or', 'attr', 'attr_default', 'item', 'item', 'slice', 'expand', 'expand_nd', 'align', 'bool', 'rand', 'mapkw'])
    wit = [op, repr(v)]
    nontriv = False
    if op in ('map', 'mapkw', 'mapnd'):
      n = r.choice([0, 1, 1, 2, 3])
      others = [related(r, v, small, 0.05) for _ in range(n)]
      args = [v] + others
      r.shuffle(args)
      wit.append(repr(args))
      calls_m, calls_r = [], []

      def fm(*a):
        calls_m.append(a)
        return None if len(calls_m) % 5 == 0 else ('r', len(calls_m), a)

      def fr(*a, **kw):
        a = a + tuple(kw[x] for x in sorted(kw))
        calls_r.append(a)
        return None if len(calls_r) % 5 == 0 else ('r', len(calls_r), a)

      im = r.choice([None, True, False])
      if op == 'mapnd':
        nd = r.choice([0, 1, 1, 2, 2, 3, -1])

        def model():
          inc = bool(nd) if im is None else im
          if nd and not inc:
            raise M.Err()
          if nd < 0:
            raise M.Err()
          if nd == 0:
            return M.map_n(fm, args, inc)
          sizes = M.common(args)
          if nd > len(sizes):
            raise M.Err()
          al = [M.implode(M.V(sizes, M.broadcast(a, sizes)), nd) for a in args]
          return M.map_n(fm, al, True)

        if n == 0 and r.random() < 0.5:
          rf = lambda: real(v).map(fr, ndim=nd, include_missing=im)
        else:
          rf = lambda: k.map(fr, *[maybe_box(r, a) for a in args], ndim=nd, include_missing=im)
      else:
        cut = len(args) if op == 'map' else r.randrange(len(args) + 1)
        model = lambda: M.map_n(fm, args, bool(im))
        rf = lambda: k.map(fr, *[maybe_box(r, a) for a in args[:cut]], include_missing=im, **{f'k{i}': maybe_box(r, a) for i, a in enumerate(args[cut:])})
      want = ck.compare(op, model, rf, wit)
      if want is not None:
        run.expect(len(calls_m) == len(calls_r) and all(same(x, y) for x, y in zip(calls_r, calls_m)), f'{op}: the function was called with {short(calls_r)}, expected {short(calls_m)}', wit)
      nontriv = len({repr(a.sizes) for a in args}) > 1
    elif op == 'cmp':
      item = r.choice([num, texty])
      v = gen_view(r, item)
      o = related(r, v, item)
      name, f = r.choice([('equal', lambda x, y: x == y), ('not_equal', lambda x, y: x != y), ('less', lambda x, y: x < y), ('less_equal', lambda x, y: x <= y), ('greater', lambda x, y: x > y), ('greater_equal', lambda x, y: x >= y)])
      wit += [name, repr(v), repr(o)]
      sym = {'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b, 'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b}[name]
      rf = r.choice([lambda: getattr(k, name)(real(v), maybe_box(r, o)), lambda: sym(real(v), maybe_box(r, o))])
      ck.compare(name, lambda: M.map_n(lambda x, y: P if f(x, y) else None, [v, o]), rf, wit)
      nontriv = v.sizes != o.sizes
    elif op in ('and', 'rand'):
      bad = r.random() < 0.1
      mk = lambda r: r.choice([P, P, None] + ([1, True] if bad else []))
      o = related(r, v, mk)
      wit.append(repr(o))

      def f(x, y):
        if y is not P:
          raise M.Err()
        return x

      if op == 'and':
        rf = r.choice([lambda: real(v) & maybe_box(r, o), lambda: k.apply_mask(maybe_box(r, v), maybe_box(r, o))])
      else:
        v = gen_view(r, small, 0)
        wit.append(repr(v))
        rf = lambda: v.items[0] & real(o)
      ck.compare('apply_mask', lambda: M.map_n(f, [v, o]), rf, wit)
      nontriv = v.sizes != o.sizes
    elif op == 'or':
      o = related(r, v, small)
      wit.append(repr(o))
      rf = r.choice([lambda: real(v) | maybe_box(r, o), lambda: k.coalesce(maybe_box(r, v), maybe_box(r, o))])
      if v.depth == 0:
        rf = r.choice([rf, lambda: v.items[0] | real(o)])
      ck.compare('coalesce', lambda: M.map_n(lambda x, y: y if x is None else x, [v, o], True), rf, wit)
      nontriv = v.sizes != o.sizes
    elif op in ('attr', 'attr_default'):
      full = r.random() < 0.8 or op == 'attr_default'
      mk = lambda r: r.choice([None, Obj(1, a=5), Obj(2, a=None), Obj(3, a=[1]), Obj(4, a=0)] + ([Obj(5)] if op == 'attr_default' else []))
      v = gen_view(r, mk)
      wit.append(repr(v))
      if op == 'attr':
        rf = r.choice([lambda: real(v).a, lambda: real(v).get_attr('a'), lambda: k.get_attr(real(v), 'a')])
        ck.compare('get_attr', lambda: M.map_n(lambda x: x.a, [v]), rf, wit)
      else:
        d = r.choice([None, 7, 'z', 0])
        dd = r.choice([d, k.view(d)])
        mf = lambda x: d if getattr(x, 'a', None) is None else x.a
        rf = r.choice([lambda: real(v).get_attr('a', dd), lambda: k.get_attr(real(v), 'a', default=dd)])
        ck.compare('get_attr_default', lambda: M.map_n(mf, [v]), rf, wit)
      nontriv = v.depth > 0
    elif op == 'item':
      dicts = r.random() < 0.5
      if dicts:
        mk = lambda r: r.choice([None, {}, {'a': 1, 'b': None}, {'a': 'x', 'c': [1]}])
        key = texty
      else:
        mk = lambda r: r.choice([None, [], [10, 11, 12], (20,), [None, 31], 'str'])
        key = lambda r: r.choice([None, 0, 1, 2, -1, 5, -4])
      v = gen_view(r, mk)
      o = related(r, v, key)
      wit += [repr(v), repr(o)]

      def g(x, y):
        try:
          return x[y]
        except (KeyError, IndexError):
          return None

      rf = r.choice([lambda: real(v)[maybe_box(r, o)], lambda: k.get_item(real(v), maybe_box(r, o)), lambda: real(v).get_item(maybe_box(r, o))])
      ck.compare('get_item', lambda: M.map_n(g, [v, o]), rf, wit)
      nontriv = v.sizes != o.sizes
    elif op == 'slice':
      mk = lambda r: r.choice([None, [], [10, 11, 12], (20,), [None, 31], [[1], [2, 3]]])
      v = gen_view(r, mk)
      a, b = r.choice([None, 0, 1, 2, -1, 5]), r.choice([None, 0, 1, 2, -1, 5])
      wit += [repr(v), a, b]
      sl = M.V(v.sizes, [None if x is None else tuple(x[a:b]) for x in v.items])
      rf = r.choice([lambda: real(v)[a:b], lambda: k.get_item(real(v), slice(a, k.view(b)))])
      ck.compare('slice', lambda: M.explode(sl), rf, wit)
      nontriv = v.depth > 0
    elif op == 'expand':
      o = related(r, v, small, 0.3)
      wit.append(repr(o))
      rf = r.choice([lambda: real(v).expand_to(maybe_box(r, o)), lambda: k.expand_to(maybe_box(r, v), real(o))])
      ck.compare('expand_to', lambda: M.expand_to(v, o), rf, wit)
      nontriv = v.sizes != o.sizes
    elif op == 'expand_nd':
      nd = r.choice([-1, 1, 1, 1, 2, 3])
      w = M.implode(v, min(max(nd, 0), v.depth))
      o = related(r, w, small)
      wit += [repr(o), nd]
      ck.compare('expand_to_ndim', lambda: M.expand_to(v, o, nd), lambda: real(v).expand_to(real(o), nd), wit)
      nontriv = True
    elif op == 'align':
      others = [related(r, v, small, 0.05) for _ in range(r.randrange(0, 4))]
      args = [v] + others
      r.shuffle(args)
      wit.append(repr(args))
      try:
        sizes = M.common(args)
        want = [M.V(sizes, M.broadcast(a, sizes)) for a in args]
      except M.Err:
        want = None
      try:
        got = k.align(*[maybe_box(r, a) for a in args])
      except (TypeError, ValueError):
        got = None
      run.expect((want is None) == (got is None), f'align {"accepted" if want is None else "refused"} its arguments', wit)
      if want is not None:
        run.expect(len(got) == len(want) and all(g.get_depth() == w.depth and same(g.get(), M.to_nested(w)) for g, w in zip(got, want)), f'align gave {short([g.get() for g in got])}', wit)
      run.count('op_align')
      nontriv = len({repr(a.sizes) for a in args}) > 1
    elif op == 'bool':
      v = gen_view(r, lambda r: r.choice([P, None, 1, 0, True]), r.choice([0, 0, 0, 1]))
      try:
        got = bool(real(v))
      except ValueError:
        got = 'refused'
      want = 'refused' if v.depth or (v.items[0] is not None and v.items[0] is not P) else v.items[0] is P
      run.expect(got is want or got == want == 'refused', f'truth of {v!r} is {got!r}', wit)
      run.count('op_bool')
      nontriv = True
    run.saw(repr(wit) if nontriv else None, wit if nontriv and len(repr(wit)) < 400 else None)
  # objects that must not be boxed implicitly
  for bad in ([1], {}, (1,), object(), {1}):
    for f in (lambda: k.map(lambda x: x, bad), lambda: k.align(bad, k.view(1)), lambda: k.explode(bad)):
      try:
        f()
        run.fail(f'{bad!r} was boxed implicitly', None)
      except ValueError:
        pass


@prop('V02', min_eval=300, min_distinct=200)
def shapes(run):
  run.rule = (
      'random jagged arrays (depth 0-5) under explode / implode / flatten over every dimension range / take /'
      ' group_by with 0-2 keys, sorted or not / collapse / select with expanded and unexpanded filters /'
      ' inverse_select / deep_map, compared with a flat (sizes, items) reference, plus the laws'
      ' implode(explode)=identity, inverse_select(select)=masked original; non-trivial when some row is'
      ' ragged, empty or missing'
  )
  k = kv()
  P = k.present
  ck = Checker(run)
  for case in run.cases(30000, 500000):
    r = run.sub(case)
    v = gen_view(r, num)
    op = r.choice(['explode', 'implode', 'flatten', 'flatten', 'take', 'group', 'group', 'collapse', 'select', 'select', 'inverse', 'law', 'deep_map', 'leaf_tuples'])
    wit = [op, repr(v)]
    if op == 'explode':
      def nest(r, d):
        if d == 0:
          return num(r)
        if r.random() < 0.15:
          return None
        xs = [nest(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))]
        return r.choice([list, tuple])(xs)

      nd = r.choice([0, 1, 1, 2, 3, -1])
      v = gen_view(r, lambda r: nest(r, max(nd, 0)))
      wit += [repr(v), nd]
      rf = r.choice([lambda: real(v).explode(nd), lambda: k.explode(real(v), ndim=nd)])
      ck.compare('explode', lambda: M.explode(v, nd), rf, wit)
      if nd == 1:
        ck.compare('explode', lambda: M.explode(v), lambda: real(v)[:], wit)
    elif op == 'implode':
      nd = r.choice([-1, -2, 0, 1, 2, 3, 5])
      wit.append(nd)
      rf = r.choice([lambda: real(v).implode(nd), lambda: k.implode(real(v), ndim=nd)])
      ck.compare('implode', lambda: M.implode(v, nd), rf, wit)
    elif op == 'flatten':
      a, b = r.randrange(-6, 7), r.choice([None] + list(range(-6, 7)))
      wit += [a, b]
      rf = r.choice([lambda: real(v).flatten(a, b), lambda: k.flatten(real(v), from_dim=a, to_dim=b)])
      ck.compare('flatten', lambda: M.flatten(v, a, b), rf, wit)
    elif op == 'leaf_tuples':
      v = gen_view(r, lambda r: r.choice([(1, 2), (), ((3,),), None, [4]]))
      wit.append(repr(v))
      a, b = r.choice([(0, None), (1, None), (0, 1), (1, 2), (2, 2), (-1, None)])
      ck.compare('flatten', lambda: M.flatten(v, a, b), lambda: real(v).flatten(a, b), wit)
    elif op == 'take':
      v = gen_view(r, num, r.choice([0, 1, 2, 3]))
      w = M.implode(v, 1) if v.depth else None
      i = related(r, w, lambda r: r.choice([None, 0, 1, 2, -1, -3, 7])) if w else gen_view(r, num, 0)
      wit += [repr(v), repr(i)]

      def model():
        if w is None:
          raise M.Err()

        def g(x, y):
          try:
            return x[y]
          except IndexError:
            return None

        return M.map_n(g, [w, i])

      ck.compare('take', model, r.choice([lambda: real(v).take(maybe_box(r, i)), lambda: k.take(real(v), maybe_box(r, i))]), wit)
    elif op == 'group':
      nk = r.choice([0, 1, 1, 2])
      v = gen_view(r, num, r.choice([0, 1, 1, 2, 3]))
      keys = []
      for _ in range(nk):
        it = r.choice([num, texty, lambda r: r.choice([1, 1.5, 2])])
        keys.append(M.V(v.sizes, [it(r) for _ in v.items]) if r.random() < 0.93 else gen_view(r, it))
      sort = r.random() < 0.4
      wit += [repr(v), repr(keys), sort]
      rf = r.choice([lambda: real(v).group_by(*[real(x) for x in keys], sort=sort), lambda: k.group_by(real(v), *[real(x) for x in keys], sort=sort)])
      want = ck.compare('group_by', lambda: M.group_by(v, keys, sort), rf, wit)
      if want is not None:
        run.count('groups', len(want.sizes[-1]))
    elif op == 'collapse':
      v = gen_view(r, lambda r: r.choice([None, 1, 1, 1, 2, 1.0]))
      nd = r.choice([-1, 0, 1, 1, 2, 3])
      wit += [repr(v), nd]
      ck.compare('collapse', lambda: M.collapse(v, nd), r.choice([lambda: real(v).collapse(nd), lambda: k.collapse(real(v), ndim=nd)]), wit)
    elif op == 'select':
      bad = r.random() < 0.05
      mk = lambda r: r.choice([P, P, None] + ([5] if bad else []))
      f = related(r, v, mk, 0.1)
      ex = r.random() < 0.5
      wit += [repr(f), ex]
      if 5 in f.items and any(0 in z for z in v.sizes + f.sizes):
        # A value that is not a mask is only refused where an item meets it.
        run.count('skipped_unreached_bad_mask')
        continue
      ck.compare('select', lambda: M.select(v, f, ex, P), r.choice([lambda: real(v).select(maybe_box(r, f), ex), lambda: k.select(real(v), maybe_box(r, f), expand_filter=ex)]), wit)
    elif op == 'inverse':
      f = gen_view(r, lambda r: r.choice([P, P, None]), r.choice([0, 1, 1, 2, 3]))
      if f.depth and r.random() < 0.85:
        s, i = [], 0
        for n in f.sizes[-1]:
          s.append(sum(x is P for x in f.items[i:i + n]))
          i += n
        if r.random() < 0.15 and s:
          s[r.randrange(len(s))] += 1
        v = M.V(f.sizes[:-1] + [s], [num(r) for _ in range(sum(s))])
      wit += [repr(v), repr(f)]
      ck.compare('inverse_select', lambda: M.inverse_select(v, f, P), r.choice([lambda: real(v).inverse_select(real(f)), lambda: k.inverse_select(real(v), real(f))]), wit)
    elif op == 'law':
      if v.depth:
        w = real(v)
        for n in range(0, v.depth + 1):
          run.expect(same(w.implode(n).explode(n).get(), w.get()), f'implode({n}) then explode({n}) changes the data', wit)
        f = M.V(v.sizes, [r.choice([P, None]) for _ in v.items])
        wf = real(f)
        got = w.select(wf).inverse_select(wf)
        run.expect(same(got.get(), (w & wf).get()), 'select then inverse_select is not the masked original', wit + [repr(f)])
        run.expect(same((w.select(wf).inverse_select(wf) | w).get(), w.get()), 'restoring the unselected items does not give the original', wit)
        g = w.group_by()
        it = g.flatten(v.depth - 1).map(lambda t: tuple(sorted(x for x in t if x is not None)), ndim=1)
        base = w.map(lambda t: tuple(sorted(x for x in t if x is not None)), ndim=1)
        run.expect(same(it.get(), base.get()), 'group_by loses or duplicates items', wit)
        run.count('laws', 3 + v.depth)
    elif op == 'deep_map':
      def st(r, d):
        x = r.random()
        if d == 0 or x < 0.4:
          return num(r)
        if x < 0.6:
          return [st(r, d - 1) for _ in range(r.randrange(3))]
        if x < 0.8:
          return {kk: st(r, d - 1) for kk in r.sample('abc', r.randrange(3))}
        return tuple(st(r, d - 1) for _ in range(r.randrange(3)))

      v = gen_view(r, lambda r: st(r, 2))
      im = r.random() < 0.5
      wit += [repr(v), im]

      def f(x):
        return ('v', x)

      def dm(x):
        if isinstance(x, list):
          return [dm(y) for y in x]
        if isinstance(x, tuple):
          return tuple(dm(y) for y in x)
        if isinstance(x, dict):
          return {a: dm(b) for a, b in x.items()}
        if x is None and not im:
          return None
        return f(x)

      got = r.choice([lambda: real(v).deep_map(f, include_missing=im), lambda: k.deep_map(f, real(v), include_missing=im)])()
      want = M.to_nested(M.V(v.sizes, [dm(x) for x in v.items]))
      run.expect(got.get_depth() == v.depth and got.get() == want, f'deep_map gave {short(got.get())}, expected {short(want)}', wit)
      run.count('op_deep_map')
      if r.random() < 0.5:
        tree = st(r, 2)
        tv = gen_view(r, lambda r: copy.deepcopy(tree), r.choice([0, 1, 2]))
        sv = M.scalar(tree) if r.random() < 0.5 else M.V(tv.sizes, [copy.deepcopy(tree) for _ in tv.items])

        def dm2(x, y):
          if isinstance(x, list):
            return [dm2(a, b) for a, b in zip(x, y)]
          if isinstance(x, tuple):
            return tuple(dm2(a, b) for a, b in zip(x, y))
          if isinstance(x, dict):
            return {a: dm2(b, y[a]) for a, b in x.items()}
          if not im and (x is None or y is None):
            return None
          return ('w', x, y)

        got = k.deep_map(lambda x, y: ('w', x, y), real(tv), real(sv), include_missing=im)
        want = M.to_nested(M.map_n(dm2, [tv, sv], True))
        run.expect(got.get() == want, f'deep_map of two views gave {short(got.get())}, expected {short(want)}', wit)
    ragged = any(len(set(s)) > 1 or 0 in s for s in v.sizes) or any(x is None for x in v.items)
    run.saw(repr(wit) if ragged else None, wit if ragged and len(repr(wit)) < 300 else None)


@prop('V03', min_eval=300, min_distinct=200)
def mutation(run):
  run.rule = (
      'random views over shared and aliased mutable objects; set_attrs / set_item / append are compared with'
      ' sequential assignment in traversal order on a deep copy (including repeated objects, missing items,'
      ' out-of-range indices), and every read-only operation is followed by a comparison of the whole object'
      ' graph with a snapshot; non-trivial when at least one object was written or an alias existed'
  )
  k = kv()
  for case in run.cases(25000, 400000):
    r = run.sub(case)
    op = r.choice(['set_attrs', 'set_attrs', 'set_item', 'set_item', 'append', 'append', 'readonly', 'clone'])
    run.count('op_' + op)
    if op == 'set_attrs':
      pool = [Obj(i) for i in range(r.choice([1, 2, 5]))]
      v = gen_view(r, lambda r: r.choice(pool + [None]))
      vals = {}
      for nm in r.sample(['a', 'b', '_c', 'z'], r.randrange(1, 3)):
        vals[nm] = related(r, v, small, 0.1)
      wit = [op, repr(v), repr(vals)]
      exp = {o.tag: [] for o in pool}
      err = False
      for nm, w in vals.items():
        if w.depth > v.depth or w.sizes != v.sizes[: w.depth]:
          err = True
          break
        for o, x in zip(v.items, M.broadcast(w, v.sizes)):
          if o is not None:
            exp[o.tag].append((nm, x))
      call = {nm: maybe_box(r, w) for nm, w in vals.items()}
      style = r.choice(['method', 'op', 'assign'])
      if style == 'assign' and (len(vals) != 1 or next(iter(vals)).startswith('_')):
        style = 'op'
      try:
        rv = real(v)
        if style == 'method':
          rv.set_attrs(**call)
        elif style == 'op':
          k.set_attrs(rv, **call)
        else:
          setattr(rv, next(iter(call)), next(iter(call.values())))
        got_err = False
      except (ValueError, TypeError):
        got_err = True
      run.expect(err == got_err, f'set_attrs was {"refused" if got_err else "accepted"}', wit)
      if not err:
        for o in pool:
          run.expect(len(o.log) == len(exp[o.tag]) and all(a == c and same(b, d) for (a, b), (c, d) in zip(o.log, exp[o.tag])), f'object {o.tag} received writes {o.log}, expected {exp[o.tag]}', wit)
        run.count('writes', sum(len(o.log) for o in pool))
      nontriv = any(o.log for o in pool)
    elif op in ('set_item', 'append'):
      if op == 'set_item':
        dicts = r.random() < 0.5
        pool = [{'a': 1} if dicts else [0] * r.randrange(4) for _ in range(r.choice([1, 2, 4]))]
        keyg = texty if dicts else (lambda r: r.choice([None, 0, 1, 2, -1, 9]))
      else:
        pool = [[] for _ in range(r.choice([1, 2, 4]))]
      v = gen_view(r, lambda r: r.choice(pool + [None]))
      shadow = copy.deepcopy(pool)
      sh = lambda x: None if x is None else shadow[[i for i, p in enumerate(pool) if p is x][0]]
      if op == 'set_item':
        ki = related(r, v, keyg, 0.08)
        vi = related(r, ki if ki.depth > v.depth and r.random() < 0.6 else v, small, 0.08)
        wit = [op, repr(v), repr(ki), repr(vi)]
        try:
          if vi.depth > v.depth and vi.depth > ki.depth:
            raise M.Err()

          def f(x, y, z):
            if x is None or y is None:
              return None
            try:
              sh(x)[y] = z
            except IndexError:
              pass

          M.map_n(f, [v, ki, vi], True)
          err = False
        except M.Err:
          err = True
        kk, vv = maybe_box(r, ki), maybe_box(r, vi)
        try:
          rv = real(v)
          st = r.choice([0, 1, 2])
          if st == 0:
            rv[kk] = vv
          elif st == 1:
            k.set_item(rv, kk, vv)
          else:
            rv.set_item(kk, vv)
          got_err = False
        except (ValueError, TypeError):
          got_err = True
      else:
        vi = related(r, v, small, 0.1)
        wit = [op, repr(v), repr(vi)]
        try:
          M.map_n(lambda x, y: None if x is None else sh(x).append(y), [v, vi], True)
          err = False
        except M.Err:
          err = True
        vv = maybe_box(r, vi)
        try:
          if r.random() < 0.5:
            real(v).append(vv)
          else:
            k.append(real(v), vv)
          got_err = False
        except (ValueError, TypeError):
          got_err = True
      run.expect(err == got_err, f'{op} was {"refused" if got_err else "accepted"}', wit)
      if not err:
        run.expect(repr(pool) == repr(shadow), f'{op} left {pool}, expected {shadow}', wit)
        run.count('containers_compared', len(pool))
      nontriv = not err and len(v.items) > 0
    elif op == 'readonly':
      def st(r, d):
        x = r.random()
        if d == 0 or x < 0.3:
          return num(r)
        if x < 0.7:
          return [st(r, d - 1) for _ in range(r.randrange(4))]
        return {kk: st(r, d - 1) for kk in 'ab'[: r.randrange(3)]}

      root = [[[num(r) for _ in range(r.randrange(4))] for _ in range(r.randrange(3))] for _ in range(r.randrange(1, 4))]
      extra = st(r, 3)
      snap = repr((root, extra))
      ids = [id(x) for x in root]
      w = k.view(root)[:][:][:]
      before = w.get()
      ops = [
          lambda: w.flatten(), lambda: w.implode(2), lambda: w.group_by(sort=True), lambda: w.collapse(2), lambda: w.select(w > 0),
          lambda: w | 5, lambda: (w == 1), lambda: w.take(0), lambda: w.map(lambda x: x + 1), lambda: k.view(root)[:][0], lambda: k.view(root)[:1],
          lambda: k.view(root)[:].expand_to(w), lambda: k.deep_map(lambda x: x, k.view(extra)), lambda: k.view(extra).deep_clone(), lambda: k.map(lambda *t: 0, w, k.view(root)[:], ndim=1),
          lambda: w.flatten(1, 1).flatten(0, 1), lambda: repr(w), lambda: k.align(w, k.view(root)),
      ]
      for i in r.sample(range(len(ops)), 6):
        try:
          ops[i]()
        except (TypeError, ValueError):
          pass
        run.expect(repr((root, extra)) == snap and [id(x) for x in root] == ids, f'read-only operation #{i} modified the viewed objects', snap)
        run.expect(w.get() is before, f'read-only operation #{i} changed the view', snap)
        run.count('readonly_ops')
      wit = [op, snap]
      nontriv = True
    else:
      inner = [1, {'x': [2]}]
      objs = [[inner, inner], Obj(1, a=inner), {'k': inner}]
      v = gen_view(r, lambda r: r.choice(objs + [None, 3]))
      w = real(v)
      snap = repr(w.get())
      c = k.deep_clone(w) if r.random() < 0.5 else w.deep_clone()
      run.expect(repr(c.get()) == snap and c.get_depth() == v.depth, 'a deep clone differs from its source', snap)
      cl = M.from_nested(c.get(), v.depth).items
      al = {}
      for a, b in zip(v.items, cl):
        if isinstance(a, (list, dict, Obj)):
          run.expect(a is not b, 'a deep clone shares a mutable object with its source', snap)
          run.expect(al.setdefault(id(a), b) is b, 'aliased objects were cloned apart', snap)
          if isinstance(b, list):
            run.expect(b[0] is b[1], 'aliasing inside a cloned object is lost', snap)
            b[0].append('changed')
      run.expect(repr(w.get()) == snap, 'changing the clone changed the source', snap)
      wit = [op, snap]
      nontriv = any(isinstance(x, (list, dict, Obj)) for x in v.items)
    run.saw(repr(wit) if nontriv else None, wit if nontriv and len(repr(wit)) < 300 else None)


@prop('V04', min_eval=100, min_distinct=50)
def native(run):
  run.rule = (
      'the native mapper is rebuilt with address+undefined sanitizers and driven in a subprocess with hostile'
      ' callbacks (raising at any call, dropping references, collecting garbage, recursing into the mapper,'
      ' mutating arguments) and malformed arguments; reference counts of every participating object and the'
      ' number of allocated blocks are compared before and after; non-trivial when a callback raised or the'
      ' arguments were malformed'
  )
  ext = cpp.view_ext('asan')
  lib = subprocess.run(['g++', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
  ub = subprocess.run(['g++', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
  stdcpp = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
  out = os.path.join(vp.BUILD, f'v04-{os.getpid()}.json')
  env = dict(os.environ, LD_PRELOAD=f'{os.path.realpath(lib)} {os.path.realpath(stdcpp)}', PYTHONMALLOC='malloc', VP_VIEW_EXT=ext,
             ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
  n = 1500 if run.quick else 40000
  try:
    p = subprocess.run([vp.PY, os.path.join(vp.VERIF, 'checks', 'viewnative.py'), str(run.seed), str(n), str(run.budget), out], env=env, capture_output=True, text=True, timeout=run.budget * 4 + 120)
    log = p.stdout[-3000:] + p.stderr[-6000:]
    if 'AddressSanitizer' in log or 'runtime error:' in log:
      run.fail('the sanitizer reported an error in the native mapper', log)
    if p.returncode < 0:
      run.fail(f'the process driving the native mapper died with signal {-p.returncode}', log)
    if not os.path.exists(out):
      raise vp.Inconclusive('native driver gave no result: ' + log)
    res = json.load(open(out))
  except subprocess.TimeoutExpired:
    raise vp.Inconclusive('native driver timed out') from None
  finally:
    if os.path.exists(out):
      os.remove(out)
  for sig in res['signatures']:
    run.saw(sig)
  run.evaluations += res['trivial']
  run.samples = res['samples']
  for a, b in res['counters'].items():
    run.count(a, b)
  if res['violation']:
    run.fail(res['violation'], res['witness'])
