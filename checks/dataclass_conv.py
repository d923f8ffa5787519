"""D01, D02, U01: typed conversion helpers and callable unwrapping."""
import collections.abc
import dataclasses
import functools
import itertools
import sys
import threading
import types
import typing
from typing import Any, Optional, Union

import repoenv
from vp import prop

repoenv.setup_path()
from koladata.base.py_conversions import dataclasses_util as du  # pylint: disable=g-import-not-at-top
from koladata.util import kd_functools


@dataclasses.dataclass
class Leaf:
  a: int


@dataclasses.dataclass
class Leaf2:
  a: str


PRIMS = [int, str, float, bytes, bool]


def gen_inner(r, d=2):
  """(annotation, kind) without Optional at the top."""
  k = r.randrange(9 if d else 5)
  if k <= 1:
    return r.choice(PRIMS), 'prim'
  if k == 2:
    return r.choice([Leaf, Leaf2]), 'dc'
  if k == 3:
    return types.SimpleNamespace, 'ns'
  if k == 4:
    return Any, 'any'
  i1, i2 = gen_any(r, d - 1)[0], gen_any(r, d - 1)[0]
  return r.choice([list[i1], dict[str, i1], tuple[i1, ...], dict[i1, i2], tuple[i1, i2], set[int], collections.abc.Sequence[i1], collections.abc.Mapping[str, i2]]), 'generic'


def gen_any(r, d=2):
  """(annotation, expected tuple or 'error' if for_primitive / otherwise)."""
  if r.random() < 0.35:
    t, k = gen_inner(r, d)
    form = r.randrange(4)
    if t is Any:
      ann = Optional[Any]
    elif form == 0:
      ann = Optional[t]
    elif form == 1:
      ann = t | None
    elif form == 2:
      ann = None | t
    else:
      ann = Union[None, t]
    return ann, 'opt', (None if t is Any else t)
  if r.random() < 0.12:
    ann = r.choice([Union[int, str], int | str, int | str | None, Union[int, str, float], Leaf | Leaf2, Union[Leaf, None, int]])
    return ann, 'badunion', None
  t, k = gen_inner(r, d)
  return t, k, t


def decay(ann, kind, t):
  if kind == 'badunion':
    return 'ValueError'
  if kind == 'any':
    return (None, True)
  if kind == 'opt':
    return (t, True)
  return (t, False)


def field_expect(ann, kind, t, for_primitive):
  if kind == 'badunion':
    return 'ValueError'
  if kind == 'any':
    return (None, True)
  if kind == 'opt':
    return (t, True)
  if kind == 'prim' and not for_primitive:
    return 'ValueError'
  return (t, False)


def call(*a):
  try:
    return du.get_class_field_type(*a)
  except ValueError:
    return 'ValueError'


MOD = types.ModuleType('vp_fwd_mod')
sys.modules['vp_fwd_mod'] = MOD
exec(
    '''
import dataclasses
from typing import Any, Optional
@dataclasses.dataclass
class Node:
  value: "int"
  next: "Node | None"
  kids: "list[Node]"
  opt: "Optional[Node]"
  table: "dict[str, Node]"
  self_: "Node"
  anyv: "Any"
''',
    MOD.__dict__,
)


@prop('D01', min_eval=500, min_distinct=200)
def field_types(run):
  run.rule = (
      'random dataclasses (inheritance, redefinition, same-named classes, self-referring string annotations)'
      ' whose annotations are built together with their expected meaning (plain, optional in four spellings,'
      ' containers, Any, namespaces, unsupported unions); every field query, cold and with a shared hint'
      ' cache, is compared with the meaning by construction; non-trivial when the class has an optional or'
      ' container field'
  )
  shared = {}
  keep = []
  for case in run.cases(6000, 60000):
    r = run.sub(case)
    n = r.randrange(1, 6)
    fields = [(f'f{i}',) + gen_any(r) for i in range(n)]
    base_fields = [(f'f{i}',) + gen_any(r) for i in range(r.randrange(0, 3))]
    name = r.choice(['A', 'B', f'C{case}'])
    base = dataclasses.make_dataclass(name, [(f[0], f[1], None) for f in base_fields]) if base_fields else None
    if r.random() < 0.5:
      cls = dataclasses.make_dataclass(name, [(f[0], f[1], None) for f in fields], bases=(base,) if base else ())
    else:
      ns = {'__annotations__': {f[0]: f[1] for f in fields}}
      ns.update({f[0]: None for f in fields})
      cls = dataclasses.dataclass(type(name, (base,) if base else (), ns))
    keep.append(cls)
    if len(keep) > 300:
      shared.clear()
      keep.clear()
    exp = {f[0]: f for f in base_fields}
    exp.update({f[0]: f for f in fields})
    queries = list(exp) + ['absent', '__items__', '__keys__', '__values__']
    r.shuffle(queries)
    for q in queries + queries[:2]:
      for prim in (True, False):
        want = field_expect(*exp[q][1:], prim) if q in exp else None
        for cache in ({}, shared):
          got = call(cls, q, prim, cache)
          run.expect(got == want and type(got) is type(want), f'field {q}: {exp.get(q, (q, "absent"))[1]!r} (for_primitive={prim}) resolved to {got!r}, expected {want!r}', {'fields': repr(exp), 'cached': cache is shared})
    run.count('field_queries', len(queries) * 4)
    # element types of containers
    a1, a2 = gen_any(r), gen_any(r)
    for ann, key, want in [
        (list[a1[0]], '__items__', decay(*a1)),
        (tuple[a1[0], ...], '__items__', decay(*a1)),
        (collections.abc.Sequence[a1[0]], '__items__', decay(*a1)),
        (typing.Sequence[a1[0]], '__items__', decay(*a1)),
        (dict[str, a1[0]], '__values__', decay(*a1)),
        (dict[a1[0], a2[0]], '__keys__', decay(*a1)),
        (dict[a1[0], a2[0]], '__values__', decay(*a2)),
        (collections.abc.Mapping[a1[0], a2[0]], '__keys__', decay(*a1)),
        (typing.Mapping[a1[0], a2[0]], '__values__', decay(*a2)),
        (dict[str, a1[0]], '__items__', 'ValueError'),
        (list[a1[0]], '__keys__', 'ValueError'),
        (list[a1[0]], '__values__', 'ValueError'),
        (tuple[int, str], '__items__', 'ValueError'),
        (tuple[int, str, float], '__items__', 'ValueError'),
        (set[int], '__items__', 'ValueError'),
        (int, '__items__', 'ValueError'),
        (None, r.choice(queries), (None, True)),
    ]:
      prim = r.random() < 0.5
      got = call(ann, key, prim, r.choice([{}, shared]))
      run.expect(got == want, f'{key} of {ann!r} resolved to {got!r}, expected {want!r}', None)
      run.count('container_queries')
    for q in ('x', '__items__'):
      run.expect(call(types.SimpleNamespace, q, True, {}) == (None, True), 'namespace primitive', q)
      run.expect(call(types.SimpleNamespace, q, False, {}) == (types.SimpleNamespace, True), 'namespace struct', q)
    N = MOD.Node
    for q, want in [('value', (int, False)), ('next', (N, True)), ('kids', (list[N], False)), ('opt', (N, True)), ('table', (dict[str, N], False)), ('self_', (N, False)), ('anyv', (None, True)), ('nope', None)]:
      run.expect(call(N, q, True, r.choice([{}, shared])) == want, f'string annotation of {q}', None)
    t = a1
    try:
      got = du.maybe_decay_optional(t[0])
    except ValueError:
      got = 'ValueError'
    run.expect(got == decay(*t), f'optional decay of {t[0]!r} gave {got!r}', None)
    run.saw(repr(sorted((k, repr(v[1])) for k, v in exp.items())) if any(v[2] in ('opt', 'generic') for v in exp.values()) else None, repr([(k, repr(v[1])) for k, v in exp.items()])[:300])


def gen_value(r, d=2):
  k = r.randrange(9 if d else 5)
  if k <= 1:
    return r.choice([0, 1, 2, 1.0, 'a', 'b', '', None, b'x', True])
  if k == 2:
    return (r.randrange(3), r.choice('ab'))
  if k <= 4:
    return r.randrange(4)
  if k == 5:
    return [gen_value(r, d - 1) for _ in range(r.randrange(3))]
  if k == 6:
    return {r.choice('xyz'): gen_value(r, d - 1) for _ in range(r.randrange(3))}
  names = r.sample(['a', 'b', 'c'], r.randrange(1, 3))
  vals = {n: gen_value(r, d - 1) for n in names}
  return Spec(names, vals)


class Spec:
  """Description of an object to synthesize."""

  def __init__(self, names, vals):
    self.names, self.vals = names, vals

  def __repr__(self):
    return f'Obj({self.names}, {self.vals})'


def build(v, r):
  if isinstance(v, Spec):
    cls = du.make_dataclass(r.choice(['Obj', 'Other', 'A']), list(v.names))
    kw = {n: build(x, r) for n, x in v.vals.items() if x is not None or r.random() < 0.5}
    if r.random() < 0.5:
      return cls(**kw)
    o = cls()
    for n, x in kw.items():
      setattr(o, n, x)
    return o
  if isinstance(v, list):
    return [build(x, r) for x in v]
  if isinstance(v, dict):
    return {k: build(x, r) for k, x in v.items()}
  return v


def canon(v):
  if isinstance(v, Spec):
    return {n: canon(v.vals.get(n)) for n in v.names}
  if isinstance(v, list):
    return [canon(x) for x in v]
  if isinstance(v, dict):
    return {k: canon(x) for k, x in v.items()}
  return v


def mutate(v, r):
  """A different object description (changed one spot)."""
  if isinstance(v, Spec):
    s = Spec(list(v.names), dict(v.vals))
    if r.random() < 0.25:
      extra = r.choice([n for n in 'abcdz' if n not in s.names])
      s.names = s.names + [extra]
      s.vals[extra] = r.choice([None, 5])
    else:
      n = r.choice(s.names)
      s.vals[n] = mutate(s.vals.get(n), r)
    return s
  if isinstance(v, list) and v:
    return v[:-1] + [mutate(v[-1], r)]
  return ('changed', r.random())


@prop('D02', min_eval=500, min_distinct=200)
def synthesized(run):
  run.rule = (
      'random nested object descriptions are synthesized twice under different class names and attribute'
      ' orders, and once with one spot changed; equality, inequality, symmetry, field listing and defaults'
      ' are compared with the descriptions; non-trivial when the object has nested structure'
  )
  for case in run.cases(8000, 80000):
    r = run.sub(case)
    names = r.sample(['a', 'b', 'c', 'd', 'x1', '_p', 'ünï', 'self_'], r.randrange(0, 5))
    sp = Spec(names, {n: gen_value(r) for n in names})
    x = build(sp, r)
    sp2 = Spec(r.sample(sp.names, len(sp.names)), sp.vals)
    y = build(sp2, r)
    run.expect((x == y) is True and (y == x) is True and (x != y) is False, 'equal contents under another class name or attribute order do not compare equal', repr(sp))
    run.expect(x == x, 'an object is not equal to itself', repr(sp))
    z_sp = mutate(sp, r) if names else Spec(['q'], {'q': 1})
    if canon(z_sp) != canon(sp):
      z = build(z_sp, r)
      run.expect((x == z) is False and (z == x) is False and (x != z) is True, 'different contents compare equal', [repr(sp), repr(z_sp)])
      run.count('inequalities')
    # a declared dataclass with the same fields
    D = dataclasses.make_dataclass('Decl', [(n, Any, None) for n in sp.names])
    d = D(**{n: build(sp.vals[n], r) for n in sp.names})
    run.expect((x == d) is True, 'not equal to a declared dataclass of the same contents', repr(sp))
    for other in (None, 5, 'a', {}, canon(sp), types.SimpleNamespace(**{n: 1 for n in names}), [x], D, type(x), object()):
      try:
        run.expect((x == other) is False, f'equal to a non-dataclass {other!r}', repr(sp))
      except TypeError as e:
        run.fail(f'comparison with {other!r} raised {e!r}', repr(sp))
    fv = du.fields_names_and_values(x)
    run.expect([n for n, _ in fv] == list(sp.names), f'listed names {[n for n, _ in fv]} are not the declared order', repr(sp))
    run.expect(all(v is getattr(x, n) for n, v in fv), 'listed values are not the attribute values', repr(sp))
    ns = types.SimpleNamespace(**{n: build(sp.vals[n], r) for n in sp.names})
    fvn = du.fields_names_and_values(ns)
    run.expect([n for n, _ in fvn] == list(sp.names) and all(v is getattr(ns, n) for n, v in fvn), 'namespace listing', repr(sp))
    for other in (None, 5, 'a', {'a': 1}, [1], (1,), object(), lambda: 0):
      run.expect(du.fields_names_and_values(other) is None, f'{other!r} has no fields', None)
    cls = du.make_dataclass('Fresh', list(names))
    run.expect(all(getattr(cls(), n) is None for n in names), 'unset attributes are not None', names)
    try:
      cls(not_a_field=1)
      run.fail('an undeclared attribute was accepted', names)
    except TypeError:
      pass
    run.expect(cls.__name__ == 'Fresh', 'class name', None)
    run.saw(repr(sp) if 'Obj' in repr(sp.vals) or '[' in repr(sp.vals) else None, repr(sp)[:200])


class CallableObj:

  def __init__(self, tag):
    self.tag = tag

  def __call__(self):
    return self.tag


@dataclasses.dataclass
class UnhashableCallable:
  tag: int

  def __call__(self):
    return self.tag


class EqualCallable:
  """All instances compare equal."""

  def __eq__(self, o):
    return isinstance(o, EqualCallable)

  def __hash__(self):
    return 1

  def __call__(self):
    return 0


@prop('U01', min_eval=300, min_distinct=100)
def unwrap(run):
  run.rule = (
      'random chains of wrapped callables (functions, lambdas, methods, partials, callable objects, classes),'
      ' optionally ending in a non-callable, or closing into a cycle of any entry and length; the result is'
      ' compared with the end of the chain, termination is observed in a watched thread; non-trivial when'
      ' the chain has at least two links'
  )
  for case in run.cases(6000, 60000):
    r = run.sub(case)
    n = r.choice([0, 1, 2, 3, 5, 10, 60])
    nodes = []
    for i in range(n + 1):
      k = r.randrange(7)
      if k == 5:
        nodes.append(UnhashableCallable(0))
      elif k == 6:
        nodes.append(EqualCallable())
      elif k == 0:
        def f(i=i):
          return i
        nodes.append(f)
      elif k == 1:
        nodes.append(lambda i=i: i)
      elif k == 2:
        nodes.append(CallableObj(i))
      elif k == 3:
        nodes.append(type(f'K{i}', (), {}))
      else:
        nodes.append(functools.partial(int, i))
    for a, b in zip(nodes, nodes[1:]):
      a.__wrapped__ = b
    end = r.choice(['plain', 'plain', 'noncallable', 'cycle'])
    if end == 'noncallable':
      nodes[-1].__wrapped__ = r.choice([5, None, 'x', []])
    entry = 0
    if end == 'cycle':
      entry = r.randrange(n + 1)
      nodes[-1].__wrapped__ = nodes[entry]
    box = []
    t = threading.Thread(target=lambda: box.append(limited(nodes[0], n)), daemon=True)
    t.start()
    t.join(30)
    run.expect(bool(box), f'unwrapping a chain of {n + 1} callables ({end}) did not terminate', [n, end, entry])
    got = box[0]
    if isinstance(got, BaseException):
      run.fail(f'unwrap raised {got!r}', [n, end, entry])
    if end == 'cycle':
      run.expect(any(got is x for x in nodes[entry:]), 'unwrapping a cycle left the cycle', [n, entry])
    else:
      run.expect(got is nodes[-1], f'unwrap stopped at link {[i for i, x in enumerate(nodes) if x is got]} of {n}', [n, end])
    run.expect(kd_functools.unwrap(got) is got or end == 'cycle', 'unwrap is not idempotent', [n, end])
    run.count('links', n)
    run.count('chains_' + end)
    run.saw(repr((n, end, entry, [type(x).__name__ for x in nodes])) if n >= 2 else None, {'links': n, 'end': end, 'entry': entry})
  # functools.wraps stacks around one function
  def base():
    return 'base'

  f = base
  for _ in range(30):
    def deco(g):
      @functools.wraps(g)
      def w(*a):
        return g(*a)
      return w
    f = deco(f)
    run.expect(kd_functools.unwrap(f) is base, 'decorated function not unwrapped', None)


class _Stop(BaseException):
  pass


def limited(f, n):
  """Runs unwrap with a step limit, so a non-terminating loop is observed."""
  steps = itertools.count()
  limit = 1000 + 50 * n

  def tr(frame, event, arg):
    if next(steps) > limit:
      raise _Stop('step limit')
    return tr

  sys.settrace(tr)
  try:
    return kd_functools.unwrap(f)
  except BaseException as e:  # pylint: disable=broad-except
    return e
  finally:
    sys.settrace(None)
