"""S01-S03, N01: schema graph, paths, presence masks and minimal bags, manager views.

All run the real code on the kd model. The oracles are written here and share
nothing with the code: a graph over (schema, action) nodes, a hand parser for
path strings, direct inspection of the model's bags, and nested Python values
for what filtering keeps.
"""
import base64
import re

import repoenv
import vp

repoenv.setup_path()
import minikd  # noqa: E402

kd = minikd.install()
import inline  # noqa: E402
import memfs  # noqa: E402
import storagegen as g  # noqa: E402
import storage_slices as ss  # noqa: E402
from koladata.ext.storage import data_slice_manager_view as dmv  # noqa: E402
from koladata.ext.storage import data_slice_path as dsp  # noqa: E402
from koladata.ext.storage import schema_helper as sh  # noqa: E402
from koladata.ext.storage import simple_in_memory_data_slice_manager as simple  # noqa: E402
from koladata.ext.storage import stubs_and_minimal_bags_lib as stubs  # noqa: E402
from koladata.ext.storage import value_presence_util as vpu  # noqa: E402

R = minikd.REMOVED


# -- S01


class Graph:
  """The schema graph of a schema: nodes are schema ids, or one leaf per use."""

  def __init__(self, bag, root, parent=None):
    self.children, self.paths = {}, {}
    first = self.node(parent, root)
    todo = [(first, root, ())]
    self.children[first] = set()
    self.paths[first] = ()
    self.schema = {first: root}
    self.edge = {}
    while todo:
      n, s, p = todo.pop(0)
      for a, c in g.edges(bag, s):
        cn = self.node((s, a), c)
        self.children[n].add(cn)
        self.edge.setdefault((n, cn), []).append((s, a, c))
        if cn not in self.children:
          self.children[cn] = set()
          self.paths[cn] = p + (a,)
          self.schema[cn] = c
          todo.append((cn, c, p + (a,)))

  @staticmethod
  def node(parent, s):
    if isinstance(s, minikd.ItemId):
      return ('id', s)
    return ('leaf', parent, s.name)

  def parents(self, n):
    return {p for p, cs in self.children.items() if n in cs}

  def up(self, ns):
    out, todo = set(), [p for n in ns for p in self.parents(n)]
    while todo:
      x = todo.pop()
      if x not in out:
        out.add(x)
        todo += self.parents(x)
    return out

  def down(self, ns):
    out, todo = set(), [c for n in ns for c in self.children[n]]
    while todo:
      x = todo.pop()
      if x not in out:
        out.add(x)
        todo += self.children[x]
    return out


def schema_facts(bag):
  """(schema id, attribute) -> value, as stated by a schema bag."""
  return {(s, n): x for s, m in bag._a.items() if s.kind == 's' for n, x in m.items()}


@vp.prop('S01', min_eval=10, min_distinct=10, shards=6)
def s01(run):
  run.rule = 'distinct schemas (shared, recursive, list/dict/entity, hostile attribute names) whose whole graph was compared with the model graph'
  for i in run.cases(800, 20000, min_n=20):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    root = ss.first_root(rng)
    root = kd.new() if root is None else root
    h = ss.History(rng, root, rng.randint(1, 9))
    van = h.vanilla[-1]
    schema = van.get_schema()
    gr = Graph(van._b, van._s)
    H = sh.SchemaHelper(schema)
    what = f'schema after {h.text()}'
    run.expect(g.snap(H.get_schema()) == g.snap(schema), f'{what}: get_schema() is another schema')
    # Names: one per node, equal exactly when the nodes are.
    name = {}
    for n, p in gr.paths.items():
      name[n] = H.get_schema_node_name_for_data_slice_path(g.path(p))
    back = {}
    for n, x in name.items():
      run.expect(x not in back, f'{what}: {ss.show(gr.paths[n])} and {ss.show(gr.paths[back.get(x, n)])} have the same node name {x}')
      back[x] = n
    for p, s in rng.sample(g.all_paths(van, 5, 200), min(20, len(g.all_paths(van, 5, 200)))):
      n = gr.node(_parent(van, p), s)
      run.expect(H.get_schema_node_name_for_data_slice_path(g.path(p)) == name[n], f'{what}: the node name of {ss.show(p)} is not that of {ss.show(gr.paths[n])}, which is the same node')
      run.expect(H.exists(g.path(p)) is True, f'{what}: exists({ss.show(p)}) is not True')
    run.expect(set(H.get_all_schema_node_names()) == set(back), f'{what}: the node names are not those of the schema graph', [sorted(set(H.get_all_schema_node_names()) ^ set(back))])
    leaves = {x for x, n in back.items() if not gr.children[n]}
    run.expect(set(H.get_leaf_schema_node_names()) == leaves, f'{what}: wrong leaves')
    run.expect(set(H.get_non_leaf_schema_node_names()) == set(back) - leaves, f'{what}: wrong inner nodes')

    def names(ns):
      return {name[n] for n in ns}

    for x, n in back.items():
      run.expect(set(H.get_child_schema_node_names(x)) == names(gr.children[n]), f'{what}: wrong children of {x}')
      run.expect(set(H.get_parent_schema_node_names(x)) == names(gr.parents(n)), f'{what}: wrong parents of {x}')
      run.expect(H.is_leaf_schema_node_name(x) is (x in leaves) and H.is_non_leaf_schema_node_name(x) is (x not in leaves) and H.is_valid_schema_node_name(x) is True, f'{what}: {x} is misclassified')
      sub = H.get_subschema_at(x)
      run.expect(g.snap(sub) == g.snap(g.evaluate(van, gr.paths[n]).get_schema()), f'{what}: get_subschema_at({x}) is not the schema at {ss.show(gr.paths[n])}')
      run.count('nodes')
    everything = sorted(back)
    ids = {n[1] for n in gr.children if n[0] == 'id'}  # (the metadata has a schema of its own)
    for _ in range(4):
      pick = set(rng.sample(everything, rng.randint(0, min(4, len(everything)))))
      ns = [back[x] for x in pick]
      run.expect(set(H.get_ancestor_schema_node_names(pick)) == names(gr.up(ns)), f'{what}: wrong ancestors of {sorted(pick)}')
      run.expect(set(H.get_descendant_schema_node_names(pick)) == names(gr.down(ns)), f'{what}: wrong descendants of {sorted(pick)}')
      p1 = [gr.paths[n] for n in ns if rng.random() < 0.5]
      p2 = [gr.paths[n] for n in ns if rng.random() < 0.5]
      n1 = {gr.node(_parent(van, p), _schema(van, p)) for p in p1}
      n2 = {gr.node(_parent(van, p), _schema(van, p)) for p in p2}
      want = n1 | n2 | gr.down(n2)
      want |= gr.up(want)
      got = H.get_schema_node_names_needed_to(populate=[g.path(p) for p in p1], populate_including_descendants=[g.path(p) for p in p2])
      run.expect(set(got) == names(want), f'{what}: wrong nodes needed for {list(map(ss.show, p1))} and everything below {list(map(ss.show, p2))}', sorted(set(got) ^ names(want)))
      # Schema bags: exactly the relationships among the chosen nodes.
      pick2 = rng.choice([pick, names(want)])
      facts = schema_facts(van._b)
      bag = H.get_schema_bag(pick2)
      got = {k: v for k, v in schema_facts(bag).items() if not k[1].startswith('__schema_') and k[0] in ids}
      rel = {(s, _field(a)): c for (a_, b_), es in gr.edge.items() if name[a_] in pick2 and name[b_] in pick2 for s, a, c in es}
      run.expect(got == rel, f'{what}: the schema bag for {sorted(pick2)} relates other schemas than expected', [sorted(map(str, set(got) ^ set(rel)))])
      for k, v in schema_facts(bag).items():
        run.expect(k in facts and _same(facts[k], v), f'{what}: the schema bag says {k} is {v}, the schema has {facts.get(k)}')
      for x in pick2:
        s = gr.schema[back[x]]
        if isinstance(s, minikd.ItemId):
          for meta in ('__schema_name__', '__schema_metadata__'):
            have = van._b._a.get(s, {}).get(meta)
            if have is not None:
              run.expect(_same(have, bag._a.get(s, {}).get(meta)), f'{what}: the schema bag lost the {meta} of {s}')
      run.count('sets')
    for (a, b), es in list(gr.edge.items())[:12]:
      bag = H.get_minimal_schema_bag_for_parent_child_relationship(parent_schema_node_name=name[a], child_schema_node_name=name[b])
      got = {k: v for k, v in schema_facts(bag).items() if not k[1].startswith('__schema_') and k[0] in ids}
      run.expect(got == {(s, _field(x)): c for s, x, c in es}, f'{what}: the relationship bag of {name[a]} and {name[b]} is wrong', str(got))
    # Affected names: everything reachable from the new value, under the attribute.
    ents = [n for n in gr.children if isinstance(gr.schema[n], minikd.ItemId) and g.kind_of(van._b, gr.schema[n]) == 'entity']
    for _ in range(2):
      n = rng.choice(ents)
      attr = rng.choice(h.gen.attrs)
      vs = h.gen.schema()
      vb = vs._b if vs._b is not None else minikd.DataBag()
      vgr = Graph(vb, vs._v[0], (gr.schema[n], ('a', attr)))
      got = set(H.get_affected_schema_node_names(at_schema_node_name=name[n], attr_name=attr, attr_value_schema=vs))
      run.expect(len(got) == len(vgr.children), f'{what}: an update of {attr} with schema {vs} affects {len(got)} nodes, expected {len(vgr.children)}')
      # The same nodes, named by the schema after the update, must be among them.
      u = van.updated(minikd.attrs(minikd._item(gr.schema[n], minikd.C_SCHEMA, van._b), **{attr: vs}))
      H2 = sh.SchemaHelper(minikd._item(van._s, minikd.C_SCHEMA, u._b))
      base = gr.paths[n] + (('a', attr),)
      if _schema(u, gr.paths[n]) == gr.schema[n]:
        for x in list(vgr.paths.values())[:10]:
          try:
            nm = H2.get_schema_node_name_for_data_slice_path(g.path(base + x))
          except ValueError:
            continue
          if _schema(u, base + x) == _walk(vb, vs._v[0], x):
            run.expect(nm in got, f'{what}: setting {attr} at {ss.show(gr.paths[n])} to {vs} provides {ss.show(base + x)}, which is not among the affected nodes')
        run.count('affected_sets')
    inner = [x for x in back if x not in {name[n] for n in ents}]
    for x in rng.sample(inner, min(2, len(inner))):
      ss.refused(run, f'{what}: affected nodes at {x}, which is no entity', lambda: H.get_affected_schema_node_names(at_schema_node_name=x, attr_name='a', attr_value_schema=kd.INT32))
    for bad in ('', 'nope', '.:INT32', everything[0] + 'x', '__NONE__'):
      if bad not in back:
        run.expect(H.is_valid_schema_node_name(bad) is False, f'{what}: {bad!r} is a valid node name')
        for f in (H.get_child_schema_node_names, H.get_parent_schema_node_names, H.get_subschema_at, lambda b: H.get_ancestor_schema_node_names({b}),
                  lambda b: H.get_descendant_schema_node_names({b}), lambda b: H.get_schema_bag({b}), H.is_leaf_schema_node_name):
          ss.refused(run, f'{what}: the invalid node name {bad!r}', lambda: f(bad))
    for p in ss.bad_paths(van, rng, g.all_paths(van, 4, 100))[:3]:
      run.expect(H.exists(g.path(p)) is False, f'{what}: exists({ss.show(p)}) although the schema has no such path')
      ss.refused(run, f'{what}: nodes needed for the invalid path {ss.show(p)}', lambda: H.get_schema_node_names_needed_to(populate=[g.path(p)]))
      ss.refused(run, f'{what}: nodes needed below the invalid path {ss.show(p)}', lambda: H.get_schema_node_names_needed_to(populate_including_descendants=[g.path(p)]))
    run.saw(sorted((str(gr.schema[n]), gr.paths[n]) for n in gr.paths), f'{len(gr.paths)} nodes: ' + what[:200] if i < 3 else None)


def _field(a):
  return a[1] if a[0] == 'a' else {'i': '__items__', 'k': '__keys__', 'v': '__values__'}[a[0]]


def _same(a, b):
  return a == b or minikd._key(a) == minikd._key(b)


def _walk(bag, s, p):
  for a in p:
    nxt = [c for b, c in g.edges(bag, s) if b == a]
    if not nxt:
      return None
    s = nxt[0]
  return s


def _schema(ds, p):
  return _walk(ds._b, ds._s, p)


def _parent(ds, p):
  return None if not p else (_schema(ds, p[:-1]), p[-1])


# -- S02

WILD = ['', ' ', 'a', 'get_keys', 'get_values', 'get_attr', 'get_attr(', '[:]', '[:', ':]', '.', '..', '"', "'", '\\', '()', 'é', 'ﬁ', 'ª', 'x²', '1a', 'a-b', 'λ', '日本', '\x00', '\n',
        'class', 'None', '_', '__a__', 'a"b', "a'b", 'a)b', '")', 'YQ==', 'self', '\U0001F600', 'x' * 60, 'get_attr("YQ==")', 'İ', 'a\u0301']


def own_parse(s):
  """Actions, None if malformed, or 'unsure' (base64 whose validity is not ours to say)."""
  out, i = [], 0
  while i < len(s):
    r = s[i:]
    if r.startswith('.get_keys()'):
      out.append(('k',))
      i += 11
    elif r.startswith('.get_values()'):
      out.append(('v',))
      i += 13
    elif r.startswith('[:]'):
      out.append(('i',))
      i += 3
    elif r.startswith('.get_attr('):
      q = r[10:11]
      if q not in ('"', "'"):
        return None
      end = r.find(q, 11)
      if end < 0 or r[end + 1:end + 2] != ')':
        return None
      body = r[11:end]
      if re.search(r'[^A-Za-z0-9+/=]', body):
        return None if not re.search(r'[-_\s]', body) else 'unsure'
      try:
        raw = base64.b64decode(body, validate=True)
        if base64.b64encode(raw).decode() != body:
          return 'unsure'
      except ValueError:
        return 'unsure'
      try:
        out.append(('a', raw.decode('utf8')))
      except UnicodeDecodeError:
        return None
      i += end + 2
    elif r.startswith('.'):
      m = re.search(r'\.|\[:\]', r[1:], re.S)
      nm = r[1:] if m is None else r[1:1 + m.start()]
      if not nm.isidentifier():
        return None
      out.append(('a', nm))
      i += 1 + len(nm)
    else:
      return None
  return tuple(out)


def actions_of(P):
  out = []
  for a in P.actions:
    if isinstance(a, dsp.GetAttr):
      out.append(('a', a.attr_name))
    else:
      out.append(({dsp.ListExplode: 'i', dsp.DictGetKeys: 'k', dsp.DictGetValues: 'v'}[type(a)],))
  return tuple(out)


def rand_name(rng):
  r = rng.random()
  if r < 0.4:
    return rng.choice(WILD)
  if r < 0.7:
    return rng.choice(WILD) + rng.choice(WILD)
  return ''.join(rng.choice('ab_.[]:()"\'=\\ é日\U0001F600\tQ+/0') for _ in range(rng.randint(0, 9)))


def rand_actions(rng, n=None):
  out = []
  for _ in range(rng.randint(0, 6) if n is None else n):
    out.append(rng.choice([('i',), ('k',), ('v',), ('a', rand_name(rng)), ('a', rand_name(rng)), ('a', rng.choice(g.ATTRS))]))
  return tuple(out)


def spell(rng, actions):
  """Any documented spelling of the path."""
  out = []
  for a in actions:
    if a[0] != 'a':
      out.append({'i': '[:]', 'k': '.get_keys()', 'v': '.get_values()'}[a[0]])
    elif a[1].isidentifier() and rng.random() < 0.6:
      out.append('.' + a[1])
    else:
      q = rng.choice('"\'')
      out.append(f'.get_attr({q}{base64.b64encode(a[1].encode()).decode()}{q})')
  return ''.join(out)


@vp.prop('S02', min_eval=300, min_distinct=200, shards=6)
def s02(run):
  run.rule = 'distinct path strings (printed, respelled, mutated, random) parsed and compared with our own parser'
  P = dsp.DataSlicePath
  for i in run.cases(20000, 900000, min_n=400):
    rng = run.sub(i)
    acts = rand_actions(rng)
    p = g.path(acts)
    s = p.to_string()
    run.expect(own_parse(s) == acts, f'the path {acts} is printed as {s!r}, which does not denote it')
    run.expect(str(p) == s and p.depth == len(acts), f'str or depth of {acts} is {str(p)!r}, {p.depth}')
    q = P.parse_from_string(s)
    run.expect(q == p and hash(q) == hash(p) and actions_of(q) == acts, f'{acts} printed as {s!r} parses as {actions_of(q)}')
    t = spell(rng, acts)
    q = P.parse_from_string(t)
    run.expect(actions_of(q) == acts and q == p, f'{t!r} parses as {actions_of(q)}, expected {acts}')
    run.saw(s)
    other = rand_actions(rng)
    o = g.path(other)
    run.expect((p == o) is (acts == other), f'{acts} == {other} is {p == o}')
    c = p.concat(o)
    run.expect(actions_of(c) == acts + other and actions_of(p) == acts and actions_of(o) == other, f'concat of {acts} and {other} is {actions_of(c)}')
    run.expect(P.parse_from_string(p.to_string() + o.to_string()) == c, f'{p.to_string()!r} followed by {o.to_string()!r} does not parse as their concatenation')
    if other:
      e = p
      for a in o.actions:
        e = e.extended_with_action(a)
      run.expect(e == c and actions_of(p) == acts, f'extending {acts} with {other} gives {actions_of(e)}')
    # Malformed strings.
    r = rng.random()
    if r < 0.5:
      chars = list(t)
      for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, len(chars))
        w = rng.random()
        if w < 0.4 and chars:
          del chars[min(k, len(chars) - 1)]
        elif w < 0.8:
          chars.insert(k, rng.choice('.[]:()"\'=ag _é\n'))
        elif chars:
          j = rng.randrange(len(chars))
          k = min(k, len(chars) - 1)
          chars[k], chars[j] = chars[j], chars[k]
      u = ''.join(chars)
    elif r < 0.75:
      u = t + rng.choice(WILD) + rng.choice(['', '[:]', '.a', '.get_keys()'])
    else:
      u = ''.join(rng.choice(['.', '[:]', '.a', 'a', '.get_attr(', '"', "'", 'YQ==', ')', '.get_keys()', '.get_values()', '.get_keys', '(', ' ', '!', '/w==', '.get_attr("YQ==")', '.get_attr(\'YQ==")']) for _ in range(rng.randint(1, 5)))
    want = own_parse(u)
    try:
      got = actions_of(P.parse_from_string(u))
    except ValueError:
      got = None
    if want != 'unsure':
      run.expect(got == want, f'{u!r} parses as {got}, expected {want}')
      run.count('malformed_refused' if want is None else 'mutants_accepted')
    elif got is not None:
      run.expect(P.parse_from_string(g.path(got).to_string()) == g.path(got), f'{u!r} is accepted as {got}, which does not round-trip')
      run.count('unsure')
    run.saw(u, u if i < 4 else None)
  # Evaluation on slices.
  for i in run.cases(150, 4000, frac=1.3):
    rng = run.sub('eval', i)
    minikd.seed_ids(i)
    inline.use(i)
    h = ss.History(rng, kd.new(), rng.randint(2, 6))
    van = h.vanilla[-1]
    for p, s in rng.sample(g.all_paths(van, 5, 120), min(8, len(g.all_paths(van, 5, 120)))):
      got = g.path(p).evaluate(van)
      run.expect(g.snap(got) == g.snap(g.evaluate(van, p)), f'evaluating {ss.show(p)} after {h.text()} gives something else', ss.diff(got, g.evaluate(van, p)))
      run.count('evaluated')
    d = rng.randint(0, 3)
    want = g.all_paths(van, d, 3000)
    if len(want) < 3000:
      got = [actions_of(x) for x in dsp.generate_data_slice_paths_for_arbitrary_data_slice_with_schema(van.get_schema(), d)]
      run.expect(got == [p for p, _ in want], f'the paths up to depth {d} of {van.get_schema()} are generated as {list(map(ss.show, got))[:30]}, expected {[ss.show(p) for p, _ in want][:30]}')


# -- S03


def pick_mask(ds):
  return [v is not None for v in ds._v]


def entity_case(rng, gen):
  """(entity slice, attribute name, per item: 'absent'|'present'|'removed'|None)."""
  schema = gen.schema(1)
  if schema._v[0] is minikd.C_NONE:
    name, values = 'n', []
  name = rng.choice(g.ATTRS)
  ent = minikd.new_schema(**{name: schema, 'zz': kd.INT32})
  n = rng.randint(1, 5)
  items, bag = [], minikd._extract_bag(ent)
  state = {}
  for _ in range(n):
    r = rng.random()
    if r < 0.15:
      items.append(minikd._item(None, ent._v[0], ent._b))
      continue
    if r < 0.3 and items:
      items.append(rng.choice(items))
      continue
    e = minikd.new(schema=ent)
    w = rng.choice(['present', 'missing', 'removed'])
    if w == 'present':
      v = gen.item(schema, 1, missing=0)
      if v._v[0] is None:
        w = 'removed'
      bag = minikd.bags_updated(bag, minikd.attrs(e, True, **{name: v}))
    elif w == 'removed':
      bag = minikd.bags_updated(bag, minikd.attrs(e, True, **{name: kd.item(None, schema) if not isinstance(schema._v[0], minikd.ItemId) else minikd._item(None, schema._v[0], minikd._extract_bag(schema))}))
    else:
      bag._a.get(e._v[0], {}).pop(name, None)
    if rng.random() < 0.5:
      bag = minikd.bags_updated(bag, minikd.attrs(e, True, zz=kd.int32(1)))
    state[e._v[0]] = w
    items.append(e)
  vals = [x._v[0] for x in items]
  shape = ((n,),)
  if rng.random() < 0.3:
    k = rng.randint(0, n)
    shape = ((2,), (k, n - k))
  if n == 1 and rng.random() < 0.3:
    shape = ()
  return minikd._mk(vals, shape, ent._v[0], bag), name, state, schema


@vp.prop('S03', min_eval=30, min_distinct=30, shards=6)
def s03(run):
  run.rule = 'distinct (schema, presence pattern, shape) slices whose masks and minimal bags were compared with the facts of the bag'
  for i in run.cases(4500, 100000, min_n=40):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    gen = g.Gen(rng, kd.new(), aliases=0)
    ds, name, state, schema = entity_case(rng, gen)
    before = minikd.bag_snapshot(ds._b)
    none_schema = schema._v[0] is minikd.C_NONE
    st = [None if v is None else state[v] for v in ds._v]
    what = f'attribute {name!r}: {schema} of entities that have it {st} (shape {ds._shape})'
    P, M, D = vpu.get_present_mask(ds, name), vpu.get_missing_mask(ds, name), vpu.get_removed_mask(ds, name)
    for m, label in ((P, 'present'), (M, 'missing'), (D, 'removed')):
      run.expect(m._shape == ds._shape and m._s is minikd.C_MASK, f'{what}: the {label} mask has another shape or type')
    if not none_schema:
      for m, label in ((P, 'present'), (M, 'missing'), (D, 'removed')):
        run.expect(pick_mask(m) == [x == label for x in st], f'{what}: the {label} mask is {pick_mask(m)}')
    else:
      run.expect(not any(pick_mask(P)), f'{what}: the present mask is {pick_mask(P)}')
    bag = stubs.minimal_bag_associating_entity_with_its_attr_value(ds, name)
    stated = {v for v in ds._v if v is not None and state[v] != 'missing'}
    if not none_schema:
      if not stated:
        run.expect(bag is None, f'{what}: there is a minimal bag although no entity has the attribute')
      else:
        run.expect(bag is not None, f'{what}: no minimal bag although some entities have or removed the attribute')
    if bag is not None:
      raw = {v: ds._b._a[v].get(name) for v in stated}
      got = {(i_, n_): x for i_, m_ in bag._a.items() for n_, x in m_.items() if i_.kind != 's'}
      if not none_schema:
        run.expect(set(got) == {(v, name) for v in stated}, f'{what}: the minimal bag speaks of {sorted(map(str, got))}')
      run.expect(not bag._l and not bag._d, f'{what}: the minimal bag has contents of lists or dicts')
      for v in stated:
        if (v, name) in got:
          a, b = got[v, name], raw[v]
          run.expect((a in (R, None)) == (b in (R, None)) and (a in (R, None) or _same(a, b)), f'{what}: the minimal bag says {a}, the slice {b}')
      # Enough to answer the question, on top of any older opinion.
      if stated and not none_schema:
        old = minikd.attrs(ds, True, **{name: minikd._item(None, schema._v[0], schema._b)})
        up = ds.with_bag(minikd.bags_updated(ds._b, old, bag))
        run.expect([None if x is None else minikd._key(x) for x in up.get_attr(name)._v] == [None if x is None else minikd._key(x) for x in ds.get_attr(name)._v], f'{what}: the minimal bag does not restore the values')
    run.expect(minikd.bag_snapshot(ds._b) == before, f'{what}: the argument was changed')
    ss.refused(run, f'{what}: the mask of an attribute that the schema lacks', lambda: vpu.get_present_mask(ds, 'no such'))
    ss.refused(run, f'{what}: the mask of an attribute that the schema lacks', lambda: vpu.get_missing_mask(ds, 'no such'))
    ss.refused(run, 'the mask of a non-entity', lambda: vpu.get_missing_mask(kd.list([1]), 'a'))
    # Lists: known contents (even empty) versus none at all; dicts: entries.
    ls = gen.schema(1)
    lists, bagl = [], minikd._extract_bag(kd.list_schema(ls))
    known = {}
    for _ in range(rng.randint(1, 4)):
      if rng.random() < 0.2:
        lists.append(None)
        continue
      if lists and rng.random() < 0.25:
        lists.append(rng.choice(lists))
        continue
      items = [gen.item(ls, 1) for _ in range(rng.randint(0, 3))]
      x = kd.list(items, item_schema=ls)
      if rng.random() < 0.7:
        bagl = minikd.bags_updated(bagl, x._b)
        known[x._v[0]] = x._b._l.get(x._v[0], ())
      lists.append(x._v[0])
    L = minikd._mk(lists, ((len(lists),),), kd.list_schema(ls)._v[0], bagl)
    m = vpu.has_info_about_list_items(L)
    what = f'lists of {ls}: {[None if v is None else ("known", len(known[v])) if v in known else "unknown" for v in lists]}'
    run.expect(pick_mask(m) == [v in known for v in lists] and m._shape == L._shape, f'{what}: the mask of known contents is {pick_mask(m)}')
    bag = stubs.minimal_bag_associating_list_with_its_items(L)
    if not any(v in known for v in lists):
      run.expect(bag is None, f'{what}: there is a minimal bag although no contents are known')
    else:
      run.expect(bag is not None and {k: tuple(map(minikd._key, v)) for k, v in bag._l.items()} == {k: tuple(map(minikd._key, v)) for k, v in known.items()}, f'{what}: the minimal bag has {None if bag is None else bag._l}, expected {known}')
      run.expect(not bag._d and not [1 for i_, m_ in bag._a.items() if i_.kind != 's' and m_], f'{what}: the minimal bag contains more than the lists')
    ss.refused(run, 'list contents of an entity', lambda: vpu.has_info_about_list_items(kd.new(a=1)))
    ds_ = kd.dict_schema(kd.STRING, ls if ls._v[0] is not minikd.C_NONE else kd.INT32)
    dicts, bagd, want = [], minikd._extract_bag(ds_), {}
    for _ in range(rng.randint(1, 4)):
      if rng.random() < 0.2:
        dicts.append(None)
        continue
      if dicts and rng.random() < 0.25:
        dicts.append(rng.choice(dicts))
        continue
      x = gen.item(ds_, 1, missing=0)
      bagd = minikd.bags_updated(bagd, x._b)
      if x._b._dict(x._v[0]):
        want[x._v[0]] = {minikd._key(k): minikd._key(v) for k, v in x._b._dict(x._v[0])}
      dicts.append(x._v[0])
    D_ = minikd._mk(dicts, ((len(dicts),),), ds_._v[0], bagd)
    bag = stubs.minimal_bag_associating_dict_with_its_keys_and_values(D_)
    what = f'dicts {want}'
    if not want:
      run.expect(bag is None, f'{what}: there is a minimal bag although there are no entries')
    else:
      got = {k: {minikd._key(a): minikd._key(b) for a, b in bag._dict(k)} for k in bag._d if bag._dict(k)}
      run.expect(got == want, f'{what}: the minimal bag has {got}')
      run.expect(not bag._l, f'{what}: the minimal bag contains the contents of lists')
    # Schema stubs keep the name and metadata, nothing else.
    sch = rng.choice(gen.named)
    stub = stubs.schema_stub(sch)
    f = {k: x for k, x in schema_facts(stub._b).items() if k[0] == sch._v[0]}
    src = schema_facts(sch._b)
    run.expect({k for k in f} == {k for k in src if k[0] == sch._v[0] and k[1] in ('__schema_name__', '__schema_metadata__')} and all(_same(f[k], src[k]) for k in f), f'the stub of {sch} has {f}')
    run.count('slices')
    run.saw((str(schema), tuple(st), ds._shape, tuple(v in known for v in lists), len(want)), what if i < 3 else None)


# -- N01


def tree_schema(rng, depth):
  r = rng.random()
  if depth == 0 or r < 0.15:
    return getattr(kd, rng.choice(['INT32', 'STRING']))
  if r < 0.5:
    return kd.list_schema(tree_schema(rng, depth - 1))
  if r < 0.65:
    return kd.dict_schema(rng.choice([kd.STRING, kd.INT32]), tree_schema(rng, depth - 1))
  return minikd.new_schema(**{n: tree_schema(rng, depth - 1) for n in rng.sample(['p', 'q', 'a b', 'title'], rng.randint(1, 3))})


def nested(ds, v=None, s=None):
  """A plain Python value: what the slice says, without item ids."""
  b = ds._b
  if s is None:
    return tuple(nested(ds, x, ds._s) for x in ds._v) if ds._shape else nested(ds, ds._v[0], ds._s)
  if v is None or not isinstance(s, minikd.ItemId):
    return None if v is None else minikd._key(v)
  k = g.kind_of(b, s)
  if k == 'list':
    return ('list',) + tuple(nested(ds, x, b._a[s]['__items__']) for x in b._l.get(v, ()))
  if k == 'dict':
    ks, vs = b._a[s]['__keys__'], b._a[s]['__values__']
    return ('dict',) + tuple((nested(ds, kk, ks), nested(ds, x, vs)) for kk, x in b._dict(v))
  out = []
  for a, c in g.edges(b, s):
    x = b._a.get(v, {}).get(a[1])
    if x is not None and x is not R:
      out.append((a[1], nested(ds, x, c)))
  return ('entity',) + tuple(out)


def keep(t, actions, mask):
  """`t` without what the mask (an iterator over the items at the path) drops; None if nothing is left."""
  if not actions:
    return t if next(mask) and t is not None else None
  a = actions[0]
  if t is None:
    # A missing container contributes one item for an attribute, none for contents.
    if a[0] == 'a':
      keep(None, actions[1:], mask)
    return None
  if a[0] == 'a':
    sub = dict(t[1:]).get(a[1])
    r = keep(sub, actions[1:], mask)
    if r is None:
      return None
    return ('entity',) + tuple((n, r if n == a[1] else x) for n, x in t[1:])
  if a[0] == 'i':
    kept = [r for r in (keep(x, actions[1:], mask) for x in t[1:]) if r is not None]
    return ('list',) + tuple(kept) if kept else None
  kept = []
  for k, x in t[1:]:
    r = keep(k if a[0] == 'k' else x, actions[1:], mask)
    if r is not None:
      kept.append((r, x) if a[0] == 'k' else (k, r))
  return ('dict',) + tuple(kept) if kept else None


def view_at(root, p):
  v = root
  for a in p:
    v = v.get_attr(a[1]) if a[0] == 'a' else v.get_list_items() if a[0] == 'i' else v.get_dict_keys() if a[0] == 'k' else v.get_dict_values()
  return v


def check_nav(run, m, van, rng, what):
  root = dmv.DataSliceManagerView(m)
  paths = g.all_paths(van, 4, 150)
  for p, s in rng.sample(paths, min(2, len(paths))):
    v = view_at(root, p)
    w = f'{what}: the view of {ss.show(p)}'
    run.expect(v.get_path_from_root() == g.path(p) and v.get_manager() is m and v.is_view_valid() is True, f'{w} is not a valid view of that path')
    run.expect(v == dmv.DataSliceManagerView(m, g.path(p)) and hash(v) == hash(dmv.DataSliceManagerView(m, g.path(p))), f'{w} does not equal another view of it')
    run.expect(v.get_root() == root and (v == root) is (not p), f'{w}: get_root is wrong')
    for k in range(len(p) + 1):
      run.expect(v.get_ancestor(k) == dmv.DataSliceManagerView(m, g.path(p[:len(p) - k])), f'{w}: get_ancestor({k}) is wrong')
    for k in (-1, len(p) + 1):
      ss.refused(run, f'{w}: get_ancestor({k})', lambda: v.get_ancestor(k))
    for k, f in ((1, v.get_parent), (2, v.get_grandparent)):
      if len(p) >= k:
        run.expect(f().get_path_from_root() == g.path(p[:-k]), f'{w}: {f.__name__} is wrong')
      else:
        ss.refused(run, f'{w}: {f.__name__}', f)
    want = g.evaluate(van, p)
    run.expect(g.snap(v.get_schema()) == g.snap(want.get_schema()), f'{w}: get_schema is wrong')
    run.expect(g.head(v.get()) == g.head(want) and g.facts(v.get_data_slice()) <= g.facts(van), f'{w}: get() gives other items')
    kids = [actions_of(c.get_path_from_root()) for c in v.get_children()]
    run.expect(kids == [p + (a,) for a, _ in g.edges(van._b, s)], f'{w}: children {list(map(ss.show, kids))}')
    d = rng.choice([1, 2, 3])
    sub = [q for q, _ in g.all_paths(want, d, 400)][1:]
    if len(sub) < 40:
      got = [actions_of(c.get_path_from_root()) for c in v.find_descendants(lambda _: True, max_delta_depth=d)]
      run.expect(got == [p + q for q in sub], f'{w}: descendants to depth {d} are {list(map(ss.show, got))[:20]}, expected {[ss.show(p + q) for q in sub][:20]}')
      seen = []
      got = [actions_of(c.get_path_from_root()) for c in v.find_descendants(lambda c: (seen.append(c), len(seen) % 2 == 0)[1], max_delta_depth=d)]
      run.expect(got == [p + q for k, q in enumerate(sub) if k % 2], f'{w}: find_descendants does not give those which the predicate chose')
    if len(paths) > 1:
      q = rng.choice([q for q, _ in paths])
      got = v.get_data_slice(populate=[view_at(root, q)])
      if q[:len(p)] == p:
        run.expect(g.head(g.evaluate(got, q[len(p):])) == g.head(g.evaluate(van, q)), f'{w}: populating {ss.show(q)} did not')
      got = v.get(populate_including_descendants=[view_at(root, q)])
      if q[:len(p)] == p:
        run.expect(g.snap(g.evaluate(got, q[len(p):])) == g.snap(g.evaluate(van, q)), f'{w}: populating everything below {ss.show(q)} did not')
    have = {a for a, _ in g.edges(van._b, s)}
    for a, f in ((('i',), v.get_list_items), (('k',), v.get_dict_keys), (('v',), v.get_dict_values), (('a', 'nope'), lambda: v.get_attr('nope'))):
      if a not in have:
        ss.refused(run, f'{w}: {ss.show((a,))}', f)
    names = v.__all__
    for a, _ in g.edges(van._b, s):
      if a[0] == 'a' and a[1].isidentifier() and minikd._compliant_attr_name(a[1]) and not hasattr(type(v), a[1]):
        run.expect(a[1] in names, f'{w}: attribute {a[1]} is not offered')
        run.expect(getattr(v, a[1]) == v.get_attr(a[1]), f'{w}: .{a[1]} is not get_attr')
    run.expect(sorted(names) == names and ('filter' in names) == bool(p) and ('get_parent' in names) == bool(p), f'{w}: offered names {names}')
    run.count('views')


@vp.prop('N01', min_eval=6, min_distinct=6, shards=6)
def n01(run):
  run.rule = 'distinct (schema, path, mask) filters, and view states compared with the slice in memory'
  for i in run.cases(150, 7000):
    rng = run.sub(i)
    minikd.seed_ids(i)
    inline.use(i)
    ss.fresh_cache(rng)
    in_memory = rng.random() < 0.3
    if in_memory:
      m = simple.SimpleInMemoryDataSliceManager()
    else:
      store = memfs.Store()
      m = ss.create('/w/d', store, rng)
    gen = g.Gen(rng, kd.new(), aliases=0, allow_none=False)
    root = dmv.DataSliceManagerView(m)
    van = m.get_data_slice()
    log = []
    attrs = rng.sample(['a', 'b', 'docs', 'x y', 'data'], rng.randint(1, 3))
    for n in attrs:
      s = tree_schema(rng, rng.randint(1, 4))
      val = gen.item(s, 0, missing=0.1)
      desc = rng.choice([None, f'set {n}'])
      log.append(f'.{n} = {val!r}')
      if n.isidentifier() and minikd._compliant_attr_name(n) and rng.random() < 0.5:
        setattr(root, n, val if desc is None else (val, desc))
      else:
        root.update(n, val, desc)
      van = g.apply(van, (), n, val, in_memory)
      if not in_memory and desc:
        run.expect(m.get_revision_history()[-1].description == desc, f'setting {n} with description {desc!r} recorded {m.get_revision_history()[-1].description!r}')
    check_nav(run, m, van, rng, '; '.join(log))
    for bad in ('x y', '_private', 'get_attr'):
      try:
        setattr(root, bad, kd.item(1))
        run.fail(f'setting the attribute {bad!r} with the dot syntax was accepted')
      except AttributeError:
        pass
    ss.refused(run, 'filtering the root', lambda: root.filter(kd.present))
    for step in range(rng.randint(1, 3)):
      cands = [(p, s) for p, s in g.all_paths(van, 5, 200) if p]
      p, s = rng.choice(cands)
      v = view_at(root, p)
      at = g.evaluate(van, p)
      density = rng.choice([0.1, 0.3, 0.5, 0.5, 0.8, 1.0])
      if at._shape and rng.random() < 0.25:
        # A mask of fewer dimensions.
        nd = rng.randint(0, len(at._shape) - 1)
        dims = at._shape[:nd]
        coarse = minikd._mk([minikd.PRESENT if rng.random() < density else None for _ in range(minikd._size(dims))], dims, minikd.C_MASK, None)
        mask = minikd._broadcast(coarse, at._shape)
        given = coarse
        if any(x is None and y is not None for x, y in zip(at._v, mask._v)):
          continue
      else:
        # A missing item is never selected (as with any comparison).
        mask = minikd._mk([minikd.PRESENT if x is not None and rng.random() < density else None for x in at._v], at._shape, minikd.C_MASK, None)
        given = mask
      bits = [x is not None for x in mask._v]
      before = van
      t = nested(van)
      what = '; '.join(log) + f'; filter {ss.show(p)} by {bits}'
      noop = all(bits)
      want = t
      if not noop:
        it = iter(bits)
        top = p[0][1]
        r = keep(dict(t[1:]).get(top), p[1:], it)
        run.expect(next(it, 'end') == 'end', f'{what}: internal: mask not used up')
        want = ('entity',) + tuple((n, r if n == top else x) for n, x in t[1:] if n != top or r is not None)
      hist = None if in_memory else len(m.get_revision_history())
      arg = given if rng.random() < 0.6 else (lambda view: given if view.get_path_from_root() == v.get_path_from_root() else None)
      if rng.random() < 0.4 and not in_memory:
        # On a branch: the original does not change.
        b = v.select(arg, description='sel') if rng.random() < 0.5 else v.select(arg)
        run.expect(b.get_path_from_root() == g.path(p) and b.get_manager() is not m, f'{what}: select does not give a view of the same path of a branch')
        got = b.get_root().get(populate_including_descendants=[b.get_root()])
        run.expect(nested(got) == want, f'{what}: the selected branch has {nested(got)}, expected {want}')
        now = root.get(populate_including_descendants=[root])
        run.expect(g.snap(now) == g.snap(before) and len(m.get_revision_history()) == hist, f'{what}: selecting changed the original', ss.diff(now, before))
        # Independent afterwards, too.
        b.get_root().update('later', kd.item(1))
        root.update('other', kd.item(2))
        van = g.apply(van, (), 'other', kd.item(2), in_memory)
        log.append('.other = 2')
        run.expect(not m.exists(g.path((('a', 'later'),))) and not b.get_manager().exists(g.path((('a', 'other'),))) or any(l.startswith('.other') for l in log[:-1]) or any('later' in l for l in log), f'{what}: the branch and its origin are not independent')
        run.count('selects')
      else:
        v.filter(arg, description='flt') if rng.random() < 0.5 else v.filter(arg)
        got = root.get(populate_including_descendants=[root])
        run.expect(nested(got) == want, f'{what}: the slice is {nested(got)}, expected {want}')
        if noop:
          run.expect(g.snap(got) == g.snap(before) and (hist is None or len(m.get_revision_history()) == hist), f'{what}: keeping everything changed something')
        elif hist is not None:
          run.expect(len(m.get_revision_history()) == hist + 1, f'{what}: filtering recorded {len(m.get_revision_history()) - hist} revisions')
        van = got
        log.append(f'filter {ss.show(p)} by {bits}')
        run.expect(v.is_view_valid() is True, f'{what}: the view is no longer valid')
        check_nav(run, m, van, rng, what)
        run.count('noops' if noop else 'filters')
      run.saw((str(van.get_schema()), p, tuple(bits)), what[:300] if i < 3 else None)
    # A view whose path goes away says so, and comes back.
    n = attrs[0]
    s0 = van.get_attr(n).get_schema()
    deep = [p for p, _ in g.all_paths(van, 3, 100) if len(p) >= 2 and p[0] == ('a', n)]
    if deep:
      p = rng.choice(deep)
      v = view_at(root, p)
      old = van.get_attr(n)
      root.update(n, kd.item(5))
      run.expect(v.is_view_valid() is False, f'{"; ".join(log)}: {ss.show(p)} is still valid after its root attribute became a number')
      for f in (v.get, v.get_schema, v.get_children, lambda: v.update('z', kd.item(1)), lambda: v.filter(kd.present)):
        ss.refused(run, f'{ss.show(p)}: using an invalid view', f)
      run.expect(v.get_path_from_root() == g.path(p) and v.get_root() == root and v.get_manager() is m, 'an invalid view lost its state')
      if len(p) == 2:
        run.expect(v.get_parent().get_path_from_root() == g.path(p[:1]), 'the parent of an invalid view')
      root.update(n, old.extract() if old._b is not None else old)
      run.expect(v.is_view_valid() is True and g.head(v.get())[0] == g.head(g.evaluate(van, p))[0], f'{ss.show(p)} is not valid again')
      run.count('invalidated')
