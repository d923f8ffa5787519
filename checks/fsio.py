"""F01: the file system layer never loses, clobbers or corrupts data."""
import os
import shutil
import tempfile

import repoenv
from vp import prop

repoenv.setup_path()
from koladata.file_io import file_io  # pylint: disable=g-import-not-at-top


def snap(root):
  """Independent picture of the scratch directory: path -> bytes | None."""
  out = {}
  for d, ds, fs in os.walk(root):
    for x in ds:
      out[os.path.relpath(os.path.join(d, x), root)] = None
    for x in fs:
      with open(os.path.join(d, x), 'rb') as f:
        out[os.path.relpath(os.path.join(d, x), root)] = f.read()
  return out


NAMES = ['a', 'b', 'c.kd', 'metadata-000000000001.pb', 'with space', '.hidden', 'ünï', 'd[1]', 'e*x', 'sub', 'sub2']


def expected_glob(tree, pat_dir, suffix):
  pre = pat_dir + '/' if pat_dir else ''
  return {p for p in tree if p.startswith(pre) and '/' not in p[len(pre):] and p.endswith(suffix) and not os.path.basename(p).startswith('.')}


@prop('F01', min_eval=100, min_distinct=50)
def fs(run):
  run.rule = (
      'random histories of exists/is_dir/open(modes)/make_dirs/glob/remove/rename on a scratch directory;'
      ' after each call the whole directory tree (names and bytes) is compared with a tree model, so a'
      ' refused or failed call must leave every byte in place; non-trivial when a rename met an occupied'
      ' destination'
  )
  base = tempfile.mkdtemp(prefix='vp-fs-')
  try:
    for case in run.cases(400, 8000):
      r = run.sub(case)
      root = os.path.join(base, f'c{case}')
      os.mkdir(root)
      fsi = file_io.get_default_file_system_interaction()
      tree = {}
      log = []
      occupied = 0

      def pick():
        x = r.random()
        if tree and x < 0.6:
          return r.choice(sorted(tree))
        dirs = [''] + sorted(p for p, v in tree.items() if v is None)
        return os.path.join(r.choice(dirs), r.choice(NAMES))

      def parent_ok(p):
        d = os.path.dirname(p)
        return d == '' or (d in tree and tree[d] is None)

      for _ in range(r.choice([8, 20, 30])):
        op = r.choice(['write', 'write', 'append', 'read', 'xwrite', 'mkdirs', 'exists', 'glob', 'remove', 'rename', 'rename', 'rename', 'rename_over'])
        p = pick()
        full = os.path.join(root, p)
        err = None
        if op in ('write', 'append', 'xwrite'):
          data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 300])))
          mode = {'write': 'wb', 'append': 'ab', 'xwrite': 'xb'}[op]
          if r.random() < 0.3:
            mode = mode.replace('b', '')
            data = r.choice(['', 'line\nline2\n', 'ünïcode'])
          ok = parent_ok(p) and not (p in tree and tree[p] is None) and not (op == 'xwrite' and p in tree)
          try:
            with fsi.open(full, mode) as f:
              f.write(data)
          except OSError as e:
            err = e
          raw = data if isinstance(data, bytes) else data.encode()
          run.expect((err is None) == ok, f'open({p!r}, {mode!r}) outcome {err!r}', log)
          if ok:
            tree[p] = (tree.get(p) or b'') + raw if op == 'append' else raw
          log.append((op, p, mode, len(raw)))
        elif op == 'read':
          ok = tree.get(p) is not None
          try:
            with fsi.open(full, 'rb') as f:
              got = f.read()
          except OSError as e:
            err = e
          run.expect((err is None) == ok, f'reading {p!r}: {err!r}', log)
          if ok:
            run.expect(got == tree[p], f'{p!r} does not read back the bytes written', log)
          log.append((op, p))
        elif op == 'mkdirs':
          parts = p.split('/')
          ok = all(tree.get('/'.join(parts[: i + 1])) is None for i in range(len(parts)))
          try:
            fsi.make_dirs(full)
          except OSError as e:
            err = e
          run.expect((err is None) == ok, f'make_dirs({p!r}): {err!r}', log)
          if ok:
            for i in range(len(parts)):
              tree['/'.join(parts[: i + 1])] = None
          log.append((op, p))
        elif op == 'exists':
          run.expect(fsi.exists(full) is (p in tree), f'exists({p!r}) is wrong', log)
          run.expect(fsi.is_dir(full) is (p in tree and tree[p] is None), f'is_dir({p!r}) is wrong', log)
          log.append((op, p))
        elif op == 'glob':
          d = r.choice([''] + [q for q, v in tree.items() if v is None and '[' not in q and '*' not in q])
          suf = r.choice(['', '.kd', '.pb'])
          got = {os.path.relpath(x, root) for x in fsi.glob(os.path.join(root, d, '*' + suf))}
          run.expect(got == expected_glob(tree, d, suf), f'glob({d!r}, *{suf}) is wrong', [sorted(got), sorted(tree)])
          log.append((op, d, suf))
        elif op == 'remove':
          ok = tree.get(p) is not None
          try:
            fsi.remove(full)
          except OSError as e:
            err = e
          run.expect((err is None) == ok, f'remove({p!r}): {err!r}', log)
          if ok:
            del tree[p]
          log.append((op, p))
        else:
          q = pick()
          qfull = os.path.join(root, q)
          over = op == 'rename_over'
          inside = q == p or q.startswith(p + '/')
          if over:
            # os-level replace semantics: file over file, dir over empty dir.
            if p not in tree or not parent_ok(q):
              ok = False
            elif q == p:
              ok = True
            elif tree[p] is not None:
              ok = q not in tree or tree[q] is not None
            else:
              ok = not inside and (q not in tree or (tree[q] is None and not any(x.startswith(q + '/') for x in tree)))
          else:
            ok = p in tree and q not in tree and parent_ok(q) and not (tree[p] is None and inside)
          if p in tree and q in tree and not over:
            occupied += 1
          try:
            if over:
              fsi.rename(full, qfull, overwrite=True)
            elif r.random() < 0.5:
              fsi.rename(full, qfull, overwrite=False)
            else:
              fsi.rename(full, qfull)
          except (OSError, ValueError) as e:
            err = e
          log.append((op, p, q))
          run.expect((err is None) == ok, f'rename({p!r} -> {q!r}, overwrite={over}) outcome {err!r}; should {"succeed" if ok else "be refused"}', [log, sorted(tree)])
          if ok and q != p:
            for x in [x for x in tree if x == q or x.startswith(q + '/')]:
              del tree[x]
            for x in sorted(x for x in tree if x == p or x.startswith(p + '/')):
              tree[q + x[len(p):]] = tree.pop(x)
        now = snap(root)
        run.expect(
            now == tree,
            f'after {log[-1]} the directory does not hold what was stored',
            {'log': log, 'missing': sorted(set(tree) - set(now)), 'extra': sorted(set(now) - set(tree)), 'changed': sorted(k for k in tree if k in now and now[k] != tree[k])},
        )
        run.count('calls')
      run.count('occupied_rename_attempts', occupied)
      run.saw(repr(log) if occupied else None, repr(log[:8]))
      shutil.rmtree(root)
  finally:
    shutil.rmtree(base, ignore_errors=True)
