"""Builds what the checks need from /repo's current working tree.

Products are cached in /verif/build under a hash of the inputs, so a changed
tree always rebuilds and concurrent checks do not disturb one another.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

import vp

PY = vp.PY
REPO = vp.REPO


def _hash(paths, extra=''):
  h = hashlib.blake2b(digest_size=12)
  h.update(extra.encode())
  for p in sorted(paths):
    h.update(p.encode() + b'\0')
    with open(p, 'rb') as f:
      h.update(f.read())
    h.update(b'\1')
  return h.hexdigest()


def cached_dir(name, key, build):
  """Returns a directory filled by build(tmpdir), made once per key."""
  os.makedirs(vp.BUILD, exist_ok=True)
  out = os.path.join(vp.BUILD, f'{name}-{key}')
  if os.path.isdir(out):
    try:
      os.utime(out)  # in use: not among the oldest
    except OSError:
      pass
    return out
  with open(os.path.join(vp.BUILD, f'{name}.lock'), 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.isdir(out):
      return out
    tmp = tempfile.mkdtemp(prefix=f'.{name}-', dir=vp.BUILD)
    try:
      build(tmp)
      # Drop products of older trees (keep the most recent few).
      old = sorted(glob.glob(os.path.join(vp.BUILD, f'{name}-*')), key=os.path.getmtime)
      for o in old[:-6]:
        shutil.rmtree(o, ignore_errors=True)
      os.rename(tmp, out)
    finally:
      shutil.rmtree(tmp, ignore_errors=True)
  return out


def gen_protos():
  """Generates *_pb2.py for the repository's protos; returns the output root."""
  protos = []
  for root in ('koladata', 'py'):
    for d, _, fs in os.walk(os.path.join(REPO, root)):
      for f in fs:
        if f.endswith('.proto'):
          rel = os.path.relpath(os.path.join(d, f), REPO)
          if rel != 'koladata/s11n/codec.proto':
            protos.append(rel)
  protos.sort()

  def build(tmp):
    import grpc_tools  # pylint: disable=g-import-not-at-top

    inc = os.path.join(os.path.dirname(grpc_tools.__file__), '_proto')
    # One protoc per file, as the repository's own build does: an unrelated
    # proto that does not compile must not take the others down.
    subprocess.run([PY, '-m', 'grpc_tools.protoc', '-I.', '-I' + inc, '--python_out=' + tmp] + protos,
                   cwd=REPO, check=True, capture_output=True)

  key = _hash([os.path.join(REPO, p) for p in protos])
  return cached_dir('protos', key, build)


_done = False


def setup_path():
  """Makes `import koladata...` load the repository's Python sources."""
  global _done
  if _done:
    return
  _done = True
  gen = gen_protos()
  sys.path[:0] = [os.path.join(REPO, 'py'), os.path.join(gen, 'py'), gen]
