source /verif/tools/seedlib.sh
F=py/koladata/ext/view/view.py
PYSTUB='import sys, types
def _ms(fn, depths, im, args, kwnames=()):
  n = len(args) - len(kwnames)
  def rec(args, d):
    big = [a for a, k in zip(args, depths) if k > d]
    if not big:
      if not im and any(a is None for a in args): return None
      return fn(*args[:n], **dict(zip(kwnames, args[n:])))
    if any(type(a) is not tuple for a in big) or len({len(a) for a in big}) > 1: raise TypeError("shape")
    return tuple(rec([a[i] if k > d else a for a, k in zip(args, depths)], d + 1) for i in range(len(big[0])))
  return rec(list(args), 0)
_m = types.ModuleType("koladata.ext.view.clib_py_ext"); _m.map_structures = _ms
sys.modules["koladata.ext.view.clib_py_ext"] = _m
from koladata.ext.view import kv
'
vdemo() { { echo "$PYSTUB"; cat; } | demo "$1"; }

mk v01a V01 "an expansion (directly, or inside alignment or a multi-dimensional map) between two views of equal depth whose rows differ in length" "expanding to an equal-depth view returns the source unchanged without comparing shapes, so incompatible arguments are accepted" <<J
{"$F": [["    other = box(other)\n    if res._depth <= other._depth:  # pylint: disable=protected-access\n", "    other = box(other)\n    if not ndim and res._depth == other._depth:  # pylint: disable=protected-access\n      return res\n    if res._depth <= other._depth:  # pylint: disable=protected-access\n"]]}
J
vdemo v01a <<'P'
a = kv.view([[1, 2], [3]])[:][:]
b = kv.view([[1], [2, 3]])[:][:]
try:
  kv.align(a, b)
except Exception:
  sys.exit(0)
sys.exit(1)
P
mk v01b V01 "an attribute lookup with a default, on an object whose attribute is zero, empty or false" "present but falsy attribute values are replaced by the default" <<J
{"$F": [["          return res if res is not None else default\n", "          return res or default\n"]]}
J
vdemo v01b <<'P'
o = [types.SimpleNamespace(a=0), types.SimpleNamespace(a=''), types.SimpleNamespace(a=5)]
assert kv.view(o)[:].get_attr('a', 7).get() == (0, '', 5)
P
mk v02a V02 "grouping by two keys where an item misses exactly one of them" "items with one missing key are grouped under the missing value instead of being dropped" <<J
{"$F": [["    if any(arg is None for arg in one_args):\n      continue\n    grouped", "    if all(arg is None for arg in one_args):\n      continue\n    grouped"]]}
J
vdemo v02a <<'P'
x = kv.view([1, 2, 3])[:]
k1 = kv.view(['a', 'a', 'b'])[:]
k2 = kv.view([1, None, 2])[:]
assert x.group_by(k1, k2).get() == ((1,), (3,)), x.group_by(k1, k2).get()
P
mk v02b V02 "flattening an empty range of dimensions, which is documented to insert a dimension of size one" "flattening an empty dimension range returns the view unchanged" <<J
{"$F": [["    if from_dim + 1 == to_dim:\n      return self\n", "    if to_dim - from_dim <= 1 and self._depth:\n      return self\n"]]}
J
vdemo v02b <<'P'
x = kv.view([[1, 2], [3]])[:][:]
r = x.flatten(1, 1)
assert r.get_depth() == 3 and r.get() == (((1, 2),), ((3,),)), r.get()
P
mk v03a V03 "assigning a missing value to an existing key or index" "assigning a missing value is silently skipped, the old value stays" <<J
{"$F": [["  if x is None or key_or_index is None:\n    return\n", "  if x is None or key_or_index is None or value is None:\n    return\n"]]}
J
vdemo v03a <<'P'
d = [{'a': 1}, {'a': 2}]
kv.view(d)[:]['a'] = kv.view([None, 5])[:]
assert d == [{'a': None}, {'a': 5}], d
P
mk v03b V03 "setting an attribute from a value view that is deeper than the target while the view and value depths differ by broadcasting (value of higher depth)" "the refusal of over-deep attribute values is lost, so attributes are overwritten repeatedly and keep the last value" <<J
{"$F": [["      if isinstance(value, View) and value.get_depth() > self._depth:\n", "      if isinstance(value, View) and self._depth and value.get_depth() > self._depth:\n"]]}
J
vdemo v03b <<'P'
o = types.SimpleNamespace()
try:
  kv.view(o).set_attrs(a=kv.view([1, 2])[:])
except ValueError:
  sys.exit(0)
print(o)
sys.exit(1)
P
mk v04a V04 "mapping over two arguments of which a later one has a shorter row than an earlier one" "a shorter later row is no longer refused and is read past its end" <<J
{"py/koladata/ext/view/clib.cc": [["    } else if (len != max_len) {\n", "    } else if (len > max_len) {\n"]]}
J
mkdir -p seeded/v04a/shim/py/arolla/py_utils && cp shim/py/arolla/py_utils/py_utils.h seeded/v04a/shim/py/arolla/py_utils/
cat > /tmp/v04demo.txt <<'D'
#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
g++ -std=c++20 -O1 -fPIC -shared -w -I"$HERE/shim" -I"$PWD" -I/usr/include/python3.12 py/koladata/ext/view/clib.cc py/koladata/ext/view/clib_module.cc -o "$T/clib_py_ext.so" -labsl_throw_delegate || exit 0
cd "$T" && PYTHONMALLOC=debug timeout 100 /opt/venv/bin/python - <<"P"
D
{ cat /tmp/v04demo.txt; cat <<'P'
import importlib.util
s = importlib.util.spec_from_file_location('clib_py_ext', './clib_py_ext.so')
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
try:
  m.map_structures(lambda x, y: None, (1, 1), True, (tuple(range(3)), tuple(range(1))))
except TypeError:
  raise SystemExit(0)
raise SystemExit(1)
P
echo P; } > seeded/v04a/demo.sh
mk v04b V04 "a callback that raises after at least one item of the row was already mapped" "the references of the items already mapped in the row are dropped twice or leaked when a later call raises" <<J
{"py/koladata/ext/view/clib.cc": [["    if (res == nullptr) {\n      return nullptr;\n    }\n    PyTuple_SET_ITEM", "    if (res == nullptr) {\n      py_result_tuple.release();\n      return nullptr;\n    }\n    PyTuple_SET_ITEM"]]}
J
mkdir -p seeded/v04b/shim/py/arolla/py_utils && cp shim/py/arolla/py_utils/py_utils.h seeded/v04b/shim/py/arolla/py_utils/
{ cat /tmp/v04demo.txt; cat <<'P'
import importlib.util, sys
s = importlib.util.spec_from_file_location('clib_py_ext', './clib_py_ext.so')
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
tok = object()
def f(x):
  if x == 1: raise KeyError
  return tok
before = sys.getrefcount(tok)
for _ in range(50):
  try: m.map_structures(f, (1,), True, ((0, 1),))
  except KeyError: pass
raise SystemExit(sys.getrefcount(tok) != before)
P
echo P; } > seeded/v04b/demo.sh
