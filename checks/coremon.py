"""The core library: bags, slices, item ids and what is computed on them (G01-).

The repository's own C++ runs under the address and undefined-behaviour
sanitizers on stand-ins for arolla (shim/core). The drivers in cpp/core hold
plain models of what bags and slices mean, and compare with them after every
step of random programs.
"""
import os

import cpp
import native
import vp
from vp import prop

R = os.path.join(vp.REPO, 'koladata')
DRV = os.path.join(vp.VERIF, 'cpp/core')
SHIM = os.path.join(vp.VERIF, 'shim/core')
LIBS = ['-l' + x for x in '''absl_bad_variant_access absl_raw_hash_set absl_hashtablez_sampler absl_hash absl_city absl_low_level_hash
absl_raw_logging_internal absl_throw_delegate absl_int128 absl_time absl_base absl_spinlock_wait absl_time_zone absl_strings absl_log_severity
icuuc icui18n icudata pthread'''.split()]
# What there was when the drivers were written; anything newer is tried as well.
INTERNAL = ['internal/' + x for x in '''casting data_bag data_item data_list data_slice dense_source dict dtype ellipsis error_utils
expr_quote_utils non_deterministic_token object_id pseudo_random schema_utils slice_builder sparse_source stable_fingerprint triples types
types_buffer uuid_object uuid_schemas'''.split()]
OPS = ['internal/op_utils/' + x for x in '''agg_common_schema agg_uuid apply_filter at auto_values_update base62 deep_clone deep_diff
deep_equivalent deep_schema_compatible deep_uuid equal error extract has itemid new_ids_like print reverse select trampoline_executor'''.split()]
SLICES = '''adoption_utils arolla_utils attr_error_utils casting check_frozen data_bag data_bag_repr data_slice data_slice_qtype
data_slice_repr deep_diff_utils error_repr_utils extract_utils jagged_shape_qtype metadata_utils object_factories schema_constants
schema_utils shape_utils subslice_utils uuid_utils functor_storage signature signature_storage'''.split()
SKIP = {'test_utils', 'benchmarks', 'internal/op_utils/json_stream'}
# program: (its sources besides the common ones, layers of the library)
PROGRAMS = {
    'bags': (['bagmodel', 'bags'], 2),
    'ops': (['ops'], 2),
    'deep': (['deep'], 2),
    'slices': (['slices', 'making'], 3),
}
MODE_FLAGS = ['-O0', '-g1']


def layers(n):
  """(sources that have to compile, sources that may)."""
  known = (INTERNAL, INTERNAL + OPS, INTERNAL + OPS + SLICES)[n - 1]
  new = []
  for d in ('internal', 'internal/op_utils', '')[:n]:
    for f in sorted(os.listdir(os.path.join(R, d))):
      stem = os.path.join(d, f[:-3])
      if f.endswith('.cc') and not f.endswith(('_test.cc', 'benchmarks.cc', 'benchmark.cc', 'benchmark_helpers.cc')) and stem not in known and stem not in SKIP:
        new.append(stem)

  def paths(l):
    return [p for p in (os.path.join(R, x + '.cc') for x in l) if os.path.exists(p)]

  return paths(known), paths(new)


def program(name, mode='asan'):
  own, n = PROGRAMS[name]
  known, new = layers(n)
  dirs = [os.path.join(R, 'internal')]
  if n == 3:
    dirs += [os.path.join(R, f) for f in sorted(os.listdir(R)) if f.endswith('.h')]
    dirs += [os.path.join(R, d) for d in ('functor', 'signature') if os.path.isdir(os.path.join(R, d))]
  return native.Program(name, mode, [os.path.join(DRV, f + '.cc') for f in ['arolla_core', 'common'] + own], known, dirs + [DRV],
                        extra=['-I' + DRV], optional=new, flags=MODE_FLAGS, base_libs=LIBS, shim=SHIM, umbrella='arolla/core.h')


def drive(run, name, cases, rule, mode='asan'):
  run.rule = rule
  try:
    prog = program(name, mode).build()
  except cpp.CompileError as e:
    raise vp.Inconclusive('the sources do not compile with the stand-ins: ' + str(e)[-2500:])
  run.assumptions = ['arolla and parts of abseil are replaced by stand-ins (arrays, types, edges, shapes); everything else is the repository\'s own code']
  run.budget = secs = max(6.0, 1.8 * run.budget)
  jobs = []
  total = sum(cases.values())
  for case, weight in cases.items():
    n = max(1, round(7 * weight / total))
    for i in range(n):
      jobs.append((f'{case}/{i}', [prog, case, str(run.seed), str(i), str(n), '100000000', f'{secs:.1f}']))
  native.tally(run, native.run_programs(run, jobs))


def register(pid, name, cases, rule, min_eval=100, min_distinct=50, mode='asan'):
  prop(pid, level='exploration', min_eval=min_eval, min_distinct=min_distinct)(lambda run: drive(run, name, cases, rule, mode))


_B = 'a case is a random program; distinct contents of the bags at its end count'
register('G01', 'bags', {'attrs': 1}, _B)
register('G02', 'bags', {'lists': 1}, _B)
register('G03', 'bags', {'dicts': 1}, _B)
register('G04', 'bags', {'forks': 1}, _B)
register('G05', 'bags', {'merge': 5, 'update': 2}, _B)
register('G06', 'bags', {'content': 1}, _B)
_O = 'a case is a random call with its operands; distinct operands count'
register('G07', 'ops', {'ids': 1}, _O)
register('G08', 'ops', {'vector': 1}, _O)
register('G09', 'ops', {'casts': 1}, _O)
_D = 'a case is a random graph of objects over one or more bags; distinct graphs count'
register('G10', 'deep', {'extract': 1}, _D)
register('G11', 'deep', {'clone': 4, 'shallow': 3}, _D)
register('G12', 'deep', {'deepuuid': 1}, _D)
register('G13', 'deep', {'equivalent': 4, 'finder': 3}, _D)
_S = 'a case is a random program on slices and their bags; distinct calls with their operands count'
register('G14', 'slices', {'attrs': 1}, _S)
register('G15', 'slices', {'lists': 4, 'dicts': 3}, _S)
register('G16', 'slices', {'frozen': 1}, _S)
register('G17', 'slices', {'entities': 3, 'collections': 4}, _S)
register('G18', 'slices', {'threads': 1}, _S, mode='tsan')
register('G19', 'slices', {'adoption': 1}, _S)
