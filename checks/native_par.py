"""Streams, futures, executors and the operators on streams (X01-X10).

The repository's own C++ runs in two builds: one in which a scheduler of the
driver's picks the thread that goes on at every basic block (with the address
and undefined-behaviour sanitizers), and one with free threads under the thread
sanitizer. The drivers in /verif/cpp/par hold the oracles.
"""
import os

import cpp
import native
import vp
from vp import prop

PAR = os.path.join(vp.REPO, 'koladata/functor/parallel')
DRV = os.path.join(vp.VERIF, 'cpp/par')
CORE = ['stream', 'executor', 'eager_executor', 'derived_executor', 'asio_executor', 'default_asio_executor', 'get_default_executor', 'make_executor']
# What there was when the drivers were written; anything newer is tried as well,
# so that moving code into a new file is no obstacle.
KNOWN = set('''asio_executor async_eval async_eval_operator basic_routine create_transform_config default_asio_executor
derived_executor eager_executor executor executors_benchmarks expr_operators future future_operators future_qtype
get_default_executor init_expr_operators make_executor operators parallel_call_utils stream stream_call stream_composition
stream_filter_json stream_for stream_loop_internal stream_map stream_operators stream_qtype stream_reduce
stream_reduce_stack_or_concat stream_while transform transform_config transform_config_registry transform_operators'''.split())
PROGRAMS = {
    'streams': CORE,
    'futures': CORE + ['future'],
    'compose': CORE + ['stream_composition'],
    'maps': CORE + ['basic_routine', 'stream_map', 'stream_reduce'],
    'loops': CORE + ['basic_routine', 'future', 'future_qtype', 'stream_qtype', 'stream_composition', 'stream_loop_internal',
                     'stream_for', 'stream_while', 'stream_call'],
}


def program(name, mode):
  def path(f):
    return os.path.join(PAR, f + '.cc')

  new = sorted(f[:-3] for f in os.listdir(PAR) if f.endswith('.cc') and not f.endswith(('_test.cc', '_benchmarks.cc')) and f[:-3] not in KNOWN)
  return native.Program(name, mode, [os.path.join(DRV, f + '.cc') for f in ('vsched', 'common', name)], [path(f) for f in PROGRAMS[name] if os.path.exists(path(f))],
                        [PAR, DRV], extra=['-I' + DRV], optional=[path(f) for f in new])


def drive(run, name, rule, program=program):
  run.rule = rule
  try:
    progs = {m: program(name, m).build() for m in ('controlled', 'tsan')}
  except cpp.CompileError as e:
    raise vp.Inconclusive('the sources do not compile with the stand-ins: ' + str(e)[-2500:])
  run.assumptions = [
      'arolla and parts of abseil are replaced by stand-ins (types, values, cancellation, mutexes); the code of streams, futures and executors is the repository\'s',
      'the controlled build switches threads between basic blocks of sequentially consistent memory; weaker orders are left to the thread sanitizer',
  ]
  secs = max(6.0, run.budget)
  plan = [('controlled', 4), ('tsan', 3)]
  jobs = []
  for mode, n in plan:
    for i in range(n):
      jobs.append((f'{mode}/{i}', [progs[mode], run.pid, str(run.seed + (0 if mode == 'controlled' else 1000)), str(i), str(n), '100000000', f'{secs:.1f}']))
  native.tally(run, native.run_programs(run, jobs))


def register(pid, name, rule):
  prop(pid, level='exploration', min_eval=150, min_distinct=50)(lambda run: drive(run, name, rule))


_S = 'a case is non-trivial by its schedule: distinct sequences of hand-overs between threads, as the controlled scheduler counts them'
register('X01', 'streams', _S)
register('X02', 'streams', _S)
register('X03', 'streams', _S)
register('X04', 'futures', _S)
register('X05', 'futures', _S)
register('X06', 'compose', _S)
register('X07', 'maps', _S)
register('X08', 'maps', _S)
register('X09', 'loops', _S)
register('X10', 'loops', _S)
