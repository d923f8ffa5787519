PROPS = [
 dict(id='C01', title='The storage cache never exceeds its byte limit and accounts exactly',
  statement='''After any sequence of cache operations, the reported total equals the sum of the declared sizes of the entries that
   can still be retrieved and never exceeds the current limit. Only the least recently used entries are dropped, no more of them than
   needed, an entry larger than the limit is handed back but not kept, and an entry that has left the cache is no longer kept alive by it.''',
  over=['inputs','histories'], text='every sequence of get/set/remove/resize/clear with any keys, values and sizes, including zero, huge and equal keys',
  why='The two existing tests replay one hand-written sequence; the guarantee quantifies over every history, and eviction order and accounting only go wrong on particular mixes of sizes, refreshes and resizes.',
  files=['py/koladata/ext/storage/lru_size_tracking_cache.py','py/koladata/ext/storage/global_cache_lib.py'],
  mech=[('shrink before insert','lru_size_tracking_cache.py set / _shrink_cache_to_at_most'),('running total','_total_bytes_of_entries_in_cache')],
  observe=['return values of get/set/get_total...; weak references to stored values'],
  technique='reference-model monitor over random operation histories, weak-reference leak monitor',
  note='Held on the histories executed; the model is a 40-line sequential LRU written from the documentation.'),
 dict(id='C02', title='Concurrent users of the storage cache see one LRU cache',
  statement='''For every interleaving of threads using one cache, the results they observe are those of some one-at-a-time order of
   their operations consistent with real time. In particular two threads that store a value for the same key both get the same object back,
   and the byte accounting stays exact; no interleaving deadlocks or raises.''',
  over=['schedules','histories'], text='every interleaving of get/set/remove/resize/clear/total calls from any number of threads',
  why='No existing test uses threads; the quantifier is over schedules.',
  files=['py/koladata/ext/storage/lru_size_tracking_cache.py'],
  mech=[('one reentrant lock around every operation','lru_size_tracking_cache.py')],
  observe=['call/return events of each operation at the client boundary'],
  technique='linearizability checking of recorded histories under a seeded preemptive scheduler',
  note='Held on the recorded histories (2-4 threads, 2-5 operations each, preemption at lines and bytecodes); complete Wing-Gong search per history.'),
 dict(id='F01', title='The file layer neither clobbers nor loses what is stored',
  statement='''A rename that was not asked to overwrite is refused when the destination is occupied by a file or directory, and a refused or
   failed call leaves every stored byte where it was. Successful calls move, write, list and delete exactly what they name, and existence
   and directory queries answer for the current contents.''',
  over=['inputs','histories'], text='every history of calls over any tree of files and directories, sequentially',
  why='One test walks through a single scripted history; occupied destinations of different kinds, nested moves and failing calls are not enumerated.',
  files=['py/koladata/file_io/fs_implementation.py','py/koladata/file_io/fs_interface.py','py/koladata/file_io/file_io.py'],
  mech=[('existence check before rename','fs_implementation.py rename')],
  observe=['full directory snapshot (names and bytes) after each call'],
  technique='model-based trace monitor with full directory snapshots',
  note='Held on the executed histories in a scratch directory. The documented check-then-rename race between processes is out of scope.'),
 dict(id='T01', title='Tracing mode follows the lexical scope of its own thread or task',
  statement='''Code observes tracing mode as set by the innermost enclosing scope of its own thread, copied context or asynchronous task, and
   nobody else's. Leaving a scope, normally or by exception, restores exactly the mode before it, including recursive and repeated use; a new
   thread starts in eager mode.''',
  over=['schedules','programs'], text='every nesting of scopes, exceptions, threads, copied contexts, tasks and their interleavings',
  why='Tests check one nesting and one second thread.',
  files=['py/koladata/expr/tracing_mode.py'],
  mech=[('context variable with token reset','tracing_mode.py enable_tracing')],
  observe=['mode read and dispatched attribute at every statement boundary'],
  technique='shadow-scope monitor over generated programs, scheduled threads and asyncio tasks',
  note='Held on the generated programs and interleavings.'),
 dict(id='T02', title='A tracing-aware module serves exactly the registered object per mode',
  statement='''For every public name of a tracing-aware module, eager code gets the eager object itself and tracing code gets the registered
   tracing object itself, or an attribute error when the name is eager-only; nothing else is reachable and names cannot be reassigned.
   Conflicting registrations and unregistered public names are rejected, and objects are told apart by identity, whatever their equality,
   hash, truth value or type.''',
  over=['inputs','programs','schedules'], text='every set of names, objects and registrations, accessed in any order and mode',
  why='Tests use a handful of functions; falsy, unhashable, equal-but-distinct or descriptor objects and conflicting registrations are open-ended.',
  files=['py/koladata/expr/tracing_mode.py','py/koladata/kd.py'],
  mech=[('identity keys','tracing_mode.py _HashAnythingWrapper'),('data descriptors','tracing_mode.py _TracingDescriptor')],
  technique='identity oracle on generated modules with hostile objects, both modes',
  note='Held on the generated modules.'),
 dict(id='P01', title='Progress reports mirror the bar and end with exactly one final report',
  statement='''Every report of a progress bar carries that bar's own constant unique identifier and its true count, total and labels at that
   moment. Each bar sends exactly one closed report, as its last, whether it finishes, is left early, fails, is disabled or is closed twice,
   and it is shown as displayed according to the bar's leave and disable settings.''',
  over=['inputs','histories'], text='every life of a bar: manual updates, loops, breaks, exceptions, async loops, resets, nested bars',
  why='Tests drive a few fixed bars; the order and content of reports must hold for every sequence of bar operations.',
  files=['py/koladata/ext/tqdm/tqdm.py','py/koladata/ext/tqdm/types.py'],
  mech=[('report hook in display and close','tqdm.py'),('closed flag','tqdm.py close')],
  observe=['every state received by the reporter'],
  technique='online trace checker on the report stream',
  note='Held on the executed bar lives; the background refresh thread of the underlying library is disabled so every event is caused by the driver.'),
 dict(id='P02', title='Progress reporting never disturbs the work and stays in its own scope',
  statement='''An error in a reporter never reaches the user's loop, loses items or stops later reports, and it is logged. Reports of one
   reporter never overlap in time and arrive in order per bar, whatever threads send them; a bar keeps reporting to the reporter active when
   it was opened, scopes nest and restore, and explicitly given display settings win over the reporter's defaults.''',
  over=['schedules','fault_sequences','configurations'], text='every set of reporter faults, interleavings of reporting threads, nested scopes and display configurations',
  why='Tests inject no faults and no concurrency, and check a few configurations.',
  files=['py/koladata/ext/tqdm/tqdm.py','py/koladata/ext/tqdm/context.py','py/koladata/ext/tqdm/types.py'],
  mech=[('exceptions swallowed and logged','tqdm.py _set_progress'),('reporter lock','types.py set_progress'),('context variable','context.py')],
  technique='fault injection plus scheduled-thread monitors (mutual exclusion, per-bar order, scope)',
  note='Held on the injected faults and interleavings.'),
 dict(id='P03', title='Progress states survive their wire form and derive consistent figures',
  statement='''Converting any progress state to its message form, over the wire and back yields the same state, absent values being
   represented as documented (absent count as zero; absent totals, rates and texts stay absent). The completed fraction and the remaining
   time follow from count, total and rate, and are absent exactly when they cannot be computed.''',
  over=['inputs'], text='every progress state',
  why='Tests try two states.',
  files=['py/koladata/ext/tqdm/types.py','py/koladata/ext/tqdm/proto/progress.proto'],
  mech=[('to_proto/from_proto','types.py')],
  technique='round-trip and exact-arithmetic oracle on generated states',
  note='Held on the generated states.'),
 dict(id='D01', title='Typed conversion reads class annotations by their meaning',
  statement='''For any class and attribute, the resolved target type is what the annotation means: the plain type, the inner type marked
   optional for any spelling of optional, element, key or value types of containers, unconstrained for the any-type, and nothing for an
   absent attribute; unsupported unions and containers are rejected. The answer does not depend on what was looked up before.''',
  over=['inputs','histories'], text='every dataclass, annotation spelling, inheritance and query order, with a shared hint cache',
  why='The active tests only cover object synthesis; the annotation space is open-ended and cache effects depend on history.',
  files=['py/koladata/base/py_conversions/dataclasses_util.py'],
  mech=[('annotation resolution','dataclasses_util.py get_class_field_type / maybe_decay_optional')],
  technique='by-construction oracle on generated annotated classes, cold and shared caches',
  note='Held on the generated classes.'),
 dict(id='D02', title='Objects synthesized from data compare by content alone',
  statement='''Objects created from attribute names start with every attribute absent, list their attributes in declared order with their
   values, and compare equal to another structured object exactly when attribute names and values are equal, regardless of class or
   attribute order. Comparison with anything else is false and never raises.''',
  over=['inputs'], text='every set of attribute names and nested values',
  why='Tests compare a few flat objects.',
  files=['py/koladata/base/py_conversions/dataclasses_util.py'],
  mech=[('structural equality','dataclasses_util.py _eq'),('make_dataclass','dataclasses_util.py')],
  technique='reference-model monitor on generated nested objects and single-spot mutants',
  note='Held on the generated objects.'),
 dict(id='U01', title='Unwrapping a decorated callable always ends at the innermost callable',
  statement='''For any chain of wrappers the innermost callable is returned, stopping before a wrapped value that is not callable. It
   terminates on every chain, including cyclic ones, and works for callables that are unhashable or compare equal.''',
  over=['inputs'], text='every chain or cycle of wrapped callables',
  why='One test unwraps one stack; cycles of any entry and hostile callables are not sampled.',
  files=['py/koladata/util/kd_functools.py'],
  mech=[('visited set','kd_functools.py unwrap')],
  technique='identity oracle with step-bounded execution on generated chains and cycles',
  note='Held on the generated chains; termination is decided by a step limit far above the chain length.'),
]
