_P = 'koladata/functor/parallel/'
_SH = ' Arolla and parts of abseil are replaced by stand-ins; the code of streams, futures, executors and loops is the repository\'s own.'
_T = 'controlled-schedule exploration of the real C++ under ASan/UBSan, and free threads under ThreadSanitizer, with trace oracles'
_W = 'Tests run one schedule per execution; the guarantee is about all of them.'
PROPS = [
 dict(id='X01', title='Every reader of a stream sees every written value once, in order',
  statement='''Whatever the interleaving of the writer with any number of readers, however they read and whenever they were created, each
   reader receives exactly the values written, in the order written, and after them exactly the final status of the stream.''',
  over=['schedules','inputs'], text='every schedule of a writer and readers, every reading style and value type',
  why=_W, files=[_P+'stream.h', _P+'stream.cc'], mech=[('chunked buffer with an atomic count','stream.cc StreamImpl')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X02', title='Every stream subscription is called exactly once and none is lost',
  statement='''A callback subscribed to a stream reader runs exactly once, as soon as an item or the end is available and not before, whatever
   race there is between subscribing, writing and closing. A callback may itself read, subscribe again or destroy the reader.''',
  over=['schedules'], text='every interleaving of subscribing with writing and closing',
  why=_W, files=[_P+'stream.h', _P+'stream.cc'], mech=[('subscription lists','stream.cc Subscribe / Write / Close')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X03', title='A stream ends exactly once and abandoned writers are told so',
  statement='''A stream has exactly one end: the status it was closed with, or an error if its writer disappears before closing it. A writer
   learns that nobody can read any more, and after it has been told that, nothing it writes is accepted; as long as a reader can still come,
   it is never told so. Values are destroyed exactly once.''',
  over=['schedules','histories'], text='every order of closing, dropping writers, streams and readers',
  why=_W, files=[_P+'stream.h', _P+'stream.cc'], mech=[('weak writers, Orphaned, TryWrite, TryClose','stream.cc')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X04', title='A future gets one value and tells every consumer exactly once',
  statement='''A future receives a value or an error exactly once, a second attempt is refused, and each consumer, registered before, during or
   after that, runs exactly once with exactly that result. A future whose writer disappears, or whose computation is cancelled, ends with an
   error instead of never.''',
  over=['schedules'], text='every interleaving of setting, consuming and dropping',
  why=_W, files=[_P+'future.h', _P+'future.cc'], mech=[('state under a mutex, consumers called outside it','future.cc')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X05', title='Executors run each accepted task once, in its own context',
  statement='''An executor runs each scheduled task exactly once, with the context and the cancellation scope of the place that scheduled it and with
   nothing of another task. Work still queued when an executor goes away is not lost silently or run twice, and the caller\'s own context is
   as before.''',
  over=['schedules','histories'], text='every schedule of scheduling, nesting and shutting down, for every kind of executor',
  why=_W, files=[_P+'executor.h', _P+'executor.cc', _P+'eager_executor.cc', _P+'asio_executor.cc', _P+'derived_executor.cc'],
  mech=[('context guard initializers','executor.cc'),('thread pool','asio_executor.cc')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X06', title='Chained and interleaved streams keep all items and orders',
  statement='''Chaining streams yields all items of each in turn and in order. Interleaving them yields exactly all items, keeping the order of
   each input. An error of any input ends the result with that error, for chaining after the items before it; the result ends only when all
   inputs have ended.''',
  over=['schedules','inputs'], text='every number of inputs, schedule and place of an error',
  why=_W, files=[_P+'stream_composition.h', _P+'stream_composition.cc'], mech=[('helpers with weak writers','stream_composition.cc')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X07', title='Mapping a stream applies the function once per item, in its order',
  statement='''Mapping over a stream calls the function exactly once per item and yields all results: in the order of the input when ordered, in
   any order otherwise, whatever the order in which the calls finish. The first error or a cancellation ends the result with exactly that
   status and no further results.''',
  over=['schedules','inputs'], text='every schedule of the calls, place of an error and moment of cancellation',
  why=_W, files=[_P+'stream_map.h', _P+'stream_map.cc'], mech=[('ordered and unordered collection of results','stream_map.cc')],
  technique=_T, note='Held on the explored schedules.'+_SH),
 dict(id='X08', title='Reducing a stream equals the sequential fold',
  statement='''Reducing a stream yields one value: the left fold of its items from the initial value, whatever the schedule. An error of the input
   or of the function ends the result with that error and the function is not called afterwards.''',
  over=['schedules','inputs'], text='every schedule, place of an error and moment of cancellation',
  why=_W, files=[_P+'stream_reduce.h', _P+'stream_reduce.cc', _P+'basic_routine.cc'], mech=[('resumable routine','basic_routine.cc')],
  technique=_T, note='Held on the explored schedules. A routine that notices a cancellation may end as cancelled without its reason.'+_SH),
 dict(id='X09', title='Parallel loops give what the sequential loop gives',
  statement='''For and while loops over streams yield and return exactly what the corresponding sequential loop yields and returns, whatever the
   schedule: the same variables, yields in the same order, the same early end, the finalizing step exactly once and only at a regular end.
   Errors of the input, of a step and a cancellation end every output with that error, and nothing is emitted after a cancellation.''',
  over=['schedules','inputs'], text='every loop body behaviour, schedule and place of an error',
  why=_W, files=[_P+'stream_for.cc', _P+'stream_while.cc', _P+'stream_loop_internal.cc', _P+'basic_routine.cc'],
  mech=[('loop hooks and variables','stream_loop_internal.cc')],
  technique=_T, note='Held on the explored schedules. A routine that notices a cancellation may end as cancelled without its reason.'+_SH),
 dict(id='X10', title='A stream call waits for its arguments and never loses its end',
  statement='''Calling a function on streams and futures calls it exactly once, after each awaited argument is complete and with exactly their
   values, and its result is delivered as a stream. An error of an argument or of the function, a cancellation, and a call that is dropped
   end the result with an error, never as if it were complete.''',
  over=['schedules','inputs'], text='every mix of arguments, order of completion and failure',
  why=_W, files=[_P+'stream_call.h', _P+'stream_call.cc'], mech=[('awaiting of arguments','stream_call.cc')],
  technique=_T, note='Held on the explored schedules. A routine that notices a cancellation may end as cancelled without its reason.'+_SH),
]
