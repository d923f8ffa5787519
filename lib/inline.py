"""Thread pools that run their tasks at once, in the submitting thread.

Most of the time of a sequential monitor would otherwise go into starting and
stopping threads. Schedules are explored elsewhere, with real threads.
"""
import concurrent.futures
import concurrent.futures.thread


class Inline(concurrent.futures.Executor):

  def __init__(self, *args, initializer=None, initargs=(), **kwargs):
    del args, kwargs
    if initializer:
      initializer(*initargs)

  def submit(self, fn, /, *args, **kwargs):
    f = concurrent.futures.Future()
    f.set_running_or_notify_cancel()
    try:
      f.set_result(fn(*args, **kwargs))
    except Exception as e:  # pylint: disable=broad-except
      f.set_exception(e)
    return f


_REAL = concurrent.futures.ThreadPoolExecutor


def use(case):
  """Real threads for every eighth case, inline execution for the others."""
  concurrent.futures.ThreadPoolExecutor = _REAL if case % 8 == 7 else Inline
