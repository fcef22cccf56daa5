"""A concurrent.futures.Executor whose tasks finish when the explorer says so."""
from __future__ import annotations
import concurrent.futures as cf
from hamilton.execution import executors


class PollLimit(BaseException):
    """the engine polled far more often than any terminating run needs: reported as non-termination"""


class CFuture(cf.Future):
    def __init__(self, pool, fn, args, kw):
        super().__init__()
        self.pool_, self.work = pool, (fn, args, kw)
        self.left = None
        self.finished = False

    def _run(self):
        if self.finished:
            return
        self.finished = True
        self.pool_.inflight -= 1
        fn, args, kw = self.work
        try:
            r = fn(*args, **kw)
        except Exception as e:
            super().set_exception(e)
        else:
            super().set_result(r)

    def done(self):
        self.pool_.polls += 1
        if self.pool_.polls > self.pool_.max_polls:
            raise PollLimit()
        if not self.finished:
            if self.left <= 0:
                self._run()
            else:
                self.left -= 1
        return self.finished

    def running(self):
        return not self.finished

    def result(self, timeout=None):
        self._run()
        return super().result(0)

    def exception(self, timeout=None):
        self._run()
        return super().exception(0)

    def add_done_callback(self, fn):
        self._run()
        super().add_done_callback(fn)


class CPool(cf.Executor):
    """submit(): the explorer chooses after how many polls the task is seen finished (0..k)."""

    def __init__(self, owner):
        self.o = owner
        self.inflight = 0
        self.polls = 0
        self.max_polls = 3000
        self.futures = []

    def submit(self, fn, *args, **kw):
        self.inflight += 1
        self.o.max_seen = max(self.o.max_seen, self.inflight)
        self.o.submitted += 1
        f = CFuture(self, fn, args, kw)
        f.left = self.o.choices.choose(self.o.k + 1)
        self.futures.append(f)
        if self.o.eager:
            left, f.left = f.left, 0
            f._run_result = None
            fn0 = f.work
            # the work happens now, the completion is only seen later
            try:
                r = fn0[0](*fn0[1], **fn0[2])
                f.work = ((lambda r=r: r), (), {})
            except Exception as e:
                def rs(e=e):
                    raise e
                f.work = (rs, (), {})
            f.left = left
        return f

    def shutdown(self, wait=True, **kw):
        self.o.shutdowns += 1
        if wait:  # a real pool waits for what is still in flight
            for f in self.futures:
                f._run()


class ControlledExecutor(executors.PoolExecutor):
    """The repository's pool executor logic (limits, futures, state) on a controlled pool."""

    def __init__(self, max_tasks, choices, k, eager=False):
        super().__init__(max_tasks)
        self.choices, self.k, self.eager = choices, k, eager
        self.reset(choices)

    def reset(self, choices):
        self.choices = choices
        self.max_seen = 0
        self.submitted = 0
        self.shutdowns = 0
        self.creates = 0

    def create_pool(self):
        self.creates += 1
        return CPool(self)
