"""An asyncio event loop in which the explorer decides which suspended coroutine resumes next."""
from __future__ import annotations
import asyncio, selectors


class Deadlock(BaseException):
    """nothing can run and nothing is pending: the execution hangs"""


class _Sel(selectors.SelectSelector):
    owner = None

    def select(self, timeout=None):
        if timeout is not None and timeout <= 0:
            return []
        self.owner.idle()
        return []


class Controlled:
    def __init__(self):
        self.sel = _Sel()
        self.sel.owner = self
        self.loop = asyncio.SelectorEventLoop(self.sel)
        self.choices = None
        self.pending = []      # [label, future]
        self.events = 0
        self.multi = False
        self.errors = []
        self.loop.set_exception_handler(lambda l, c: None)

    def gate(self, label):
        f = self.loop.create_future()
        self.pending.append((label, f))
        return f

    def idle(self):
        self.pending = [(l, f) for l, f in self.pending if not f.done()]
        if not self.pending:
            if self.loop._scheduled if hasattr(self.loop, "_scheduled") else False:
                return
            raise Deadlock()
        while self.pending:
            self.pending.sort(key=lambda t: t[0])
            i = self.choices.choose(len(self.pending)) if self.choices else 0
            l, f = self.pending.pop(i)
            self.events += 1
            f.set_result(None)
            if not (self.multi and self.pending and self.choices and self.choices.choose(2)):
                break

    def run(self, coro_fn, choices):
        """Runs coro_fn() to completion under the given choices, then lets everything left over finish."""
        self.choices = choices
        self.pending = []
        self.events = 0
        asyncio.set_event_loop(self.loop)
        try:
            try:
                res = ("ok", self.loop.run_until_complete(coro_fn()))
            except Deadlock:
                res = ("hang", None)
            except Exception as e:
                res = ("err", e)
            self.choices = None
            # drain: whatever was still in flight runs to its end
            for _ in range(1000):
                left = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
                if not left:
                    break
                try:
                    self.loop.run_until_complete(asyncio.wait(left))
                except Deadlock:
                    for t in left:
                        t.cancel()
            for l, f in self.pending:
                if not f.done():
                    f.cancel()
            return res
        finally:
            asyncio.set_event_loop(None)

    def close(self):
        self.loop.close()
