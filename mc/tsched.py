"""Deterministic, preemption-bounded scheduling of real threads at source-line granularity.

Every controlled thread runs only while it holds the token.  Points where the explorer may take the token away are the `line` (or only
`call`) events of frames whose code lies in the given directories, observed with sys.settrace.  Taking it away costs one preemption of
a fixed budget; when a thread ends or blocks, the next thread is a free choice.  A thread that neither ends nor reaches a point for a
while (it waits for a lock of its own) keeps running freely and another thread gets the token: any behaviour seen is a legal schedule.
"""
from __future__ import annotations
import concurrent.futures as cf
import ast, os, sqlite3, sys, threading, time
from hamilton.execution import executors

_Thread, _Semaphore, _Event, _now, _pause = threading.Thread, threading.Semaphore, threading.Event, time.time, time.sleep  # not the controlled ones


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class T:
    __slots__ = ("name", "fn", "sem", "state", "pred", "deadline", "result", "exc", "thread")

    def __init__(self, name, fn):
        self.name, self.fn, self.sem = name, fn, _Semaphore(0)
        self.state, self.pred, self.deadline, self.result, self.exc, self.thread = "ready", None, None, None, None, None


_ST = {}


def _stmts(fname):
    r = _ST.get(fname)
    if r is None:
        with open(fname, encoding="utf8") as f:
            tree = ast.parse(f.read())
        r = _ST[fname] = {n.lineno for n in ast.walk(tree) if isinstance(n, ast.stmt)}
    return r


class Sched:
    STUCK = 0.3
    DEAD = 60.0

    def __init__(self, choices, bound, dirs, events="line", visits=None, statements=False):
        self.statements = statements   # lines inside a multi-line statement are not points
        self.visits = visits     # only the first so many visits of a line by a thread are scheduling points
        self.choices, self.left, self.bound, self.events = choices, bound, bound, events
        self.dirs = tuple(os.path.realpath(d) + os.sep for d in dirs)
        self.threads, self.running, self.local = [], None, threading.local()
        self.progress = 0
        self.points = 0
        self.wake = _Event()
        self.killed = False
        self.failure = None
        self._files = {}
        self.clock = 1e9         # virtual time, moved only by timeouts

    # ---------------------------------------------------------------- tracing
    def _mine(self, fname):
        r = self._files.get(fname)
        if r is None:
            r = self._files[fname] = os.path.realpath(fname).startswith(self.dirs)
        return r

    def _trace(self, frame, event, arg):
        if event != "call" or not self._mine(frame.f_code.co_filename):
            return None
        if self.events != "line":      # "mixed": first preemption at any line, further ones where functions are entered
            if (self.events == "call" or self.left < self.bound) and self._visit(frame):
                self.point()
            if self.events == "call":
                return None
        return self._ltrace

    def _visit(self, frame):
        if self.visits is None:
            return True
        d = getattr(self.local, "seen", None)
        if d is None:
            d = self.local.seen = {}
        if self.statements and frame.f_lineno not in _stmts(frame.f_code.co_filename):
            return self.running is not self.me()
        k = (frame.f_code, frame.f_lineno)
        n = d[k] = d.get(k, 0) + 1
        return n <= self.visits or self.running is not self.me()

    def _ltrace(self, frame, event, arg):
        if event == "line" and (self.events == "line" or self.left == self.bound or self.running is not self.me()) and self._visit(frame):
            self.point()
        return self._ltrace

    # ---------------------------------------------------------------- scheduling
    def spawn(self, fn, name=None):
        t = T(name or "t%d" % len(self.threads), fn)
        self.threads.append(t)

        def body():
            t.sem.acquire()
            self.local.t = t
            if not self.killed:
                sys.settrace(self._trace)
                try:
                    t.result = fn()
                except Killed:
                    pass
                except BaseException as e:
                    t.exc = e
                finally:
                    sys.settrace(None)
            t.state = "done"
            self.progress += 1
            if self.running is t:
                self._next()
            self.wake.set()
        t.thread = _Thread(target=body, daemon=True)
        t.thread.start()
        return t

    def me(self):
        return getattr(self.local, "t", None)

    def _ready(self, t):
        if t.state == "ready":
            return True
        if t.state == "blocked" and (t.deadline is not None or t.pred()):
            return True
        return False

    def _others(self, t):
        return [o for o in self.threads if o is not t and self._ready(o)]

    def _next(self):
        """the current thread gives up the token for good or until its condition holds"""
        rs = self._others(self.running)
        now = [o for o in rs if o.state == "ready" or o.pred()]
        if now and len(now) < len(rs):          # a timeout that fires although somebody could run costs a preemption
            rs = now + [o for o in rs if o not in now] if self.left > 0 else now
            o = rs[self.choices.choose(len(rs))]
            if o not in now:
                self.left -= 1
            return self._give(o)
        if not rs:
            t = self.running
            if t.state == "blocked" and (t.deadline is not None or t.pred()):
                return self._give(t)
            self.running = None
            self.wake.set()
            return
        self._give(rs[self.choices.choose(len(rs))])

    def _give(self, o):
        if o.state == "blocked" and o.deadline is not None and not o.pred():
            self.clock = max(self.clock, o.deadline)    # its timeout fires
        o.state = "ready"
        o.pred = o.deadline = None
        self.running = o
        o.sem.release()

    def _wait(self, t):
        t.sem.acquire()
        if self.killed:
            raise Killed()

    def point(self):
        t = self.me()
        if t is None:
            return
        if self.killed:
            raise Killed()
        if self.running is not t:      # it had been waiting for something of its own
            t.state = "ready"
            self.progress += 1
            if self.running is None:
                self.wake.set()
            self._wait(t)
            return
        self.points += 1
        self.progress += 1
        if self.left > 0:
            rs = self._others(t)
            if rs:
                c = self.choices.choose(1 + len(rs))
                if c:
                    self.left -= 1
                    self._give(rs[c - 1])
                    self._wait(t)

    def block(self, pred, timeout=None):
        """waits until pred() holds, or until the timeout fires (at any moment the explorer likes); others run meanwhile"""
        t = self.me()
        if t is None:
            raise RuntimeError("not a controlled thread")
        if pred():
            return
        if self.running is not t:
            self.point()
        t.deadline = None if timeout is None else self.clock + timeout
        t.state, t.pred = "blocked", pred
        self._next()
        self._wait(t)

    def retry_later(self):
        """the resource is held by another thread: continue after someone else made progress"""
        p = self.progress
        self.block(lambda: self.progress > p)

    def _asleep(self, t):
        """the thread is not running nor waiting for a processor (it may be slow: the machine is shared)"""
        try:
            for _ in range(4):
                with open("/proc/self/task/%d/stat" % t.thread.native_id) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] != "S":
                        return False
                _pause(0.01)
            return True
        except Exception:
            return True

    def run(self, *fns):
        """runs the functions concurrently to completion; returns the controlled threads"""
        first = [self.spawn(f, "main%d" % i) for i, f in enumerate(fns)]
        rs = list(first)
        self._give(rs[self.choices.choose(len(rs))])
        seen, t0, t1 = self.progress, _now(), _now()
        while not all(t.state == "done" for t in self.threads):
            self.wake.wait(0.05)
            self.wake.clear()
            if self.progress != seen:
                seen, t0, t1 = self.progress, _now(), _now()
            r = self.running
            idle = r is None
            if idle or (_now() - t0 > self.STUCK and self._asleep(r)):
                if not idle and r.state == "ready":
                    r.state = "wandering"
                rs = [o for o in self.threads if o is not r and self._ready(o)]
                if rs:
                    t0 = _now()
                    self._give(rs[0])
                elif idle and not any(o.state == "wandering" for o in self.threads) and not all(o.state == "done" for o in self.threads):
                    if not self._others(None):
                        self.failure = "deadlock: %s" % [(o.name, o.state) for o in self.threads]
                        break
            if _now() - t1 > self.DEAD:
                self.failure = "no progress: %s" % [(o.name, o.state) for o in self.threads]
                break
        if self.failure:
            self.killed = True
            for t in self.threads:
                t.sem.release()
            for t in self.threads:
                t.thread.join(2)
            raise Deadlock(self.failure)
        for t in self.threads:
            t.thread.join(10)
        return first


# -------------------------------------------------------------------------------------------------- a pool of controlled threads
class TFuture(cf.Future):
    def __init__(self, pool):
        super().__init__()
        self.pool_ = pool
        self.fin = False

    def done(self):
        if not self.fin:
            p = self.pool_
            if p.s.me() is not None:
                # the first polls after a submission return at once (the caller may have more to submit); spinning is waiting
                if p.polled != len(p.futs):
                    p.polled, p.polls = len(p.futs), 0
                p.polls += 1
                if p.polls > 8 * len(p.futs):
                    p.s.block(lambda: self.fin or p.finished > p.seen)
                p.seen = p.finished
        return self.fin

    def result(self, timeout=None):
        if self.pool_.s.me() is not None:
            self.pool_.s.block(lambda: self.fin)
        return super().result(timeout)

    def exception(self, timeout=None):
        if self.pool_.s.me() is not None:
            self.pool_.s.block(lambda: self.fin)
        return super().exception(timeout)


class TPool(cf.Executor):
    def __init__(self, s):
        self.s, self.finished, self.seen, self.futs = s, 0, 0, []
        self.polled = self.polls = 0

    def submit(self, fn, *args, **kw):
        f = TFuture(self)
        self.futs.append(f)

        def body():
            try:
                r = fn(*args, **kw)
            except Exception as e:
                f.fin = True
                self.finished += 1
                f.set_exception(e)
            else:
                f.fin = True
                self.finished += 1
                f.set_result(r)
        self.s.spawn(body, "task%d" % len(self.futs))
        return f

    def shutdown(self, wait=True, **kw):
        if wait and self.s.me() is not None:
            self.s.block(lambda: all(f.fin for f in self.futs))


class ThreadsExecutor(executors.PoolExecutor):
    """the repository's pool executor on controlled threads"""

    def __init__(self, s, max_tasks):
        super().__init__(max_tasks)
        self.s = s

    def create_pool(self):
        return TPool(self.s)


# -------------------------------------------------------------------------------------------------- sqlite waits as scheduling points
_CUR = [None]
_orig_connect = sqlite3.connect


def _busy(e):
    return isinstance(e, sqlite3.OperationalError) and ("locked" in str(e) or "busy" in str(e))


def _retry(f, *a, **k):
    s = _CUR[0]
    while True:
        try:
            return f(*a, **k)
        except sqlite3.OperationalError as e:
            if s is None or s.me() is None or not _busy(e):
                raise
            s.retry_later()


class CCursor(sqlite3.Cursor):
    def execute(self, *a, **k):
        return _retry(super().execute, *a, **k)

    def executemany(self, *a, **k):
        return _retry(super().executemany, *a, **k)


class CConn(sqlite3.Connection):
    def cursor(self, factory=CCursor):
        return super().cursor(factory)

    def execute(self, *a, **k):
        return self.cursor().execute(*a, **k)

    def commit(self):
        return _retry(super().commit)


def _connect(*a, **k):
    if _CUR[0] is not None and _CUR[0].me() is not None:
        k.setdefault("factory", CConn)
        k["timeout"] = 0
    return _orig_connect(*a, **k)


class controlled_sqlite:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        _CUR[0] = self.s
        sqlite3.connect = _connect

    def __exit__(self, *a):
        _CUR[0] = None
        sqlite3.connect = _orig_connect
