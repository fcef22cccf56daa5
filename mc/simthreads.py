"""Drop-in replacements for threads, queues, events, clocks and exit handlers that a tsched.Sched controls while one is active.

install() puts them into the standard modules before the code under test is imported; outside a controlled thread they behave as usual."""
from __future__ import annotations
import atexit, queue, sys, threading, time
from mc import tsched

_Thread, _Queue, _Event = threading.Thread, queue.Queue, threading.Event
_time, _mono, _sleep, _main, _register, _unregister, _current = time.time, time.monotonic, time.sleep, threading.main_thread, atexit.register, atexit.unregister, threading.current_thread
CUR = [None]      # the active world


def me():
    w = CUR[0]
    return w.s if w is not None and w.s.me() is not None else None


class CThread(_Thread):
    def __init__(self, *a, daemon=None, **k):
        super().__init__(*a, daemon=False if daemon is None and me() else daemon, **k)

    def start(self):
        s = me()
        if s is None:
            return super().start()
        CUR[0].threads.append(self)
        self.c_t = s.spawn(self.run, "thread%d" % len(CUR[0].threads))
        s.point()

    def join(self, timeout=None):
        t = getattr(self, "c_t", None)
        if t is None:
            return super().join(timeout)
        s = me()
        s.block(lambda: t.state == "done", timeout)

    def is_alive(self):
        t = getattr(self, "c_t", None)
        return super().is_alive() if t is None else t.state != "done"


class CQueue(_Queue):
    def put(self, item, block=True, timeout=None):
        s = me()
        if s is None:
            return super().put(item, block, timeout)
        s.point()
        self._put(item)
        self.unfinished_tasks += 1
        s.progress += 1

    def get(self, block=True, timeout=None):
        s = me()
        if s is None:
            return super().get(block, timeout)
        s.point()
        if not self._qsize():
            if not block:
                raise queue.Empty
            s.block(self._qsize, timeout)
            if not self._qsize():
                raise queue.Empty
        return self._get()


class CEvent(_Event):
    def wait(self, timeout=None):
        s = me()
        if s is None or sys._getframe(1).f_code.co_filename == threading.__file__:   # the threading module's own use
            return super().wait(timeout)
        s.block(self.is_set, timeout)
        return self.is_set()


class _MainThread:
    name = "MainThread"
    daemon = False

    def join(self, timeout=None):
        w = CUR[0]
        w.s.block(lambda: w.main_done, timeout)

    def is_alive(self):
        return not CUR[0].main_done


class World:
    """one controlled execution of a program: its main function, the threads it starts and the interpreter's exit sequence"""

    def __init__(self, choices, bound, dirs, events="line", visits=None):
        self.s = tsched.Sched(choices, bound, dirs, events, visits)
        self.threads, self.exits, self.main_done, self.main_exc, self.exit_exc = [], [], False, None, []

    def run(self, main):
        def program():
            try:
                main()
            except Exception as e:
                self.main_exc = e
            self.main_done = True
            self.s.progress += 1
            # interpreter shutdown: wait for the threads that are not daemons, then run the exit handlers, last registered first
            for t in self.threads:
                if not t.daemon:
                    t.join()
            while self.exits:
                f, a, k = self.exits.pop()
                try:
                    f(*a, **k)
                except Exception as e:
                    self.exit_exc.append(e)
        CUR[0] = self
        try:
            self.s.run(program)
        finally:
            CUR[0] = None

    def thread_excs(self):
        return [t.c_t.exc for t in self.threads if t.c_t.exc is not None]


def install():
    threading.Thread, queue.Queue, threading.Event = CThread, CQueue, CEvent
    m = _MainThread()
    threading.main_thread = lambda: m if me() else _main()
    time.time = lambda: CUR[0].s.clock if me() else _time()
    time.monotonic = lambda: CUR[0].s.clock if me() else _mono()

    def sleep(d):
        s = me()
        if s is None:
            return _sleep(d)
        s.block(lambda: False, d)
    time.sleep = sleep

    def register(f, *a, **k):
        if me():
            CUR[0].exits.append((f, a, k))
            return f
        return _register(f, *a, **k)

    def unregister(f):
        if me():
            CUR[0].exits[:] = [e for e in CUR[0].exits if e[0] != f]
        else:
            _unregister(f)
    atexit.register, atexit.unregister = register, unregister
