"""C07: the cache under parallel task execution and concurrent runs.

Real threads run the real caching adapter and stores under a deterministic scheduler (mc.tsched); every schedule within the preemption
bound is executed, at every source line of hamilton/caching.  Results, errors, and a following run on the cache left behind are checked."""
from __future__ import annotations
import itertools, os, shutil, tempfile
import hamilton.caching
from mc import tsched
from mc.core import exc_brief, StopJob
from mc.explore import explore, explore_part
from mc.progs import make_module
from mc.cachelab import HDR, SHM, MemStores
from hamilton import driver, base
from hamilton.execution import executors
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore

TECHNIQUE = ("stateless model checking: real threads under a controlled scheduler, all schedules up to a preemption bound at source-line granularity of hamilton/caching, each "
             "followed by a run on the cache left behind")
RULE = "state = scenario x schedule; transition = one scheduling point passed; trace = one complete schedule executed on the real code and compared with the uncached result"
ASSUMPTIONS = ["two or three concurrent tasks, or two concurrent runs", "one preemption at line granularity and two at call granularity (quick), two at line granularity (thorough)", "preemption only inside hamilton/caching; sqlite lock waits are modelled as fair"]
BUDGET = {"quick": 420, "thorough": 3 * 3600}
VISITS = 2
DIRS = [os.path.dirname(os.path.abspath(hamilton.caching.__file__ or list(hamilton.caching.__path__)[0]))]
if not os.path.isdir(DIRS[0]):
    DIRS = list(hamilton.caching.__path__)

LOG = []


def _fan(items, body, extra=""):
    return (HDR + "def y(x: int) -> int:\n    LOG.append(('y', x))\n    return x + 100\n"
            "def e(x: int) -> Parallelizable[int]:\n    LOG.append(('e', x))\n    for i in %r:\n        yield i + x\n" % (items,) + body +
            "def z(c: Collect[int]) -> List[int]:\n    LOG.append(('z',))\n    return list(c)\n" + extra)


B1 = "def c(e: int) -> int:\n    LOG.append(('c', e))\n    return e * 7\n"
B2 = "def b(e: int, y: int) -> int:\n    LOG.append(('b', e, y))\n    return e * 10 + y\ndef c(b: int, e: int) -> int:\n    LOG.append(('c', b, e))\n    return b * 10 + e\n"
B2D = "@cache(behavior='disable')\ndef b(e: int, y: int) -> int:\n    LOG.append(('b', e, y))\n    return e * 10 + y\ndef c(b: int, e: int) -> int:\n    LOG.append(('c', b, e))\n    return b * 10 + e\n"
B2I = "@cache(behavior='ignore')\ndef b(e: int, y: int) -> int:\n    LOG.append(('b', e, y))\n    return e * 10 + y\ndef c(b: int, e: int) -> int:\n    LOG.append(('c', b, e))\n    return b * 10 + e\n"
B2R = "@cache(behavior='recompute')\ndef b(e: int, y: int) -> int:\n    LOG.append(('b', e, y))\n    return e * 10 + y\ndef c(b: int, e: int) -> int:\n    LOG.append(('c', b, e))\n    return b * 10 + e\n"
BJ = "@cache(format='json')\ndef c(e: int) -> dict:\n    LOG.append(('c', e))\n    return {'v': [e, e * 7]}\n"

# name -> (source, number of tasks at once, functions that run even when everything is cached)
FAN = {
    "one": (_fan([1, 2], B1), 2, {"e"}),
    "equal": (_fan([1, 1], B1), 2, {"e"}),
    "chain": (_fan([1, 2], B2), 2, {"e"}),
    "three": (_fan([1, 2, 1], B1), 3, {"e"}),
    "json": (_fan([1, 2], BJ).replace("Collect[int]", "Collect[dict]").replace("List[int]", "list"), 2, {"e"}),
    "disable": (_fan([1, 2], B2D), 2, {"e", "b", "c", "z"}),
    "ignore": (_fan([1, 2], B2I), 2, {"e", "b"}),
    "recompute": (_fan([1, 2], B2R), 2, {"e", "b"}),
}
PLAIN = {
    "plain": HDR + "def a(x: int) -> int:\n    LOG.append(('a', x))\n    return x + 1\ndef b(a: int) -> list:\n    LOG.append(('b', a))\n    return [a, a]\n",
    "json": HDR + "@cache(format='json')\ndef a(x: int) -> dict:\n    LOG.append(('a', x))\n    return {'k': list(range(x))}\ndef b(a: dict) -> list:\n    LOG.append(('b', str(a)))\n    return [a, a]\n",
    "edited": HDR + "def a(x: int) -> int:\n    LOG.append(('a', x))\n    return x + 2\ndef b(a: int) -> list:\n    LOG.append(('b', a))\n    return [a, a]\n",
}
_mods = {}


def mod(src):
    if src not in _mods:
        _mods[src] = make_module(src, env={"LOG": LOG})
    return _mods[src]


class Disk:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c7", dir=SHM)

    def kw(self):
        return dict(path=self.dir)

    def damage(self):
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                if "metadata_store" not in f:
                    os.remove(os.path.join(d, f))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Mem:
    def __init__(self):
        self.s = MemStores()

    def kw(self):
        return dict(metadata_store=self.s.meta, result_store=self.s.res)

    def damage(self):
        self.s.res.delete_all()

    def close(self):
        pass


def build(src, st, ex=None):
    b = driver.Builder().with_modules(mod(src)).with_adapters(base.DictResult())
    if ex is not None:
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(ex)
    if st is not None:
        b = b.with_cache(**st.kw())
    return b.build()


_ref = {}


def reference(src, outs, x, fan):
    k = (src, tuple(outs), x)
    if k not in _ref:
        _ref[k] = build(src, None, executors.SynchronousLocalTaskExecutor() if fan else None).execute(list(outs), inputs={"x": x})
        del LOG[:]
    return _ref[k]


def check_after(src, st, outs, x, fan, always, want, may_recompute=False):
    """a following run, alone, with freshly built driver"""
    del LOG[:]
    dr = build(src, st, executors.SynchronousLocalTaskExecutor() if fan else None)
    try:
        got = dr.execute(list(outs), inputs={"x": x})
    except Exception as e:
        return "the following run raised %s" % exc_brief(e)
    if got != want:
        return "the following run returned %r, expected %r" % (got, want)
    extra = sorted({c[0] for c in LOG} - always)
    if extra and not may_recompute:
        return "the following run executed %s again" % extra
    return None


def fan_case(ctx, key, case, src, width, always, store, warm, bound, events, part=None):
    """all schedules of the tasks of one run"""
    outs = ("z", "y") if "y: int" in src else ("z",)
    want = reference(src, outs, 1, True)

    def once(ch):
        st = Disk() if store == "disk" else Mem()
        try:
            if warm:
                build(src, st, executors.SynchronousLocalTaskExecutor()).execute(list(outs), inputs={"x": 1})
                if warm == "damaged":
                    st.damage()
            del LOG[:]
            s = tsched.Sched(ch, bound, DIRS, events, VISITS, ctx.tier == "quick")
            ex = tsched.ThreadsExecutor(s, width)
            dr = build(src, st, ex)
            with tsched.controlled_sqlite(s):
                try:
                    t, = s.run(lambda: dr.execute(list(outs), inputs={"x": 1}))
                except tsched.Deadlock as e:
                    return "the run does not terminate: %s" % e, s.points
            if t.exc is not None:
                return "the run raised %s" % exc_brief(t.exc), s.points
            if t.result != want:
                return "the run returned %r, expected %r" % (t.result, want), s.points
            if warm is True:
                extra = sorted({c[0] for c in LOG} - always)
                if extra:
                    return "everything was cached but %s ran" % extra, s.points
            # what the run reports about itself
            rid = dr.cache.last_run_id
            bad = bookkeeping(dr, rid, len(want['z']))
            if bad:
                return bad, s.points
            return check_after(src, st, outs, 1, True, always, want), s.points
        finally:
            st.close()
    loop(ctx, key, case, once, part)


def bookkeeping(dr, rid, ntasks):
    """every task of the body node has its cache key and data version in the record of the run"""
    tasks = [k[1] for k in dr.cache.logs(rid, level="debug") if isinstance(k, tuple) and k[0] == "c"]
    if len(set(tasks)) != ntasks:
        return "the log of the run names tasks %s, there were %d" % (tasks, ntasks)
    for t in tasks:
        ck = dr.cache.get_cache_key(run_id=rid, node_name="c", task_id=t)
        if not isinstance(ck, str):
            return "the cache key of task %s is missing from the record of the run" % t
        dv = dr.cache.get_data_version(run_id=rid, node_name="c", task_id=t)
        if not isinstance(dv, str):
            return "the data version of task %s is missing from the record of the run" % t
    return None


def loop(ctx, key, case, once, part=None):
    n = 0
    for trail, (bad, points) in (explore(once) if part is None else explore_part(once, *part)):
        n += 1
        ctx.state(key + repr(trail))
        ctx.transition(max(points, 1))
        ctx.trace()
        ctx.cases += 1
        if bad:
            ctx.violation("%s|%s" % (key, bad.split(":")[0][:60]), "schedule %s: %s" % ("".join(map(str, trail))[-200:], bad), dict(case, trail=trail))
            if len(ctx.violations) > 5 or "terminate" in bad:
                raise StopJob()
        if ctx.out_of_time():
            return
    ctx.outcome(key.split("|")[0])
    ctx.count("schedules " + key, n)


def runs_case(ctx, key, case, srcs, xs, store, share, bound, events, warm=False, part=None):
    """two runs at once on one store: separate drivers, or one driver used from two threads; drivers are built inside the threads"""
    def once(ch):
        st = Disk() if store == "disk" else Mem()
        try:
            if warm:
                build(srcs[0], st).execute(["a", "b"], inputs={"x": xs[0]})
            del LOG[:]
            s = tsched.Sched(ch, bound, DIRS, events, VISITS, ctx.tier == "quick")
            shared = build(srcs[0], st) if share else None

            def go(i):
                def f():
                    dr = shared if share else build(srcs[i], st)
                    return dr.execute(["a", "b"], inputs={"x": xs[i]})
                return f
            with tsched.controlled_sqlite(s):
                try:
                    ts = s.run(go(0), go(1))
                except tsched.Deadlock as e:
                    return "the runs do not terminate: %s" % e, s.points
            for i, t in enumerate(ts):
                if t.exc is not None:
                    return "run %d raised %s" % (i, exc_brief(t.exc)), s.points
                want = reference(srcs[i], ("a", "b"), xs[i], False)
                if t.result != want:
                    return "run %d returned %r, expected %r" % (i, t.result, want), s.points
            for i in range(2):
                want = reference(srcs[i], ("a", "b"), xs[i], False)
                bad = check_after(srcs[i], st, ("a", "b"), xs[i], False, set(), want)
                if bad:
                    return "(settings of run %d) %s" % (i, bad), s.points
            return None, s.points
        finally:
            st.close()
    loop(ctx, key, case, once, part)


def jobs(tier):
    J = []

    def fan(name, store, warm, bound, events, parts=1):
        J.extend(("fan", name, store, warm, bound, events, (i, parts)) for i in range(parts))

    def runs(sa, sb, xs, store, share, warm, bound, events, parts=1):
        J.extend(("runs", sa, sb, xs, store, share, warm, bound, events, (i, parts)) for i in range(parts))
    two = (("plain", "plain", (1, 1)), ("json", "json", (2, 2)), ("plain", "plain", (1, 2)), ("plain", "edited", (1, 1)))
    if tier == "quick":
        fan("one", "mem", False, 1, "line", 1)
        fan("one", "mem", False, 2, "call", 4)
        fan("chain", "mem", False, 1, "line", 2)
        fan("one", "mem", "damaged", 1, "line")
        fan("one", "disk", False, 1, "line", 2)
        fan("one", "disk", "damaged", 1, "line", 2)
        fan("chain", "disk", True, 1, "line", 2)
        fan("equal", "disk", False, 1, "line", 2)
        fan("equal", "disk", False, 2, "call", 4)
        fan("json", "disk", False, 1, "line", 2)
        fan("three", "mem", False, 1, "call")
        for n in ("disable", "ignore", "recompute"):
            fan(n, "mem", False, 1, "line")
        for sa, sb, xs in two:
            runs(sa, sb, xs, "disk", False, False, 1, "line", 2)
            if sa == sb:
                runs(sa, sb, xs, "mem", True, False, 1, "line", 2)
            if sa == sb and xs[0] == xs[1]:
                if sa == "json":
                    runs(sa, sb, xs, "disk", False, False, 2, "call", 4)
                runs(sa, sb, xs, "mem", False, False, 1, "line", 1)
        runs("plain", "plain", (1, 1), "disk", True, True, 1, "line", 2)
    else:
        for name in FAN:
            for store in ("mem", "disk"):
                for warm in (False, True, "damaged"):
                    fan(name, store, warm, 1, "line", 4)
                    fan(name, store, warm, 2, "call", 8)
                    fan(name, store, warm, 2, "mixed", 16)
        for store, share, warm in itertools.product(("mem", "disk"), (False, True), (False, True)):
            for sa, sb, xs in two:
                if share and sa != sb:
                    continue
                runs(sa, sb, xs, store, share, warm, 1, "line", 4)
                runs(sa, sb, xs, store, share, warm, 2, "mixed", 16)
    J.sort(key=lambda j: {"mixed": 0, "call": 1, "line": 2}[j[-2]])
    return J


def run_job(job, ctx):
    global VISITS
    VISITS = 1 if ctx.tier == "quick" else 3
    case = dict(job=list(job))
    key = "|".join(map(str, job[:-1]))
    if job[0] == "fan":
        _, name, store, warm, bound, events, part = job
        src, width, always = FAN[name]
        fan_case(ctx, key, case, src, width, always, store, warm, bound, events, tuple(part))
    else:
        _, sa, sb, xs, store, share, warm, bound, events, part = job
        runs_case(ctx, key, case, (PLAIN[sa], PLAIN[sb]), tuple(xs), store, share, bound, events, warm, tuple(part))


def replay(case, ctx):
    run_job(tuple(tuple(x) if isinstance(x, list) else x for x in case["job"]), ctx)
