"""C21: what the tracker reports about a run against what happened.

The real trackers are attached to the real drivers with a recording client.  Sequential and dynamic runs are enumerated over dataflows,
requested nodes, overrides and failures; fan-outs run on controlled threads (every schedule up to a preemption bound inside the SDK);
asynchronous runs on a controlled event loop (every order in which suspended calls resume); and one dataflow per kind of value."""
from __future__ import annotations
import asyncio, atexit, collections, dataclasses, datetime, decimal, enum, gc, importlib.util, inspect, itertools, json, logging, os, pathlib, pickle, shutil, sys, tempfile, time, uuid
import hamilton_sdk
from hamilton_sdk import adapters as sdk
from hamilton_sdk.api import clients
from hamilton_sdk.tracking import runs as sdk_runs, utils as sdk_utils
from mc import tsched
from mc.aloop import Controlled
from mc.core import exc_brief, StopJob
from mc.explore import explore, explore_part
from mc.progs import subsets
from hamilton import driver, base, async_driver
from hamilton.data_quality.base import DataValidationError
from hamilton.execution import executors
from hamilton.io.materialization import to
from hamilton.lifecycle import NodeExecutionHook

TECHNIQUE = ("explicit enumeration of dataflow x request x override x failure x driver kind, and of kinds of values, with stateless model checking of fan-outs (all schedules up to a preemption bound) and "
             "of asynchronous runs (all resume orders); the tracker's reports are compared with an independent record of the run")
RULE = "state = (dataflow, request, failing node, driver kind, schedule); transition = one report received by the recording client; trace = one run of the real driver with tracker compared with its independent record and with the run without tracker"
ASSUMPTIONS = ["reports are taken where the tracker hands them to its client (delivery is property C20)", "fan-outs of two or three tasks, one preemption at line and two at call granularity inside the SDK; up to two asynchronous runs in flight",
               "sampling of fan-outs (special_parallel_sample_strategy) is off", "values whose inspection crashes inside polars itself (Decimal columns) are left out"]
BUDGET = {"quick": 420, "thorough": 3 * 3600}
DIRS = [os.path.dirname(os.path.abspath(hamilton_sdk.__file__ or list(hamilton_sdk.__path__)[0] + "/x"))]
logging.disable(logging.CRITICAL)

TMP = []


def tmpdir():
    if not TMP or TMP[0][0] != os.getpid():
        d = tempfile.mkdtemp(prefix="c21_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        TMP[:] = [(os.getpid(), d)]
    return TMP[0][1]


_n = itertools.count()
# no modules among the names: the tracker hashes every module a module refers to
HDR = ("from hamilton.function_modifiers import check_output\nfrom hamilton.htypes import Parallelizable, Collect\n"
       "from mc.props.c21 import BODY as _BODY, ABODY as _ABODY, GEN as _GEN, VAL as _VAL\n")
_mods = {}


def module(src):
    """a module read from a real file (the tracker hashes module files)"""
    k = (os.getpid(), src)
    if k not in _mods:
        name = "c21_m%d_%d" % (os.getpid(), next(_n))
        p = os.path.join(tmpdir(), name + ".py")
        with open(p, "w") as f:
            f.write(HDR + src)
        spec = importlib.util.spec_from_file_location(name, p)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        _mods[k] = m
    return _mods[k]


# ------------------------------------------------------------------------------------------------ what functions do
class Boom(Exception):
    pass


FAIL = {}       # (name, first argument or None) -> exception to raise
TIMES = {}      # (name, args) -> time the body ran
CTL = [None]


def now():
    return datetime.datetime.now(datetime.timezone.utc)


def BODY(name, *args):
    TIMES.setdefault((name, args), []).append(now())
    for k in ((name, None), (name, args[0] if args else None)):
        if k in FAIL:
            raise FAIL[k]
    return (name,) + args


async def ABODY(name, *args):
    TIMES.setdefault((name, args), []).append(now())
    await CTL[0].gate("fn:%s:%r" % (name, args))
    for k in ((name, None), (name, args[0] if args else None)):
        if k in FAIL:
            raise FAIL[k]
    return (name,) + args


def GEN(name, items):
    TIMES.setdefault((name, ()), []).append(now())
    if (name, None) in FAIL:
        raise FAIL[(name, None)]
    for i in items:
        yield i


VALUE = [None]


def VAL():
    return VALUE[0]


class Truth(NodeExecutionHook):
    """independent record of the node instances that ran"""

    def __init__(self):
        self.started, self.ended = [], []

    def run_before_node_execution(self, *, node_name, task_id=None, **kw):
        self.started.append((task_id, node_name))

    def run_after_node_execution(self, *, node_name, success, error, result, task_id=None, **kw):
        self.ended.append((task_id, node_name, success, error, result))


# ------------------------------------------------------------------------------------------------ recording clients
def dump(x):
    return json.loads(json.dumps(sdk_utils.make_json_safe(x), allow_nan=False))


class Rec(clients.HamiltonClient):
    def __init__(self, *a, **kw):
        self.templates, self.runs, self.updates, self.ends, self.problems = {}, [], [], [], []

    def _register(self, nodes, config, tags, **kw):
        try:
            json.dumps([nodes, sdk_utils.make_json_safe(config), sdk_utils.make_json_safe(tags)], allow_nan=False)
        except Exception as e:
            self.problems.append("the template cannot be sent: %s" % exc_brief(e))
        i = len(self.templates) + 1
        self.templates[i] = {n["name"]: sorted(n["dependencies"]) for n in nodes}
        return i

    def _create(self, dag_template_id, inputs, outputs):
        try:
            dump(inputs), dump(list(outputs))
        except Exception as e:
            self.problems.append("the start of the run cannot be sent: %s" % exc_brief(e))
        self.runs.append((dag_template_id, sorted(inputs), list(outputs)))
        return len(self.runs) * 10

    def _update(self, dag_run_id, attributes, task_updates):
        try:
            a, t = dump([x for x in attributes if x is not None]), dump(task_updates)
        except Exception as e:
            self.problems.append("an update of %s cannot be sent: %s" % ([u.get("node_name") for u in task_updates if u], exc_brief(e)))
            return
        for u, raw in zip(t, task_updates):
            u["start_time"], u["end_time"] = raw["start_time"], raw["end_time"]
        self.updates.append((dag_run_id, a, t))

    def validate_auth(self):
        pass

    def project_exists(self, project_id):
        return True

    def register_dag_template_if_not_exists(self, **kw):
        return self._register(**kw)

    def create_and_start_dag_run(self, dag_template_id, tags, inputs, outputs):
        return self._create(dag_template_id, inputs, outputs)

    def update_tasks(self, dag_run_id, attributes, task_updates, in_samples=None):
        self._update(dag_run_id, attributes, task_updates)

    def log_dag_run_end(self, dag_run_id, status):
        self.ends.append((dag_run_id, status))

    def stop(self):
        pass


class ARec(Rec):
    async def ainit(self):
        pass

    async def validate_auth(self):
        pass

    async def project_exists(self, project_id):
        return True

    async def register_dag_template_if_not_exists(self, **kw):
        return self._register(**kw)

    async def create_and_start_dag_run(self, dag_template_id, tags, inputs, outputs):
        r = self._create(dag_template_id, inputs, outputs)
        await CTL[0].gate("create:%d" % r)
        return r

    async def update_tasks(self, dag_run_id, attributes, task_updates, in_samples=None):
        self._update(dag_run_id, attributes, task_updates)
        if CTL[0].fine:
            await CTL[0].gate("update:%d:%s:%s" % (dag_run_id, task_updates[0]["node_name"], task_updates[0]["status"]))

    async def log_dag_run_end(self, dag_run_id, status):
        self.ends.append((dag_run_id, status))


def tracker():
    return sdk.HamiltonTracker(project_id=1, username="u", dag_name="d", client_factory=Rec, api_key="k")


def summary(result, node_):
    s = sdk_runs.process_result(result, node_)[0]
    return None if s is None else dump(s["observability_value"])


def instance(task_id, name):
    return name if task_id is None else "%s-%s" % (task_id, name)


def judge(cl, rid, truth, graph, ok, requested=None, inputs=None, times=True):
    """the reports about run `rid` against the independent record"""
    if cl.problems:
        return cl.problems[0]
    i = rid // 10 - 1
    if not 0 <= i < len(cl.runs):
        return "the run was not registered"
    tid, ins, outs = cl.runs[i]
    tmpl = cl.templates.get(tid)
    if tmpl is None:
        return "the run is registered under unknown template %r" % (tid,)
    if graph is not None:
        want = {n: sorted(d.name for d in x.dependencies) for n, x in graph.nodes.items()}
        if tmpl != want:
            return "the run is recorded under a template with nodes %s; its dataflow has %s" % (sorted(tmpl), sorted(want))
    if requested is not None and sorted(outs) != sorted(requested):
        return "recorded outputs %s, requested were %s" % (outs, requested)
    if inputs is not None and ins != sorted(inputs):
        return "recorded inputs %s, given were %s" % (ins, sorted(inputs))
    ends = [s for r, s in cl.ends if r == rid]
    if len(ends) != 1:
        return "the end of the run was reported %d times" % len(ends)
    if ends[0] != ("SUCCESS" if ok else "FAILURE"):
        return "the run is recorded as %s, it %s" % (ends[0], "succeeded" if ok else "failed")
    rec = {}
    for r, attrs, ups in cl.updates:
        if r == rid:
            names = {u["node_name"] for u in ups}
            if len(names) != 1:
                return "an update mixes %s" % sorted(names)
            if any(u != ups[0] for u in ups):
                return "contradicting updates of %s" % ups[0]["node_name"]
            if any(a["node_name"] != ups[0]["node_name"] for a in attrs):
                return "a summary of %s is sent with the update of %s" % ([a["node_name"] for a in attrs], ups[0]["node_name"])
            rec.setdefault(ups[0]["node_name"], []).append((ups[0], attrs))
    want = {}
    for task_id, name, success, error, result in truth.ended:
        want.setdefault(instance(task_id, name), []).append((name, success, error, result))
    if sorted(truth.started) != sorted((t, n) for t, n, *_ in truth.ended):
        return None     # harness record incomplete: judged by C06
    extra, missing = sorted(set(rec) - set(want)), sorted(set(want) - set(rec))
    if extra:
        return "recorded but not executed: %s" % extra
    if missing:
        return "executed but not recorded: %s" % missing
    nodes = graph.nodes if graph is not None else None
    for k, ups in rec.items():
        if len(want[k]) != 1:
            continue
        name, success, error, result = want[k][0]
        if len(ups) != 2:
            return "%s was reported %d times" % (k, len(ups))
        (s, sa), (e, ea) = ups
        if s["status"] != "RUNNING" or s["end_time"] is not None or s["start_time"] is None:
            return "%s: first report is %s %s..%s" % (k, s["status"], s["start_time"], s["end_time"])
        if sa:
            return "%s: a summary is sent with its start" % k
        if e["status"] != ("SUCCESS" if success else "FAILURE"):
            return "%s is recorded as %s, it %s" % (k, e["status"], "succeeded" if success else "failed")
        if e["start_time"] != s["start_time"]:
            return "%s: started at %s according to the first report and at %s according to the last" % (k, s["start_time"], e["start_time"])
        if e["end_time"] is None or not s["start_time"] <= e["end_time"]:
            return "%s: recorded from %s to %s" % (k, e["start_time"], e["end_time"])
        if s["node_template_name"] != name or e["node_template_name"] != name:
            return "%s is recorded as an instance of %s" % (k, s["node_template_name"])
        if nodes is not None:
            deps = sorted(d.name for d in nodes[name].dependencies)
            if sorted(s["realized_dependencies"]) != deps or sorted(e["realized_dependencies"]) != deps:
                return "%s: recorded dependencies %s, they are %s" % (k, e["realized_dependencies"], deps)
        if success:
            a = [x for x in ea if x["name"] == "result_summary"]
            if len(a) != 1 or any(x["attribute_role"] != "result_summary" for x in ea):
                return "%s: %d result summaries, roles %s" % (k, len(a), [x["attribute_role"] for x in ea])
            if nodes is not None:
                exp = summary(result, nodes[name])
                if exp is not None and a[0]["value"] != exp:
                    return "%s: recorded summary %s, its result has %s" % (k, str(a[0]["value"])[:150], str(exp)[:150])
            if times and isinstance(result, tuple) and result and result[0] == name:
                ts = TIMES.get((name, result[1:]), [])
                if len(ts) == 1 and not s["start_time"] <= ts[0] <= e["end_time"]:
                    return "%s: recorded from %s to %s but it ran at %s" % (k, e["start_time"], e["end_time"], ts[0])
        else:
            a = [x for x in ea if x["attribute_role"] == "error"]
            if len(a) != 1 or len(ea) != 1:
                return "%s failed; recorded: %s" % (k, [x["name"] for x in ea])
            text = json.dumps(a[0]["value"])
            if not isinstance(error, DataValidationError) and type(error).__name__ not in text:
                return "%s: recorded error does not name the exception %s: %s" % (k, type(error).__name__, text[-200:])
            m = error.args[0] if error.args and isinstance(error.args[0], str) else None
            if m and not isinstance(error, DataValidationError) and json.dumps(m)[1:-1] not in text:
                return "%s: recorded error does not contain %r: %s" % (k, m, text[-200:])
    return None


def outcome(f):
    try:
        return ("ok", f())
    except BaseException as e:
        if isinstance(e, (tsched.Killed,)) or type(e).__name__ in ("CaseTimeout", "StopJob", "Divergence"):
            raise
        return ("err", e)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return a[1] == b[1]
    return type(a[1]) is type(b[1]) and (a[1] is b[1] or a[1].args == b[1].args)


# ------------------------------------------------------------------------------------------------ sequential runs
def fsrc(nodes, kw="def", body="_BODY"):
    out = []
    for n, deps in nodes:
        out.append("%s %s(%s) -> object:\n    return %s%s(%r%s)\n" % (kw, n, ", ".join("%s: object" % d for d in deps), "await " if body == "_ABODY" else "", body, n, "".join(", " + d for d in deps)))
    return "".join(out)


SHAPES = {
    "chain": [("a", ["x"]), ("b", ["a"]), ("c", ["b"])],
    "diamond": [("a", ["x"]), ("b", ["a"]), ("c", ["a"]), ("d", ["b", "c"])],
    "roots": [("a", ["x"]), ("b", ["y"]), ("c", ["a", "b"])],
    "single": [("a", [])],
}


class Wild(BaseException):
    pass


class NoStr(Exception):
    def __str__(self):
        raise ValueError("cannot be printed")
    __repr__ = __str__


def errors():
    def chained(n):
        try:
            try:
                raise KeyError("inner")
            except KeyError as e:
                raise Boom("outer %s" % n) from e
        except Boom as e:
            return e
    return {"plain": lambda n: Boom("failure of %s" % n), "value": lambda n: ValueError("bad value in %s \u00e4\n\"quoted\"" % n), "noargs": lambda n: Boom(), "chained": chained,
            "interrupt": lambda n: KeyboardInterrupt(), "exit": lambda n: SystemExit(3), "base": lambda n: Wild("wild %s" % n), "nostr": lambda n: NoStr(n), "group": lambda n: ExceptionGroup("group of %s" % n, [Boom("1"), Boom("2")]),
            "validation": lambda n: DataValidationError([])}


ERR = errors()


def make(src, kind, adapters):
    b = driver.Builder().with_modules(module(src)).with_adapters(*adapters, base.DictResult())
    if kind == "dynamic":
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(executors.SynchronousLocalTaskExecutor())
    return b.build()


def plain_job(job, ctx):
    _, shape, kind, order = job
    nodes = SHAPES[shape]
    src = fsrc(nodes)
    names = [n for n, _ in nodes]
    inputs = {d: (d, 1) for n, ds in nodes for d in ds if d not in names}
    bare = make(src, kind, ())
    for outs in subsets(names, 1, 2 if ctx.tier == "quick" else None):
        tr, t = Truth(), tracker()
        dr = make(src, kind, (t, tr) if order else (tr, t))
        for ov in [()] + [(n,) for n in names]:
            for bad, err in [(None, None)] + [(n, e) for n in names for e in ERR]:
                FAIL.clear()
                if bad:
                    FAIL[(bad, None)] = ERR[err](bad)
                over = {n: ("over", n) for n in ov}
                TIMES.clear()
                want = outcome(lambda: bare.execute(list(outs), inputs=dict(inputs), overrides=over))
                for turn in (0,) if err else (0, 1):
                    TIMES.clear()
                    t.client.updates.clear()
                    del tr.started[:], tr.ended[:]
                    got = outcome(lambda: dr.execute(list(outs), inputs=dict(inputs), overrides=dict(over)))
                    msg = None
                    if not same(got, want):
                        msg = "with the tracker: %r, without: %r" % (got, want)
                    cl = t.client
                    msg = msg or judge(cl, len(cl.runs) * 10, tr, dr.graph, got[0] == "ok", list(outs), list(inputs) if inputs else None)
                    ctx.state("plain%s%s%s%s%s%s%s%d" % (shape, kind, order, outs, ov, bad, err, turn))
                    ctx.transition(len(cl.updates))
                    ctx.trace()
                    ctx.cases += 1
                    ctx.outcome("%s %s" % (kind, got[0]))
                    if msg:
                        ctx.violation("plain|%s|%s|%s|%s|%s" % (shape, kind, bad, err, msg[:40]), "%s %s driver, outputs %s, overrides %s, failing %s (%s), run %d: %s" % (shape, kind, outs, ov, bad, err, turn + 1, msg),
                                      dict(job=list(job)))
                if ctx.out_of_time():
                    return
    FAIL.clear()


# ------------------------------------------------------------------------------------------------ data quality, materialization, sharing
def misc_job(job, ctx):
    what = job[1]
    FAIL.clear()
    if what == "quality":
        src = ("@check_output(range=(0, 5), importance=%r)\ndef a(x: int) -> int:\n    return x\n"
               "@check_output_custom()\ndef unused() -> int:\n    return 1\ndef b(a: int) -> int:\n    return a\n").replace("@check_output_custom()\n", "")
        for imp, x, kind in itertools.product(("warn", "fail"), (1, 9), ("classic", "dynamic")):
            tr, t = Truth(), tracker()
            dr = make(src % imp, kind, (t, tr))
            bare = make(src % imp, kind, ())
            want = outcome(lambda: bare.execute(["b"], inputs={"x": x}))
            got = outcome(lambda: dr.execute(["b"], inputs={"x": x}))
            msg = None if same(got, want) or (got[0] == want[0] == "err" and type(got[1]) is type(want[1])) else "with the tracker %r, without %r" % (got, want)
            msg = msg or judge(t.client, 10, tr, dr.graph, got[0] == "ok", ["b"], ["x"])
            if not msg and (imp, x) == ("fail", 9):
                if got[0] != "err":
                    msg = "harness: no failure"
                else:
                    txt = json.dumps([a for _, at, _ in t.client.updates for a in at if a["attribute_role"] == "error"])
                    if "range" not in txt:
                        msg = "the recorded error does not describe the failed validation: %s" % txt[:300]
            report(ctx, job, "quality %s %s %s" % (imp, x, kind), t.client, msg)
    elif what == "materialize":
        src = "def a(x: int) -> dict:\n    return {'x': x}\ndef b(a: dict) -> dict:\n    return {'b': a}\n"
        d = tmpdir()
        n = 60 if ctx.tier == "quick" else 400
        tr, t = Truth(), tracker()
        dr = make(src, "classic", (t, tr))
        for i in range(n):
            name = "ab"[i % 2]
            del tr.started[:], tr.ended[:]
            got = outcome(lambda: dr.materialize(to.json(id="save_%d" % i, dependencies=[name], path=os.path.join(d, "f.json")), additional_vars=["a"], inputs={"x": i}))
            msg = None if got[0] == "ok" else "materialize raised %s" % exc_brief(got[1])
            msg = msg or judge(t.client, (i + 1) * 10, tr, None, True)
            if not msg:
                tmpl = t.client.templates[t.client.runs[i][0]]
                if "save_%d" % i not in tmpl or [k for k in tmpl if k.startswith("save_") and k != "save_%d" % i]:
                    msg = "run %d, which saved %s, is recorded under the template with %s" % (i, "save_%d" % i, sorted(tmpl))
            report(ctx, job, "materialize %d" % i, t.client, msg)
            t.client.updates.clear()
            if i % 3 == 2:
                gc.collect()
    elif what == "drivers":
        # one tracker, many drivers, built and dropped
        t = tracker()
        keep = []
        tr = Truth()
        for i in range(40 if ctx.tier == "quick" else 300):
            src = "def n%d(x: int) -> object:\n    return _BODY('n%d', x)\n" % (i % 7, i % 7)
            dr = make(src, "classic", (t, tr))
            if i % 5 == 0:
                keep.append((dr, "n%d" % (i % 7)))
            for d_, nm in ((dr, "n%d" % (i % 7)), keep[i % len(keep)]):
                del tr.started[:], tr.ended[:]
                TIMES.clear()
                rid = (len(t.client.runs) + 1) * 10
                got = outcome(lambda: d_.execute([nm], inputs={"x": i}))
                msg = judge(t.client, rid, tr, d_.graph, True, [nm], ["x"]) if got[0] == "ok" else "raised %s" % exc_brief(got[1])
                report(ctx, job, "driver %d" % i, t.client, msg)
            del dr, d_
            if i % 3 == 2:
                gc.collect()
            t.client.updates.clear()


def report(ctx, job, label, cl, msg):
    ctx.state("misc" + label)
    ctx.transition(max(1, len(cl.updates)))
    ctx.trace()
    ctx.cases += 1
    ctx.outcome(job[1])
    if msg:
        ctx.violation("misc|%s|%s" % (job[1], msg[:50]), "%s: %s" % (label, msg), dict(job=list(job)))


# ------------------------------------------------------------------------------------------------ fan-outs on threads
def _fan(items, body):
    return ("def e(x: object) -> Parallelizable[object]:\n    yield from _GEN('e', %r)\n" % (items,) + body + "def z(c: Collect[object]) -> object:\n    return _BODY('z', *c)\n")


FAN = {
    "one": (_fan([1, 2], "def c(e: object) -> object:\n    return _BODY('c', e)\n"), ("c",)),
    "chain": (_fan([1, 2], "def b(e: object, x: object) -> object:\n    return _BODY('b', e, x)\ndef c(b: object) -> object:\n    return _BODY('c', b)\n"), ("b", "c")),
    "three": (_fan([1, 2, 3], "def c(e: object) -> object:\n    return _BODY('c', e)\n"), ("c",)),
}


def fan_job(job, ctx):
    _, name, bad, bound, events, part = job
    src, body = FAN[name]
    width = 3 if name == "three" else 2

    def once(ch):
        FAIL.clear()
        if bad:
            FAIL[(bad[0], bad[1])] = Boom("failure of %s %s" % tuple(bad))
        TIMES.clear()
        s = tsched.Sched(ch, bound, DIRS, events, 1 if ctx.tier == "quick" else 2, ctx.tier == "quick")
        tr, t = Truth(), tracker()
        b = (driver.Builder().with_modules(module(src)).with_adapters(t, tr, base.DictResult()).enable_dynamic_execution(allow_experimental_mode=True)
             .with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(tsched.ThreadsExecutor(s, width)))
        dr = b.build()
        try:
            th, = s.run(lambda: dr.execute(["z"], inputs={"x": 5}))
        except tsched.Deadlock as e:
            return "the run does not terminate: %s" % e, s.points
        finally:
            FAIL.clear()
        if bad:
            if not isinstance(th.exc, Boom):
                return "the run ended with %r, the node raised Boom" % (th.exc,), s.points
        elif th.exc is not None:
            return "the run raised %s" % exc_brief(th.exc), s.points
        elif th.result != {"z": ("z",) + tuple(("c", ("b", i, 5)) if name == "chain" else ("c", i) for i in range(1, width + 1))}:
            return "the run returned %r" % (th.result,), s.points
        return judge(t.client, 10, tr, dr.graph, not bad, ["z"], ["x"]), s.points
    loop(ctx, job, once, part)


def loop(ctx, job, once, part):
    key = "|".join(map(str, job[:-1]))
    n = 0
    for trail, (bad, points) in (explore(once) if part is None else explore_part(once, *part)):
        n += 1
        ctx.state(key + repr(trail))
        ctx.transition(max(points, 1))
        ctx.trace()
        ctx.cases += 1
        if bad:
            ctx.violation("%s|%s" % (key, bad.split(":")[0][:60]), "schedule %s: %s" % ("".join(map(str, trail))[-200:], bad), dict(job=list(job)))
            if len(ctx.violations) > 5 or "terminate" in bad:
                raise StopJob()
        if ctx.out_of_time():
            return
    ctx.outcome(job[0])
    ctx.count("schedules " + key, n)


# ------------------------------------------------------------------------------------------------ asynchronous driver
ASHAPES = {
    "pair": [("a", ["x"]), ("b", ["a"])],
    "fork": [("a", ["x"]), ("b", ["a"]), ("c", ["a"])],
    "roots": [("a", ["x"]), ("b", ["y"]), ("c", ["a", "b"])],
    "diamond": [("a", ["x"]), ("b", ["a"]), ("c", ["a"]), ("d", ["b", "c"])],
}


class ATruth:
    pass


def atruth():
    from hamilton.lifecycle import base as lb

    class AT(lb.BasePreNodeExecuteAsync, lb.BasePostNodeExecuteAsync):
        def __init__(self):
            self.by = {}

        def of(self, run_id):
            return self.by.setdefault(run_id, Truth())

        async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
            self.of(run_id).started.append((task_id, node_.name))

        async def post_node_execute(self, *, run_id, node_, success, error, result, task_id=None, **kw):
            self.of(run_id).ended.append((task_id, node_.name, success, error, result))
    return AT()


def async_job(job, ctx):
    _, shape, bad, fine, flight, mixed, part = job
    nodes = ASHAPES[shape]
    names = [n for n, _ in nodes]
    src = "".join(fsrc([n], "def", "_BODY") if mixed and i % 2 else fsrc([n], "async def", "_ABODY") for i, n in enumerate(nodes))
    inputs = {d: (d, 1) for n, ds in nodes for d in ds if d not in names}
    outs = names[-1:] if shape != "fork" else ["b", "c"]
    mod = module(src)

    def expect(n, xs):
        if n in xs:
            return xs[n]
        return (n,) + tuple(expect(d, xs) for d in dict(nodes)[n])

    def once(ch):
        FAIL.clear()
        if bad:
            FAIL[(bad, None)] = Boom("failure of %s" % bad)
        TIMES.clear()
        c = Controlled()
        c.fine = fine
        CTL[0] = c
        try:
            at = atruth()
            t = sdk.AsyncHamiltonTracker(project_id=1, username="u", dag_name="d", client_factory=ARec, api_key="k")

            async def go():
                await t.ainit()
                dr = await async_driver.Builder().with_modules(mod).with_adapters(t, at, base.DictResult()).build()

                async def one(i):
                    try:
                        return ("ok", await dr.execute(outs, inputs={k: (k, i) for k in inputs}))
                    except Exception as e:
                        return ("err", e)
                return dr, await asyncio.gather(*[one(i) for i in range(flight)])
            res = c.run(go, ch)
            pts = c.events
        finally:
            c.close()
            FAIL.clear()
        if res[0] != "ok":
            return "the run %s %r" % res, pts
        dr, rs = res[1]
        for i, r in enumerate(rs):
            if bad and r[0] == "ok":
                return "the failing run returned %r" % (r[1],), pts
            if not bad and r != ("ok", {o: expect(o, {k: (k, i) for k in inputs}) for o in outs}):
                return "run %d gave %r" % (i, r), pts
        cl = t.client
        if len(cl.runs) != flight:
            return "%d runs were recorded, there were %d" % (len(cl.runs), flight), pts
        # which record belongs to which run: by the tracker's registration order == order of the hooks; matched by inputs in the summaries
        seen = set()
        for rid in [10 * (k + 1) for k in range(flight)]:
            msgs = []
            for run_id, tr in at.by.items():
                m = judge(cl, rid, tr, dr.graph, not bad, outs, list(inputs))
                if m is None:
                    seen.add((rid, run_id))
                msgs.append(m)
            if all(msgs) and msgs:
                return "record %d matches no run: %s" % (rid, msgs[0]), pts
        if not bad and len({b for _, b in seen}) != flight:
            return "records and runs do not correspond: %s" % sorted(seen), pts
        return None, pts
    loop(ctx, job, once, part)


# ------------------------------------------------------------------------------------------------ kinds of values
class Evil:
    def __repr__(self):
        raise ValueError("no repr")


class EvilLen:
    def __len__(self):
        raise ValueError("no len")


class EvilBool:
    def __bool__(self):
        raise ValueError("no bool")

    def __eq__(self, o):
        raise ValueError("no eq")
    __hash__ = None


class EvilAttr:
    def __getattr__(self, n):
        raise RuntimeError("attr " + n)


@dataclasses.dataclass
class DC:
    a: int
    b: object


class Color(enum.Enum):
    R = 1
    G = 2


NT = collections.namedtuple("NT", "a b")


# built only in the worker processes: the thread pool of polars does not survive a fork
POLARS = {
    "polars": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [1]}),
    "polars null": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [None]}),
    "polars nan": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [nan, 1.0]}),
    "polars empty": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame(),
    "polars no rows": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": pl.Series([], dtype=pl.Float64)}),
    "polars str": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": ["x", None]}),
    "polars list": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [[1]]}),
    "polars struct": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [{"b": 1}]}),
    "polars date": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [D.date(2020, 1, 1)]}),
    "polars datetime": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [D.datetime(2020, 1, 1)]}),
    "polars bool": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [True, None]}),
    "polars category": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": pl.Series(["x"], dtype=pl.Categorical)}),
    "polars binary": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [b"x"]}),
    "polars object": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": pl.Series([object()], dtype=pl.Object)}),
    "polars series": lambda pl, D=datetime, nan=float("nan"): pl.Series([1]),
    "polars lazy": lambda pl, D=datetime, nan=float("nan"): pl.LazyFrame({"a": [1]}),
    "polars duration": lambda pl, D=datetime, nan=float("nan"): pl.DataFrame({"a": [D.timedelta(1)]})}


def values():
    import numpy as np, pandas as pd
    df = pd.DataFrame
    sl = []
    sl.append(sl)
    sd = {}
    sd["d"] = sd
    nan = float("nan")
    D = datetime
    V = {"none": None, "int": 1, "bigint": 2 ** 200, "nan": nan, "inf": float("inf"), "str": "x", "empty str": "", "long str": "x" * 5000, "nul": "a\x00b", "surrogate": "\ud800", "bytes": b"\xff", "bool": True, "complex": 1j, "decimal": decimal.Decimal("1.1"),
         "decimal nan": decimal.Decimal("NaN"), "list": [1, "a"], "empty list": [], "long list": list(range(200)), "list nan": [nan], "tuple": (1, 2), "set": {1, 2}, "frozenset": frozenset([1]), "dict": {"a": 1}, "empty dict": {}, "dict nan": {"a": nan},
         "tuple keys": {(1, 2): 3}, "int keys": {1: 2}, "numpy keys": {np.int64(1): 2}, "none key": {None: 1}, "enum key": {Color.R: 1}, "nan key": {nan: 1}, "long dict": {str(i): i for i in range(300)}, "dict of set": {"a": {1, 2}}, "nested": {"a": {"b": [1, {2: (3,)}]}},
         "dict of frame": {"a": df({"x": [1]})}, "dict of series": {"a": pd.Series([nan])}, "dict of array": {"a": np.array([nan, 1.0])}, "self list": sl, "self dict": sd, "no repr": Evil(), "list no repr": [Evil()], "dict no repr": {"a": Evil()}, "no len": EvilLen(),
         "no bool": EvilBool(), "dict no bool": {"a": EvilBool()}, "no attr": EvilAttr(), "dict no attr": {"a": EvilAttr()}, "dataclass": DC(1, 2), "dataclass nan": DC(1, nan), "dataclass tuple keys": DC(1, {(1, 2): 3}), "class": DC, "enum": Color.R,
         "datetime": D.datetime(2020, 1, 1), "date": D.date(2020, 1, 1), "timedelta": D.timedelta(1), "uuid": uuid.UUID(int=5), "path": pathlib.Path("/x"), "generator": "GENERATOR", "iterator": "ITERATOR", "function": len, "type": int, "range": range(3), "namedtuple": NT(1, 2),
         "ordered": collections.OrderedDict(a=1), "counter": collections.Counter("aab"), "deque": collections.deque([1]), "exception": ValueError("v"), "module": json, "np int": np.int64(1), "np nan": np.float64("nan"), "np bool": np.bool_(True), "np str": np.str_("a"),
         "array": np.arange(3), "array nan": np.array([np.nan, 1.0]), "array 0d": np.array(1), "array 3d": np.zeros((2, 2, 2)), "array object": np.array([{}, 1], dtype=object), "array empty": np.array([]), "array str": np.array(["a"]),
         "array dates": np.array(["2020-01-01"], dtype="datetime64[D]"), "array complex": np.array([1j]), "record array": np.array([(1, 2.0)], dtype=[("a", int), ("b", float)]),
         "frame": df({"a": [1, 2], "b": [1.5, 2.5], "c": ["x", "y"]}), "frame empty": df(), "frame no rows": df({"a": pd.Series([], dtype=float)}), "frame one": df({"a": [1.0]}), "frame nan": df({"a": [np.nan]}), "frame inf": df({"a": [np.inf, 1.0]}),
         "frame objects": df({"a": [[1], {}]}), "frame mixed": df({"a": [1, "x", None]}), "frame duplicate columns": df([[1, 2]], columns=["a", "a"]), "frame int columns": df([[1, 2]]), "frame multi columns": df([[1, 2]], columns=pd.MultiIndex.from_tuples([("a", "b"), ("a", "c")])),
         "frame dates": df({"a": pd.to_datetime(["2020-01-01", None])}), "frame nat": df({"a": pd.to_datetime([None])}), "frame tz": df({"a": pd.to_datetime(["2020-01-01"]).tz_localize("UTC")}), "frame timedelta": df({"a": pd.to_timedelta([1, 2])}),
         "frame category": df({"a": pd.Categorical(["x", "y"])}), "frame category empty": df({"a": pd.Categorical([])}), "frame bool": df({"a": [True, False]}), "frame boolean": df({"a": pd.array([True, None], dtype="boolean")}), "frame Int64": df({"a": pd.array([1, None], dtype="Int64")}),
         "frame Int64 NA": df({"a": pd.array([None], dtype="Int64")}), "frame string": df({"a": pd.array(["x", None], dtype="string")}), "frame string empty": df({"a": pd.array([], dtype="string")}), "frame complex": df({"a": [1j]}), "frame period": df({"a": pd.period_range("2020", periods=2)}),
         "frame interval": df({"a": pd.interval_range(0, 2)}), "frame decimal": df({"a": [decimal.Decimal(1)]}), "frame uint64": df({"a": np.array([2 ** 63], dtype="uint64")}), "frame big": df({"a": [2 ** 80]}), "frame category int": df({"a": pd.Categorical([1, 2])}),
         "frame category nan": df({"a": pd.Categorical([None])}), "frame date index": df({"a": [1]}, index=pd.to_datetime(["2020-01-01"])), "frame none column": df({None: [1]}), "frame date column": df({D.datetime(2020, 1, 1): [1]}), "frame no repr": df({"a": [Evil()]}), "frame constant": df({"a": [1.0, 1.0, 1.0]}),
         "series": pd.Series([1.0]), "series name 0": pd.Series([1], name=0), "series name tuple": pd.Series([1], name=("a", "b")), "series empty": pd.Series([], dtype=object), "series repeated index": pd.Series([1, 2], index=[0, 0]), "series str": pd.Series(["a", None]), "series bool": pd.Series([True]),
         "index": pd.Index([1]), "timestamp": pd.Timestamp("2020"), "nat": pd.NaT, "na": pd.NA, "pd timedelta": pd.Timedelta(1)}
    try:
        import pydantic

        class PM(pydantic.BaseModel):
            a: int
            b: float = nan
        V["pydantic"] = PM(a=1)
    except ImportError:
        pass
    return V


NAMES = sorted(values()) + (sorted(POLARS) if importlib.util.find_spec("polars") else [])


def value(name):
    if name in POLARS:
        import polars
        return POLARS[name](polars)
    return values()[name]


NOT_INPUT = {"no repr", "list no repr", "dict no repr", "no attr", "dict no attr", "self list", "self dict"}


def image(v):
    """what the value is, for comparing before and after"""
    import pandas as pd
    if isinstance(v, (pd.DataFrame, pd.Series)):
        try:
            return repr((v.to_numpy().tolist(), v.dtypes if isinstance(v, pd.Series) else list(v.dtypes), list(v.index), list(v.columns) if isinstance(v, pd.DataFrame) else v.name))
        except Exception:
            return None
    try:
        return pickle.dumps(v)
    except Exception:
        pass
    try:
        return repr(v)
    except Exception:
        return None


def value_job(job, ctx):
    names = job[1]
    SRC = "def v() -> object:\n    return _VAL()\ndef w(v: object) -> object:\n    return ('w', id(v))\n"
    ISRC = "def w(v: object) -> object:\n    return ('w', id(v))\n"
    ASRC = "async def v() -> object:\n    return _VAL()\nasync def w(v: object) -> object:\n    return ('w', id(v))\n"
    for name in names:
        for mode in ("result", "override", "async", "input"):
            if mode == "input" and name in NOT_INPUT:
                continue
            val = value(name)
            if name == "generator":
                val = (i for i in range(3))
            elif name == "iterator":
                val = iter([0, 1, 2])
            VALUE[0] = val
            before = image(val)
            msg = None
            if mode == "async":
                c = Controlled()
                c.fine = False
                CTL[0] = c
                at = atruth()
                t = sdk.AsyncHamiltonTracker(project_id=1, username="u", dag_name="d", client_factory=ARec, api_key="k")

                async def go():
                    await t.ainit()
                    dr = await async_driver.Builder().with_modules(module(ASRC)).with_adapters(t, at, base.DictResult()).build()
                    return dr, await dr.execute(["v", "w"])
                try:
                    res = c.run(go, None)
                finally:
                    c.close()
                if res[0] != "ok":
                    msg = "the run raised %s" % (exc_brief(res[1]) if res[1] else res[0])
                else:
                    dr, got = res[1]
                    tr = list(at.by.values())[0]
            else:
                tr, t = Truth(), tracker()
                dr = make(ISRC if mode == "input" else SRC, "classic", (t, tr))
                o = outcome(lambda: dr.execute(["w"] if mode == "input" else ["v", "w"], inputs={"v": val} if mode == "input" else {}, overrides={"v": val} if mode == "override" else {}))
                if o[0] != "ok":
                    msg = "the run raised %s" % exc_brief(o[1])
                else:
                    got = o[1]
            if msg is None:
                if got["w"] != ("w", id(val)) or ("v" in got and got["v"] is not val):
                    msg = "the node did not get the value itself"
                elif name in ("generator", "iterator") and list(val) != [0, 1, 2]:
                    msg = "the tracker consumed the iterator"
                elif name not in ("generator", "iterator") and image(val) != before:
                    msg = "the tracker changed the value"
                else:
                    msg = judge(t.client, 10, tr, None, True, times=False)
            ctx.state("value" + name + mode)
            ctx.transition(max(1, len(t.client.updates)))
            ctx.trace()
            ctx.cases += 1
            ctx.outcome("value " + mode)
            if msg:
                ctx.violation("value|%s|%s" % (name, mode), "value kind '%s' (%s): %s" % (name, mode, msg), dict(job=["value", [name]]))


def jobs(tier):
    J = []
    q = tier == "quick"
    for shape in SHAPES:
        for kind in ("classic", "dynamic"):
            for order in (True, False):
                if q and (shape == "diamond" and kind == "dynamic" and not order):
                    continue
                J.append(("plain", shape, kind, order))
    for w in ("quality", "materialize", "drivers"):
        J.append(("misc", w))
    step = 12
    for i in range(0, len(NAMES), step):
        J.append(("value", NAMES[i:i + step]))

    def fan(name, bad, bound, events, parts):
        J.extend(("fan", name, bad, bound, events, (i, parts)) for i in range(parts))
    fan("one", None, 1, "line", 2)
    fan("one", None, 2, "call", 4)
    fan("one", ("c", 1), 1, "line", 2)
    fan("one", ("c", 2), 1, "line", 2)
    fan("chain", None, 1, "line", 4)
    fan("chain", ("b", 2), 1, "line", 2)
    if not q:
        fan("three", None, 1, "line", 4)
        fan("three", ("c", 2), 2, "call", 8)
        fan("one", None, 2, "mixed", 16)
        fan("one", ("c", 1), 2, "mixed", 16)
        fan("chain", None, 2, "call", 8)
        fan("chain", ("c", ("b", 1, 5)), 1, "line", 4)

    def asy(shape, bad, fine, flight, mixed, parts=1):
        J.extend(("async", shape, bad, fine, flight, mixed, (i, parts)) for i in range(parts))
    for shape in ASHAPES:
        for bad in [None] + [n for n, _ in ASHAPES[shape]]:
            asy(shape, bad, False, 1, False)
            if shape != "diamond" or not q:
                asy(shape, bad, True, 1, True)
            if shape in ("pair", "roots") and (not q or shape == "pair"):
                asy(shape, bad, False, 2, False)
    asy("pair", None, True, 2, False, 8)
    if not q:
        asy("fork", None, True, 1, False, 8)
        asy("roots", None, True, 1, False, 8)
        asy("fork", None, False, 2, False, 8)
        asy("roots", None, True, 2, True, 8)
    return J


def run_job(job, ctx):
    cwd = os.getcwd()
    os.chdir(tmpdir())      # not a git repository
    try:
        dict(plain=plain_job, misc=misc_job, fan=fan_job, value=value_job)[job[0]](job, ctx) if job[0] != "async" else async_job(job, ctx)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmpdir(), ignore_errors=True)
        TMP[:] = []
        _mods.clear()


def replay(case, ctx):
    run_job(tuple(tuple(x) if isinstance(x, list) and job_tuple(case, i) else x for i, x in enumerate(case["job"])), ctx)


def job_tuple(case, i):
    return case["job"][0] != "value"
