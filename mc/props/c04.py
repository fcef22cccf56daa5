"""C04: lifecycle notifications form a well-bracketed, truthful trace for every run, whatever fails.

Every execution (all 3-node dataflows, requested sets, overrides; ordered selections of adapters; each possible
failing function / hook / result builder / missing input; default, task-based under enumerated schedules,
asynchronous under enumerated schedules, materialise) is recorded as one global event sequence and checked
against a trace automaton built from the reference evaluation."""
from __future__ import annotations
import dataclasses
import itertools
from mc.aloop import Controlled
from mc.core import CaseTimeout, StopJob, exc_brief
from mc.explore import explore, Choices
from mc.progs import make_module, drop_module, subsets
from mc.props.c02 import Spec
from mc.props.c03 import plain_nodes
from mc.sched import ControlledExecutor
from hamilton import driver, async_driver, base, registry
from hamilton.execution import executors
from hamilton.io.data_adapters import DataSaver
from hamilton.io.materialization import to
from hamilton.lifecycle import base as lb
from hamilton.lifecycle import api as lapi

TECHNIQUE = ("exhaustive exploration of executions x failure points x schedules on the real drivers; every event trace is "
             "checked against a trace automaton")
RULE = ("state = (driver kind, program, requested, overrides, adapter list, failure point, schedule prefix); transition = one lifecycle event or "
        "function call; trace = one complete execution's event sequence accepted/rejected by the automaton")
ASSUMPTIONS = ["dataflows of up to 3 functions (plus fan-outs), up to 3 adapters registered",
               "for the async driver the asynchronous hooks are checked (its synchronous node hooks see unfinished tasks by design) plus synchronous graph hooks",
               "when a before-graph hook itself raises, nothing is claimed about after-graph notifications"]
BUDGET = {"quick": 400, "thorough": 3 * 3600}

EV = []          # global event sequence
FAIL = {}
VALS = {}
CTL = {}
LAZY = set()     # generator nodes: their result is a lazy iterable, only its status is checked


class Boom(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    """a function may also be left through an exception that is not an Exception (Ctrl-C, sys.exit)"""


def _boom(label):
    e = Boom(label)
    FAIL.setdefault("excs", []).append(e)
    raise e


def _ret(name, kw):
    EV.append(("call", name, dict(kw)))
    if FAIL.get("at") == ("fn", name):
        _boom(name)
    if FAIL.get("at") == ("fnb", name):
        e = Interrupt(name)
        FAIL.setdefault("excs", []).append(e)
        raise e
    v = VALS[name] if name in VALS else (name, tuple(sorted(kw.items(), key=lambda t: t[0])))
    EV.append(("ret", name, v))
    return v


def _hook(ad, kind, name, **data):
    EV.append((kind, ad.id, name, data))
    if FAIL.get("at") == ("hook", ad.id, kind, name):
        _boom("%s %s %s" % (ad.id, kind, name))


class _Id:
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return self.id


class N(_Id, lapi.NodeExecutionHook):
    vhooks = {"pre_node", "post_node"}

    def run_before_node_execution(self, *, node_name, node_kwargs, task_id, run_id, node_tags, node_return_type, node_input_types, **kw):
        _hook(self, "pre_node", node_name, kwargs=dict(node_kwargs), run_id=run_id, task_id=task_id)

    def run_after_node_execution(self, *, node_name, node_kwargs, result, error, success, task_id, run_id, node_tags, node_return_type, **kw):
        _hook(self, "post_node", node_name, kwargs=dict(node_kwargs), result=result, error=error, success=success, run_id=run_id, task_id=task_id)


class G(_Id, lapi.GraphExecutionHook):
    vhooks = {"pre_graph", "post_graph"}

    def run_before_graph_execution(self, *, graph, final_vars, inputs, overrides, execution_path, run_id, **kw):
        _hook(self, "pre_graph", None, final_vars=list(final_vars), run_id=run_id, path=set(execution_path), inputs=inputs, overrides=overrides)

    def run_after_graph_execution(self, *, graph, success, error, results, run_id, **kw):
        _hook(self, "post_graph", None, success=success, error=error, results=results, run_id=run_id)


class T(_Id, lapi.TaskExecutionHook):
    vhooks = {"pre_task", "post_task"}

    def run_before_task_execution(self, *, task_id, run_id, nodes, inputs, overrides, **kw):
        _hook(self, "pre_task", task_id, run_id=run_id)

    def run_after_task_execution(self, *, task_id, run_id, nodes, results, success, error, **kw):
        _hook(self, "post_task", task_id, run_id=run_id, success=success, error=error)


class A(N, G, T):
    vhooks = N.vhooks | G.vhooks | T.vhooks


class Pre(_Id, lb.BasePreNodeExecute):
    vhooks = {"pre_node"}

    def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
        _hook(self, "pre_node", node_.name, kwargs=dict(kwargs), run_id=run_id, task_id=task_id)


class Post(_Id, lb.BasePostNodeExecute, lb.BasePostGraphExecute):
    vhooks = {"post_node", "post_graph"}

    def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
        _hook(self, "post_node", node_.name, kwargs=dict(kwargs), result=result, error=error, success=success, run_id=run_id, task_id=task_id)

    def post_graph_execute(self, *, run_id, graph, success, error, results):
        _hook(self, "post_graph", None, success=success, error=error, results=results, run_id=run_id)


class EqN(N):
    """adapters that compare equal are still different adapters"""

    def __eq__(self, o):
        return isinstance(o, EqN)

    def __hash__(self):
        return 1


class M(_Id, lapi.NodeExecutionMethod):
    vhooks = set()

    def run_to_execute_node(self, *, node_name, node_tags, node_callable, node_kwargs, task_id, is_expand, is_collect, **kw):
        EV.append(("method", self.id, node_name, {}))
        return node_callable(**node_kwargs)


class RB(_Id, lapi.ResultBuilder):
    vhooks = set()

    def build_result(self, **outputs):
        if FAIL.get("at") == ("builder",):
            _boom("builder")
        return ("built", tuple(sorted(outputs.items(), key=lambda t: t[0])))


class AN(_Id, lb.BasePreNodeExecuteAsync, lb.BasePostNodeExecuteAsync):
    vhooks = {"pre_node", "post_node"}

    async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
        await _agate(self, "pre", node_.name)
        _hook(self, "pre_node", node_.name, kwargs=dict(kwargs), run_id=run_id, task_id=task_id)

    async def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
        _hook(self, "post_node", node_.name, kwargs=dict(kwargs), result=result, error=error, success=success, run_id=run_id, task_id=task_id)
        await _agate(self, "post", node_.name)


class AG(_Id, lb.BasePreGraphExecuteAsync, lb.BasePostGraphExecuteAsync):
    vhooks = {"pre_graph", "post_graph"}

    async def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
        _hook(self, "pre_graph", None, final_vars=list(final_vars), run_id=run_id, path=None, inputs=inputs, overrides=overrides)

    async def post_graph_execute(self, *, run_id, graph, success, error, results):
        _hook(self, "post_graph", None, success=success, error=error, results=results, run_id=run_id)


class AA(AN, AG):
    vhooks = AN.vhooks | AG.vhooks


def _agate(ad, what, name):
    if CTL.get("hookgates"):
        return CTL["c"].gate("%s:%s:%s" % (name, what, ad.id))
    return _nothing()


async def _nothing():
    return None


CLASSES = dict(N=N, G=G, T=T, A=A, Pre=Pre, Post=Post, EqN=EqN, M=M, RB=RB, AN=AN, AG=AG, AA=AA)


@dataclasses.dataclass
class VSaver(DataSaver):
    """records; raises on demand"""
    key: str

    @classmethod
    def applicable_types(cls):
        return [object]

    @classmethod
    def name(cls):
        return "vmem04"

    def save_data(self, data):
        EV.append(("call", "sv", {self.key: data}))
        if FAIL.get("at") == ("saver",):
            _boom("saver")
        r = {"saved": repr(data)}
        EV.append(("ret", "sv", r))
        return r


registry.register_adapter(VSaver)


# ------------------------------------------------------------------------------------------------- trace automaton
def same(a, b):
    try:
        return a is b or bool(a == b)
    except Exception:
        return False


def check_trace(ev, adapters, res, excs, ref_calls, finals, overrides, kind, fail_at, node_filter=None):
    """ev: global event list of one run. Returns None or (what, detail)."""
    order = [a.id for a in adapters]
    has = {h: [a.id for a in adapters if h in a.vhooks] for h in ("pre_graph", "post_graph", "pre_node", "post_node", "pre_task", "post_task")}
    hook_fail = fail_at[2] if fail_at and fail_at[0] == "hook" and excs else None
    failed = res[0] == "err"
    # --- graph level
    pg = [e for e in ev if e[0] == "pre_graph"]
    qg = [e for e in ev if e[0] == "post_graph"]
    if kind == "async":  # asynchronous hooks are gathered: only the synchronous ones have an order among themselves
        isasync = {a.id for a in adapters if isinstance(a, (AN, AG))}

        def norm(ids):
            return [i for i in ids if i not in isasync] + sorted(i for i in ids if i in isasync)
    else:
        norm = list
    if norm([e[1] for e in pg]) != norm(has["pre_graph"]) and hook_fail != "pre_graph":
        return "pre-graph", "expected one before-graph per adapter in order %s, got %s" % (has["pre_graph"], [e[1] for e in pg])
    if hook_fail == "pre_graph":
        return None if failed and any(res[1] is x for x in excs) else ("hook-error-lost", repr(res))
    exp_q = has["post_graph"]
    got_q = [e[1] for e in qg]
    if hook_fail == "post_graph":
        if kind != "async" and got_q != exp_q[:len(got_q)]:
            return "post-graph", "%s" % got_q
    elif norm(got_q) != norm(exp_q):
        return "post-graph", "expected one after-graph per adapter in order %s, got %s" % (exp_q, got_q)
    # pre_graph precede and post_graph follow everything else
    kinds = [e[0] for e in ev]
    if pg and kinds[:len(pg)] != ["pre_graph"] * len(pg):
        return "pre-graph-late", str(kinds)
    if qg and kind != "async" and kinds[-len(qg):] != ["post_graph"] * len(qg):
        return "post-graph-early", str(kinds)
    rids = {e[3]["run_id"] for e in ev if e[0] not in ("call", "ret", "method")}
    if len(rids) > 1 or None in rids:
        return "run-id", str(rids)
    for e in qg:
        d = e[3]
        if hook_fail == "post_graph":
            continue
        if d["success"] is not (not failed):
            return "success-flag", "after-graph said success=%r but the run %s" % (d["success"], res[0])
        if failed and d["error"] is not res[1]:
            return "error-truth", "after-graph error %r, raised %r" % (d["error"], res[1])
        if not failed and d["error"] is not None:
            return "error-truth", "after-graph error %r on success" % (d["error"],)
        if not failed and not same(d["results"], res[1]):
            return "results-truth", "after-graph results %r, returned %r" % (d["results"], res[1])
    # --- node level
    runs = {}    # open node instance -> stage
    seen_calls = []
    done = []
    cur_task = None
    i = 0
    open_ = None
    if kind != "async":
        # sequential grammar
        for e in ev:
            k = e[0]
            if k in ("pre_graph", "post_graph"):
                continue
            if k in ("pre_task", "post_task") and hook_fail in ("pre_node", "post_node"):
                open_ = None  # that node's hook raised
            if k == "pre_task":
                if open_ is not None:
                    return "task-inside-node", str(e)
                if cur_task is None or cur_task[0] != e[2]:
                    cur_task = [e[2], [], [], None]
                cur_task[1].append(e[1])
                continue
            if k == "post_task":
                if cur_task is None or cur_task[0] != e[2]:
                    return "task-bracket", str(e)
                cur_task[2].append(e[1])
                if e[3]["success"] is not (e[3]["error"] is None):
                    return "task-success", str(e)
                if cur_task[1] != has["pre_task"] and not (hook_fail == "pre_task"):
                    return "pre-task", "%s" % cur_task
                if len(cur_task[2]) == len(has["post_task"]):
                    if cur_task[2] != has["post_task"]:
                        return "task-order", str(cur_task)
                    cur_task = None
                continue
            name = e[2] if k not in ("call", "ret") else e[1]
            if k == "pre_node":
                if open_ is None:
                    open_ = dict(name=name, pre=[], called=None, ret=None, post=[], kwargs=e[3]["kwargs"], exc=False, task=e[3]["task_id"])
                elif open_["called"] is not None or open_["post"]:
                    return "nested-node", "%s inside %s" % (name, open_["name"])
                if open_["name"] != name:
                    return "nested-node", "%s inside %s" % (name, open_["name"])
                open_["pre"].append(e[1])
                if kind == "task" and has["pre_task"] and (cur_task is None or e[3]["task_id"] != cur_task[0]):
                    return "task-id", "node %s reports task %r inside %r" % (name, e[3]["task_id"], cur_task)
                if kind == "default" and e[3]["task_id"] is not None:
                    return "task-id", "%r" % (e[3]["task_id"],)
            elif k == "method":
                pass
            elif k == "call":
                if open_ is None:
                    if has["pre_node"]:
                        return "call-without-pre", name
                    open_ = dict(name=name, pre=[], called=None, ret=None, post=[], kwargs=None, exc=False, task=None)
                if open_["name"] != name and not (kind == "mat"):
                    return "call-other", "%s called inside %s" % (name, open_["name"])
                if open_["pre"] != has["pre_node"]:
                    return "pre-order", "node %s: before-node notifications %s, expected %s" % (name, open_["pre"], has["pre_node"])
                if open_["called"] is not None:
                    return "called-twice", name
                if open_["kwargs"] is not None and not same(open_["kwargs"], e[2]):
                    return "kwargs-truth", "node %s: announced %r, called with %r" % (name, open_["kwargs"], e[2])
                open_["called"] = e[2]
                seen_calls.append((name, e[2]))
                if not has["post_node"] and fail_at != ("fn", name):
                    pass
            elif k == "ret":
                if open_ is None or open_["called"] is None:
                    return "harness", "ret"
                open_["ret"] = (e[2],)
                if not has["post_node"]:
                    open_ = None
            elif k == "post_node":
                if open_ is None:
                    if has["pre_node"] or kind == "mat":
                        if kind != "mat":
                            return "post-without-pre", str(e)[:200]
                    open_ = dict(name=name, pre=list(has["pre_node"]), called=None, ret=None, post=[], kwargs=None, exc=False, task=None)
                if open_["name"] != name:
                    return "post-other", "%s inside %s" % (name, open_["name"])
                if open_["pre"] != has["pre_node"]:
                    return "post-after-failed-pre", "node %s: before-node %s" % (name, open_["pre"])
                d = e[3]
                if open_["kwargs"] is not None and not same(open_["kwargs"], d["kwargs"]):
                    return "kwargs-truth", "node %s: before %r after %r" % (name, open_["kwargs"], d["kwargs"])
                if open_["ret"] is not None and name in LAZY:
                    if d["success"] is not True or d["error"] is not None:
                        return "result-truth", "node %s succeeded, notification says %r" % (name, d)
                elif open_["ret"] is not None:
                    if d["success"] is not True or d["error"] is not None or not same(d["result"], open_["ret"][0]):
                        return "result-truth", "node %s returned %r, notification says %r" % (name, open_["ret"][0], d)
                elif open_["called"] is not None:
                    if d["success"] is not False or not any(d["error"] is x for x in excs) or d["result"] is not None:
                        return "node-error-truth", "node %s raised, notification says %r" % (name, d)
                open_["post"].append(e[1])
                if len(open_["post"]) == len(has["post_node"]):
                    if open_["post"] != has["post_node"]:
                        return "post-order", "node %s: after-node notifications %s, expected %s" % (name, open_["post"], has["post_node"])
                    done.append(name)
                    open_ = None
        if open_ is not None and not hook_fail and not (fail_at and fail_at[0] in ("fn", "saver") and not has["post_node"]):
            return "unfinished-node", str(open_)[:300]
        if cur_task is not None and hook_fail not in ("post_task", "pre_task"):
            return "unfinished-task", str(cur_task)
    else:
        st = {}
        for e in ev:
            k = e[0]
            if k in ("pre_graph", "post_graph"):
                continue
            name = e[2] if k not in ("call", "ret") else e[1]
            s = st.setdefault(name, dict(pre=[], called=None, ret=None, post=[], kwargs=None))
            if k == "pre_node":
                if s["called"] is not None or s["post"]:
                    return "pre-late", name
                s["pre"].append(e[1])
                s["kwargs"] = e[3]["kwargs"]
            elif k == "call":
                if s["called"] is not None:
                    return "called-twice", name
                if sorted(s["pre"]) != sorted(has["pre_node"]):
                    return "call-without-pre", "%s %s" % (name, s["pre"])
                if s["kwargs"] is not None and not same(s["kwargs"], e[2]):
                    return "kwargs-truth", "%s %r %r" % (name, s["kwargs"], e[2])
                s["called"] = e[2]
                seen_calls.append((name, e[2]))
            elif k == "ret":
                s["ret"] = (e[2],)
            elif k == "post_node":
                d = e[3]
                if s["called"] is None:
                    return "post-without-call", name
                if s["ret"] is not None:
                    if d["success"] is not True or d["error"] is not None or not same(d["result"], s["ret"][0]):
                        return "result-truth", "%s %r %r" % (name, s["ret"], d)
                elif d["success"] is not False or not any(d["error"] is x for x in excs) or d["result"] is not None:
                    return "node-error-truth", "%s %r" % (name, d)
                s["post"].append(e[1])
        for name, s in st.items():
            if s["called"] is not None and not hook_fail and sorted(s["post"]) != sorted(has["post_node"]):
                return "post-missing", "%s after-node notifications %s" % (name, s["post"])
    # executed nodes notified exactly: calls against the reference
    if not failed:
        if node_filter is not None:
            seen_calls = [c for c in seen_calls if c[0] in node_filter]
        a = sorted(repr((n, tuple(sorted(k.items(), key=lambda t: t[0])))) for n, k in seen_calls)
        b = sorted(map(repr, ref_calls))
        if VALS:
            a, b = sorted(n for n, _ in seen_calls), sorted(c[0] for c in ref_calls)
        if a != b:
            return "calls", "%s vs %s" % (a, b)
        names = sorted(c[0] for c in ref_calls)
        for ad in adapters:
            for h in ("pre_node", "post_node"):
                if h in ad.vhooks:
                    got = sorted(e[2] for e in ev if e[0] == h and e[1] == ad.id and (node_filter is None or e[2] in node_filter))
                    if got != names:
                        return "notified-nodes", "%s %s notified for %s, executed %s" % (ad.id, h, got, names)
        for e in pg:
            if e[3]["path"] is not None:
                p = e[3]["path"] - set(overrides)
                if node_filter is not None:
                    p &= node_filter
                if (not LAZY and p != set(names)) or not p >= set(names):
                    return "execution-path", "announced %s, executed %s" % (sorted(p), names)
            if node_filter is None and e[3]["final_vars"] != list(finals):
                return "final-vars", str(e[3]["final_vars"])
    else:
        if excs and not any(res[1] is x for x in excs):
            return "error-lost", "raised %r, injected %r" % (res[1], excs)
        if fail_at and fail_at[0] == "hook" and hook_fail in ("pre_node", "post_node", "pre_task", "post_task") and kind != "async" and not LAZY:
            # nothing runs after the failing hook
            idx = next(i for i, e in enumerate(ev) if e[0] == fail_at[2] and e[1] == fail_at[1] and e[2] == fail_at[3])
            if any(e[0] == "call" for e in ev[idx + 1:]):
                return "ran-after-hook-error", str([e[:3] for e in ev[idx:]])
    return None


# --------------------------------------------------------------------------------------------------- execution kinds
def adapter_sets(kind, tier):
    if kind == "async":
        pal = [("AN",), ("AG",), ("AA",), ("AN", "AN"), ("G", "AN"), ("AA", "G"), ("AG", "AN", "AA"), ("AA", "AN"), ("AA", "RB")]
        return pal
    out = [("A",), ("N",), ("G",), ("Pre",), ("Post",), ("A", "M"), ("A", "RB"), ("EqN", "EqN")]
    if kind == "task":
        out += [("T",), ("T", "N")]
    prs = [p for p in itertools.permutations(("A", "N", "G", "Pre", "Post"), 2)]
    out += prs
    out += [("A", "A"), ("Post", "A", "Pre"), ("Pre", "Post", "N"), ("N", "M", "Post"), ("G", "RB", "A"), ("A", "A", "A"), ("G", "Post", "A")]
    if tier != "quick":
        out += [p for p in itertools.permutations(("A", "N", "G", "Pre", "Post"), 3)]
    return out


def mk_adapters(names):
    return [CLASSES[n]("%s%d" % (n, i)) for i, n in enumerate(names)]


def failure_points(kind, adapters, executed, fan=False):
    yield None
    for n in executed:
        yield ("fn", n)
        if kind in ("default", "mat"):
            yield ("fnb", n)
    for a in adapters:
        for h in sorted(a.vhooks):
            if h in ("pre_node", "post_node"):
                for n in executed:
                    yield ("hook", a.id, h, n)
            elif h in ("pre_graph", "post_graph"):
                yield ("hook", a.id, h, None)
    if any(isinstance(a, RB) for a in adapters) and kind != "mat":
        yield ("builder",)
    if kind == "mat":
        yield ("saver",)


def one(ctx, kind, spec, tag, finals, supplied, overrides, adnames, fail_at, dr, adapters, ref, mats=None, case=None, res=None):
    """run once on driver dr and judge the trace"""
    vals, calls, missing = ref
    EV.clear()
    FAIL.clear()
    FAIL["at"] = fail_at
    try:
        with ctx.guard(60):
            if res is not None:
                res = res()
            elif kind == "mat":
                m, r = dr.materialize(*mats, additional_vars=list(finals), inputs=dict(supplied), overrides=dict(overrides))
                res = ("ok", r)
            else:
                res = ("ok", dr.execute(list(finals), inputs=dict(supplied), overrides=dict(overrides)))
    except CaseTimeout:
        ctx.violation("hang|%s|%s" % (kind, tag), "did not terminate", case or {})
        raise StopJob()
    except (Exception, Interrupt) as e:
        res = ("err", e)
    FAIL["at"] = None
    ev = list(EV)
    excs = list(FAIL.get("excs", []))
    ctx.cases += 1
    ctx.trace()
    ctx.transition(len(ev))
    ctx.state((kind, tag, finals, tuple(sorted(overrides)), adnames, fail_at, tuple(sorted(supplied))))
    ctx.outcome("%s-%s" % (kind, res[0]))
    fail0 = fail_at
    if fail_at and fail_at[0] == "fnb":
        fail_at = ("fn", fail_at[1])
    sig = "%s|%s|fin=%s|ov=%s|ad=%s|fail=%s|in=%s" % (kind, tag, ",".join(finals), sorted(overrides), "+".join(adnames), fail0, sorted(supplied))

    def bad(what, detail):
        ctx.violation("%s|%s" % (what, sig), "%s: %s\nevents: %s" % (what, detail, [e[:3] for e in ev]),
                      case or dict(kind=kind, nodes=spec.nodes, finals=list(finals), supplied=supplied, overrides=overrides, ad=list(adnames), fail=fail0))
    if missing and not excs:
        if res[0] == "ok":
            return bad("missing-accepted", repr(res))
    elif not excs and res[0] == "err":
        return bad("unexpected-error", exc_brief(res[1]))
    elif excs and res[0] == "ok":
        return bad("error-swallowed", repr(excs))
    nf = set(spec.nodes) if kind == "mat" else None
    v = check_trace(ev, adapters, res, excs, calls, finals, overrides, kind, fail_at, nf)
    if v is not None:
        bad(*v)


def build_plain(nodes):
    spec = Spec(nodes)
    spec.items = {}
    spec.exp = {n: None for n in nodes}
    spec.mod = make_module(spec.src(), env={"_ret": _ret})
    return spec


def programs(tier):
    for combo in itertools.product((0, 1), repeat=3):
        yield plain_nodes(3, combo, (1, 0, 0)), "".join(map(str, combo))
    yield plain_nodes(3, (1, 2, 1), (1, 0, 2)), "opt"
    if tier != "quick":
        for combo in itertools.product((0, 1), repeat=6):
            yield plain_nodes(4, combo, (1, 0, 0, 0)), "".join(map(str, combo))


def jobs(tier):
    out = []
    n = len(list(programs(tier)))
    for kind in ("default", "task", "mat"):
        for i in range(n):
            out.append((kind, i))
    for i in range(n):
        out.append(("async", i))
    for i in range(3):
        out.append(("fan", i))
    return out


def run_job(job, ctx):
    kind, idx = job
    if kind == "fan":
        return do_fan(ctx, idx)
    if kind == "async":
        return do_async(ctx, idx)
    nodes, tag = list(programs(ctx.tier))[idx]
    names = list(nodes)
    spec = build_plain(nodes)
    X = {"x": "X"}
    try:
        for adn in adapter_sets(kind, ctx.tier):
            if ctx.out_of_time():
                return
            for vals in ({}, {n: None for n in names}):
                VALS.clear()
                VALS.update(vals)
                if vals and adn not in (("A",), ("N",), ("Post",)):
                    continue
                adapters = mk_adapters(adn)
                b = driver.Builder().with_modules(spec.mod).with_adapters(*adapters)
                if kind == "task":
                    b = (b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
                         .with_remote_executor(executors.SynchronousLocalTaskExecutor()))
                dr = b.build()
                finset = [(names[-1],), tuple(names), (names[0], names[-1])]
                for finals in finset:
                    for ov in [{}] + [{n: ("OV", n)} for n in names]:
                        ref = spec.reference(finals, X, ov)
                        executed = [c[0] for c in ref[1]]
                        if ov and len(adn) > 2:
                            continue
                        for fp in failure_points(kind, adapters, executed):
                            if ov and fp and fp[0] == "hook":
                                continue
                            mats = None
                            if kind == "mat":
                                mats = [to.vmem04(id="sv", dependencies=[finals[0]], key=finals[0])]
                            one(ctx, kind, spec, tag + ("none" if vals else ""), finals, X, ov, adn, fp, dr, adapters, ref, mats)
                    # missing input
                    ref = spec.reference(finals, {}, {})
                    if ref[2]:
                        mats = [to.vmem04(id="sv", dependencies=[finals[0]], key=finals[0])] if kind == "mat" else None
                        one(ctx, kind, spec, tag, finals, {}, {}, adn, None, dr, adapters, ref, mats)
                if kind == "mat":
                    bad_materialize(ctx, dr, adapters, spec, tag, adn)
    finally:
        VALS.clear()
        drop_module(spec.mod)


def bad_materialize(ctx, dr, adapters, spec, tag, adn):
    """a materialiser that cannot be attached: the run never starts, its error reaches the caller, brackets stay balanced"""
    for dep in ("no_such_node",):
        EV.clear(); FAIL.clear()
        err = None
        try:
            with ctx.guard(60):
                dr.materialize(to.vmem04(id="sv", dependencies=[dep], key="k"), additional_vars=["c"], inputs={"x": "X"})
        except Exception as e:
            err = e
        ctx.cases += 1; ctx.trace(); ctx.transition(len(EV))
        ctx.state(("badmat", tag, adn))
        pre = [e[1] for e in EV if e[0] == "pre_graph"]
        post = [e[1] for e in EV if e[0] == "post_graph"]
        both = [a.id for a in adapters if {"pre_graph", "post_graph"} <= a.vhooks]
        if err is None or isinstance(err, (UnboundLocalError, NameError)):
            ctx.violation("materialize-error-masked|%s|%s" % (tag, adn), "caller sees %r" % (err,), dict(kind="badmat", ad=list(adn)))
        elif [p for p in post if p in both] != [p for p in pre if p in both]:
            ctx.violation("materialize-unbalanced|%s|%s" % (tag, adn), "before-graph %s after-graph %s" % (pre, post), dict(kind="badmat", ad=list(adn)))


# ------------------------------------------------------------------------------------------------------------ fan-out
FAN = '''
from hamilton.htypes import Parallelizable, Collect
def e(x: object) -> Parallelizable[object]:
    _ret("e", dict(x=x))
    for i in ITEMS:
        yield i
def a(e: object) -> object:
    return _ret("a", dict(e=e))
def b(a: object, e: object) -> object:
    return _ret("b", dict(a=a, e=e))
def c(b: Collect[object]) -> object:
    return _ret("c", dict(b=list(b)))
'''


def do_fan(ctx, idx):
    """fan-out under every task schedule: each node instance is bracketed, with its task's id"""
    items = [[], [1], [1, 2]][idx]
    mod = make_module(FAN, env={"_ret": _ret, "ITEMS": items})
    VALS.clear()
    LAZY.add("e")
    for adn in (("A",), ("N",), ("T", "N"), ("A", "A"), ("Pre", "Post")):
        adapters = mk_adapters(adn)
        fps = [None] + [("fn", n) for n in ("e", "a", "b", "c")] + [("hook", adapters[0].id, h, n) for h in ("pre_node", "post_node") if h in adapters[0].vhooks for n in ("a", "c")]
        for fp in fps:
            for eager in (False, True):
                remote = ControlledExecutor(2, None, 2, eager)
                dr = (driver.Builder().with_modules(mod).with_adapters(*adapters).enable_dynamic_execution(allow_experimental_mode=True)
                      .with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(remote).build())

                def run(ch):
                    remote.reset(ch)
                    EV.clear(); FAIL.clear()
                    FAIL["at"] = fp
                    try:
                        with ctx.guard(60):
                            res = ("ok", dr.execute(["c"], inputs={"x": "X"}))
                    except CaseTimeout:
                        ctx.violation("hang|fan", "did not terminate", dict(kind="fan", idx=idx))
                        raise StopJob()
                    except Exception as e:
                        res = ("err", e)
                    FAIL["at"] = None
                    return res, list(EV), list(FAIL.get("excs", []))
                for tr, (res, ev, excs) in explore(run):
                    ctx.cases += 1; ctx.trace(); ctx.transition(len(ev))
                    for i in range(len(tr) + 1):
                        ctx.state(("fan", idx, adn, fp, eager, tuple(tr[:i])))
                    ctx.outcome("fan-" + res[0])

                    def bad(what, detail):
                        ctx.violation("%s|fan%d|%s|%s|eager=%s" % (what, idx, adn, fp, eager), "%s: %s schedule %s events %s" % (what, detail, tr, [e[:3] for e in ev]),
                                      dict(kind="fan", idx=idx))
                    if bool(excs) != (res[0] == "err") or (excs and not any(res[1] is x for x in excs)):
                        bad("error", repr((res, excs)))
                        continue
                    # merge generator body: e's function body runs when the task lists it
                    calls = [e for e in ev if e[0] == "call"]
                    if res[0] == "ok":
                        want = sorted(["e", "c"] + ["a", "b"] * len(items))
                        for ad in adapters:
                            for h in ("pre_node", "post_node"):
                                if h in ad.vhooks:
                                    g = sorted(e[2] for e in ev if e[0] == h and e[1] == ad.id)
                                    if g != want:
                                        bad("notified-nodes", "%s %s: %s" % (ad.id, h, g))
                        for ad in adapters:
                            if {"pre_node", "post_node"} <= ad.vhooks:
                                pres = sorted(repr((e[2], e[3]["task_id"], sorted(e[3]["kwargs"].items(), key=lambda t: t[0]))) for e in ev if e[0] == "pre_node" and e[1] == ad.id)
                                posts = sorted(repr((e[2], e[3]["task_id"], sorted(e[3]["kwargs"].items(), key=lambda t: t[0]))) for e in ev if e[0] == "post_node" and e[1] == ad.id)
                                if pres != posts:
                                    bad("brackets", "%s vs %s" % (pres, posts))
                                tids = {e[3]["task_id"] for e in ev if e[0] == "pre_node" and e[1] == ad.id and e[2] == "a"}
                                if len(tids) != len(items) or None in tids:
                                    bad("task-ids", str(tids))
                        for e in ev:
                            if e[0] == "post_node" and e[2] in ("a", "b"):
                                exp = (e[2], tuple(sorted(e[3]["kwargs"].items(), key=lambda t: t[0])))
                                if e[3]["result"] != exp or e[3]["success"] is not True:
                                    bad("result-truth", "%r" % (e,))
                    v = None
                    if not any(k[0] == "call" and k[1] == "e" for k in ev) or True:
                        evx = [e for e in ev if not (e[0] in ("call", "ret") and False)]
                        ref = [("x",)]
                    v = check_trace(ev, adapters, res, excs, _fan_ref(items), ("c",), {}, "task", fp)
                    if v is not None:
                        bad(*v)
    drop_module(mod)


def _fan_ref(items):
    calls = [("e", (("x", "X"),))]
    bs = []
    for i in items:
        a = ("a", (("e", i),))
        b = ("b", (("a", a), ("e", i)))
        calls += [a, b]
        bs.append(b)
    calls.append(("c", (("b", bs),)))
    return calls


# -------------------------------------------------------------------------------------------------------------- async
def do_async(ctx, idx):
    nodes, tag = list(programs(ctx.tier))[idx]
    names = list(nodes)
    ctl = Controlled()
    CTL["c"] = ctl
    out = []
    for n, d in nodes.items():
        sig = ", ".join(["%s: object" % p for p, k in d["params"].items() if k == 1] + ["%s: object = 'dflt'" % p for p, k in d["params"].items() if k == 2])
        kws = ", ".join("%s=%s" % (p, p) for p in d["params"])
        if n == names[1]:
            out.append("def %s(%s) -> object:\n    return _ret(%r, dict(%s))\n" % (n, sig, n, kws))
        else:
            out.append("async def %s(%s) -> object:\n    await CTL['c'].gate(%r)\n    return _ret(%r, dict(%s))\n" % (n, sig, n, n, kws))
    spec = Spec(nodes)
    spec.items = {}
    spec.exp = {n: None for n in nodes}
    spec.mod = make_module("\n".join(out), env={"_ret": _ret, "CTL": CTL})
    VALS.clear()
    X = {"x": "X"}
    for adn in adapter_sets("async", ctx.tier):
        if ctx.out_of_time():
            return
        for hookgates in (False, True):
            CTL["hookgates"] = hookgates
            if hookgates and (len(adn) > 1 or len(names) > 3):
                continue
            adapters = mk_adapters(adn)
            dr = ctl.run(lambda: async_driver.Builder().with_modules(spec.mod).with_adapters(*adapters).build(), Choices([]))[1]
            for finals in [(names[-1],), tuple(names)]:
                ref = spec.reference(finals, X, {})
                executed = [c[0] for c in ref[1]]
                for fp in failure_points("async", adapters, executed):
                    if fp == ("builder",):
                        continue  # see known finding: async result building happens after the after-graph notification
                    if fp and fp[0] == "hook" and hookgates:
                        continue

                    def run(ch):
                        def go():
                            return ctl.run(lambda: dr.execute(list(finals), inputs=dict(X)), ch)
                        EV.clear()
                        one(ctx, "async", spec, tag + ("g" if hookgates else ""), finals, X, {}, adn, fp, dr, adapters, ref, res=go,
                            case=dict(kind="async", idx=idx, tag=tag, ad=list(adn), fail=fp, finals=list(finals)))
                    for tr, _ in explore(run):
                        for i in range(len(tr) + 1):
                            ctx.state(("async", tag, finals, adn, fp, hookgates, tuple(tr[:i])))
    # the sync registration order also holds for adapters with different hook sets
    drop_module(spec.mod)
    ctl.close()


def replay(case, ctx):
    if case.get("kind") in ("fan",):
        return do_fan(ctx, case["idx"])
    if case.get("kind") == "async":
        return do_async(ctx, case["idx"])
    kind = case["kind"]
    spec = build_plain(case["nodes"])
    adn = tuple(case["ad"])
    adapters = mk_adapters(adn)
    b = driver.Builder().with_modules(spec.mod).with_adapters(*adapters)
    if kind == "task":
        b = (b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
             .with_remote_executor(executors.SynchronousLocalTaskExecutor()))
    ov = {k: tuple(v) for k, v in case["overrides"].items()}
    finals = tuple(case["finals"])
    ref = spec.reference(finals, case["supplied"], ov)
    mats = [to.vmem04(id="sv", dependencies=[finals[0]], key=finals[0])] if kind == "mat" else None
    one(ctx, kind, spec, "replay", finals, case["supplied"], ov, adn, tuple(case["fail"]) if case["fail"] else None, b.build(), adapters, ref, mats)
