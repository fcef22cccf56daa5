"""C02: dynamic (task-based) execution == sequential evaluation under every schedule of task completions.

Enumerates dataflow shapes with fan-out blocks (all wirings of up to 3 body nodes to the item, to outside nodes and
to required/optional inputs; collectors with extra arguments; chained and side-by-side fan-outs), item lists
(empty, falsy, duplicate), groupings, executor assignments, task limits, failing functions, overrides; and for each
of them *every* schedule: the explorer owns when each submitted task is seen finished (0..K polls)."""
from __future__ import annotations
import itertools
from mc.core import CaseTimeout, StopJob, exc_brief
from mc.explore import explore, Choices
from mc.progs import make_module, drop_module, subsets
from mc.sched import ControlledExecutor, PollLimit
from hamilton import driver
from hamilton.execution import executors, grouping

TECHNIQUE = ("stateless exhaustive exploration of task-completion schedules of the real task engine "
             "(controlled executor), against a sequential reference evaluator")
RULE = ("state = (program, grouping, executors, limit, items, failing call, schedule prefix); transition = one task submission or "
        "function call; trace = one complete execution under one schedule, compared with the reference")
ASSUMPTIONS = ["documented limits respected: one Collect per Parallelizable, no nesting, requested outputs lie outside fan-out bodies",
               "a task's work is atomic with respect to other tasks (data races inside hamilton's task code are C07's subject)",
               "each submitted task is seen finished after 0..K polls, K=4 quick (1 item list <=3), 6 thorough",
               "executors whose finalize() raises are not considered"]
BUDGET = {"quick": 400, "thorough": 3 * 3600}

LOG = []
FAIL = {}


class Boom(Exception):
    pass


def _ret(name, kw):
    t = (name, tuple(sorted(kw.items())))
    LOG.append(t)
    f = FAIL.get("call")
    if f is not None and f[0] == name and (f[1] is None or f[1] in _leaves(t)):
        e = Boom(name)
        FAIL.setdefault("excs", []).append(e)
        raise e
    return t


def _leaves(t):
    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], tuple):
        for _, v in t[1]:
            yield from _leaves(v)
    elif isinstance(t, list):
        for v in t:
            yield from _leaves(v)
    else:
        yield t


def _items(name, kw, items):
    _ret(name, kw)
    yield from items


class Spec:
    """nodes: name -> dict(kind=plain|expand|collect, params={p: kind}) ; kind 1 required, 2 optional, 3 collect."""

    def __init__(self, nodes, gen=True):
        self.nodes = nodes
        self.gen = gen
        self.inputs = {p for d in nodes.values() for p in d["params"] if p not in nodes}

    def src(self):
        out = ["from hamilton.htypes import Parallelizable, Collect\n"]
        for n, d in self.nodes.items():
            req = ["%s: %s" % (p, "Collect[object]" if k == 3 else "object") for p, k in d["params"].items() if k != 2]
            opt = ["%s: object = 'dflt'" % p for p, k in d["params"].items() if k == 2]
            sig = ", ".join(req + opt)
            kws = ", ".join("%s=%s" % (p, "list(%s)" % p if k == 3 else p) for p, k in d["params"].items())
            if d["kind"] == "expand":
                if self.gen:
                    out.append("def %s(%s) -> Parallelizable[object]:\n    yield from _items(%r, dict(%s), ITEMS[%r])\n" % (n, sig, n, kws, n))
                else:
                    out.append("def %s(%s) -> Parallelizable[object]:\n    _ret(%r, dict(%s))\n    return list(ITEMS[%r])\n" % (n, sig, n, kws, n))
            else:
                out.append("def %s(%s) -> object:\n    return _ret(%r, dict(%s))\n" % (n, sig, n, kws))
        return "\n".join(out)

    def build(self):
        self.items = {}
        self.mod = make_module(self.src(), env={"_ret": _ret, "_items": _items, "ITEMS": self.items})
        # which expander does each node fan out over (None: outside)
        self.exp = {}

        def fan(n):
            if n not in self.exp:
                if n not in self.nodes:
                    return None
                self.exp[n] = None
                e = None
                for p, k in self.nodes[n]["params"].items():
                    if k == 3 or p not in self.nodes:
                        continue
                    if self.nodes[p]["kind"] == "expand":
                        e = p
                    elif fan(p):
                        e = fan(p)
                self.exp[n] = e
            return self.exp[n]
        for n in self.nodes:
            fan(n)
        return self

    def reference(self, finals, supplied, overrides):
        """-> (values, list of expected calls, missing)"""
        calls, memo, missing = [], {}, set()

        def value(n, item):
            """item: (expander, index) or None"""
            if n in overrides and not (n in self.nodes and self.nodes[n]["kind"] == "expand"):
                return overrides[n]
            if n not in self.nodes:
                return supplied[n]
            d = self.nodes[n]
            key = (n, item if self.exp[n] else None)
            if key in memo:
                return memo[key]
            if d["kind"] == "expand" and n in overrides:
                memo[key] = list(overrides[n])
                return memo[key]
            kw = {}
            for p, k in d["params"].items():
                if p in self.nodes and k == 3:
                    e = p if self.nodes[p]["kind"] == "expand" else self.exp[p]
                    if p in overrides and self.nodes[p]["kind"] != "expand":
                        kw[p] = list(overrides[p])
                    else:
                        lst = value(e, None)
                        kw[p] = [x if p == e else value(p, (e, i)) for i, x in enumerate(lst)]
                elif p in self.nodes and self.nodes[p]["kind"] == "expand":
                    kw[p] = value(p, None)[item[1]]
                elif p in self.nodes or p in overrides:
                    kw[p] = value(p, item)
                elif p in supplied:
                    kw[p] = supplied[p]
                elif k == 2:
                    kw[p] = "dflt"
                else:
                    missing.add(p)
                    kw[p] = None
            t = (n, tuple(sorted(kw.items())))
            calls.append(t)
            memo[key] = list(self.items[n]) if d["kind"] == "expand" else t
            return memo[key]
        vals = {f: value(f, None) for f in finals}
        # nodes outside fan-out bodies are needed even if the list turns out empty
        seen = set()

        def static(n):
            if n in seen or n not in self.nodes:
                return
            seen.add(n)
            if n not in overrides:
                for p in self.nodes[n]["params"]:
                    static(p)
                if not self.exp[n]:
                    value(n, None)
                else:
                    for p, k in self.nodes[n]["params"].items():
                        if k == 1 and p not in self.nodes and p not in supplied:
                            missing.add(p)
        for f in finals:
            static(f)
        return vals, calls, missing


class SplitBlocks(grouping.GroupingStrategy):
    """user-defined grouping: every body node is a task of its own"""

    def __init__(self, spec, order):
        self.spec, self.order = spec, order

    def group_nodes(self, nodes):
        NG, P = grouping.NodeGroup, grouping.NodeGroupPurpose
        out = []
        names = {n.name for n in nodes}
        for n in sorted(nodes, key=lambda n: n.name, reverse=self.order):
            d = self.spec.nodes.get(n.name)
            if d is None:
                out.append(NG(n.name, None, [n], P.EXECUTE_SINGLE))
            elif d["kind"] == "expand":
                out.append(NG("t-" + n.name, None, [n], P.EXPAND_UNORDERED))
            elif d["kind"] == "collect":
                src = [p for p, k in d["params"].items() if k == 3][0]
                e = src if self.spec.nodes[src]["kind"] == "expand" else self.spec.exp[src]
                out.append(NG("t-" + n.name, "t-" + e, [n], P.GATHER))
            elif self.spec.exp[n.name]:
                out.append(NG("t-" + n.name, "t-" + self.spec.exp[n.name], [n], P.EXECUTE_BLOCK))
            else:
                out.append(NG(n.name, None, [n], P.EXECUTE_SINGLE))
        return out


def mk_driver(spec, grp, local, remote):
    b = (driver.Builder().with_modules(spec.mod).enable_dynamic_execution(allow_experimental_mode=True)
         .with_local_executor(local).with_remote_executor(remote))
    if grp == "split":
        b = b.with_grouping_strategy(SplitBlocks(spec, False))
    elif grp == "split_rev":
        b = b.with_grouping_strategy(SplitBlocks(spec, True))
    elif grp == "individual":
        b = b.with_grouping_strategy(grouping.GroupNodesIndividually())
    elif grp == "level":
        b = b.with_grouping_strategy(grouping.GroupNodesByLevel())
    elif grp == "all":
        b = b.with_grouping_strategy(grouping.GroupNodesAllAsOne())
    return b.build()


def run_spec(ctx, spec, tag, finals, supplied, overrides, grp, limit, k, klocal, eager, fail, twice=False, case=None, trail=None):
    """explores every schedule of one configuration"""
    vals, calls, missing = spec.reference(finals, supplied, overrides)
    exp_calls = sorted(map(repr, calls))
    key = (tag, finals, tuple(sorted(supplied.items(), key=repr)), tuple(sorted(map(repr, overrides.items()))), grp, limit, eager, repr(fail), repr(sorted(spec.items.items())))
    fail_expected = fail is not None and any(t[0] == fail[0] and (fail[1] is None or fail[1] in _leaves(t)) for t in calls)
    holder = {}
    remote = ControlledExecutor(limit, None, k, eager)
    local = ControlledExecutor(limit, None, klocal, eager) if klocal is not None else executors.SynchronousLocalTaskExecutor()
    dr = mk_driver(spec, grp, local, remote)

    def run(ch):
        remote.reset(ch)
        if klocal is not None:
            local.reset(ch)
        outs = []
        for rep in range(2 if twice else 1):
            if rep:  # the second execution on the same driver follows the default schedule
                remote.choices = Choices([])
            LOG.clear()
            FAIL.clear()
            FAIL["call"] = fail
            try:
                with ctx.guard(60):
                    got = dr.execute(list(finals), inputs=dict(supplied), overrides=dict(overrides))
                res = ("ok", got)
            except (CaseTimeout, GeneratorExit):
                raise
            except PollLimit:
                res = ("hang", None)
            except BaseException as e:
                res = ("err", e)
            FAIL["call"] = None
            outs.append((res, list(LOG), list(FAIL.get("excs", []))))
        holder["x"] = (remote, local)
        return outs

    def bad(trail, what, detail):
        ctx.violation("%s|%s|fin=%s|in=%s|ov=%s|grp=%s|fail=%s" % (what, tag, ",".join(finals), sorted(supplied), sorted(overrides), grp, fail),
                      "%s: %s; schedule %s limit %s eager %s items %r\n%s" % (what, detail, trail, limit, eager, spec.items, spec.src()),
                      dict(nodes=spec.nodes, gen=spec.gen, items=spec.items, finals=list(finals), supplied=supplied, overrides=overrides,
                           grp=grp, limit=limit, k=k, klocal=klocal, eager=eager, fail=fail, twice=twice, trail=trail))

    paths = explore(run) if trail is None else [(trail, run(Choices(trail)))]
    try:
        for tr, outs in paths:
            ctx.trace()
            ctx.cases += 1
            remote, local = holder["x"]
            for ri in range(len(tr) + 1):
                ctx.state((key, tuple(tr[:ri])))
            for res, log, excs in outs:
                ctx.transition(len(log) + remote.submitted)
                seen = sorted(map(repr, log))
                if res[0] == "hang":
                    bad(tr, "hang", "engine keeps polling without making progress")
                    continue
                if missing:
                    ctx.outcome("missing")
                    if res[0] == "ok" or log:
                        bad(tr, "missing-input", repr((res, log)))
                    continue
                if fail_expected:
                    ctx.outcome("raised")
                    if res[0] != "err" or not any(res[1] is e for e in excs):
                        bad(tr, "exception-lost", repr(res))
                    rest = list(exp_calls)
                    for s in seen:
                        if s in rest:
                            rest.remove(s)
                        else:
                            bad(tr, "extra-call", s)
                            break
                else:
                    ctx.outcome("ok")
                    if res[0] != "ok":
                        bad(tr, "unexpected-error", exc_brief(res[1]))
                        continue
                    if res[1] != vals or list(res[1]) != list(vals):
                        bad(tr, "wrong-value", "expected %r got %r" % (vals, res[1]))
                    if seen != exp_calls:
                        bad(tr, "calls", "expected calls %s, observed %s" % (exp_calls, seen))
            for x in (remote, local):
                if isinstance(x, ControlledExecutor):
                    if x.max_seen > limit:
                        bad(tr, "limit", "%d tasks in flight, allowed %d" % (x.max_seen, limit))
                    if x.initialized or x.creates != x.shutdowns:
                        bad(tr, "not-shut-down", "pools created %d shut down %d" % (x.creates, x.shutdowns))
    except CaseTimeout:
        bad([], "hang", "execution did not terminate")
        raise StopJob()


# ----------------------------------------------------------------------------------------------- program families
def fan_specs(tier):
    """one fan-out: o (outside), e (expand), body a,b,(f), collector c, post d"""
    out = []
    # body wirings
    bodies = []
    bodies.append(("direct", {}, "e"))
    for extra in subsets([("o", 1), ("x", 1), ("y", 2)]):
        bodies.append(("k1" + "".join(p for p, _ in extra), {"a": dict([("e", 1)] + list(extra))}, "a"))
    for pa in subsets(["e", "o"]):
        for pb in subsets(["a", "e", "o"], 1):
            if not ("e" in pb or ("a" in pb and "e" in pa)):
                continue
            bodies.append(("k2%s-%s" % ("".join(pa), "".join(pb)), {"a": {p: 1 for p in pa}, "b": {p: 1 for p in pb}}, "b"))
    for pa in (["e"], ["e", "o"], ["o"]):
        for pb in (["a"], ["e"], ["a", "e"], ["e", "y"]):
            for pf in (["a", "b"], ["b", "e"], ["a", "b", "o"]):
                if "e" not in pf and "e" not in pb and "e" not in pa:
                    continue
                bodies.append(("k3%s-%s-%s" % ("".join(pa), "".join(pb), "".join(pf)),
                               {"a": {p: 1 for p in pa}, "b": {p: (2 if p == "y" else 1) for p in pb}, "f": {p: 1 for p in pf}}, "f"))
    for name, body, last in bodies:
        for cex in ((), ("o",), ("x",), ("y",), ("o", "g")):
            for esrc in ((), ("o",), ("n",)):
                if name.startswith("k3") and (cex not in ((), ("o", "g")) or esrc == ()) and tier == "quick":
                    continue
                if name.startswith("k2") and (cex in (("x",), ("y",)) or esrc == ()) and tier == "quick":
                    continue
                nodes = {}
                nodes["d"] = dict(kind="plain", params={"c": 1, "o": 1})
                nodes["c"] = dict(kind="collect", params=dict([(last, 3)] + [(p, 2 if p == "y" else 1) for p in cex]))
                for n, ps in reversed(list(body.items())):
                    nodes[n] = dict(kind="plain", params=ps)
                nodes["e"] = dict(kind="expand", params={p: 1 for p in esrc})
                nodes["o"] = dict(kind="plain", params={"x": 1})
                nodes["g"] = dict(kind="plain", params={"o": 1})
                out.append(("%s|c%s|e%s" % (name, "".join(cex), "".join(esrc)), nodes))
    return out


def chain_specs():
    """two fan-outs: chained and side by side"""
    out = []
    for e2 in ({"c": 1}, {"c": 1, "o": 1}, {"o": 1}, {}):
        for a2 in ({"e2": 1}, {"e2": 1, "c": 1}, {"e2": 1, "o": 1}):
            for c2 in ({}, {"c": 1}):
                nodes = {
                    "o": dict(kind="plain", params={"x": 1}),
                    "e": dict(kind="expand", params={"o": 1}),
                    "a": dict(kind="plain", params={"e": 1}),
                    "c": dict(kind="collect", params={"a": 3}),
                    "e2": dict(kind="expand", params=dict(e2)),
                    "a2": dict(kind="plain", params=dict(a2)),
                    "c2": dict(kind="collect", params=dict({"a2": 3}, **c2)),
                    "d": dict(kind="plain", params={"c": 1, "c2": 1}),
                }
                out.append(("chain|%s|%s|%s" % (sorted(e2), sorted(a2), sorted(c2)), nodes))
    return out


def plain_specs(n):
    names = ("c", "a", "d", "b")[:n]
    cells = [(i, j) for i in range(n) for j in range(i)]
    for combo in itertools.product((0, 1), repeat=len(cells)):
        for xs in ((1,) + (0,) * (n - 1), (0,) * (n - 1) + (1,), (2,) * n):
            nodes = {}
            for i, nm in enumerate(names):
                ps = {names[j]: 1 for (ii, j), k in zip(cells, combo) if ii == i and k}
                if xs[i]:
                    ps["x"] = xs[i]
                nodes[nm] = dict(kind="plain", params=ps)
            yield "plain%d|%s|%s" % (n, "".join(map(str, combo)), xs), nodes


ITEMS3 = [[], [1], [0, None], ["p", "p"], [3, 1, 2]]


def jobs(tier):
    out = []
    nf = len(fan_specs(tier))
    for i in range(nf):
        out.append(("fan", i))
    for i in range(len(chain_specs())):
        out.append(("chain", i))
    for p in range(8):
        out.append(("plain3", p))
    for p in range(16 if tier == "quick" else 48):
        out.append(("plain4", p))
    out.append(("faults", 0))
    out.append(("big", 12))
    out.append(("big", 23))
    # pack fan jobs to fewer processes
    packed = []
    fans = [j for j in out if j[0] in ("fan", "chain")]
    step = 40 if tier == "quick" else 120
    for s in range(step):
        g = fans[s::step]
        if g:
            packed.append(("group", tuple(g)))
    return packed + [j for j in out if j[0] not in ("fan", "chain")]


DEEP = {"k1|c|en", "k1oxy|cog|eo", "k2e-a|c|en", "k2e-ae|c|eo", "k2o-ae|co|en", "k3e-ae-ab|c|en", "k3e-e-ab|cog|eo"}


def do_fan(ctx, idx, tier):
    name, nodes = fan_specs(tier)[idx]
    q = tier == "quick"
    for gen in (True, False):
        spec = Spec(nodes, gen).build()
        try:
            sup = {"x": "X", "n": "N"}
            sup = {k: v for k, v in sup.items() if k in spec.inputs}
            for items in ITEMS3:
                if not gen and items != [3, 1, 2]:
                    continue
                spec.items["e"] = items
                n = len(items)
                deep = name in DEEP
                k = ({0: 1, 1: 3, 2: 4, 3: 4}[n] if deep else {0: 0, 1: 1, 2: 2, 3: 1}[n]) if q else ({0: 2, 1: 4, 2: 6, 3: 6}[n] if deep else 2)
                grps = ("default", "split", "split_rev")
                for grp in grps:
                    if name.startswith("direct") and grp != "default":
                        continue
                    if grp == "split_rev" and q and not deep:
                        continue
                    body = sum(1 for v in spec.exp.values() if v)
                    ntask = n * (body if grp.startswith("split") else 1)
                    kk = k
                    if ntask > 3:
                        kk = 1 if q or ntask > 6 else 2
                    for limit in ((1, 2, 10) if n > 1 and grp == "default" and (deep or not q) else (10, 2) if grp == "default" and n > 1 else (10,) if grp == "default" else (2,)):
                        if gen is False and limit != 10:
                            continue
                        if ntask > 6 and q:
                            kk = 0
                        run_spec(ctx, spec, name, ("d",), sup, {}, grp, limit, kk, None, False, None, twice=(grp == "default" and limit == 10))
                # executors both controlled, eager work
                if gen:
                    run_spec(ctx, spec, name, ("c", "d"), sup, {}, "default", 2, 1, 1 if deep or not q else 0, True, None)
                    run_spec(ctx, spec, name, ("c", "o"), dict(sup, **({"y": "Y"} if "y" in spec.inputs else {})), {}, "default", 2, 1, None, False, None)
            spec.items["e"] = [3, 1]
            if gen:
                # failures: every function, and for body functions every item
                for f in spec.nodes:
                    whats = [(f, None)] if not spec.exp.get(f) else [(f, 3), (f, 1), (f, None)]
                    for w in whats:
                        run_spec(ctx, spec, name, ("d",), sup, {}, "default", 2, 2, None, False, w)
                        if name in DEEP or not q:
                            run_spec(ctx, spec, name, ("d",), sup, {}, "default", 10, 1, 1, True, w)
                            run_spec(ctx, spec, name, ("d",), sup, {}, "split", 10, 1, None, True, w)
                # overrides
                for ov in ({"o": "OV"}, {"c": "OC"}, {"e": [7, 8, 9]}, {"e": []}, {"d": "OD"}, {"x": "OX"}, {"o": None, "c": 0}, {"g": "OG"}):
                    if not set(ov) <= set(spec.nodes) | spec.inputs:
                        continue
                    run_spec(ctx, spec, name, ("d",), sup, ov, "default", 2, 1, None, False, None)
                # missing input
                if "n" in spec.inputs:
                    run_spec(ctx, spec, name, ("d",), {"x": "X"}, {}, "default", 2, 1, None, False, None)
                run_spec(ctx, spec, name, ("d", "c", "g"), sup, {}, "default", 2, 1, 0, False, None)
        finally:
            drop_module(spec.mod)


def do_big(ctx, n):
    """more items than one digit can number: the collected order is numerical, whatever finishes first"""
    specs = dict(fan_specs("quick"))
    for name in ("direct|c|en", "k1|c|en", "k2e-a|c|en", "k2e-ae|c|eo", "k3e-ae-ab|c|en"):
        spec = Spec(specs[name]).build()
        sup = {k: v for k, v in {"x": "X", "n": "N"}.items() if k in spec.inputs}
        try:
            for items in (list(range(n)), list(range(n))[::-1], [0] * n):
                spec.items["e"] = items
                for grp in ("default",) if name.startswith("direct") else ("default", "split", "split_rev"):
                    for limit in (1, 3, 10, 100):
                        run_spec(ctx, spec, name, ("d", "c"), sup, {}, grp, limit, 0, None, False, None)
                        run_spec(ctx, spec, name, ("c",), sup, {"e": items[1:]}, grp, limit, 0, 0, True, None)
                run_spec(ctx, spec, name, ("d",), sup, {}, "default", 4, 0, None, False, ("a", n - 2) if "a" in spec.nodes else ("c", None))
        finally:
            drop_module(spec.mod)


def do_chain(ctx, idx, tier):
    name, nodes = chain_specs()[idx]
    spec = Spec(nodes).build()
    sup = {"x": "X"}
    q = tier == "quick"
    try:
        for i1 in ([], [1], [2, 1]):
            for i2 in ([], [5, 6]):
                spec.items["e"], spec.items["e2"] = i1, i2
                for limit in (1, 2, 10):
                    run_spec(ctx, spec, name, ("d",), sup, {}, "default", limit, 2 if q else 4, None, False, None, twice=limit == 2)
                run_spec(ctx, spec, name, ("d", "c", "c2"), sup, {}, "default", 2, 1, 1, False, None)
                run_spec(ctx, spec, name, ("c2",), sup, {}, "split", 2, 1, None, False, None)
        spec.items["e"], spec.items["e2"] = [2, 1], [5, 6]
        for f in nodes:
            run_spec(ctx, spec, name, ("d",), sup, {}, "default", 2, 1, None, False, (f, None))
        for ov in ({"c": "OC"}, {"e2": [7]}, {"e": [7], "e2": []}, {"c2": None}):
            run_spec(ctx, spec, name, ("d",), sup, ov, "default", 2, 1, None, False, None)
    finally:
        drop_module(spec.mod)


def do_plain(ctx, n, part, parts, tier):
    q = tier == "quick"
    for i, (name, nodes) in enumerate(plain_specs(n)):
        if i % parts != part:
            continue
        if ctx.out_of_time():
            return
        spec = Spec(nodes).build()
        try:
            names = list(nodes)
            for finals in ([tuple(names), (names[-1],)] if n == 4 else [f for f in subsets(names, 1)]):
                for sup in ({"x": "X"}, {}):
                    if sup and "x" not in spec.inputs:
                        continue
                    for grp in ("default", "individual", "level", "all"):
                        kl = None if grp != "default" else (1 if q else 2)
                        run_spec(ctx, spec, name, finals, sup, {}, grp, 2, 1 if q else 2, kl, False, None)
            # overrides and failures under every grouping
            for grp in ("default", "individual", "level", "all"):
                for ov in names:
                    run_spec(ctx, spec, name, (names[-1],), {"x": "X"} if "x" in spec.inputs else {}, {ov: "OV"}, grp, 2, 1 if q and n == 4 else 2, None, False, None)
                if "x" in spec.inputs:
                    run_spec(ctx, spec, name, (names[-1],), {"x": "X"}, {"x": "OX"}, grp, 2, 1, None, False, None)
                for f in names:
                    run_spec(ctx, spec, name, tuple(names), {"x": "X"} if "x" in spec.inputs else {}, {}, grp, 2, 1, None, False, (f, None))
                run_spec(ctx, spec, name, (), {}, {}, grp, 2, 1, None, False, None)
        finally:
            drop_module(spec.mod)


class FaultyExecutor(executors.TaskExecutor):
    """synchronous; raises at one chosen operation"""

    def __init__(self, fault=None):
        self.fault, self.started, self.finalized, self.n = fault, 0, 0, 0

    def _maybe(self, op):
        if self.fault == op:
            raise Boom(op)

    def init(self):
        self._maybe("init")
        self.started += 1

    def finalize(self):
        self.finalized += 1

    def can_submit_task(self):
        self._maybe("can")
        return True

    def submit_task(self, task):
        self.n += 1
        self._maybe("submit%d" % self.n)
        r = executors.base_execute_task(task)
        return executors.TaskFuture(get_state=lambda: executors.TaskState.SUCCESSFUL, get_result=lambda: r)


def do_faults(ctx):
    nodes = dict(fan_specs("quick"))["k2e-ao|co|eo"] if "k2e-ao|co|eo" in dict(fan_specs("quick")) else fan_specs("quick")[20][1]
    spec = Spec(nodes).build()
    spec.items["e"] = [1, 2]
    sup = {k: k.upper() for k in ("x", "n") if k in spec.inputs}
    for which in ("local", "remote"):
        for fault in ("init", "can", "submit1", "submit2"):
            lo = FaultyExecutor(fault if which == "local" else None)
            re_ = FaultyExecutor(fault if which == "remote" else None)
            dr = mk_driver(spec, "default", lo, re_)
            ctx.state(("fault", which, fault))
            ctx.trace()
            ctx.cases += 1
            ctx.transition(2)
            err = None
            try:
                with ctx.guard(60):
                    LOG.clear(); FAIL.clear()
                    dr.execute(["d"], inputs=dict(sup))
            except CaseTimeout:
                ctx.violation("fault-hang|%s|%s" % (which, fault), "did not terminate", dict(kind="fault", which=which, fault=fault))
                continue
            except BaseException as e:
                err = e
            if not isinstance(err, Boom):
                ctx.violation("fault-lost|%s|%s" % (which, fault), "executor error did not reach the caller: %r" % (err,), dict(kind="fault"))
            for nm, x in (("local", lo), ("remote", re_)):
                if x.started != x.finalized and not (fault == "init" and x.fault):
                    ctx.violation("fault-not-finalized|%s|%s|%s" % (which, fault, nm), "started %d times, finalized %d times" % (x.started, x.finalized), dict(kind="fault"))
    drop_module(spec.mod)


def run_job(job, ctx):
    if job[0] == "group":
        for j in job[1]:
            if ctx.out_of_time():
                return
            (do_fan if j[0] == "fan" else do_chain)(ctx, j[1], ctx.tier)
    elif job[0] == "plain3":
        do_plain(ctx, 3, job[1], 8, ctx.tier)
    elif job[0] == "plain4":
        do_plain(ctx, 4, job[1], 16 if ctx.tier == "quick" else 48, ctx.tier)
    elif job[0] == "big":
        do_big(ctx, job[1])
    else:
        do_faults(ctx)


def replay(case, ctx):
    if case.get("kind") == "fault":
        return do_faults(ctx)
    spec = Spec(case["nodes"], case["gen"]).build()
    spec.items.update(case["items"])
    fail = tuple(case["fail"]) if case["fail"] else None
    run_spec(ctx, spec, "replay", tuple(case["finals"]), case["supplied"], case["overrides"], case["grp"], case["limit"],
             case["k"], case["klocal"], case["eager"], fail, case["twice"], trail=case["trail"])
