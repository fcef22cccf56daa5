"""C15: lineage, cycle, tag and validation queries agree with the dataflow.

Every dataflow within bounds is built on the real code; the answers of the query methods are compared with reachability, tag matching
and required-input analysis computed from the description the source was generated from, and validation with what executing does."""
from __future__ import annotations
import itertools
from mc.core import exc_brief
from mc.dagcmp import HDR
from mc.progs import make_module, drop_module, subsets
from hamilton import driver
from hamilton.execution import executors

TECHNIQUE = ("exhaustive enumeration of all dataflows, node sets, tag filters and inputs within bounds; each query of the real driver is compared with "
             "reachability, matching and required inputs computed from the description, and validation with the execution it predicts")
RULE = "state = one dataflow and query or one dataflow and request; transition = one query, validation or execution; trace = one dataflow with all its queries"
ASSUMPTIONS = ["up to four functions and two inputs (three functions for cycles)", "two tag keys with up to three values", "functions do not raise by themselves"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}

EDGE = ["", "r", "o"]


def source(n, edges, ins, order, hdr=HDR):
    """edges[(i, j)] for j < i: '', 'r' (required) or 'o' (optional parameter); ins[i]: subset of 'x' (required), 'y' (optional)"""
    fs, desc = [], {}
    for i in range(n):
        req = ["f%d" % j for j in range(n) if edges.get((i, j)) == "r"] + (["x"] if "x" in ins[i] else [])
        opt = ["f%d" % j for j in range(n) if edges.get((i, j)) == "o"] + (["y"] if "y" in ins[i] else [])
        sig = ", ".join(["%s: Any" % a for a in req] + ["%s: Any = 'd%s'" % (a, a) for a in opt])
        fs.append("def f%d(%s) -> Any:\n    CALLS.append('f%d')\n    return ('f%d', %s)\n" % (i, sig, i, i, "".join(a + ", " for a in req + opt)))
        desc["f%d" % i] = (frozenset(req), frozenset(opt))
    return hdr + "CALLS = []\n" + "".join(fs[i] for i in order), desc


def closure(start, step):
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo.extend(step(n))
    return seen


def names_of(vs, ctx, key, case, what):
    ns = [v.name for v in vs]
    if len(ns) != len(set(ns)):
        ctx.violation(key, "%s lists a node twice: %s" % (what, ns), case)
    return set(ns)


# ------------------------------------------------------------------------------------------------ lineage
def graphs(n, kinds, inkinds):
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for es in itertools.product(kinds, repeat=len(pairs)):
        edges = dict(zip(pairs, es))
        for ins in itertools.product(inkinds, repeat=n):
            yield edges, ins


def run_lineage(ctx, n, kinds, inkinds, part, parts, multi):
    for idx, (edges, ins) in enumerate(graphs(n, kinds, inkinds)):
        if idx % parts != part:
            continue
        lineage(ctx, n, edges, ins, list(range(n)) if idx // parts % 2 == 0 else list(range(n))[::-1], multi, ["lin", n, kinds, inkinds, part, parts, multi])


def lineage(ctx, n, edges, ins, order, multi, job):
    src, desc = source(n, edges, ins, order)
    key = "lin|%d|%s|%s" % (n, "".join(edges.values()).__add__("|") + ",".join("%d%d%s" % (i, j, k) for (i, j), k in edges.items() if k), "/".join(ins))
    case = dict(job=job, only=key)
    ctx.state(key)
    ctx.cases += 1
    ctx.trace()
    m = make_module(src)
    try:
        dr = driver.Builder().with_modules(m).build()
        deps = {k: a | b for k, (a, b) in desc.items()}
        inputs = set().union(*deps.values()) - set(deps)
        for i in inputs:
            deps[i] = frozenset()
        users = {k: [o for o in deps if k in deps[o]] for k in deps}
        seen = {}
        for v in dr.list_available_variables():
            if v.name in seen:
                ctx.violation(key, "node %s is listed twice" % v.name, case)
            seen[v.name] = v
        ctx.transition()
        if set(seen) != set(deps):
            ctx.violation(key, "listed nodes are %s, expected %s" % (sorted(seen), sorted(deps)), case)
            return
        for k, v in seen.items():
            if v.is_external_input != (k in inputs):
                ctx.violation(key, "%s is reported as%s an input" % (k, "" if v.is_external_input else " not"), case)
            if k in desc:
                if set(v.required_dependencies) != desc[k][0] or set(v.optional_dependencies) != desc[k][1]:
                    ctx.violation(key, "%s is reported to require %s and optionally %s; its function requires %s and optionally %s" % (
                        k, sorted(v.required_dependencies), sorted(v.optional_dependencies), sorted(desc[k][0]), sorted(desc[k][1])), case)
                if dict(v.optional_dependencies_default_values) != {a: "d" + a for a in desc[k][1]}:
                    ctx.violation(key, "%s reports default values %r" % (k, v.optional_dependencies_default_values), case)
                if tuple(v.originating_functions) != (getattr(m, k),):
                    ctx.violation(key, "%s reports originating functions %r" % (k, v.originating_functions), case)
        up = {k: closure([k], lambda a: deps[a]) for k in deps}
        down = {k: closure([k], lambda a: users[a]) for k in deps}
        sets = [(k,) for k in sorted(deps)]
        if multi:
            sets = [s for s in subsets(sorted(deps), 1)]
        for s in sets:
            ctx.state((key, s))
            ctx.transition(2)
            got = names_of(dr.what_is_upstream_of(*s), ctx, key, case, "what_is_upstream_of")
            want = set().union(*(up[k] for k in s))
            if got != want:
                ctx.violation(key, "upstream of %s: reported %s, expected %s" % (s, sorted(got), sorted(want)), case)
            got = names_of(dr.what_is_downstream_of(*s), ctx, key, case, "what_is_downstream_of")
            want = set().union(*(down[k] for k in s))
            if got != want:
                ctx.violation(key, "downstream of %s: reported %s, expected %s" % (s, sorted(got), sorted(want)), case)
            ctx.outcome("lineage %d" % len(s))
        for a, b in itertools.product(sorted(deps), repeat=2):
            ctx.transition()
            got = names_of(dr.what_is_the_path_between(a, b), ctx, key, case, "what_is_the_path_between")
            want = down[a] & up[b]
            if got != want:
                ctx.violation(key, "between %s and %s: reported %s, expected %s" % (a, b, sorted(got), sorted(want)), case)
            ctx.outcome("path" if want else "no path")
        for q in (lambda: dr.what_is_upstream_of("nope"), lambda: dr.what_is_downstream_of("f0", "nope"), lambda: dr.what_is_the_path_between("f0", "nope"), lambda: dr.what_is_the_path_between("nope", "f0")):
            try:
                q()
                ctx.violation(key, "a query naming an unknown node did not raise", case)
            except ValueError as e:
                if "nope" not in str(e):
                    ctx.violation(key, "the error for an unknown node does not name it: %s" % exc_brief(e), case)
        if dr.has_cycles(sorted(desc)):
            ctx.violation(key, "has_cycles reports a cycle in an acyclic dataflow", case)
        if m.CALLS:
            ctx.violation(key, "queries ran functions %s" % m.CALLS, case)
    except ValueError as e:
        ctx.violation(key, "a query raised %s" % exc_brief(e), case)
    finally:
        drop_module(m)


# ------------------------------------------------------------------------------------------------ cycles
def run_cycles(ctx, n, part, parts):
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for bits in range(2 ** len(pairs)):
        if bits % parts != part:
            continue
        edges = {p: "r" for k, p in enumerate(pairs) if bits >> k & 1}
        src, desc = source(n, edges, ["x"] + [""] * (n - 1), range(n))
        key = "cyc|%d|%d" % (n, bits)
        case = dict(job=["cyc", n, part, parts], only=key)
        ctx.state(key)
        ctx.cases += 1
        ctx.trace()
        m = make_module(src)
        deps = {k: a | b for k, (a, b) in desc.items()}
        deps["x"] = frozenset()
        incycle = {k for k in deps if k in closure(deps[k], lambda a: deps[a])}
        try:
            dr = driver.Builder().with_modules(m).build()
            for s in subsets(sorted(desc), 1):
                ctx.transition()
                want = bool(incycle & closure(s, lambda a: deps[a]))
                forms = [list(s), [getattr(m, k) for k in s]]
                for f in forms:
                    got = dr.has_cycles(f)
                    ctx.outcome("cycle" if want else "no cycle")
                    if got is not want:
                        ctx.violation(key, "has_cycles(%s) with dependencies %s says %s" % (s, {k: sorted(v) for k, v in deps.items()}, got), case)
            # lineage is reachability also when there are cycles
            for k in sorted(desc):
                ctx.transition(2)
                got = {v.name for v in dr.what_is_upstream_of(k)}
                want = closure([k], lambda a: deps[a])
                if got != want:
                    ctx.violation(key, "upstream of %s (cyclic): reported %s, expected %s" % (k, sorted(got), sorted(want)), case)
                got = {v.name for v in dr.what_is_downstream_of(k)}
                want = closure([k], lambda a: [o for o in deps if a in deps[o]])
                if got != want:
                    ctx.violation(key, "downstream of %s (cyclic): reported %s, expected %s" % (k, sorted(got), sorted(want)), case)
        except Exception as e:
            ctx.violation(key, "building or querying raised %s" % exc_brief(e), case)
        drop_module(m)


# ------------------------------------------------------------------------------------------------ tags
TV = [None, "v", "w", ["v"], ["v", "w"], ["w", "u"]]
QV = ["absent", None, "v", "w", "u", ["v"], ["w"], ["v", "w"], ["u"], ["zz"], ["zz", "v"]]


def tagged(kind, i, tags):
    arg = ", ".join("%s=%r" % kv for kv in sorted(tags.items()))
    dec = "@tag(%s)\n" % arg if tags else ""
    if kind == "plain":
        return dec + "def n%d() -> int:\n    return %d\n" % (i, i), {"n%d" % i: tags}
    if kind == "expanded":  # every output of an expanded function carries the tags
        return dec + "@parameterize(n%da=dict(v=value(1)), n%db=dict(v=value(2)))\ndef n%d(v: int) -> int:\n    return v\n" % (i, i, i), {"n%da" % i: tags, "n%db" % i: tags}
    if kind == "outputs":
        return "@tag_outputs(n%da=dict(%s))\n@extract_fields({'n%da': int, 'n%db': int})\ndef n%d() -> dict:\n    return {'n%da': 1, 'n%db': 2}\n" % (i, arg, i, i, i, i, i), \
            {"n%da" % i: tags, "n%db" % i: {}, "n%d" % i: {}}
    if kind == "stacked":
        extra = "@tag(z='1')\n"
        return dec + extra + "def n%d() -> int:\n    return 1\n" % i, {"n%d" % i: {**tags, "z": "1"}}


def match(tags, q):
    for k, v in q.items():
        if k not in tags:
            return False
        if v is None:
            continue
        a = set(v if isinstance(v, list) else [v])
        b = set(tags[k] if isinstance(tags[k], list) else [tags[k]])
        if not a & b:
            return False
    return True


def run_tags(ctx, kind):
    combos = [{k: v for k, v in (("a", ta), ("b", tb)) if v is not None} for ta in TV for tb in TV]
    src, want = "", {}
    for i, tags in enumerate(combos):
        if kind == "outputs" and not tags:
            continue
        s, w = tagged(kind, i, tags)
        src += s
        want.update(w)
    m = make_module(HDR + src)
    case = dict(job=["tags", kind])
    try:
        dr = driver.Builder().with_modules(m).build()
        base = names_of(dr.list_available_variables(), ctx, kind, case, "list_available_variables")
        if base != set(want):
            ctx.violation("tags|%s" % kind, "nodes %s" % sorted(base ^ set(want)), case)
        for v in dr.list_available_variables():
            got = {k: t for k, t in v.tags.items() if not k.startswith("hamilton.") and k != "module"}
            if got != want[v.name]:
                ctx.violation("tags|%s|%s" % (kind, v.name), "%s carries tags %r, expected %r" % (v.name, got, want[v.name]), case)
        for qa, qb, qz in itertools.product(QV, QV, ("absent", None, "1", ["2"], ["2", "1"])):
            q = {k: v for k, v in (("a", qa), ("b", qb), ("z", qz)) if v != "absent"}
            for order in ([q] if len(q) < 2 else [q, dict(reversed(list(q.items())))]):
                key = "tags|%s|%r" % (kind, order)
                ctx.state(key)
                ctx.transition()
                ctx.cases += 1
                import copy
                q0 = copy.deepcopy(order)
                got = {v.name for v in dr.list_available_variables(tag_filter=order)}
                exp = {n for n, t in want.items() if match(t, order)}
                ctx.outcome("tags some" if exp else "tags none")
                if got != exp:
                    ctx.violation(key, "filter %r: lists %s, expected %s" % (order, sorted(got)[:8], sorted(exp)[:8]), case)
                if order != q0:
                    ctx.violation(key, "the filter was modified: %r" % order, case)
        ctx.trace()
        for bad in ({"a": []}, {"a": "v", "b": []}, {"a": 1}):
            try:
                dr.list_available_variables(tag_filter=bad)
                ctx.violation("tags|bad|%r" % bad, "the invalid filter %r was accepted" % bad, case)
            except ValueError:
                pass
    finally:
        drop_module(m)


# ------------------------------------------------------------------------------------------------ validation
VFLOWS = {
    # source, config
    "plain": ("def a(x: int) -> int:\n    CALLS.append('a')\n    return 1\ndef b(a: int, y: str = 'dy') -> int:\n    CALLS.append('b')\n    return 2\n"
              "def c(z: int, x: int = 3) -> int:\n    CALLS.append('c')\n    return 3\ndef d(b: int, c: int) -> int:\n    CALLS.append('d')\n    return 4\n", {}),
    "config": ("def a(x: int, k: int) -> int:\n    CALLS.append('a')\n    return 1\ndef b(a: int, y: str = 'dy') -> int:\n    CALLS.append('b')\n    return 2\n"
               "def c(k: int = 0) -> int:\n    CALLS.append('c')\n    return 3\ndef d(b: int, c: int) -> int:\n    CALLS.append('d')\n    return 4\n", {"k": 7}),
    "badconfig": ("def a(x: int, k: int) -> int:\n    CALLS.append('a')\n    return 1\ndef b(x: int) -> int:\n    CALLS.append('b')\n    return 2\n"
                  "def d(a: int, b: int) -> int:\n    CALLS.append('d')\n    return 4\n", {"k": "text"}),
    "parallel": ("def a(x: int) -> Parallelizable[int]:\n    CALLS.append('a')\n    yield 1\n    yield 2\ndef b(a: int, y: str = 'dy') -> int:\n    CALLS.append('b')\n    return 2\n"
                 "def c(b: Collect[int]) -> int:\n    CALLS.append('c')\n    return 3\ndef d(z: int) -> int:\n    CALLS.append('d')\n    return 4\n", {}),
}
INVALS = {"x": ["absent", 1, "bad", None], "y": ["absent", "s", 5], "z": ["absent", 1, "bad"], "k": ["absent", 9]}


def reference(desc, types, finals, inputs, config, overrides):
    """None: acceptable; otherwise why the request has to be rejected"""
    for f in finals:
        if f not in desc and f not in types and f not in config and f not in inputs:
            return "unknown " + f
    if set(inputs) & set(config):
        return "given twice"
    avail = {**config, **inputs}
    need, seen = [], set()
    todo = [f for f in finals if f in desc or f in types]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in types:
            need.append(n)
        elif n not in overrides:
            req, opt = desc[n]
            todo += list(req)
            todo += [o for o in opt if o in desc or o in avail]
    return need, avail


def vdesc(m):
    import inspect, typing
    desc, types = {}, {}
    for n in "abcd":
        f = getattr(m, n, None)
        if f is None:
            continue
        ps = inspect.signature(f).parameters.values()
        desc[n] = ({p.name for p in ps if p.default is p.empty}, {p.name for p in ps if p.default is not p.empty})
        for p in ps:
            types.setdefault(p.name, p.annotation)
    return desc, {k: t for k, t in types.items() if k not in desc}


def run_validate(ctx, flow, dynamic):
    src, cfg = VFLOWS[flow]
    m = make_module(HDR + "from hamilton.htypes import Parallelizable, Collect\nCALLS = []\n" + src)
    desc, types = vdesc(m)
    b = driver.Builder().with_modules(m).with_config(dict(cfg))
    if dynamic:
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(executors.SynchronousLocalTaskExecutor())
    dr = b.build()
    vars_ = {v.name: v for v in dr.list_available_variables()}
    case = dict(job=["val", flow, dynamic])
    fsets = [list(s) for s in subsets(sorted(desc), 1)] + [["nope"], [sorted(desc)[-1], "nope"], ["x"], ["y"], ["k"], ["a", "x"], [sorted(desc)[-1], "y"]]
    if flow == "parallel" and dynamic:
        fsets = [f for f in fsets if not set(f) & {"a", "b"}]  # the nodes of a fan-out have no single value
    for fv in fsets:
        for vals in itertools.product(*(INVALS[k] for k in ("x", "y", "z", "k"))):
            inputs = {k: v for k, v in zip(("x", "y", "z", "k"), vals) if not (isinstance(v, str) and v == "absent")}
            for ov in ({}, {"a": 5}, {"b": 5}, {"c": 5, "b": 5}, {"x": 5}, {sorted(desc)[-1]: 5}):
                if flow == "parallel" and ov not in ({}, {"d": 5}):
                    continue
                for form in ("str", "fn", "var"):
                    if form != "str" and (ov or any(f not in desc for f in fv)):
                        continue
                    out = [{"str": f, "fn": getattr(m, f, None), "var": vars_.get(f)}[form] for f in fv]
                    key = "val|%s|%s|%s|%r|%r|%s" % (flow, dynamic, ",".join(fv), inputs, ov, form)
                    ctx.state(key)
                    ctx.cases += 1
                    ctx.trace()
                    ctx.transition(2)
                    verr = eerr = None
                    m.CALLS.clear()
                    try:
                        r = dr.validate_execution(list(out), inputs=dict(inputs), overrides=dict(ov))
                        if r is not None:
                            ctx.violation(key, "validate_execution returned %r" % (r,), case)
                    except Exception as e:
                        verr = e
                    if m.CALLS:
                        ctx.violation(key, "validate_execution ran functions %s" % m.CALLS, case)
                        m.CALLS.clear()
                    try:
                        with ctx.guard(60):
                            dr.execute(list(out), inputs=dict(inputs), overrides=dict(ov))
                    except Exception as e:
                        eerr = e
                    ctx.outcome("%s%s" % ("accepted" if verr is None else "rejected", "" if eerr is None else " raises"))
                    if dynamic and verr is None and isinstance(eerr, KeyError) and any(f in types and f not in inputs and f not in cfg for f in fv):
                        ctx.violation("task-based execution of a requested input that is not provided", "outputs ['x'] without a value for the input x: validation says fine, task-based execution raises KeyError (the default executor returns None)", case)
                    elif eerr is not None and m.CALLS:
                        ctx.violation(key, "outputs %s, inputs %r, overrides %r: execution ran %s and then raised %s" % (fv, inputs, ov, m.CALLS, exc_brief(eerr)), case)
                    elif (verr is None) != (eerr is None):
                        ctx.violation(key, "outputs %s (as %s), inputs %r, overrides %r: validation says %s, execution %s" % (
                            fv, form, inputs, ov, "fine" if verr is None else exc_brief(verr), "succeeds" if eerr is None else "is rejected: " + exc_brief(eerr)), case)
                    else:
                        # independent reference of what has to be rejected
                        ref = reference(desc, types, fv, inputs, cfg, ov)
                        if isinstance(ref, str):
                            rej = True
                        else:
                            need, avail = ref
                            rej = any(n not in avail or not (avail[n] is None or isinstance(avail[n], types[n])) for n in need if not (n in ov))
                            if any(n in ov for n in need) or any(n in fv and n not in avail for n in need):
                                rej = None  # overriding an input, requesting an absent input itself: not claimed
                            if flow == "parallel" and not dynamic and set(fv) & {"a", "b", "c"} and not rej:
                                rej = True
                        if rej is not None and rej != (verr is not None):
                            ctx.violation(key, "outputs %s, inputs %r, overrides %r, config %r: the request was %s, expected %s" % (
                                fv, inputs, ov, cfg, "accepted" if verr is None else "rejected: " + exc_brief(verr), "rejection" if rej else "acceptance"), case)
    drop_module(m)


def jobs(tier):
    js = [["cyc", 2, 0, 1]] + [["cyc", 3, p, 4] for p in range(4)]
    js += [["tags", k] for k in ("plain", "expanded", "outputs", "stacked")]
    js += [["val", f, d] for f in VFLOWS for d in (False, True)]
    if tier == "quick":
        js += [["lin", 3, ["", "r", "o"], ["", "x", "y", "xy"], p, 4, True] for p in range(4)]
        js += [["lin", 4, ["", "r"], ["", "x"], p, 4, False] for p in range(4)]
    else:
        js += [["lin", 3, ["", "r", "o"], ["", "x", "y", "xy"], p, 4, True] for p in range(4)]
        js += [["lin", 4, ["", "r", "o"], ["", "x", "xy"], p, 32, True] for p in range(32)]
        js += [["cyc", 4, p, 32] for p in range(32)]
    return js


def run_job(job, ctx):
    if job[0] == "lin":
        run_lineage(ctx, *job[1:])
    elif job[0] == "cyc":
        run_cycles(ctx, *job[1:])
    elif job[0] == "tags":
        run_tags(ctx, job[1])
    else:
        run_validate(ctx, *job[1:])


def replay(case, ctx):
    run_job(case["job"], ctx)
