"""C17: drivers and builders are isolated; earlier calls never affect later ones.

All operation sequences up to a depth on one driver (execute, failing execute, materialize, queries), on builders (configure, copy, build)
and on drivers constructed with shared arguments; every operation is compared with what it does on a driver or builder freshly made
from the same specification, and everything the caller passed in is checked to be unmodified."""
from __future__ import annotations
import asyncio, copy, itertools, re
from mc.core import exc_brief
from mc.dagcmp import HDR, nodes_of
from mc.progs import make_module, drop_module, subsets
from mc.props import c16
from hamilton import driver, base, async_driver, lifecycle
from hamilton.execution import executors
from hamilton.io.materialization import to, from_

TECHNIQUE = ("exhaustive exploration of all operation sequences up to a depth on real drivers and builders; after every operation the observation is compared "
             "with the one made on a freshly created object with the same specification")
RULE = "state = one history (sequence of operations); transition = one operation; trace = one history whose operations were all compared with fresh replays"
ASSUMPTIONS = ["operation sequences of depth 3 (drivers) and 4 (builders) at the quick tier", "adapters keep no state of their own", "without caching (C04 to C09)"]
BUDGET = {"quick": 400, "thorough": 3 * 3600}

SRC = HDR + ("from hamilton.htypes import Parallelizable, Collect\nCALLS = []\n"
             "def a(x: int) -> Any:\n    CALLS.append('a')\n    return ('a', x)\n"
             "def b(a: Any, y: Any = 'dy') -> Any:\n    CALLS.append('b')\n    if y == 'boom':\n        raise RuntimeError('boom')\n    return ['b', a, y]\n"
             "@parameterize(p=dict(v=value(1)), q=dict(v=source('a')))\ndef pq(v: Any) -> Any:\n    CALLS.append('pq')\n    return ('pq', v)\n"
             "@extract_fields({'e': Any, 'f': Any})\ndef ef(b: Any, k: Any) -> dict:\n    CALLS.append('ef')\n    return {'e': ('e', b, k), 'f': 'F'}\n"
             "@config.when(k=1)\ndef g__one(e: Any) -> Any:\n    CALLS.append('g1')\n    return ('g1', e)\n"
             "@config.when_not(k=1)\ndef g__other(f: Any) -> Any:\n    CALLS.append('g2')\n    return ('g2', f)\n"
             "def _step(s: Any, w: Any) -> Any:\n    return ('step', s, w)\n"
             "@pipe_input(step(_step, w=source('a')), step(_step, w=value(2)).when(k=1), on_input='p')\ndef pi(p: Any, q: Any) -> Any:\n    CALLS.append('pi')\n    return ('pi', p, q)\n")
PAR = "def z(a: Any) -> Parallelizable[int]:\n    CALLS.append('z')\n    yield 1\n    yield 2\ndef w(z: int, y: Any = 'dy') -> Any:\n    CALLS.append('w')\n    if y == 'boom':\n        raise RuntimeError('boom')\n    return ('w', z)\n" \
      "def c(w: Collect[Any], g: Any) -> Any:\n    CALLS.append('c')\n    return ('c', list(w), g)\n"
SEQ = "def c(pi: Any, g: Any) -> Any:\n    CALLS.append('c')\n    return ('c', pi, g)\n"


class Rec(lifecycle.NodeExecutionHook, lifecycle.GraphExecutionHook):
    def __init__(self, label, log):
        self.label, self.log = label, log

    def run_before_node_execution(self, *, node_name, **kw):
        self.log.append((self.label, "pre", node_name))

    def run_after_node_execution(self, *, node_name, success, **kw):
        self.log.append((self.label, "post", node_name, success))

    def run_before_graph_execution(self, *, final_vars, **kw):
        self.log.append((self.label, "start", tuple(final_vars)))

    def run_after_graph_execution(self, *, success, **kw):
        self.log.append((self.label, "end", success))


def make(kind, m, log):
    b = driver.Builder().with_modules(m).with_config({"k": 1})
    if kind == "default":
        b = b.with_adapters(base.DictResult(), Rec("r", log))
    elif kind == "legacy":
        b = b.with_adapter(base.SimplePythonGraphAdapter(base.DictResult()))
    else:
        b = b.with_adapters(Rec("r", log)).enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
        b = b.with_remote_executor(executors.SynchronousLocalTaskExecutor() if kind == "dynamic" else executors.MultiThreadingExecutor(max_tasks=1))
    return b.build()


def driver_ops(kind):
    A = lambda: [to.mcrec(id="s", dependencies=["a"], path=1)]
    L = lambda: [from_.mcrec(target="a", src="S"), to.mcrec(id="s", dependencies=["b", "p"], combine=c16.Comb(), path=c16.source("q"))]
    O = {
        "exec": lambda dr, m: dr.execute(["c", "b"], inputs={"x": 1}),
        "exec2": lambda dr, m: dr.execute([m.b, "g"], inputs={"x": 2, "y": "Y"}),
        "ov": lambda dr, m: dr.execute(["c"], inputs={"x": 1}, overrides={"a": "OA", "e": "OE"}),
        "missing": lambda dr, m: dr.execute(["c"], inputs={}),
        "badtype": lambda dr, m: dr.execute(["b"], inputs={"x": "text"}),
        "unknown": lambda dr, m: dr.execute(["c", "nope"], inputs={"x": 1}),
        "fail": lambda dr, m: dr.execute(["c"], inputs={"x": 1, "y": "boom"}),
        "clobber": lambda dr, m: clobber(dr.execute(["b", "e"], inputs={"x": 1})),
        "query": lambda dr, m: (sorted(v.name for v in dr.what_is_upstream_of("g")), sorted(v.name for v in dr.what_is_downstream_of("a")), sorted(v.name for v in dr.list_available_variables({"module": m.__name__}))),
        "validate": lambda dr, m: dr.validate_execution(["c"], inputs={"x": 1}),
        "mat": lambda dr, m: dr.materialize(*A(), additional_vars=["g"], inputs={"x": 1}),
        "matload": lambda dr, m: dr.materialize(*L(), additional_vars=["b"], inputs={}),
        "matfail": lambda dr, m: dr.materialize(to.mcrec(id="s", dependencies=["b"], path="fail"), from_.mcrec(target="p", src="S"), inputs={"x": 1}),
    }
    return O


def clobber(r):
    keep = copy.deepcopy(r)
    for v in r.values():
        if isinstance(v, list):
            v.append("clobbered")
    r.clear()
    r["c"] = "clobbered"
    return keep


def observe(op, dr, m, log):
    log.clear()
    m.CALLS.clear()
    c16.LOG.clear()
    try:
        r = ("ok", op(dr, m))
    except Exception as e:
        r = ("raised", type(e).__name__, str(e)[:200])
    return (r, sorted(m.CALLS), sorted(map(repr, log)), sorted(map(repr, c16.LOG)), nodes_of(dr))


def run_driver(ctx, kind, first, depth):
    c16.register()
    m = make_module(SRC + (PAR if kind in ("dynamic", "threads") else SEQ), name="mcflow17")
    O = driver_ops(kind)
    ref = {}
    for name, op in O.items():
        log = []
        with ctx.guard(60):
            ref[name] = observe(op, make(kind, m, log), m, log)
        ctx.outcome("%s:%s" % (name, ref[name][0][0] if ref[name][0][0] == "ok" else ref[name][0][1]))
    for rest in itertools.product(sorted(O), repeat=depth - 1):
        seq = (first,) + rest
        log = []
        dr = make(kind, m, log)
        ctx.cases += 1
        ctx.trace()
        for i, name in enumerate(seq):
            key = "driver|%s|%s" % (kind, ">".join(seq[:i + 1]))
            ctx.state(key)
            ctx.transition()
            with ctx.guard(60):
                got = observe(O[name], dr, m, log)
            if got != ref[name]:
                d = next(x for x in range(len(got)) if got[x] != ref[name][x])
                ctx.violation(key, "%s driver, after %s: %s gives %s %r, on a fresh driver %r" % (kind, list(seq[:i]), name, ["outcome", "calls", "notifications", "saver calls", "dataflow"][d], got[d], ref[name][d]),
                              dict(job=["driver", kind, first, depth]))
                break
    drop_module(m)


# ------------------------------------------------------------------------------------------------ async driver
class Loop:
    def __enter__(self):
        self.loop = asyncio.new_event_loop()
        return self.loop.run_until_complete

    def __exit__(self, *a):
        self.loop.close()


def run_async(ctx, first, depth):
    m = make_module((SRC + SEQ).replace("def a(x", "async def a(x"), name="mcflow17a")
    O = {
        "exec": dict(final_vars=["c", "b"], inputs={"x": 1}), "exec2": dict(final_vars=["b", "g"], inputs={"x": 2, "y": "Y"}), "ov": dict(final_vars=["c"], inputs={"x": 1}, overrides={"a": "OA", "e": "OE"}),
        "missing": dict(final_vars=["c"], inputs={}), "unknown": dict(final_vars=["c", "nope"], inputs={"x": 1}), "fail": dict(final_vars=["c"], inputs={"x": 1, "y": "boom"}),
    }

    def mk(log):
        return async_driver.Builder().with_modules(m).with_config({"k": 1}).with_adapters(Rec("r", log)).build_without_init()

    def obs(run, name, dr, log):
        log.clear()
        m.CALLS.clear()
        args = copy.deepcopy(O[name])
        given = copy.deepcopy(O[name])
        try:
            r = ("ok", run(dr.execute(**given)))
        except Exception as e:
            r = ("raised", type(e).__name__, str(e)[:200])
        return (r, sorted(m.CALLS), sorted(map(repr, log)), nodes_of(dr), given == args)

    with Loop() as run:
        ref = {}
        for n in O:
            log = []
            ref[n] = obs(run, n, run(mk(log).ainit()), log)
            ctx.outcome("async %s:%s" % (n, ref[n][0][0]))
        for rest in itertools.product(sorted(O), repeat=depth - 1):
            seq = (first,) + rest
            log = []
            dr = run(mk(log).ainit())
            ctx.cases += 1
            ctx.trace()
            for i, name in enumerate(seq):
                key = "async|" + ">".join(seq[:i + 1])
                ctx.state(key)
                ctx.transition()
                with ctx.guard(60):
                    got = obs(run, name, dr, log)
                if got != ref[name] or not got[-1]:
                    ctx.violation(key, "async driver, after %s: %s gives %r, on a fresh driver %r" % (list(seq[:i]), name, got[:3], ref[name][:3]), dict(job=["async", first, depth]))
                    break
    drop_module(m)


# ------------------------------------------------------------------------------------------------ builders
M1 = HDR + "def a(x: Any) -> Any:\n    return ('a1', x)\ndef out(a: Any, k: Any = 'nok', j: Any = 'noj') -> Any:\n    return ('out', a, k, j)\n@config.when(k=1)\ndef h__1(a: Any) -> Any:\n    return ('h1', a)\n@config.when_not(k=1)\ndef h__2(a: Any) -> Any:\n    return ('h2', a)\n"
M2 = HDR + "def a(x: Any) -> Any:\n    return ('a2', x)\ndef extra(out: Any) -> Any:\n    return ('extra', out)\n"
M3 = HDR + "def more(out: Any) -> Any:\n    return ('more', out)\n"


class World:
    """a builder under construction together with everything the caller handed over"""

    def __init__(self, mods, which):
        self.mods, self.which = mods, which
        self.log = []

    def fresh(self):
        return (async_driver.Builder if self.which == "async" else driver.Builder)().with_modules(self.mods[0])

    def apply(self, b, op):
        """-> None or the exception"""
        try:
            if op.startswith("cfg"):
                d = {"cfg1": {"k": 1}, "cfg2": {"k": 2}, "cfgj": {"j": [1]}}[op]
                d = copy.deepcopy(d)
                keep = copy.deepcopy(d)
                r = b.with_config(d)
                if d != keep:
                    return "with_config modified its argument"
                d.clear()
                d["j"] = "changed afterwards by the caller"
            elif op == "mod2":
                r = b.with_modules(self.mods[1])
            elif op == "mod3":
                r = b.with_modules(self.mods[2])
            elif op == "ovr":
                r = b.allow_module_overrides()
            elif op == "rec":
                r = b.with_adapters(Rec("r", self.log))
            elif op == "dict":
                r = b.with_adapters(base.DictResult())
            elif op == "legacy":
                r = b.with_adapter(base.SimplePythonGraphAdapter(base.DictResult()))
            elif op == "mat":
                r = b.with_materializers(to.mcrec(id="s", dependencies=["out"], path=1))
            elif op == "dyn":
                r = b.enable_dynamic_execution(allow_experimental_mode=True)
            elif op == "loc":
                r = b.with_local_executor(executors.SynchronousLocalTaskExecutor())
            if r is not b:
                return "the method returned another builder"
        except Exception as e:
            return "raised " + exc_brief(e)

    def build(self, b):
        try:
            return b.build_without_init() if self.which == "async" else b.build()
        except Exception as e:
            return "build raised " + exc_brief(e)

    def look(self, dr, run):
        """everything observable of a driver"""
        if isinstance(dr, str):
            return dr
        ns = nodes_of(dr)
        res = []
        for outs in (["out", "h"] + (["extra"] if "extra" in ns else []) + (["more"] if "more" in ns else []) + (["s"] if "s" in ns else []),):
            self.log.clear()
            c16.LOG.clear()
            try:
                r = dr.execute(outs, inputs={"x": 1})
                if run is not None:
                    r = run(r)
                res.append(("ok", repr(r)))
            except Exception as e:
                res.append(("raised", exc_brief(e)))
            res.append(sorted(map(repr, self.log)))
            res.append(list(map(repr, c16.LOG)))
        return (sorted(ns.items()), res, type(dr).__name__, type(dr.graph_executor).__name__, len(dr.adapter.adapters))


def builder_ops(which):
    if which == "async":
        return ["cfg1", "cfg2", "cfgj", "mod2", "ovr", "rec", "dict"]
    return ["cfg1", "cfg2", "cfgj", "mod2", "mod3", "ovr", "rec", "legacy", "mat", "dyn", "loc"]


def run_builder(ctx, which, prefix, depth):
    c16.register()
    mods = [make_module(M1), make_module(M2), make_module(M3)]
    ops = builder_ops(which)
    refs = {}
    with Loop() as lrun:
        run = lrun if which == "async" else None

        def reference(spec):
            """what a builder configured by spec in one go gives"""
            if spec not in refs:
                w = World(mods, which)
                b = w.fresh()
                errs = [w.apply(b, o) for o in spec]
                refs[spec] = (errs, w.look(w.build(b), run))
            return refs[spec]

        def go(seq):
            w = World(mods, which)
            bs, specs, drs = [w.fresh()], [()], []
            for i, (h, op) in enumerate(seq):
                key = "builder|%s|%s" % (which, " ".join("%d.%s" % s for s in seq[:i + 1]))
                ctx.state(key)
                ctx.transition()
                case = dict(job=["builder", which, prefix, depth])
                if op == "copy":
                    bs.append(bs[h].copy())
                    specs.append(specs[h])
                elif op == "build":
                    drs.append((w.build(bs[h]), specs[h]))
                else:
                    err = w.apply(bs[h], op)
                    specs[h] = specs[h] + (op,)
                    want = reference(specs[h])[0][-1]
                    if err != want:
                        ctx.violation(key, "builder %d: %s %s, on a fresh builder with the same history %s" % (h, op, err, want), case)
                        return
            for j, b in enumerate(bs):
                drs.append((w.build(b), specs[j]))
            for j, (d, spec) in enumerate(drs):
                ctx.transition()
                key = "builder|%s|%s|#%d" % (which, " ".join("%d.%s" % s for s in seq), j)
                with ctx.guard(60):
                    got = w.look(d, run)
                want = reference(spec)[1]
                ctx.outcome("built" if not isinstance(want, str) else "not buildable")
                if got != want:
                    ctx.violation(key, "after %s, the driver built from %s behaves as %s, a fresh one as %s" % (seq, spec, str(got)[:600], str(want)[:600]), case)
                    return

        def alphabet(n):
            return [(h, o) for h in range(n) for o in ops + ["build"] + (["copy"] if n < 2 else [])]

        def rec(seq, nb):
            if len(seq) == depth:
                if not any(o in ("copy", "build") for _, o in seq):
                    return
                ctx.cases += 1
                ctx.trace()
                go(seq)
                return
            for s in alphabet(nb):
                rec(seq + [s], nb + (s[1] == "copy"))

        pre = [tuple(p) for p in prefix]
        rec(list(pre), 1 + sum(o == "copy" for _, o in pre))
    for m in mods:
        drop_module(m)


# ------------------------------------------------------------------------------------------------ drivers constructed directly, sharing arguments
def run_shared(ctx):
    c16.register()
    strs = lambda src: re.sub(r"return (\(.*\))\n", r"return str(\1)\n", src)  # scalars, so that the default result builder can make a frame
    m = make_module(strs(M1))
    m2 = make_module(strs(M3))
    case = dict(job=["shared"])
    for cfgs in itertools.product(({}, {"k": 1}, {"k": 2, "j": 5}), repeat=2):
        for ads in ([], ["rec"], ["rec", "dict"], ["dict"], ["pd"]):
            for wrap in ("list", "single", "none"):
                if (wrap == "single") != (len(ads) == 1) and wrap == "single":
                    continue
                if wrap == "none" and ads:
                    continue
                log = []
                mk = lambda: [{"rec": lambda: Rec("r", log), "dict": base.DictResult, "pd": base.PandasDataFrameResult}[a]() for a in ads]
                lst = mk()
                arg = lst if wrap == "list" else lst[0] if wrap == "single" else None
                before = list(lst)
                out = []
                key = "shared|%s|%s|%s" % (cfgs, ads, wrap)
                ctx.state(key)
                ctx.cases += 1
                ctx.trace()
                dicts = [dict(c) for c in cfgs]
                inputs = {"x": 7}
                finals = ["out", "h"]
                ovs = {"a": 3}

                def look(dr):
                    r = dr.execute(finals, inputs=inputs, overrides=ovs)
                    return (type(r).__name__, str(r), sorted(nodes_of(dr)), len(dr.adapter.adapters))
                drs = []
                for c in dicts:
                    ctx.transition(2)
                    drs.append(driver.Driver(c, m, m2, adapter=arg))
                got = [look(d) for d in drs] + [look(d) for d in drs]
                want = []
                for c in cfgs:
                    fr = mk()
                    want.append(look(driver.Driver(dict(c), m, m2, adapter=fr if wrap == "list" else fr[0] if wrap == "single" else None)))
                ctx.outcome(want[0][0])
                if got != want + want:
                    ctx.violation(key, "drivers sharing their adapter list behave as %r, fresh ones as %r" % (got, want), case)
                if lst != before or dicts != list(cfgs) or inputs != {"x": 7} or finals != ["out", "h"] or ovs != {"a": 3}:
                    ctx.violation(key, "arguments were modified: adapters %r (was %r), config %r" % (lst, before, dicts), case)
                # a module used with one configuration does not remember it
                full = driver.Driver({"k": 1}, m, m2)
                if sorted(nodes_of(full)) != sorted(nodes_of(driver.Driver({"k": 1}, m, m2))):
                    ctx.violation(key, "building twice gives different dataflows", case)
    drop_module(m)
    drop_module(m2)


def run_configs(ctx):
    """building one decorated module with a sequence of configurations: each build equals a build from a fresh module"""
    case = dict(job=["configs"])
    flows = {"17": (SRC + SEQ, [{"k": 1}, {"k": 2}, {"k": 1, "p": "P"}, {"k": 2, "a": "CA"}], ["g", "pi"], {"x": 3})}
    flows["inject"] = (HDR + "@inject(vs=group(source('x'), value(2)))\n@config.when_in(k=[1, 2])\ndef r(vs: List[Any]) -> Any:\n    return list(vs)\n@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda k: value_tag(k))\ndef u(x: Any) -> Any:\n    return ('u', x)\n".replace(
        "@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda k: value_tag(k))\n", ""), [{"k": 1}, {"k": 2}], ["r", "u"], {"x": 3})
    flows["subdag"] = (HDR + "def _mk():\n    def s1(i: Any, k: Any) -> Any:\n        return ('s1', i, k)\n    @config.when(k=1)\n    def s2__1(s1: Any) -> Any:\n        return ('s2one', s1)\n    @config.when_not(k=1)\n    def s2__2(s1: Any) -> Any:\n        return ('s2two', s1)\n    return [s1, s2__1, s2__2]\n"
                       "_fs = _mk()\n@subdag(*_fs, inputs={'i': source('x')})\ndef A(s2: Any) -> Any:\n    return ('A', s2)\n@subdag(*_fs, inputs={'i': source('A')}, config={'k': 1})\ndef B(s2: Any) -> Any:\n    return ('B', s2)\n",
                       [{"k": 1}, {"k": 2}], ["A", "B"], {"x": 3})
    flows["resolve"] = (HDR + "from hamilton import settings\n@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda names: parameterize(**{n: dict(v=value(n)) for n in names}))\ndef r(v: Any) -> Any:\n    return ('r', v)\n",
                        [{"names": ["m1", "m2"], "hamilton.enable_power_user_mode": True}, {"names": ["m1"], "hamilton.enable_power_user_mode": True}, {"names": ["m3", "m1"], "hamilton.enable_power_user_mode": True}], ["m1"], {})
    for fname, (src, cfgs, outs, inputs) in flows.items():
        def look(m, c):
            c = copy.deepcopy(c)
            c0 = copy.deepcopy(c)
            dr = driver.Builder().with_modules(m).with_config(c).with_adapters(base.DictResult()).build()
            r = (nodes_of(dr), dr.execute([o for o in outs], inputs={k: v for k, v in inputs.items() if k in nodes_of(dr)}))
            return r if c == c0 else "config modified"
        want = []
        for c in cfgs:
            m = make_module(src, name="mccfg")
            want.append(look(m, c))
            drop_module(m)
        for seq in itertools.product(range(len(cfgs)), repeat=3):
            m = make_module(src, name="mccfg")
            key = "configs|%s|%s" % (fname, seq)
            ctx.state(key)
            ctx.cases += 1
            ctx.trace()
            for i, j in enumerate(seq):
                ctx.transition()
                got = look(m, cfgs[j])
                ctx.outcome("configs")
                if got != want[j]:
                    ctx.violation(key, "%s: after builds with %s, building with %s gives %r, a fresh module %r" % (fname, [cfgs[x] for x in seq[:i]], cfgs[j], got, want[j]), case)
                    break
            drop_module(m)


def jobs(tier):
    deep = tier != "quick"
    js = [["shared"], ["configs"]]
    for kind in ("default", "legacy", "dynamic", "threads"):
        d = 3 if kind != "threads" else 2
        js += [["driver", kind, f, d + deep] for f in sorted(driver_ops(kind))]
    js += [["async", f, 4 + deep] for f in ("exec", "exec2", "fail", "missing", "ov", "unknown")]
    for which in ("sync", "async"):
        d = 4 if which == "sync" else 5
        if not deep:
            d -= which == "async"
        else:
            d += which == "sync"
        ops = builder_ops(which)
        for o in ops + ["build", "copy"]:
            js.append(["builder", which, [[0, o]], d])
    return js


def run_job(job, ctx):
    {"driver": run_driver, "async": run_async, "builder": run_builder, "shared": run_shared, "configs": run_configs}[job[0]](ctx, *job[1:])


def replay(case, ctx):
    run_job(case["job"], ctx)
