"""C03: asynchronous execution == sequential evaluation under every order in which suspended coroutines resume.

All dataflows up to 4 functions (every edge pattern, each function ordinary or coroutine with 0..2 suspension
points), all requested sets, overrides, failing functions (before / after suspending), one or two executions in
flight; for each, the real AsyncDriver runs on an event loop whose every resume decision is enumerated."""
from __future__ import annotations
import itertools
from mc.aloop import Controlled
from mc.core import CaseTimeout, StopJob, exc_brief
from mc.explore import explore, Choices
from mc.progs import make_module, drop_module, subsets
from mc.props.c02 import Spec
from hamilton import async_driver, base

TECHNIQUE = ("stateless exhaustive exploration of event-loop schedules of the real async driver "
             "(controlled event loop), against a sequential reference evaluator")
RULE = ("state = (program, requested outputs, overrides, failing function, prefix of resume decisions); transition = one resume decision or "
        "function call; trace = one complete (set of) execution(s) under one schedule, compared with the reference")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order (as it documents); the enumerated nondeterminism is which suspended coroutine is resumed next",
               "dataflows of up to 4 functions with up to 2 suspension points each; up to 2 executions in flight",
               "required inputs are supplied (what happens otherwise is not part of the claim)"]
BUDGET = {"quick": 400, "thorough": 3 * 3600}

LOG = []
FAIL = {}
CTL = {}


class Boom(Exception):
    pass


def _pre(name, kw):
    t = (name, tuple(sorted(kw.items())))
    LOG.append(t)
    if FAIL.get("name") == name and FAIL["when"] == 0:
        e = Boom(name)
        FAIL.setdefault("excs", []).append(e)
        raise e
    return t


def _post(name, t):
    if FAIL.get("name") == name and FAIL["when"] == 1:
        e = Boom(name)
        FAIL.setdefault("excs", []).append(e)
        raise e
    return t


def _gate(name, i, t):
    return CTL["c"].gate("%s:%s:%d" % (repr(t), name, i))


def src(nodes, kinds):
    """kinds[name]: None ordinary, else number of suspension points"""
    out = []
    for n, d in nodes.items():
        sig = ", ".join(["%s: object" % p for p, k in d["params"].items() if k == 1] + ["%s: object = 'dflt'" % p for p, k in d["params"].items() if k == 2])
        kws = ", ".join("%s=%s" % (p, p) for p in d["params"])
        k = kinds[n]
        if k is None:
            out.append("def %s(%s) -> object:\n    return _post(%r, _pre(%r, dict(%s)))\n" % (n, sig, n, n, kws))
        else:
            b = "async def %s(%s) -> object:\n    t = _pre(%r, dict(%s))\n" % (n, sig, n, kws)
            for i in range(k):
                b += "    await _gate(%r, %d, t)\n" % (n, i)
            out.append(b + "    return _post(%r, t)\n" % n)
    return "\n".join(out)


def build(nodes, kinds):
    spec = Spec(nodes)
    spec.items = {}
    spec.exp = {n: None for n in nodes}
    spec.mod = make_module(src(nodes, kinds), env={"_pre": _pre, "_post": _post, "_gate": _gate})
    return spec


def mk(spec, flavour, ctl, config):
    if flavour == "builder":
        return ctl.run(lambda: async_driver.Builder().with_modules(spec.mod).with_config(config).build(), Choices([]))[1]
    if flavour == "noinit":
        return async_driver.Builder().with_modules(spec.mod).with_config(config).build_without_init()
    import asyncio
    asyncio.set_event_loop(ctl.loop)
    try:
        return async_driver.AsyncDriver(config, spec.mod, result_builder=base.DictResult())
    finally:
        asyncio.set_event_loop(None)


def run_cfg(ctx, ctl, spec, kinds, tag, runs, fail, multi, flavour="builder", trail=None, dr=None):
    """runs: list of (finals, supplied, overrides) executed concurrently on one driver."""
    refs = [spec.reference(f, s, o) for f, s, o in runs]
    dr = dr or mk(spec, flavour, ctl, {})
    key = (tag, repr(runs), repr(fail), multi)

    async def main():
        import asyncio
        if len(runs) == 1:
            f, s, o = runs[0]
            return [await wrap(f, s, o)]
        return await asyncio.gather(*[wrap(f, s, o) for f, s, o in runs])

    async def wrap(f, s, o):
        try:
            return ("ok", await dr.execute(list(f), inputs=dict(s), overrides=dict(o)))
        except Exception as e:
            return ("err", e)

    def run(ch):
        LOG.clear()
        FAIL.clear()
        if fail:
            FAIL["name"], FAIL["when"] = fail
        ctl.multi = multi
        with ctx.guard(60):
            res = ctl.run(main, ch)
        return res, list(LOG), list(FAIL.get("excs", []))

    def bad(tr, what, detail):
        ctx.violation("%s|%s|%s|fail=%s" % (what, tag, [(",".join(f), sorted(s), sorted(o)) for f, s, o in runs], fail),
                      "%s: %s; schedule %s\n%s" % (what, detail, tr, src(spec.nodes, kinds)),
                      dict(nodes=spec.nodes, kinds=kinds, runs=[[list(f), s, o] for f, s, o in runs], fail=fail, multi=multi, flavour=flavour, trail=tr))

    exp_calls = sorted(repr(c) for _, calls, _ in refs for c in calls)
    paths = explore(run) if trail is None else [(trail, run(Choices(trail)))]
    try:
        for tr, (res, log, excs) in paths:
            ctx.trace()
            ctx.cases += 1
            ctx.transition(len(log) + ctl.events)
            for i in range(len(tr) + 1):
                ctx.state((key, tuple(tr[:i])))
            if res[0] == "hang":
                bad(tr, "hang", "event loop idle, execution not finished")
                continue
            if res[0] == "err":
                bad(tr, "unexpected-error", exc_brief(res[1]))
                continue
            seen = sorted(map(repr, log))
            rest = list(exp_calls)
            for s in seen:
                if s in rest:
                    rest.remove(s)
                else:
                    bad(tr, "extra-call", s)
                    break
            allok = True
            for (f, s, o), (vals, calls, missing), r in zip(runs, refs, res[1]):
                if fail and any(c[0] == fail[0] for c in calls):
                    allok = False
                    ctx.outcome("raised")
                    if r[0] != "err" or not any(r[1] is e for e in excs):
                        bad(tr, "exception-lost", repr(r))
                else:
                    ctx.outcome("ok")
                    if r[0] != "ok":
                        bad(tr, "unexpected-error", exc_brief(r[1]))
                        allok = False
                    elif r[1] != vals:
                        bad(tr, "wrong-value", "expected %r got %r" % (vals, r[1]))
            if allok and rest:
                bad(tr, "not-called", str(rest))
    except CaseTimeout:
        bad([], "hang", "did not terminate")
        raise StopJob()


def plain_nodes(n, combo, xs):
    names = ("c", "a", "d", "b")[:n]
    cells = [(i, j) for i in range(n) for j in range(i)]
    nodes = {}
    for i, nm in enumerate(names):
        ps = {names[j]: k for (ii, j), k in zip(cells, combo) if ii == i and k}
        if xs[i]:
            ps["x"] = xs[i]
        nodes[nm] = dict(kind="plain", params=ps)
    return nodes


def space(tier):
    """yields (n, edge combo, inputs, kinds)"""
    q = tier == "quick"
    for combo in itertools.product((0, 1), repeat=3):
        for kinds in itertools.product((None, 0, 1, 2), repeat=3):
            yield 3, combo, (1, 0, 0), kinds
    for combo in itertools.product((0, 1, 2), repeat=3):
        for kinds in ((None, 1, None), (1, None, 1), (1, 1, 1)):
            yield 3, combo, (2, 0, 1), kinds
    for combo in itertools.product((0, 1), repeat=6):
        for kinds in itertools.product((None, 1), repeat=4):
            yield 4, combo, (1, 0, 0, 1), kinds
        if not q:
            yield 4, combo, (1, 0, 0, 1), (2, 1, 2, 1)
            yield 4, combo, (1, 0, 0, 1), (1, 2, 0, 2)
            yield 4, combo, (1, 0, 0, 1), (0, 0, 1, 2)


def jobs(tier):
    n = 48 if tier == "quick" else 160
    return [(i, n) for i in range(n)] + [("decorated", 0)]


def run_job(job, ctx):
    q = ctx.tier == "quick"
    ctl = Controlled()
    CTL["c"] = ctl
    if job[0] == "decorated":
        return decorated(ctx, ctl)
    for i, (n, combo, xs, kinds) in enumerate(space(ctx.tier)):
        if i % job[1] != job[0]:
            continue
        if ctx.out_of_time():
            break
        nodes = plain_nodes(n, combo, xs)
        kd = dict(zip(nodes, kinds))
        spec = build(nodes, kd)
        tag = "%d|%s|%s|%s" % (n, "".join(map(str, combo)), xs, kinds)
        names = list(nodes)
        dr = mk(spec, "builder", ctl, {})
        try:
            X = {"x": "X"}
            fl = list(subsets(names, 1)) if n == 3 and 2 not in xs else [tuple(names), (names[-1],)]
            for f in fl:
                run_cfg(ctx, ctl, spec, kd, tag, [(f, X, {})], None, False, dr=dr)
            run_cfg(ctx, ctl, spec, kd, tag, [((names[-1],), X, {})], None, True, dr=dr)
            if 2 in xs or 2 in combo:
                run_cfg(ctx, ctl, spec, kd, tag, [((names[-2], names[1]), X if any(nodes[m]["params"].get("x") == 1 for m in names) else {}, {})], None, False, dr=dr)
            for ov in names:
                run_cfg(ctx, ctl, spec, kd, tag, [((names[-1],), X, {ov: ("OV", ov)})], None, False, dr=dr)
            for fn in names:
                for when in (0, 1):
                    if when and kd[fn] is None:
                        continue
                    run_cfg(ctx, ctl, spec, kd, tag, [(tuple(names), X, {})], (fn, when), False, dr=dr)
            susp = sum(k or 0 for k in kinds)
            if susp <= (3 if q else 5):
                run_cfg(ctx, ctl, spec, kd, tag, [((names[-1],), X, {}), ((names[-1], names[0]), {"x": "X2"}, {})], None, False, dr=dr)
                if susp <= 2:
                    run_cfg(ctx, ctl, spec, kd, tag, [((names[-1],), X, {names[0]: None}), ((names[-1],), X, {})], None, True, dr=dr)
                    run_cfg(ctx, ctl, spec, kd, tag, [((names[-1],), X, {}), ((names[0],), {"x": "X2"}, {})], (names[-1], 0), False, dr=dr)
            if n == 3:
                for flv in ("noinit", "legacy"):
                    run_cfg(ctx, ctl, spec, kd, tag + flv, [((names[-1], names[0]), X, {})], None, False, flavour=flv)
        finally:
            drop_module(spec.mod)
    ctl.close()


DECO = '''
from hamilton.function_modifiers import parameterize, extract_fields, inject, source, value, tag, config, pipe_input, step

async def base_(x: int) -> int:
    await _gate("base_", 0, ("base_", x))
    return x + 1

@parameterize(p1=dict(k=value(10)), p2=dict(k=source("base_")))
async def par(k: int, x: int) -> int:
    await _gate("par", 0, ("par", k, x))
    return k * 2 + x

@extract_fields({"f1": int, "f2": int})
async def fields(p1: int) -> dict:
    await _gate("fields", 0, ("fields", p1))
    return dict(f1=p1 + 1, f2=p1 + 2)

@tag(a="b")
@inject(y=source("f1"))
async def inj(y: int, f2: int) -> int:
    await _gate("inj", 0, ("inj", y, f2))
    return y * 100 + f2

@config.when(mode="a")
async def cfg__a(base_: int) -> int:
    await _gate("cfg", 0, ("cfg", base_))
    return base_ + 7

def tot(inj: int, p2: int, cfg: int) -> int:
    return inj * 1000 + p2 * 10 + cfg
'''


def decorated(ctx, ctl):
    """decorators on coroutine functions"""
    mod = make_module(DECO, env={"_gate": _gate})
    x = 3
    b = x + 1
    p1, p2 = 10 * 2 + x, b * 2 + x
    inj = (p1 + 1) * 100 + p1 + 2
    exp = dict(tot=inj * 1000 + p2 * 10 + b + 7, f1=p1 + 1, p2=p2, inj=inj)

    def run(ch):
        async def main():
            dr = await async_driver.Builder().with_modules(mod).with_config({"mode": "a"}).build()
            return await dr.execute(["tot", "f1", "p2", "inj"], inputs={"x": x})
        with ctx.guard(60):
            return ctl.run(main, ch)
    for tr, res in explore(run):
        ctx.trace(); ctx.cases += 1
        ctx.transition(ctl.events)
        for i in range(len(tr) + 1):
            ctx.state(("deco", tuple(tr[:i])))
        if res[0] != "ok" or res[1] != exp:
            ctx.violation("decorated", "expected %r got %r under schedule %s" % (exp, res, tr), dict(kind="decorated"))
    drop_module(mod)


def replay(case, ctx):
    ctl = Controlled()
    CTL["c"] = ctl
    if case.get("kind") == "decorated":
        return decorated(ctx, ctl)
    spec = build(case["nodes"], case["kinds"])
    fix = lambda o: {k: tuple(v) if isinstance(v, list) else v for k, v in o.items()}
    run_cfg(ctx, ctl, spec, case["kinds"], "replay", [(tuple(f), s, fix(o)) for f, s, o in case["runs"]],
            tuple(case["fail"]) if case["fail"] else None, case["multi"], case["flavour"], trail=case["trail"])
