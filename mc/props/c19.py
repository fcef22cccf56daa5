"""C19: graceful error handling.

All small dataflows x all sets of failing functions (designated error, a subclass of it, another error) x sentinel values x sentinel
acceptance are executed with GracefulErrorAdapter; values and function calls are compared with a reference evaluation.  Fan-outs are
enumerated over failing items, failing positions of the generator, failing surroundings and both fan-out modes."""
from __future__ import annotations
import dataclasses, itertools
from typing import Any, Collection, Dict, Type
from mc.core import exc_brief
from mc.dagcmp import HDR
from mc.progs import make_module, drop_module, subsets
from hamilton import driver, base
from hamilton.execution import executors
from hamilton.io.data_adapters import DataSaver
from hamilton.io.materialization import MaterializerFactory
from hamilton.lifecycle.default import GracefulErrorAdapter

TECHNIQUE = ("exhaustive enumeration of small dataflows and fan-outs x failing sets x error kinds x sentinels x acceptance flags, each executed on the real code and "
             "compared with a reference evaluation")
RULE = "state = one dataflow with its failures and adapter configuration; transition = one execution; trace = one execution whose values and calls were compared with the reference"
ASSUMPTIONS = ["up to four functions per dataflow (three with acceptance flags in quick)", "fan-outs of up to three items", "no function returns, and no input is, a value equal to the sentinel", "synchronous drivers"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}


class Stop(Exception):
    pass


class SubStop(Stop):
    pass


class Stop2(Exception):
    pass


class Other(Exception):
    pass


class Eq:
    """a sentinel that is equal only to its own kind"""
    def __eq__(self, o):
        return isinstance(o, Eq)

    def __hash__(self):
        return 1

    def __repr__(self):
        return "Eq()"


NAN = float("nan")
OBJ = object()
SENTINELS = {"None": None, "str": "S", "obj": OBJ, "zero": 0, "nan": NAN, "tuple": (), "false": False, "eq": Eq()}
NAMES = "abcd"


class Abort(Exception):
    pass


def reference(deps, beh, accept, inject, sentinel, outs, catch=(Stop,)):
    memo, calls = {"x": "X"}, []

    def val(n):
        if n in memo:
            return memo[n]
        i = NAMES.index(n)
        args = [val(d) for d in deps[i]]
        if any(a is sentinel for a in args) and not (accept[i] and inject):
            r = sentinel
        else:
            calls.append(n)
            b = beh[i]
            if b == "ok":
                r = (n,) + tuple(args)
            elif issubclass(b, catch):
                r = sentinel
            else:
                raise Abort()
        memo[n] = r
        return r
    return {o: val(o) for o in outs}, calls


def dag_src(deps, accept, optional=False):
    s = HDR + "from hamilton.lifecycle.default import accept_error_sentinels\n"
    for i, ds in enumerate(deps):
        ps = ", ".join("%s: Any%s" % (d, " = 'DEF'" if optional else "") for d in ds)
        s += "%sdef %s(%s) -> Any:\n    return RUN('%s', %s)\n" % ("@accept_error_sentinels\n" if accept[i] else "", NAMES[i], ps, NAMES[i], "".join(d + ", " for d in ds))
    return s


class Prog:
    def __init__(self):
        self.beh, self.calls = {}, []

    def run(self, name, *args):
        self.calls.append(name)
        b = self.beh[name]
        if b == "ok":
            return (name,) + args
        raise b("failing " + name)


def mk(m, adapter, mode):
    b = driver.Builder().with_modules(m).with_adapters(base.DictResult(), adapter)
    if mode != "default":
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
        b = b.with_remote_executor(executors.MultiThreadingExecutor(3) if mode == "threads" else executors.SynchronousLocalTaskExecutor())
    return b.build()


def show(v):
    return repr(v)


def judge(ctx, key, case, run, want, prog, calls, sentinel):
    """want None = execution has to abort"""
    ctx.transition()
    ctx.trace()
    prog.calls.clear()
    try:
        with ctx.guard(60):
            got = run()
    except (Other, Stop2) as e:
        got = Abort
    except Exception as e:
        ctx.violation(key, "raised %s" % exc_brief(e), case)
        return
    if want is None:
        ctx.outcome("abort")
        if got is not Abort:
            ctx.violation(key, "an error of another kind was raised, but execution returned %r" % (got,), case)
        return
    ctx.outcome("values")
    if got is Abort:
        ctx.violation(key, "execution aborted, expected %r" % (want,), case)
    elif set(got) != set(want) or any((got[k] is sentinel) != (want[k] is sentinel) or show(got[k]) != show(want[k]) for k in want):
        ctx.violation(key, "returned %r, expected %r" % (got, want), case)
    elif sorted(prog.calls) != sorted(calls):
        ctx.violation(key, "called %s, expected %s" % (prog.calls, calls), case)


def all_deps(n):
    av = ["x"] + list(NAMES[:n])
    return itertools.product(*[list(subsets(av[: i + 1])) for i in range(n)])


def dags(ctx, n, part, parts, tier, fam):
    case = dict(job=["dag", n, part, parts, tier, fam])
    if fam == "errors":
        behs, accs, sents, modes = ["ok", Stop, Other], [(False,) * n], ["obj", "None"], ["default"]
    elif fam == "accept":
        behs, accs, sents, modes = ["ok", Stop], [a for a in itertools.product((False, True), repeat=n) if any(a)], ["obj"] if tier == "quick" else ["obj", "None", "nan"], ["default"]
    elif fam == "sentinels":
        behs, accs, sents, modes = ["ok", SubStop], [(False,) * n, (False,) * (n - 1) + (True,)], list(SENTINELS), ["default", "dynamic"]
    else:   # big
        behs, accs, sents, modes = ["ok", Stop], [(False,) * n], ["obj"], ["default"] if tier == "quick" else ["default", "dynamic"]
    for k, deps in enumerate(all_deps(n)):
        if k % parts != part:
            continue
        if ctx.out_of_time():
            return
        for acc in accs:
            m = make_module(dag_src(deps, acc, optional=k % 3 == 0), env=dict(RUN=None))
            for sn, mode, inj in itertools.product(sents, modes, (True, False) if any(acc) else (True,)):
                s = SENTINELS[sn]
                prog = Prog()
                m.RUN = prog.run
                dr = mk(m, GracefulErrorAdapter(error_to_catch=Stop, sentinel_value=s, allow_injection=inj), mode)
                for beh in itertools.product(behs, repeat=n):
                    if fam == "errors" and sum(b is Other for b in beh) > 1:
                        continue
                    prog.beh = dict(zip(NAMES, beh))
                    key = "dag|%s|%r|%s|%s|%s|%s|%s" % (fam, deps, [b if b == "ok" else b.__name__ for b in beh], acc, sn, mode, inj)
                    ctx.state(key)
                    ctx.cases += 1
                    for outs in ([list(NAMES[:n])] if fam != "errors" else [list(NAMES[:n]), [NAMES[n - 1]]]):
                        try:
                            want, calls = reference(deps, beh, acc, inj, s, outs)
                        except Abort:
                            want, calls = None, []
                        judge(ctx, key, case, lambda: dr.execute(list(outs), inputs={"x": "X"}), want, prog, calls, s)
            drop_module(m)


# ------------------------------------------------------------------------------------------------ error classes, overrides, savers
SAVED = []


@dataclasses.dataclass
class Sv(DataSaver):
    path: Any

    def save_data(self, data: Any) -> Dict[str, Any]:
        SAVED.append((self.path, data))
        return {"saved": data}

    @classmethod
    def applicable_types(cls) -> Collection[Type]:
        return [Any]

    @classmethod
    def name(cls) -> str:
        return "mcgrace"


def misc(ctx, tier):
    case = dict(job=["misc", tier])
    deps = [("x",), ("a",), ("b",), ("a", "c")]
    acc = (False,) * 4
    m = make_module(dag_src(deps, acc), env=dict(RUN=None))
    prog = Prog()
    m.RUN = prog.run
    for catch, cn in ((Stop, "Stop"), ((Stop, Stop2), "both"), (SubStop, "Sub"), (Exception, "Exception")):
        cs = catch if isinstance(catch, tuple) else (catch,)
        for mode in ("default", "dynamic"):
            dr = mk(m, GracefulErrorAdapter(error_to_catch=catch, sentinel_value=OBJ), mode)
            for beh in itertools.product(["ok", Stop, SubStop, Stop2, Other], repeat=4):
                if sum(b != "ok" for b in beh) > 2:
                    continue
                prog.beh = dict(zip(NAMES, beh))
                key = "catch|%s|%s|%s" % (cn, mode, [b if b == "ok" else b.__name__ for b in beh])
                ctx.state(key)
                try:
                    want, calls = reference(deps, beh, acc, True, OBJ, list(NAMES), cs)
                except Abort:
                    want, calls = None, []
                ctx.transition()
                ctx.trace()
                prog.calls.clear()
                try:
                    got = dr.execute(list(NAMES), inputs={"x": "X"})
                except (Stop, Stop2, Other):
                    got = None
                if got != want:
                    ctx.violation(key, "returned %r, expected %r (None: abort)" % (got, want), case)
                elif want is not None and sorted(prog.calls) != sorted(calls):
                    ctx.violation(key, "called %s, expected %s" % (prog.calls, calls), case)
    # overriding a failed node repairs its branch; histories on one driver
    dr = mk(m, GracefulErrorAdapter(error_to_catch=Stop, sentinel_value=OBJ), "default")
    for beh, ov, beh2 in itertools.product(itertools.product(["ok", Stop], repeat=4), subsets(NAMES), itertools.product(["ok", Stop], repeat=4)):
        if tier == "quick" and beh2 not in (("ok",) * 4, (Stop,) * 4):
            continue
        key = "override|%s|%s|%s" % ([b == "ok" for b in beh], ov, [b == "ok" for b in beh2])
        ctx.state(key)
        for b, o in ((beh, ov), (beh2, ())):
            prog.beh = dict(zip(NAMES, b))
            d2 = [() if n in o else d for n, d in zip(NAMES, deps)]
            memo = {}
            calls = []

            def val(n):
                if n == "x":
                    return "X"
                if n in memo:
                    return memo[n]
                if n in o:
                    r = "OV" + n
                else:
                    args = [val(q) for q in deps[NAMES.index(n)]]
                    if any(q is OBJ for q in args):
                        r = OBJ
                    else:
                        calls.append(n)
                        r = (n,) + tuple(args) if prog.beh[n] == "ok" else OBJ
                memo[n] = r
                return r
            want = {n: val(n) for n in NAMES}
            judge(ctx, key, case, lambda: dr.execute(list(NAMES), inputs={"x": "X"}, overrides={n: "OV" + n for n in o}), want, prog, calls, OBJ)
    # savers of failed values do not run
    for beh, tgt, mode in itertools.product(itertools.product(["ok", Stop], repeat=4), NAMES, ("default", "dynamic")):
        key = "saver|%s|%s|%s" % ([b == "ok" for b in beh], tgt, mode)
        ctx.state(key)
        prog.beh = dict(zip(NAMES, beh))
        dr2 = mk(m, GracefulErrorAdapter(error_to_catch=Stop, sentinel_value=OBJ), mode)
        SAVED.clear()
        want, calls = reference(deps, beh, acc, True, OBJ, [tgt])
        w = OBJ if want[tgt] is OBJ else {"saved": want[tgt]}
        prog.calls.clear()
        ctx.transition()
        ctx.trace()
        try:
            meta, _ = dr2.materialize(MaterializerFactory("s", [Sv], None, tgt, path="P"), inputs={"x": "X"})
        except Exception as e:
            ctx.violation(key, "raised %s" % exc_brief(e), case)
            continue
        if meta["s"] != w or SAVED != ([] if w is OBJ else [("P", want[tgt])]):
            ctx.violation(key, "metadata %r, saved %r; expected %r" % (meta, SAVED, w), case)
    drop_module(m)
    # validated and extracted outputs of failed functions
    src = HDR + ("@extract_fields({'f': Any, 'g': Any})\ndef h(x: Any) -> Dict:\n    RUN('a')\n    return {'f': 'F', 'g': 'G'}\n"
                 "def u(f: Any) -> Any:\n    return RUN('b', f)\n@check_output(importance='fail', values_in=['V'])\ndef v(x: Any) -> str:\n    RUN('c')\n    return 'V'\n"
                 "def w(v: Any, u: Any) -> Any:\n    return RUN('d', v, u)\n")
    m = make_module(src, env=dict(RUN=None))
    m.RUN = prog.run
    for beh, sn in itertools.product(itertools.product(["ok", Stop, Other], repeat=4), SENTINELS):
        s = SENTINELS[sn]
        key = "deco|%s|%s" % ([b if b == "ok" else b.__name__ for b in beh], sn)
        ctx.state(key)
        prog.beh = dict(zip(NAMES, beh))
        dr3 = mk(m, GracefulErrorAdapter(error_to_catch=Stop, sentinel_value=s), "default")
        fa, fb, fc, fd = [b is Stop for b in beh]
        f = s if fa else "F"
        u = s if fa or fb else ("b", "F")
        v = s if fc else "V"
        wv = s if u is s or v is s or fd else ("d", v, u)
        calls = ["a"] + ([] if fa else ["b"]) + ["c"] + ([] if u is s or v is s else ["d"])
        want = {"f": f, "g": s if fa else "G", "u": u, "v": v, "w": wv}
        if any(prog.beh[c] is Other for c in calls):
            want = None
        judge(ctx, key, case, lambda: dr3.execute(["f", "g", "u", "v", "w"], inputs={"x": "X"}), want, prog, calls, s)
    drop_module(m)


# ------------------------------------------------------------------------------------------------ fan-outs
def fan_src(kind, acc):
    a = lambda n: "@accept_error_sentinels\n" if n in acc else ""
    s = HDR + "from hamilton.lifecycle.default import accept_error_sentinels\nfrom hamilton.htypes import Parallelizable, Collect\n"
    s += "def y(x: Any) -> Any:\n    return RUN('y', x)\n"
    s += a("e")
    if kind == "gen":
        s += "def e(x: Any) -> Parallelizable[Any]:\n    for i in range(N + 1):\n        if i == POS:\n            raise ERR('e')\n        if i < N:\n            yield ('item', i)\n"
    elif kind == "list":
        s += "def e(x: Any) -> Parallelizable[Any]:\n    if POS is not None:\n        raise ERR('e')\n    return [('item', i) for i in range(N)]\n"
    else:   # depends on a node that may fail
        s += "def e(y: Any) -> Parallelizable[Any]:\n    for i in range(N + 1):\n        if i == POS:\n            raise ERR('e')\n        if i < N:\n            yield ('item', i)\n"
    s += a("b") + "def b(e: Any) -> Any:\n    return ITEM('b', e)\n"
    s += a("c") + "def c(b: Any, y: Any) -> Any:\n    return ITEM('c', b, y)\n"
    s += a("z") + "def z(c: Collect[Any]) -> Any:\n    return RUN('z', list(c))\n"
    s += a("w") + "def w(z: Any, y: Any) -> Any:\n    return RUN('w', z, y)\n"
    return s


def fan_expect(sc, s):
    """reference value of w, z; raises Abort"""
    calls = []
    inj = sc["inject"]
    ok = lambda n, *args: not any(q is s for q in args) or (n in sc["acc"] and inj)

    def fail(err):
        if not issubclass(err, Stop):
            raise Abort()
        return s

    def run(n, *args):
        if not ok(n, *args):
            return s
        calls.append(n)
        return fail(sc["beh"][n]) if sc["beh"].get(n, "ok") != "ok" else (n,) + args
    y = run("y", "X")
    items = []
    if sc["kind"] == "dep" and not ok("e", y):
        items = [s]
    else:
        for i in range(sc["n"] + 1):
            if sc["pos"] is not None and (i == sc["pos"] or sc["kind"] == "list"):
                fail(sc["err"])
                items = (items + [s]) if sc["tap"] else [s]
                break
            if i < sc["n"]:
                items.append(("item", i))
    out = []
    for it in items:
        if not ok("b", it):
            b = s
        else:
            calls.append("b")
            b = fail(sc["berr"]) if it in sc["bfail"] else ("b", it)
        if not ok("c", b, y):
            c = s
        else:
            calls.append("c")
            c = fail(sc["cerr"]) if b in sc["cfail"] else ("c", b, y)
        out.append(c)
    z = run("z", out)
    w = run("w", z, y)
    return {"z": z, "w": w}, calls


def fan(ctx, kind, mode, part, parts, tier):
    case = dict(job=["fan", kind, mode, part, parts, tier])
    accs = [(), ("b",), ("c",), ("z",), ("w",), ("b", "c"), ("e", "c")]
    k = 0
    for acc, sn, tap, inject in itertools.product(accs, ("obj", "None", "nan"), (True, False), (True, False)):
        if not acc and not inject:
            continue
        k += 1
        if k % parts != part:
            continue
        s = SENTINELS[sn]
        m = make_module(fan_src(kind, acc), env=dict(RUN=None, ITEM=None, N=0, POS=None, ERR=Stop))
        dr = mk(m, GracefulErrorAdapter(error_to_catch=Stop, sentinel_value=s, try_all_parallel=tap, allow_injection=inject), mode)
        prog = Prog()
        state = {}

        def item(n, *args):
            prog.calls.append(n)
            if args[0] in state[n + "fail"]:
                raise state[n + "err"]("item")
            return (n,) + args
        m.RUN, m.ITEM = prog.run, item
        maxn = 3 if tier != "quick" or mode == "dynamic" else 2
        for n in range(maxn + 1):
            poss = [None] + ([0] if kind == "list" else list(range(n + 1)))
            for pos, bf, cf, yf, zf in itertools.product(poss, subsets(range(n)), [()] + [(i,) for i in range(n)], (False, True), (False, True)):
                for err, berr in ((Stop, Stop), (Other, Stop), (Stop, Other)):
                    if err is Other and pos is None or berr is Other and not bf:
                        continue
                    if tier == "quick" and (err is Other or berr is Other) and (yf or zf or cf):
                        continue
                    bfail = [("item", i) for i in bf]
                    cfail = [("b", ("item", i)) for i in cf]
                    sc = dict(kind=kind, n=n, pos=pos, err=err, bfail=bfail, berr=berr, cfail=cfail, cerr=SubStop, beh={"y": Stop if yf else "ok", "z": Stop if zf else "ok", "w": "ok"}, acc=acc, inject=inject, tap=tap)
                    key = "fan|%s|%s|%s|%s|%s|%s|n%d pos%s b%s c%s y%s z%s %s %s" % (kind, mode, acc, sn, tap, inject, n, pos, bf, cf, yf, zf, err.__name__, berr.__name__)
                    ctx.state(key)
                    ctx.cases += 1
                    m.N, m.POS, m.ERR = n, pos, err
                    state.update(bfail=bfail, berr=berr, cfail=cfail, cerr=SubStop)
                    prog.beh = sc["beh"]
                    try:
                        want, calls = fan_expect(sc, s)
                    except Abort:
                        want, calls = None, []
                    judge(ctx, key, case, lambda: dr.execute(["z", "w"], inputs={"x": "X"}), want, prog, calls, s)
        drop_module(m)


def jobs(tier):
    J = []
    J += [("dag", 3, i, 4, tier, "errors") for i in range(4)] + [("dag", 3, i, 4, tier, "accept") for i in range(4)] + [("dag", 2, 0, 1, tier, "sentinels")]
    J += [("dag", 3, i, 4, tier, "sentinels") for i in range(4)] + [("dag", 4, i, 8, tier, "big") for i in range(8)]
    if tier != "quick":
        J += [("dag", 4, i, 32, tier, "errors") for i in range(32)] + [("dag", 4, i, 32, tier, "accept") for i in range(32)]
    J += [("misc", tier)]
    J += [("fan", kd, md, i, 4, tier) for kd in ("gen", "list", "dep") for md in ("dynamic",) for i in range(4)]
    J += [("fan", kd, "threads", i, 4, tier) for kd in (("gen",) if tier == "quick" else ("gen", "list", "dep")) for i in range(4)]
    return J


def run_job(job, ctx):
    if job[0] == "dag":
        dags(ctx, *job[1:])
    elif job[0] == "misc":
        misc(ctx, job[1])
    else:
        fan(ctx, *job[1:])


def replay(case, ctx):
    run_job(tuple(case["job"]), ctx)
