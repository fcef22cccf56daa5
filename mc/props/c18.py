"""C18: validated outputs.

Every combination, within bounds, of custom validators (importance, outcome, name) on plain, extracted, parameterized, asynchronous
and fanned-out functions is executed; the value, the validation error, the log records, the validators' calls and the result nodes are
compared with the specification.  Every built-in validator is run on every small series / primitive and compared with a predicate
written from its documentation."""
from __future__ import annotations
import asyncio, itertools, logging, math
from mc.core import exc_brief
from mc.dagcmp import HDR
from mc.progs import make_module, drop_module
from hamilton import driver, base
from hamilton.data_quality.base import DataValidator, DataValidationError, ValidationResult
from hamilton.execution import executors
from hamilton.function_modifiers import check_output_custom

TECHNIQUE = ("exhaustive enumeration of validator sets x outcomes x importance x decorated shapes x executors, and of built-in validators x all small values, each executed "
             "on the real code and compared with the documented rule")
RULE = "state = one set of validators on one decorated shape, or one built-in validator configuration with one value; transition = one execution; trace = one execution compared with the rule"
ASSUMPTIONS = ["one to three custom validators per decorator", "series of up to three values (four in thorough) from a five-value domain", "statistics within 1e-9 of their bound are not judged", "validators themselves do not raise"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}

CALLS = []


class V(DataValidator):
    def __init__(self, label, importance, ok, nm):
        super().__init__(importance)
        self.label, self.ok, self.nm = label, ok, nm

    def applies_to(self, datatype):
        return True

    def description(self):
        return "desc " + self.label

    def name(self):
        return self.nm

    def validate(self, dataset):
        CALLS.append((self.label, dataset))
        ok = self.ok(dataset) if callable(self.ok) else self.ok
        return ValidationResult(ok, "<msg %s>" % self.label, {"diag": self.label})


class Cap(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.rec = []

    def emit(self, r):
        self.rec.append((r.levelname, r.getMessage()))


def captured(fn):
    lg = logging.getLogger("hamilton")
    h = Cap()
    old = lg.level, lg.propagate
    dis = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    lg.addHandler(h)
    lg.propagate = False
    lg.setLevel(logging.WARNING)
    try:
        try:
            r = ("ok", fn())
        except DataValidationError as e:
            r = ("dve", str(e))
        except Exception as e:
            r = ("exc", e)
    finally:
        lg.removeHandler(h)
        lg.setLevel(old[0])
        lg.propagate = old[1]
        logging.disable(dis)
    return r, h.rec


# shape -> (source; validated nodes in a single request of OUT; outputs; values)
F1, G1 = ("F",), ("G",)
SHAPES = {
    # name: (src with @V@ for the decorator, {validated node: value}, {output: value})
    "plain": ("@_V()\ndef a(x: Any) -> Any:\n    CALLED.append('a')\n    return x\n", {"a": "X"}, {"a": "X"}),
    "downstream": ("@_V()\ndef a(x: Any) -> Any:\n    CALLED.append('a')\n    return x\ndef z(a: Any) -> Any:\n    return (a,)\n", {"a": "X"}, {"z": ("X",)}),
    "tagged": ("@tag(owner='me')\n@_V()\n@tag(k='v')\ndef a(x: Any) -> Any:\n    CALLED.append('a')\n    return x\n", {"a": "X"}, {"a": "X"}),
    "extract_after": ("@_V()\n@extract_fields({'f': str, 'g': str})\ndef a() -> Dict:\n    CALLED.append('a')\n    return {'f': 'F', 'g': 'G'}\n", {"f": "F", "g": "G"}, {"f": "F", "g": "G"}),
    "extract_target_fn": ("@_V(target_='a')\n@extract_fields({'f': str, 'g': str})\ndef a() -> Dict:\n    CALLED.append('a')\n    return {'f': 'F', 'g': 'G'}\n", {"a": {"f": "F", "g": "G"}}, {"f": "F", "g": "G"}),
    "extract_target_one": ("@_V(target_='f')\n@extract_fields({'f': str, 'g': str})\ndef a() -> Dict:\n    CALLED.append('a')\n    return {'f': 'F', 'g': 'G'}\n", {"f": "F"}, {"f": "F", "g": "G"}),
    "extract_target_both": ("@_V(target_=['f', 'g'])\n@extract_fields({'f': str, 'g': str})\ndef a() -> Dict:\n    CALLED.append('a')\n    return {'f': 'F', 'g': 'G'}\n", {"f": "F", "g": "G"}, {"f": "F", "g": "G"}),
    "extract_before": ("@extract_fields({'f': str, 'g': str})\n@_V()\ndef a() -> Dict:\n    CALLED.append('a')\n    return {'f': 'F', 'g': 'G'}\n", {"a": {"f": "F", "g": "G"}}, {"f": "F", "g": "G"}),
    "param_all": ("@_V()\n@parameterize(p=dict(v=value('P')), q=dict(v=value('Q')))\ndef a(v: str) -> str:\n    CALLED.append('a')\n    return v\n", {"p": "P", "q": "Q"}, {"p": "P", "q": "Q"}),
    "param_one": ("@_V(target_='p')\n@parameterize(p=dict(v=value('P')), q=dict(v=value('Q')))\ndef a(v: str) -> str:\n    CALLED.append('a')\n    return v\n", {"p": "P"}, {"p": "P", "q": "Q"}),
    "async": ("@_V()\nasync def a(x: Any) -> Any:\n    CALLED.append('a')\n    return x\n", {"a": "X"}, {"a": "X"}),
    "fanout": ("def e() -> Parallelizable[str]:\n    yield from ['I', 'J']\n@_V()\ndef a(e: str) -> str:\n    CALLED.append('a')\n    return e\ndef z(a: Collect[str]) -> List[str]:\n    return list(a)\n", {"a": ["I", "J"]}, {"z": ["I", "J"]}),
}
FN_CALLS = {"param_all": 2, "param_one": 2, "fanout": 2}


def build_and_run(m, shape, mode, outs, overrides=None, inputs=None):
    inputs = {"x": m.XVAL} if inputs is None else inputs
    if mode == "async":
        from hamilton import async_driver

        async def go():
            dr = await async_driver.Builder().with_modules(m).with_adapters(base.DictResult()).build()
            return await dr.execute(outs, inputs=inputs, overrides=overrides or {})
        return asyncio.run(go())
    return driver_for(m, mode).execute(outs, inputs=inputs, overrides=overrides or {})


def driver_for(m, mode):
    b = driver.Builder().with_modules(m).with_adapters(base.DictResult())
    if mode in ("dynamic", "threads"):
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
        b = b.with_local_executor(executors.SynchronousLocalTaskExecutor())
        b = b.with_remote_executor(executors.MultiThreadingExecutor(2) if mode == "threads" else executors.SynchronousLocalTaskExecutor())
    return b.build()


def shape_module(shape, vals):
    src = SHAPES[shape][0]
    env = dict(_V=lambda **kw: check_output_custom(*vals, **kw))
    code = HDR + "from hamilton.htypes import Parallelizable, Collect\nCALLED = []\nXVAL = object()\n"
    return make_module(code + src, env=env)


def custom(ctx, shape, sizes, tier):
    src, validated, outputs = SHAPES[shape]
    modes = ["async"] if shape == "async" else ["dynamic", "threads"] if shape == "fanout" else ["default", "dynamic"] if shape != "plain" else ["default", "dynamic", "async"]
    for n in sizes:
        for combo in itertools.product(itertools.product(("warn", "fail"), (True, False), ("n", "m")), repeat=n):
            for mode in modes:
                if mode == "async" and shape == "plain" and n > 2:
                    continue
                vals = [V("v%d" % i, imp, ok, nm) for i, (imp, ok, nm) in enumerate(combo)]
                one(ctx, shape, mode, combo, vals, tier)


def one(ctx, shape, mode, combo, vals, tier):
    src, validated, outputs = SHAPES[shape]
    key = "custom|%s|%s|%r" % (shape, mode, combo)
    case = dict(job=["custom", shape, [len(combo)], tier])
    ctx.state(key)
    ctx.transition()
    ctx.trace()
    ctx.cases += 1
    m = shape_module(shape, vals)
    try:
        x = m.XVAL
        sub = lambda v: x if v == "X" else (x,) if v == ("X",) else v
        want = {k: sub(v) for k, v in outputs.items()}
        CALLS.clear()
        with ctx.guard(60):
            (kind, got), logs = captured(lambda: build_and_run(m, shape, mode, list(outputs)))
        failing = [i for i, (imp, ok, nm) in enumerate(combo) if imp == "fail" and not ok]
        warned = [i for i, (imp, ok, nm) in enumerate(combo) if imp == "warn" and not ok]
        if kind == "exc":
            ctx.violation(key, "raised %s" % exc_brief(got), case)
            return
        ctx.outcome("%s %s" % (shape, kind))
        if failing:
            if kind != "dve":
                ctx.violation(key, "fail-level validators %s failed but execution returned %r" % (failing, got), case)
                return
            for i in range(len(combo)):
                if ("<msg v%d>" % i in got) != (i in failing):
                    ctx.violation(key, "the validation error %s names v%d: %s; failed fail-level validators: %s" % (got[:300], i, "<msg v%d>" % i in got, failing), case)
                    return
            for i, (imp, ok, nm) in enumerate(combo):   # nothing runs twice on the same node
                c = [d for l, d in CALLS if l == "v%d" % i]
                if len(c) > sum(len(v) if isinstance(v, list) else 1 for v in validated.values()):
                    ctx.violation(key, "validator v%d ran %d times" % (i, len(c)), case)
        else:
            if kind != "ok":
                ctx.violation(key, "no fail-level validator failed but execution raised %s" % got[:300], case)
                return
            if set(got) != set(want) or any(not (got[k] is want[k] or got[k] == want[k]) for k in want) or ("a" in want and shape != "fanout" and got["a"] is not want["a"]):
                ctx.violation(key, "returned %r, expected %r" % (got, want), case)
                return
            expected_calls = [("v%d" % i, sub(v)) for i in range(len(combo)) for vv in validated.values() for v in (vv if isinstance(vv, list) else [vv])]
            if sorted(map(repr, CALLS)) != sorted(map(repr, expected_calls)):
                ctx.violation(key, "validators ran as %r, expected %r" % (CALLS, expected_calls), case)
                return
            if len(m.CALLED) != FN_CALLS.get(shape, 1):
                ctx.violation(key, "the function was called %d times" % len(m.CALLED), case)
                return
            nval = sum(len(v) if isinstance(v, list) else 1 for v in validated.values())
            for i in range(len(combo)):
                c = sum("<msg v%d>" % i in msg and lv == "WARNING" for lv, msg in logs)
                if c != (nval if i in warned else 0):
                    ctx.violation(key, "validator v%d (%r): %d log records, expected %d" % (i, combo[i], c, nval if i in warned else 0), case)
                    return
        if mode == "default":
            result_nodes(ctx, key, case, m, shape, combo, x, sub)
    finally:
        drop_module(m)


def result_nodes(ctx, key, case, m, shape, combo, x, sub):
    """each validator's result is available as a node, also when it failed; the undecorated value too"""
    src, validated, outputs = SHAPES[shape]
    dr = driver_for(m, "default")
    by = {}
    for v in dr.list_available_variables():
        s = v.tags.get("hamilton.data_quality.source_node")
        if s is not None:
            by.setdefault(s, []).append(v.name)
    if {k: len(v) for k, v in by.items()} != {k: len(combo) for k in validated}:
        ctx.violation(key, "validation result nodes: %s, expected %d for each of %s" % (by, len(combo), sorted(validated)), case)
        return
    names = sorted(n for v in by.values() for n in v)
    CALLS.clear()
    ctx.transition()
    try:
        (kind, got), logs = captured(lambda: dr.execute(names + [k + "_raw" for k in validated], inputs={"x": x}))
    except Exception as e:  # pragma: no cover
        kind, got = "exc", e
    if kind != "ok":
        ctx.violation(key, "requesting validation results raised %r" % (got,), case)
        return
    for k, v in validated.items():
        if got[k + "_raw"] is not sub(v) and got[k + "_raw"] != sub(v):
            ctx.violation(key, "the undecorated value of %s is %r" % (k, got[k + "_raw"]), case)
        have = sorted((got[n].message, bool(got[n].passes), got[n].diagnostics["diag"]) for n in by[k])
        want = sorted(("<msg v%d>" % i, ok, "v%d" % i) for i, (imp, ok, nm) in enumerate(combo))
        if have != want:
            ctx.violation(key, "validation results of %s are %r, expected %r" % (k, have, want), case)
    # overriding the validated node or the undecorated value
    for k in validated:
        ov = object()
        CALLS.clear()
        outs = [k] if k in validated else []
        (kind, got), _ = captured(lambda: dr.execute([k], inputs={"x": x}, overrides={k: ov}))
        ctx.transition()
        if kind != "ok" or got[k] is not ov or CALLS:
            ctx.violation(key, "override of %s: %r, validators ran: %r" % (k, got, CALLS), case)
        CALLS.clear()
        (kind, got), _ = captured(lambda: dr.execute([k], inputs={"x": x}, overrides={k + "_raw": ov}))
        ctx.transition()
        failing = any(imp == "fail" and not ok for imp, ok, nm in combo)
        if failing != (kind == "dve") or (not failing and (kind != "ok" or got[k] is not ov)):
            ctx.violation(key, "override of %s_raw: %s %r" % (k, kind, got), case)
        if sorted(map(repr, CALLS)) != sorted(repr(("v%d" % i, ov)) for i in range(len(combo))):
            ctx.violation(key, "override of %s_raw: validators ran as %r" % (k, CALLS), case)


def reuse(ctx, tier):
    """validators whose outcome depends on the value: histories of executions on one driver; fan-outs failing on one item; stacking"""
    case = dict(job=["reuse", tier])
    vals = [V("v0", "fail", lambda d: d != "bad", "n"), V("v1", "warn", lambda d: d == "good", "n"), V("v2", "fail", lambda d: d != "ugly", "m")]
    for mode in ("default", "dynamic"):
        m = make_module(HDR + "@check_output_custom(*VS)\ndef a(x: Any) -> Any:\n    return x\ndef z(a: Any) -> Any:\n    RAN.append(a)\n    return (a,)\n", env=dict(VS=vals, RAN=[]))
        dr = driver_for(m, mode)
        for hist in itertools.product(("good", "bad", "ugly", None, 0), repeat=3 if tier == "quick" else 4):
            key = "history|%s|%r" % (mode, hist)
            ctx.state(key)
            ctx.cases += 1
            for i, h in enumerate(hist):
                CALLS.clear()
                m.RAN.clear()
                ctx.transition()
                ctx.trace()
                (kind, got), logs = captured(lambda: dr.execute(["z"], inputs={"x": h}))
                want = ("dve", {"bad": "v0", "ugly": "v2"}[h]) if h in ("bad", "ugly") else ("ok", {"z": (h,)})
                good = kind == want[0] and ((got == want[1]) if kind == "ok" else ("<msg %s>" % want[1] in got and "<msg v1>" not in got and ("<msg v0>" in got) + ("<msg v2>" in got) == 1))
                warn = sum("<msg v1>" in t and lv == "WARNING" for lv, t in logs)
                if not good or warn != (0 if h == "good" else 1) or len(CALLS) != 3 or m.RAN != ([h] if kind == "ok" else []):
                    ctx.violation(key, "execution %d with %r: %s %r, warned %d, validators %r, dependents ran with %r" % (i, h, kind, got, warn, CALLS, m.RAN), case)
                    break
        drop_module(m)
    # fan-out: the validator judges each item
    for mode in ("dynamic", "threads"):
        for n in range(4):
            for items in itertools.product(("good", "bad", "meh"), repeat=n):
                key = "items|%s|%r" % (mode, items)
                ctx.state(key)
                ctx.transition()
                ctx.trace()
                m = make_module(HDR + "from hamilton.htypes import Parallelizable, Collect\ndef e() -> Parallelizable[str]:\n    yield from ITEMS\n@check_output_custom(*VS)\ndef a(e: str) -> str:\n    return e\ndef z(a: Collect[str]) -> List[str]:\n    return list(a)\n", env=dict(VS=vals[:2], ITEMS=list(items)))
                dr = driver_for(m, mode)
                CALLS.clear()
                with ctx.guard(60):
                    (kind, got), logs = captured(lambda: dr.execute(["z"]))
                if "bad" in items:
                    ok = kind == "dve"
                else:
                    ok = kind == "ok" and got == {"z": list(items)} and sum("<msg v1>" in t and lv == "WARNING" for lv, t in logs) == items.count("meh")
                if not ok:
                    ctx.violation(key, "%s %r, log %r" % (kind, got, logs), case)
                drop_module(m)
    # stacking two decorators is rejected when the dataflow is built, or both sets are honoured
    for c in itertools.product(itertools.product(("warn", "fail"), (True, False), ("n", "m")), repeat=2):
        vs = [V("v%d" % i, imp, ok, nm) for i, (imp, ok, nm) in enumerate(c)]
        m = make_module(HDR + "@check_output_custom(VS[0])\n@check_output_custom(VS[1])\ndef a(x: Any) -> Any:\n    return x\n", env=dict(VS=vs))
        key = "stack|%r" % (c,)
        ctx.state(key)
        ctx.transition()
        try:
            dr = driver_for(m, "default")
        except Exception:
            ctx.outcome("stacking rejected")
            drop_module(m)
            continue
        ctx.outcome("stacking accepted")
        (kind, got), logs = captured(lambda: dr.execute(["a"], inputs={"x": 1}))
        bad = any(imp == "fail" and not ok for imp, ok, nm in c)
        if kind != ("dve" if bad else "ok"):
            ctx.violation(key, "%s %r" % (kind, got), case)
        drop_module(m)


# ------------------------------------------------------------------------------------------------ built-in validators
NAN = float("nan")


def isnan(v):
    return v is None or (isinstance(v, float) and v != v)


def mean(vs):
    vs = [v for v in vs if not isnan(v)]
    return sum(vs) / len(vs) if vs else None


def std(vs):
    vs = [v for v in vs if not isnan(v)]
    if len(vs) < 2:
        return None
    mu = sum(vs) / len(vs)
    return math.sqrt(sum((v - mu) ** 2 for v in vs) / (len(vs) - 1))


def near(a, *bs):
    return any(abs(a - b) < 1e-9 for b in bs)


def p_mean(r):
    def p(vs):
        mu = mean(vs)
        return None if mu is None or (near(mu, *r) and mu not in r) else r[0] <= mu <= r[1]
    return p


def p_std(mx):
    def p(vs):
        s = std(vs)
        return None if s is None or (near(s, mx) and s != mx) else s <= mx
    return p


def p_frac(mx):
    return lambda vs: (sum(map(isnan, vs)) <= mx * len(vs)) if not vs or not near(sum(map(isnan, vs)) / len(vs), mx) or mx in (0, 0.5, 1, 0.25) else None


def series_specs():
    S = []
    for r in ((0, 1), (-1, -1), (0, 5), (1, 0), (-5.5, 1.0), (0.5, 1.5)):
        S.append((dict(range=r), lambda vs, r=r: all(not isnan(v) and r[0] <= v <= r[1] for v in vs)))
        S.append((dict(mean_in_range=r), p_mean(r)))
    for vals in ([0, 1], {2}, (), [-1, 0, 1, 2], (1.0, 2.0)):
        S.append((dict(values_in=vals), lambda vs, vals=vals: all(isnan(v) or v in vals for v in vs)))
    for f in (0, 0.25, 0.5, 1.0, 0.9):
        S.append((dict(max_fraction_nans=f), p_frac(f)))
    S.append((dict(allow_nans=False), lambda vs: not any(map(isnan, vs))))
    for mx in (0, 0.5, 1, 2.0):
        S.append((dict(max_standard_dev=mx), p_std(mx)))
    S.append((dict(allow_none=False), lambda vs: True))
    S.append((dict(allow_none=True), lambda vs: True))
    return S


def run_builtin(ctx, key, case, typ, val, kw, importance, expected, shown):
    """expected: dict kwarg -> True/False/None(undecided)"""
    import pandas as pd
    ctx.state(key)
    ctx.transition()
    ctx.trace()
    ctx.cases += 1
    m = make_module(HDR + "import pandas as pd\n@check_output(importance=IMP, **KW)\ndef a(x: Any) -> %s:\n    return x\n" % typ, env=dict(KW=kw, IMP=importance))
    try:
        try:
            dr = driver_for(m, "default")
        except Exception as e:
            ctx.violation(key, "building raised %s" % exc_brief(e), case)
            return
        judge(ctx, key, case, dr, val, importance, expected, shown)
    finally:
        drop_module(m)


def judge(ctx, key, case, dr, val, importance, expected, shown):
    before = val.copy() if hasattr(val, "copy") else val
    (kind, got), logs = captured(lambda: dr.execute(["a"], inputs={"x": val}))
    fails = [k for k, v in expected.items() if v is False]
    und = [k for k, v in expected.items() if v is None]
    if kind == "exc":
        ctx.violation(key, "%s: raised %s" % (shown, exc_brief(got)), case)
        return
    if kind == "ok":
        if got["a"] is not val or (hasattr(before, "equals") and not before.equals(val)):
            ctx.violation(key, "%s: returned another value %r" % (shown, got["a"]), case)
            return
    if importance == "fail":
        named = [k for k in expected if kind == "dve" and k + "_validator" in got]
        if sorted(set(named) - set(und)) != sorted(fails) or (kind == "dve") != bool(named):
            ctx.violation(key, "%s: %s; validators reported as failed: %s, expected %s" % (shown, kind, named, fails), case)
    else:
        named = [k for k in expected if any(k + "_validator" in t for lv, t in logs)]
        if kind != "ok" or sorted(set(named) - set(und)) != sorted(fails):
            ctx.violation(key, "%s: %s; warned about: %s, expected %s" % (shown, kind, named, fails), case)


def builtin_series(ctx, part, parts, tier):
    import hamilton.plugins.pandas_extensions  # noqa: F401
    import pandas as pd
    case = dict(job=["series", part, parts, tier])
    specs = series_specs()
    sets = [[s] for s in specs]
    # combinations of different keywords in one decorator
    pairs = [list(p) for p in itertools.combinations(specs[::2] + specs[1::4], 2) if set(p[0][0]) != set(p[1][0])]
    sets += pairs if tier != "quick" else pairs[::4]
    vals = [list(t) for n in range(4 if tier == "quick" else 5) for t in itertools.product((-1.0, 0.0, 1.0, 2.0, NAN), repeat=n)]
    ints = [list(t) for n in range(1, 3) for t in itertools.product((-1, 0, 1, 2), repeat=n)]
    k = 0
    for ss, imp in itertools.product(sets, ("fail", "warn")):
        k += 1
        if k % parts != part:
            continue
        kw = {}
        for d, _ in ss:
            kw.update(d)
        m = make_module(HDR + "import pandas as pd\n@check_output(importance=IMP, **KW)\ndef a(x: Any) -> pd.Series:\n    return x\n", env=dict(KW=kw, IMP=imp))
        try:
            dr = driver_for(m, "default")
            for vs, dt in [(v, "float64") for v in (vals if len(ss) == 1 else vals[:160])] + [(v, "int64") for v in ints] + [(v, "Float64") for v in (vals[:31] if len(ss) == 1 else [])]:
                if dt == "Float64":
                    ser = pd.Series([None if isnan(v) else v for v in vs], dtype="Float64")
                else:
                    ser = pd.Series(vs, dtype=dt)
                if dt == "Float64" and (any(map(isnan, vs)) and "range" in kw or any(p(vs) is None for _, p in ss)):
                    continue   # comparison with a missing value is itself missing there: not judged
                shown = "%r on %s %r" % (kw, dt, vs)
                key = "series|%s|%r|%s|%r" % (imp, sorted(kw.items(), key=str), dt, vs)
                ctx.state(key)
                ctx.transition()
                ctx.trace()
                ctx.cases += 1
                judge(ctx, key, case, dr, ser, imp, {list(d)[0]: p(vs) for d, p in ss}, shown)
        finally:
            drop_module(m)


def builtin_other(ctx, tier):
    import hamilton.plugins.pandas_extensions  # noqa: F401
    import numpy as np
    import pandas as pd
    case = dict(job=["other", tier])
    # data_type of series: numpy's type hierarchy, as a hand-written table
    sers = {"int64": pd.Series([1, 2]), "float64": pd.Series([1.0]), "object": pd.Series(["a"]), "bool": pd.Series([True]), "datetime64[ns]": pd.Series(pd.to_datetime(["2020-01-01"])), "int32": pd.Series([1], dtype="int32"), "float32": pd.Series([1], dtype="float32"), "uint8": pd.Series([1], dtype="uint8")}
    sup = {"int64": ("integer", "signedinteger", "number", "int64", "generic"), "int32": ("integer", "signedinteger", "number", "int32", "generic"), "uint8": ("integer", "unsignedinteger", "number", "uint8", "generic"), "float64": ("floating", "number", "float64", "inexact", "generic"),
           "float32": ("floating", "number", "float32", "inexact", "generic"), "object": ("object_", "generic"), "bool": ("bool_", "generic"), "datetime64[ns]": ("datetime64", "generic")}
    allt = sorted({t for v in sup.values() for t in v})
    for t, (nm, ser), imp in itertools.product(allt, sers.items(), ("fail", "warn")):
        run_builtin(ctx, "dtype|%s|%s|%s" % (t, nm, imp), case, "pd.Series", ser, dict(data_type=getattr(np, t)), imp, {"data_type": t in sup[nm]}, "data_type %s on %s" % (t, nm))
    # the same decorator module holding validators with different parameters: they do not influence each other
    for pair in itertools.permutations(("integer", "floating", "object_"), 2):
        m = make_module(HDR + "import pandas as pd\nimport numpy as np\n@check_output(importance='fail', data_type=np.%s)\ndef a(x: Any) -> pd.Series:\n    return x\n@check_output(importance='fail', data_type=np.%s)\ndef b(y: Any) -> pd.Series:\n    return y\n" % pair)
        dr = driver_for(m, "default")
        for nx, ny in itertools.product(("int64", "float64", "object"), repeat=2):
            key = "two_types|%s|%s|%s" % (pair, nx, ny)
            ctx.state(key)
            ctx.transition()
            (kind, got), _ = captured(lambda: dr.execute(["a"], inputs={"x": sers[nx]}))
            (kind2, got2), _ = captured(lambda: dr.execute(["b"], inputs={"y": sers[ny]}))
            w1, w2 = pair[0] in sup[nx], pair[1] in sup[ny]
            if (kind == "ok") != w1 or (kind2 == "ok") != w2:
                ctx.violation(key, "a: %s (expected pass: %s), b: %s (expected pass: %s)" % (kind, w1, kind2, w2), case)
        drop_module(m)
    nums = [-1, 0, 1, 2, -0.5, 0.5, 1.5, NAN, float("inf"), True]
    for r, v, typ, imp in itertools.product(((0, 1), (1, 0), (0, 0), (-0.5, 1.5), (float("-inf"), 1)), nums, ("int", "float"), ("fail", "warn")):
        if typ == "int" and isinstance(v, float) or typ == "float" and not isinstance(v, (int, float)):
            continue
        run_builtin(ctx, "prange|%s|%r|%s|%s" % (r, v, typ, imp), case, typ, v, dict(range=r), imp, {"range": (not isnan(v)) and r[0] <= v <= r[1]}, "range %s on %r" % (r, v))
    for vals, v, imp in itertools.product(([0, 1], {2}, (), [0.5, "a"]), [0, 1, 2, 3, 0.5], ("fail", "warn")):
        run_builtin(ctx, "pvalues|%s|%r|%s" % (vals, v, imp), case, "int" if isinstance(v, int) else "float", v, dict(values_in=vals), imp, {"values_in": v in list(vals)}, "values_in %s on %r" % (vals, v))
    strs = ["", "a", "b", "ab", "ba", "aba", "c" * 150 + "ab", "a" * 3]
    for v, imp in itertools.product(strs, ("fail", "warn")):
        for c in ("a", "ab", "", ["a", "b"], ["ab", "ba"], [], ["a"]):
            cs = [c] if isinstance(c, str) else c
            run_builtin(ctx, "contains|%r|%r|%s" % (v, c, imp), case, "str", v, dict(contains=c), imp, {"contains": all(q in v for q in cs)}, "contains %r on %r" % (c, v))
            run_builtin(ctx, "notcontains|%r|%r|%s" % (v, c, imp), case, "str", v, dict(does_not_contain=c), imp, {"does_not_contain": not any(q in v for q in cs)}, "does_not_contain %r on %r" % (c, v))
        run_builtin(ctx, "svalues|%r|%s" % (v, imp), case, "str", v, dict(values_in=["a", "ab"]), imp, {"values_in": v in ("a", "ab")}, "values_in on %r" % v)
        run_builtin(ctx, "multi|%r|%s" % (v, imp), case, "str", v, dict(contains="a", does_not_contain="b", values_in=["a", "ab", "ba"], allow_none=False), imp,
                    {"contains": "a" in v, "values_in": v in ("a", "ab", "ba"), "allow_none": True}, "combination on %r" % v) if "b" not in v else None
    for v, typ, imp in itertools.product([None, 0, "", False, [], 1.5], ("int", "str", "float"), ("fail", "warn")):
        run_builtin(ctx, "none|%r|%s|%s" % (v, typ, imp), case, typ, v, dict(allow_none=False), imp, {"allow_none": v is not None}, "allow_none=False on %r" % (v,))
        run_builtin(ctx, "none_ok|%r|%s|%s" % (v, typ, imp), case, typ, v, dict(allow_none=True), imp, {"allow_none": True}, "allow_none=True on %r" % (v,))
    for t, v, typ, imp in itertools.product((int, str, bool, float), [1, "a", True, 1.5, None, [1]], ("int", "str", "float", "bool"), ("fail", "warn")):
        run_builtin(ctx, "ptype|%s|%r|%s|%s" % (t.__name__, v, typ, imp), case, typ, v, dict(data_type=t), imp, {"data_type": isinstance(v, t)}, "data_type %s on %r" % (t.__name__, v))


def jobs(tier):
    J = []
    for s in SHAPES:
        J += [("custom", s, [1, 2], tier)]
        if s in ("plain", "downstream", "extract_after", "param_one") or tier != "quick":
            J += [("custom", s, [3], tier)]
    J += [("series", i, 8, tier) for i in range(8)] + [("other", tier), ("reuse", tier)]
    return J


def run_job(job, ctx):
    if job[0] == "custom":
        custom(ctx, job[1], job[2], job[3])
    elif job[0] == "series":
        builtin_series(ctx, job[1], job[2], job[3])
    elif job[0] == "other":
        builtin_other(ctx, job[1])
    else:
        reuse(ctx, job[1])


def replay(case, ctx):
    run_job(tuple(case["job"]), ctx)
