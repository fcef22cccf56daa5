"""C16: materializers save exactly what was computed and load exactly what was saved.

Recording savers and loaders are attached in every way within bounds (declared on the builder, passed per call, decorators; parameters
given as literals or taken from nodes, including the target itself and names that coincide with parameters; combined targets; extra
outputs; overrides).  The calls they see, the metadata, and all other values are compared with a reference evaluation."""
from __future__ import annotations
import copy, dataclasses, itertools
from typing import Any, Collection, Dict, Tuple, Type
from mc.core import exc_brief
from mc.dagcmp import HDR, nodes_of
from mc.progs import make_module, drop_module, subsets
from hamilton import driver, base, registry, lifecycle
from hamilton.execution import executors
from hamilton.function_modifiers import source, value
from hamilton.io.data_adapters import DataLoader, DataSaver
from hamilton.io.materialization import to, from_, ExtractorFactory, MaterializerFactory

TECHNIQUE = ("exhaustive enumeration of attachments of recording savers and loaders, their parameters, outputs and overrides, and of call histories on one driver, each "
             "executed on the real code and compared with a reference evaluation of the dataflow")
RULE = "state = one attachment with a request, or one history; transition = one execution; trace = one execution whose saver/loader calls, metadata and values were compared"
ASSUMPTIONS = ["one dataflow of seven functions; up to two savers and two loaders at a time", "histories of up to three calls", "savers and loaders do not fail, except in the history alphabet"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}

LOG = []


@dataclasses.dataclass
class RecSaver(DataSaver):
    path: Any
    opt: Any = "dopt"
    opt2: Any = "dopt2"

    def save_data(self, data: Any) -> Dict[str, Any]:
        if self.path == "fail":
            raise RuntimeError("saver failed")
        LOG.append(("save", self.path, self.opt, self.opt2, data))
        return {"meta": (self.path, self.opt, self.opt2, data)}

    @classmethod
    def applicable_types(cls) -> Collection[Type]:
        return [Any]

    @classmethod
    def name(cls) -> str:
        return "mcrec"


@dataclasses.dataclass
class RecLoader(DataLoader):
    src: Any
    opt: Any = "dl"

    def load_data(self, type_: Type) -> Tuple[Any, Dict[str, Any]]:
        LOG.append(("load", self.src, self.opt))
        return ("loaded", self.src, self.opt), {"from": self.src}

    @classmethod
    def applicable_types(cls) -> Collection[Type]:
        return [Any]

    @classmethod
    def name(cls) -> str:
        return "mcrec"


class Comb(lifecycle.ResultBuilder):
    def build_result(self, **outputs: Any) -> Any:
        return ("comb", tuple(sorted(outputs.items())))

    def output_type(self) -> Type:
        return Any


_done = []


def register():
    if not _done:
        registry.register_adapter(RecSaver)
        registry.register_adapter(RecLoader)
        _done.append(1)


FUNCS = {"a": ["x"], "b": ["a"], "c": ["a", "b"], "p": [], "path": [], "opt": ["x"], "src": []}
INPUTS = {"x": "X"}


def flow_src():
    s = HDR + "CALLS = []\n"
    for n, ps in FUNCS.items():
        s += "def %s(%s) -> Any:\n    CALLS.append('%s')\n    return ('%s', %s)\n" % (n, ", ".join("%s: Any" % q for q in ps), n, n, "".join(q + ", " for q in ps))
    return s


class Ref:
    """reference evaluation: loaders: target -> (src spec, opt spec); specs: ('lit', v) / ('node', name) / None (default)"""

    def __init__(self, inputs, overrides, loaders):
        self.inputs, self.ov, self.loaders = inputs, overrides, loaders
        self.calls, self.loads, self.memo = [], [], {}

    def spec(self, s, default):
        return default if s is None else s[1] if s[0] == "lit" else self.val(s[1])

    def val(self, n):
        if n in self.memo:
            return self.memo[n]
        if n in self.ov:
            r = self.ov[n]
        elif n in self.loaders:
            src, opt = self.loaders[n]
            a, b = self.spec(src, None), self.spec(opt, "dl")
            self.loads.append(("load", a, b))
            r = ("loaded", a, b)
        elif n in FUNCS:
            args = tuple(self.val(q) for q in FUNCS[n])
            self.calls.append(n)
            r = (n,) + args
        else:
            r = self.inputs[n]
        self.memo[n] = r
        return r


def dep(s):
    return None if s is None else s[1] if s[0] == "lit" else value(s[1]) if s[0] == "val" else source(s[1])


def norm(s):
    return None if s is None else ("lit", s[1]) if s[0] in ("lit", "val") else s


def mk_saver(i, sv, m):
    """sv: dict(deps, comb, path, opt, opt2, form)"""
    kw = {k: dep(sv[k]) for k in ("path", "opt", "opt2") if sv.get(k) is not None}
    deps = [getattr(m, d) if sv.get("form") == "fn" and d in FUNCS else d for d in sv["deps"]]
    return to.mcrec(id="s%d" % i, dependencies=deps, combine=Comb() if sv["comb"] else None, **kw)


def mk_loader(t, spec):
    return from_.mcrec(target=t, src=dep(spec[0]), **({} if spec[1] is None else {"opt": dep(spec[1])}))


def make_driver(m, mats=(), dynamic=False):
    b = driver.Builder().with_modules(m).with_adapters(base.DictResult())
    if mats:
        b = b.with_materializers(*mats)
    if dynamic:
        b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
    return b.build()


def expect(sc, want_savers):
    """-> (values, saver metadata, set of calls, multiset of loads, multiset of saves)"""
    r = Ref(INPUTS, sc["ov"], {t: (norm(s[0]), norm(s[1])) for t, s in sc["loaders"].items()})
    vals, metas, saves = {}, {}, []
    for i in want_savers:
        sv = sc["savers"][i]
        data = ("comb", tuple(sorted((d, r.val(d)) for d in sv["deps"]))) if sv["comb"] else r.val(sv["deps"][0])
        args = tuple(r.spec(norm(sv.get(k)), dflt) for k, dflt in (("path", None), ("opt", "dopt"), ("opt2", "dopt2")))
        saves.append(("save",) + args + (data,))
        metas["s%d" % i] = {"meta": args + (data,)}
    for o in sc["outs"]:
        vals[o] = r.val(o)
    return vals, metas, r.calls, r.loads, saves


def check_run(ctx, key, case, m, run, vals, metas, calls, loads, saves):
    LOG.clear()
    m.CALLS.clear()
    ctx.transition()
    ctx.trace()
    try:
        with ctx.guard(60):
            got = run()
    except Exception as e:
        ctx.violation(key, "raised %s" % exc_brief(e), case)
        return False
    want = (metas, vals)
    if (dict(got[0]), dict(got[1])) != want:
        ctx.violation(key, "returned %r, expected %r" % (got, want), case)
        return False
    if sorted(map(repr, LOG)) != sorted(map(repr, loads + saves)):
        ctx.violation(key, "savers and loaders saw %r, expected %r" % (LOG, loads + saves), case)
        return False
    if sorted(m.CALLS) != sorted(calls):
        ctx.violation(key, "functions called: %s, expected %s" % (m.CALLS, sorted(calls)), case)
        return False
    return True


def scenario(ctx, key, case, m, sc, mode, dynamic):
    ctx.state(key)
    ctx.cases += 1
    n = len(sc["savers"])
    mats = [mk_saver(i, sv, m) for i, sv in enumerate(sc["savers"])] + [mk_loader(t, s) for t, s in sc["loaders"].items()]
    try:
        if mode == "call":
            dr = make_driver(m, dynamic=dynamic)
            before = nodes_of(dr)
        else:
            dr = make_driver(m, mats, dynamic=dynamic)
    except Exception as e:
        ctx.violation(key, "building raised %s" % exc_brief(e), case)
        return
    # a loaded input need not be supplied
    ins = {k: v for k, v in INPUTS.items() if k not in sc["loaders"]}
    if mode == "call":
        vals, metas, calls, loads, saves = expect(sc, range(n))
        ok = check_run(ctx, key, case, m, lambda: dr.materialize(*mats, additional_vars=list(sc["outs"]), inputs=dict(ins), overrides=dict(sc["ov"])), vals, metas, calls, loads, saves)
        ctx.outcome("call savers=%d loaders=%d" % (n, len(sc["loaders"])))
        if ok:
            if nodes_of(dr) != before:
                ctx.violation(key, "the driver's dataflow changed: %r, was %r" % (nodes_of(dr), before), case)
            plain = dict(sc, savers=[], loaders={}, outs=["c", "opt", "p"])
            v2, _, c2, _, _ = expect(plain, [])
            check_run(ctx, key + "|after", case, m, lambda: ({}, dr.execute(["c", "opt", "p"], inputs=dict(INPUTS), overrides=dict(sc["ov"]))), v2, {}, c2, [], [])
    else:
        for want in subsets(range(n)):
            outs = list(sc["outs"]) + ["s%d" % i for i in want]
            if not outs:
                continue
            vals, metas, calls, loads, saves = expect(sc, want)
            ok = check_run(ctx, key + "|%s" % (want,), case, m, lambda: ({}, dr.execute(outs, inputs=dict(ins), overrides=dict(sc["ov"]))), {**vals, **metas}, {}, calls, loads, saves)
            ctx.outcome("declared savers=%d/%d loaders=%d" % (len(want), n, len(sc["loaders"])))
            if not ok:
                return


PATHS = [("lit", "L"), ("val", "V"), ("node", "p"), ("node", "TARGET"), ("node", "path"), ("node", "x"), ("node", "opt")]
OPTS = [None, ("lit", None), ("node", "p"), ("node", "TARGET"), ("node", "path")]
TARGETS = [(["a"], False), (["c"], False), (["x"], False), (["path"], False), (["opt"], False), (["a"], True), (["a", "b"], True), (["b", "path"], True), (["a", "x"], True)]


def resolve(s, t):
    return (s[0], t) if s == ("node", "TARGET") else s


def single(ctx, part, parts, tier):
    register()
    m = make_module(flow_src())
    k = 0
    outs_all = [[], ["a"], ["c", "p"]] if tier == "quick" else [[], ["a"], ["c", "p"], ["x"], ["path", "opt"]]
    ovs = [{}, {"a": "OA"}, {"p": "OP"}] if tier == "quick" else [{}, {"a": "OA"}, {"p": "OP"}, {"path": "OPATH", "c": "OC"}, {"opt": "OO"}]
    for (deps, comb), path, opt, opt2 in itertools.product(TARGETS, PATHS, OPTS, (None, ("node", "p"), ("lit", "2"))):
        for mode in ("call", "declared"):
            k += 1
            if k % parts != part:
                continue
            t = deps[0]
            sv = dict(deps=deps, comb=comb, path=resolve(path, t), opt=resolve(opt, t), opt2=opt2, form="fn" if k % 3 == 0 else "str")
            for outs, ov in itertools.product(outs_all, ovs):
                key = "one|%s|%r|%s|%r" % (mode, sv, outs, ov)
                scenario(ctx, key, dict(job=["one", part, parts, tier]), m, dict(savers=[sv], loaders={}, outs=outs, ov=ov), mode, k % 5 == 0)
    drop_module(m)


LTARGETS = ["a", "b", "x", "p", "path", "src"]
LSRC = [("lit", "L"), ("node", "path"), ("node", "x"), ("node", "src"), ("node", "opt")]
LOPT = [None, ("node", "src"), ("node", "p"), ("lit", "O")]


def ldeps(t, spec):
    return [s[1] for s in spec if s is not None and s[0] == "node"]


def acyclic(loaders):
    deps = {n: list(ps) for n, ps in FUNCS.items()}
    for t, s in loaders.items():
        deps[t] = ldeps(t, s)
    def reach(n, seen=()):
        return n in seen or any(reach(d, seen + (n,)) for d in deps.get(n, []))
    return not any(reach(n) for n in deps)


def pairs(ctx, part, parts, tier):
    """loaders (one or two) with and without savers of loaded values and their dependents"""
    register()
    m = make_module(flow_src())
    one = [(t, (s, o)) for t in LTARGETS for s in LSRC for o in LOPT]
    sets = [{t: s} for t, s in one]
    two = [(t, (s, o)) for t in ("a", "b", "x", "p") for s in (("lit", "L"), ("node", "x"), ("node", "p"), ("node", "b")) for o in (None,)]
    sets += [dict((u, v)) for u, v in itertools.combinations(two, 2) if u[0] != v[0]]
    savers = [[], [dict(deps=["a"], comb=False, path=("lit", "L"))], [dict(deps=["b", "c"], comb=True, path=("node", "p"), opt=("node", "p"))],
              [dict(deps=["c"], comb=False, path=("node", "a")), dict(deps=["a", "x"], comb=True, path=("node", "x"))]]
    k = 0
    for ls in sets:
        if not acyclic(ls):
            continue
        for svs, mode in itertools.product(savers, ("call", "declared")):
            k += 1
            if k % parts != part:
                continue
            for outs, ov in itertools.product([["c"], ["b", "opt", "p"], []], [{}, {"a": "OA"}, {"b": "OB", "p": "OP"}]):
                if not outs and not svs:
                    continue
                key = "pair|%s|%r|%r|%s|%r" % (mode, ls, svs, outs, ov)
                scenario(ctx, key, dict(job=["pair", part, parts, tier]), m, dict(savers=svs, loaders=ls, outs=outs, ov=ov), mode, k % 5 == 0)
    drop_module(m)


def two_savers(ctx, part, parts, tier):
    register()
    m = make_module(flow_src())
    S = [dict(deps=d, comb=c, path=p, opt=o) for (d, c), p, o in itertools.product([(["a"], False), (["c"], False), (["a", "b"], True)], [("lit", "L"), ("node", "p"), ("node", "a")], [None, ("node", "a"), ("node", "path")])]
    for k, (s, t) in enumerate(itertools.product(S, S)):
        if k % parts != part:
            continue
        for mode in ("call", "declared"):
            for outs, ov in (([], {}), (["b"], {}), (["c"], {"a": "OA"})):
                key = "two|%s|%r|%r|%s|%r" % (mode, s, t, outs, ov)
                scenario(ctx, key, dict(job=["two", part, parts, tier]), m, dict(savers=[s, t], loaders={}, outs=outs, ov=ov), mode, False)
    drop_module(m)


# ------------------------------------------------------------------------------------------------ decorators
def decorators(ctx, tier):
    register()
    case = dict(job=["deco", tier])

    def txt(s):
        return "value(%r)" % s[1] if s[0] in ("lit", "val") else "source(%r)" % s[1]

    base_src = flow_src()
    # @load_from on a function with one or two parameters
    for src, opt, two in itertools.product([("lit", "L"), ("node", "p"), ("node", "x"), ("node", "src"), ("node", "opt"), ("node", "d")], [None, ("node", "p"), ("node", "src"), ("lit", "O"), ("node", "opt")], (False, True)):
        deco = "@load_from.mcrec(%ssrc=%s%s)\n" % ("inject_='d', " if two else "", txt(src), "" if opt is None else ", opt=" + txt(opt))
        fn = "def f(d: Any%s) -> Any:\n    CALLS.append('f')\n    return ('f', d%s)\n" % (", a: Any" if two else "", ", a" if two else "")
        extra = "def d() -> Any:\n    return 'NODE d'\n" if src == ("node", "d") else ""
        key = "load_from|%r|%r|%s" % (src, opt, two)
        ctx.state(key)
        ctx.cases += 1
        m = make_module(base_src + extra + deco + fn)
        for ov in ({}, {"p": "OP"}, {"f": "OF"}):
            r = Ref(INPUTS, ov, {})
            if src == ("node", "d"):
                r.memo["d"] = "NODE d"
            if "f" in ov:
                want, loads, calls = "OF", [], []
            else:
                a, b = r.spec(norm(src), None), r.spec(norm(opt), "dl")
                loads = [("load", a, b)]
                want = ("f", ("loaded", a, b)) + ((r.val("a"),) if two else ())
                calls = r.calls + ["f"]
            try:
                dr = make_driver(m)
            except Exception as e:
                ctx.violation(key, "building raised %s" % exc_brief(e), case)
                break
            if not check_run(ctx, key, case, m, lambda: ({}, dr.execute(["f"], inputs=dict(INPUTS), overrides=dict(ov))), {"f": want}, {}, calls, loads, []):
                break
            ctx.outcome("load_from")
        drop_module(m)
    # @save_to: function value saved when the artifact is requested and only then
    for path, opt, name, exp in itertools.product([("lit", "L"), ("node", "p"), ("node", "x"), ("node", "path"), ("node", "f"), ("node", "opt")], [None, ("node", "p"), ("node", "path"), ("node", "f"), ("lit", "O")],
                                                  (None, "art"), ("plain", "extract")):
        args = "path=%s%s%s" % (txt(path), "" if opt is None else ", opt=" + txt(opt), "" if name is None else ", output_name_=%r" % name)
        if exp == "plain":
            src = "@save_to.mcrec(%s)\ndef f(a: Any) -> Any:\n    CALLS.append('f')\n    return ('f', a)\n" % args
        else:
            src = "@save_to.mcrec(target_='g', %s)\n@extract_fields({'g': Any, 'h': Any})\ndef f(a: Any) -> dict:\n    CALLS.append('f')\n    return {'g': ('g', a), 'h': 'H'}\n" % args
        tgt = "f" if exp == "plain" else "g"
        art = name or "save." + tgt
        key = "save_to|%r|%r|%s|%s" % (path, opt, name, exp)
        ctx.state(key)
        ctx.cases += 1
        if exp == "extract" and ("node", "f") in (path, opt):
            continue
        m = make_module(base_src + src)
        try:
            dr = make_driver(m)
        except Exception as e:
            ctx.violation(key, "building raised %s" % exc_brief(e), case)
            drop_module(m)
            continue
        for ov, outs in itertools.product(({}, {"a": "OA"}, {tgt: "OT"}), ([art], [tgt], [tgt, art], ["c"])):
            r = Ref(INPUTS, ov, {})

            def tv():
                if tgt in r.memo:
                    return r.memo[tgt]
                if tgt in ov:
                    v = ov[tgt]
                else:
                    a = r.val("a")
                    r.calls.append("f")
                    v = (tgt, a)
                r.memo[tgt] = v
                return v
            vals, saves = {}, []
            for o in outs:
                if o == art:
                    data = tv()
                    ar = tuple(r.spec(norm(s), d) for s, d in ((path, None), (opt, "dopt"))) + ("dopt2",)
                    saves.append(("save",) + ar + (data,))
                    vals[o] = {"meta": ar + (data,)}
                else:
                    vals[o] = tv() if o == tgt else r.val(o)
            if not check_run(ctx, key, case, m, lambda: ({}, dr.execute(list(outs), inputs=dict(INPUTS), overrides=dict(ov))), vals, {}, r.calls, [], saves):
                break
            ctx.outcome("save_to")
        drop_module(m)
    # @dataloader / @datasaver functions
    src = base_src + ("@dataloader()\ndef ld(p: Any, y: Any = 'dy') -> Tuple[Any, dict]:\n    CALLS.append('ld')\n    return ('ld', p, y), {'m': p}\n"
                      "def use(ld: Any, a: Any) -> Any:\n    CALLS.append('use')\n    return ('use', ld, a)\n"
                      "@datasaver()\ndef sv(use: Any, path: Any) -> dict:\n    CALLS.append('sv')\n    return {'saved': (use, path)}\n")
    m = make_module(src)
    dr = make_driver(m)
    for outs in subsets(["ld", "use", "sv", "ld.loader", "c"], 1):
        for ov in ({}, {"ld": "OLD"}, {"use": "OUSE"}, {"p": "OP"}, {"sv": {"o": 1}}):
            for ins in ({}, {"y": "Y"}):
                key = "fnio|%s|%r|%r" % (outs, ov, ins)
                ctx.state(key)
                ctx.cases += 1
                r = Ref(INPUTS, ov, {})

                def ev(n):
                    if n in r.memo:
                        return r.memo[n]
                    if n in ov:
                        v = ov[n]
                    elif n == "ld.loader":
                        pv = r.val("p")
                        r.calls.append("ld")
                        v = (("ld", pv, ins.get("y", "dy")), {"m": pv})
                    elif n == "ld":
                        v = ev("ld.loader")[0]
                    elif n == "use":
                        v = ("use", ev("ld"), r.val("a"))
                        r.calls.append("use")
                    elif n == "sv":
                        v = {"saved": (ev("use"), r.val("path"))}
                        r.calls.append("sv")
                    else:
                        v = r.val(n)
                    r.memo[n] = v
                    return v
                vals = {o: ev(o) for o in outs}
                if not check_run(ctx, key, case, m, lambda: ({}, dr.execute(list(outs), inputs={**INPUTS, **ins}, overrides=dict(ov))), vals, {}, r.calls, [], []):
                    break
                ctx.outcome("dataloader/datasaver")
    drop_module(m)


# ------------------------------------------------------------------------------------------------ histories
def ops():
    A = dict(deps=["a"], comb=False, path=("node", "p"))
    B = dict(deps=["a", "b"], comb=True, path=("lit", "L"), opt=("node", "x"))
    F = dict(deps=["c"], comb=False, path=("lit", "fail"))
    return {
        "exec": dict(kind="exec", outs=["c", "p"], ov={}),
        "exec_ov": dict(kind="exec", outs=["c"], ov={"a": "OA"}),
        "mat_a": dict(kind="mat", savers=[A], loaders={}, outs=["c"], ov={}),
        "mat_ab": dict(kind="mat", savers=[B], loaders={}, outs=[], ov={"b": "OB"}),
        "mat_load": dict(kind="mat", savers=[A], loaders={"a": (("lit", "L1"), None), "x": (("node", "p"), None)}, outs=["b", "opt"], ov={}),
        "mat_load_b": dict(kind="mat", savers=[], loaders={"b": (("node", "a"), None)}, outs=["c"], ov={}),
        "mat_fail": dict(kind="mat", savers=[F], loaders={"b": (("node", "a"), None)}, outs=["c"], ov={}, fails=True),
        "mat_unknown": dict(kind="mat", savers=[dict(deps=["nope"], comb=False, path=("lit", "L"))], loaders={}, outs=["c"], ov={}, fails=True),
        "validate": dict(kind="validate", savers=[A], loaders={"a": (("lit", "L1"), None)}, outs=["c"], ov={}),
    }


def history(ctx, first, depth):
    register()
    m = make_module(flow_src())
    O = ops()
    for rest in itertools.product(sorted(O), repeat=depth - 1):
        seq = (first,) + rest
        dr = make_driver(m)
        base_nodes = nodes_of(dr)
        mats = {}  # materializer objects are reused along the history
        for i, name in enumerate(seq):
            op = O[name]
            key = "hist|" + ">".join(seq[:i + 1])
            ctx.state(key)
            case = dict(job=["hist", first, depth])
            if op["kind"] == "exec":
                vals, metas, calls, loads, saves = expect(dict(savers=[], loaders={}, outs=op["outs"], ov=op["ov"]), [])
                if not check_run(ctx, key, case, m, lambda: ({}, dr.execute(op["outs"], inputs=dict(INPUTS), overrides=dict(op["ov"]))), vals, {}, calls, [], []):
                    break
                continue
            if name not in mats:
                mats[name] = [mk_saver(j, sv, m) for j, sv in enumerate(op["savers"])] + [mk_loader(t, s) for t, s in op["loaders"].items()]
            ins = {k: v for k, v in INPUTS.items() if k not in op["loaders"]}
            if op["kind"] == "validate":
                LOG.clear()
                m.CALLS.clear()
                ctx.transition()
                dr.validate_materialization(*mats[name], additional_vars=op["outs"], inputs=dict(ins))
                if LOG or m.CALLS:
                    ctx.violation(key, "validate_materialization ran %s %s" % (LOG, m.CALLS), case)
            elif op.get("fails"):
                ctx.transition()
                try:
                    dr.materialize(*mats[name], additional_vars=list(op["outs"]), inputs=dict(ins))
                    ctx.violation(key, "no error", case)
                except (RuntimeError, ValueError):
                    pass
            else:
                vals, metas, calls, loads, saves = expect(op, range(len(op["savers"])))
                if not check_run(ctx, key, case, m, lambda: dr.materialize(*mats[name], additional_vars=list(op["outs"]), inputs=dict(ins), overrides=dict(op["ov"])), vals, metas, calls, loads, saves):
                    break
            if nodes_of(dr) != base_nodes:
                ctx.violation(key, "the driver's dataflow changed", case)
                break
            ctx.outcome("history step")
        ctx.cases += 1
    drop_module(m)


# ------------------------------------------------------------------------------------------------ built-in adapters: what is loaded is what was saved last
def frames():
    import pandas as pd
    return {"e": pd.DataFrame({"a": [1]}), "f": pd.DataFrame({"a": [1, 2], "b": ["u", "v,\"w\n"]}), "g": pd.DataFrame({"b": [0.5, 2.5, -1.0], "c": [True, False, True]}),
            "h": pd.DataFrame({"x y": [10**12, -1], "z": ["", " s "]})}


def pframes():
    import polars as pl
    return {k: pl.from_dict(v.to_dict(orient="list")) for k, v in frames().items()}


JSONV = {"0": {}, "1": {"k": [1, None, True, 2.5, "s"], "n": {"m": "\u00e9\n\r\t\""}}, "2": [], "3": [1, [2, ["deep"]], {"a": {}}], "4": {"": "", "long": "x" * 3000}, "5": {"b": 1, "a": 2}}
TEXTV = {"0": "", "1": "line\nline2\n", "2": "\u00e9\u4e2d \t", "3": "x" * 5000, "4": "no newline at end\n\n", "5": "a\rb\r\nc"}
OBJV = {"0": None, "1": {1: (2, 3), "s": {4}}, "2": [1.5, b"bytes"], "3": "x" * 3000, "4": (1, (2, None)), "5": range(3)}
# name -> (type, saver and its path argument, loader and its path argument, extra saver args, extra loader args, values)
FORMATS = {
    "json": ("dict", "json", "path", "json", "path", {}, {}, lambda: {k: v for k, v in JSONV.items() if isinstance(v, dict)}),
    "json list": ("list", "json", "path", "json", "path", {}, {}, lambda: {k: v for k, v in JSONV.items() if isinstance(v, list)}),
    "file": ("str", "file", "path", "file", "path", {}, {}, lambda: TEXTV),
    "file utf-16": ("str", "file", "path", "file", "path", {"encoding": "utf-16"}, {"encoding": "utf-16"}, lambda: TEXTV),
    "pickle": ("object", "pickle", "path", "pickle", "path", {}, {}, lambda: OBJV),
    "yaml": ("dict", "yaml", "path", "yaml", "path", {}, {}, lambda: {k: v for k, v in JSONV.items() if isinstance(v, dict) and k != "5"}),
    "pandas parquet": ("pd.DataFrame", "parquet", "path", "parquet", "path", {}, {}, frames),
    "pandas csv": ("pd.DataFrame", "csv", "path", "csv", "path", {"index": False}, {"keep_default_na": False}, frames),
    "pandas pickle": ("pd.DataFrame", "pickle", "path", "pickle", "filepath_or_buffer", {}, {}, frames),
    "pandas feather": ("pd.DataFrame", "feather", "path", "feather", "path", {}, {}, frames),
    "pandas json": ("pd.DataFrame", "json", "filepath_or_buffer", "json", "filepath_or_buffer", {"orient": "split"}, {"orient": "split"}, frames),
    "polars parquet": ("pl.DataFrame", "parquet", "file", "parquet", "file", {}, {}, pframes),
    "polars csv": ("pl.DataFrame", "csv", "file", "csv", "file", {}, {}, lambda: {k: v for k, v in pframes().items() if k != "h"}),
    "polars feather": ("pl.DataFrame", "feather", "file", "feather", "source", {}, {}, pframes),
}


def roundtrip(ctx, fmt):
    import importlib, os, shutil, tempfile
    for plug in ("pandas", "polars", "yaml", "numpy"):
        importlib.import_module("hamilton.plugins.%s_extensions" % plug)
    from mc.dagcmp import same
    typ, sk, sp, lk, lp, skw, lkw, values = FORMATS[fmt]
    values = values()
    case = dict(job=["round", fmt])
    d = tempfile.mkdtemp(prefix="mc16_")
    m = make_module(HDR + "import pandas as pd\nimport polars as pl\nVAL = [None]\ndef obj() -> %s:\n    return VAL[0]\ndef tgt() -> %s:\n    return 'not loaded'\ndef use(tgt: %s) -> Any:\n    return (tgt,)\n" % (typ, typ, typ))
    try:
        dr = make_driver(m)
        n = 0
        for hist in itertools.chain(*(itertools.product(sorted(values), repeat=r) for r in (1, 2))):
            n += 1
            path = os.path.join(d, "f%d" % n)
            for v in hist:
                m.VAL[0] = values[v]
                ctx.transition()
                meta, extra = dr.materialize(MaterializerFactory("s", registry.SAVER_REGISTRY[sk], None, ["obj"], **{sp: path}, **skw), additional_vars=["obj"])
                if extra["obj"] is not values[v]:
                    ctx.violation("round|%s" % fmt, "the saved node's value changed", case)
            for how in ("call", "deco"):
                key = "round|%s|%s" % (fmt, ">".join(hist))
                ctx.state(key + how)
                ctx.cases += 1
                ctx.trace()
                ctx.transition()
                want = values[hist[-1]]
                if how == "call":
                    _, got = dr.materialize(ExtractorFactory("tgt", registry.LOADER_REGISTRY[lk], **{lp: path}, **lkw), additional_vars=["tgt", "use"])
                    got, dep = got["tgt"], got["use"][0]
                else:
                    if len(hist) > 1:
                        continue
                    m2 = make_module(HDR + "import pandas as pd\nimport polars as pl\n@load_from.%s(%s)\ndef use(tgt: %s) -> Any:\n    return (tgt,)\n" % (
                        lk, ", ".join("%s=value(%r)" % kv for kv in {lp: path, **lkw}.items()), typ))
                    got = dep = make_driver(m2).execute(["use"])["use"][0]
                    drop_module(m2)
                ctx.outcome("round trip")
                if fmt.startswith("pandas") and fmt != "pandas pickle":  # the values; the readers choose nullable column types
                    got, dep, want = (x.to_dict(orient="list") for x in (got, dep, want))
                if not same(dep, got) or not same(got, want):
                    if fmt.startswith("file") and isinstance(got, str) and got == want.replace("\r\n", "\n").replace("\r", "\n"):
                        key = "text with carriage returns through the file adapters"
                    ctx.violation(key, "%s: saved %r, then loaded %r (dependents see %r)" % (fmt, want, got, dep), case)
            os.unlink(path)
    finally:
        drop_module(m)
        shutil.rmtree(d)


def duplicates(ctx):
    """two savers under one id: both cannot be honoured, so the request has to be rejected (never one of them silently dropped)"""
    register()
    m = make_module(flow_src())
    S = [dict(deps=["a"], comb=False, path=("lit", 1)), dict(deps=["b"], comb=False, path=("lit", 2)), dict(deps=["a", "b"], comb=True, path=("lit", 3))]
    for (i, s), (j, t) in itertools.product(enumerate(S), enumerate(S)):
        for mode in ("call", "declared"):
            key = "dup|%d|%d|%s" % (i, j, mode)
            ctx.state(key)
            ctx.cases += 1
            ctx.transition()
            LOG.clear()
            try:
                if mode == "call":
                    make_driver(m).materialize(mk_saver(0, s, m), mk_saver(0, t, m), inputs=dict(INPUTS))
                else:
                    make_driver(m, [mk_saver(0, s, m), mk_saver(0, t, m)]).execute(["s0"], inputs=dict(INPUTS))
            except Exception:
                ctx.outcome("duplicate id rejected")
                continue
            if len(LOG) != 2:
                ctx.violation(key, "two savers with one id: only %r was saved, without an error" % LOG, dict(job=["dup"]))
    for n in list(FUNCS) + ["x"]:
        for i, s in enumerate(S):
            LOG.clear()
            ctx.transition()
            key = "dupname|%s|%d" % (n, i)
            ctx.state(key)
            ctx.cases += 1
            mats = to.mcrec(id=n, dependencies=s["deps"], combine=Comb() if s["comb"] else None, path=1)
            dr = make_driver(m)
            try:
                r = dr.materialize(mats, inputs=dict(INPUTS), additional_vars=["c"])
            except Exception:
                ctx.outcome("id of a node rejected")
                continue
            if r[1]["c"] != Ref(INPUTS, {}, {}).val("c"):
                ctx.violation(key, "a saver with the id of node %s changes c to %r" % (n, r[1]["c"]), dict(job=["dup"]))
    drop_module(m)


def jobs(tier):
    js = [["one", p, 16, tier] for p in range(16)] + [["pair", p, 8, tier] for p in range(8)] + [["two", p, 4, tier] for p in range(4)] + [["deco", tier], ["dup"]]
    js += [["round", f] for f in FORMATS]
    js += [["hist", o, 3 if tier == "quick" else 4] for o in sorted(ops())]
    return js


def run_job(job, ctx):
    {"one": single, "pair": pairs, "two": two_savers, "deco": decorators, "hist": history, "round": roundtrip, "dup": duplicates}[job[0]](ctx, *job[1:])


def replay(case, ctx):
    run_job(case["job"], ctx)
