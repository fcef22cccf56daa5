"""C01: executing outputs == evaluating the functions; each needed function called exactly once, no other.

Explicit enumeration of all dataflows up to a node bound (edge patterns none/required/optional, inputs
required/optional/absent), of requested sets, overrides, supplied inputs/config and failing functions, each one
executed on the real driver and compared with a reference evaluator (recursive, memoising, over terms).
Functions return free terms (name, sorted arguments), so equality of values is equality of whole computations."""
from __future__ import annotations
import itertools
from mc.core import CaseTimeout, exc_brief
from mc.progs import make_module, drop_module, subsets, Log
from hamilton import driver, base

TECHNIQUE = "bounded exhaustive exploration of executions of the real driver against a reference evaluator"
RULE = ("state = (program shape, requested outputs, overrides, supplied inputs, failing function, driver flavour); "
        "transition = one function call observed in the real execution; trace = one complete execution compared with the reference")
ASSUMPTIONS = ["functions are pure (return a free term of their arguments) except for the injected exception",
               "programs up to 5 functions, 2 external inputs; larger graphs are not enumerated",
               "requesting an external input that was not supplied is not part of the claim"]
BUDGET = {"quick": 400, "thorough": 3600}

LOG = Log()
FAIL = {"name": None, "exc": None}


class Boom(Exception):
    pass


def _ret(name, kw):
    LOG.append((name, tuple(sorted(kw))))
    if FAIL["name"] == name:
        FAIL["exc"] = Boom(name)
        raise FAIL["exc"]
    v = VALS.get(name, _TERM)
    if v is _TERM:
        return (name, tuple(sorted(kw.items(), key=lambda t: t[0])))
    return v


_TERM = object()
VALS = {}



class Tricky:
    """like a data frame: neither truth value nor equality can be asked for"""

    def __bool__(self):
        raise ValueError("truth value is ambiguous")

    def __eq__(self, other):
        raise ValueError("comparison is ambiguous")

    __ne__ = __eq__
    __hash__ = None

    def __repr__(self):
        return "Tricky"


TRICKY = Tricky()
FALSY = [(None,) * 3, (None, 0, ""), ((), None, False), (None, _TERM, _TERM), (_TERM, None, _TERM), (None, None, _TERM), (TRICKY, TRICKY, _TERM), (_TERM, TRICKY, TRICKY)]

# parameter kinds: 0 absent, 1 required, 2 optional (has a default)
DEFAULT = "dflt"


def build_src(names, edges, ins):
    """names: function names; edges[i][j] in 0,1,2 for j<i; ins[i] = tuple of (input name, kind)."""
    out = []
    for i, n in enumerate(names):
        req, opt = [], []
        for j in range(i):
            k = edges[i][j]
            if k == 1:
                req.append(names[j])
            elif k == 2:
                opt.append(names[j])
        for (inp, k) in ins[i]:
            if k == 1:
                req.append(inp)
            elif k == 2:
                opt.append(inp)
        sig = ", ".join(["%s: object" % r for r in req] + ["%s: object = 'dflt'" % o for o in opt])
        kws = ", ".join("%s=%s" % (p, p) for p in req + opt)
        out.append("def %s(%s) -> object:\n    return _ret(%r, dict(%s))\n" % (n, sig, n, kws))
    return "\n".join(out)


class Prog:
    def __init__(self, names, edges, ins):
        self.names, self.edges, self.ins = names, edges, ins
        self.params = {}
        for i, n in enumerate(names):
            ps = {}
            for j in range(i):
                if edges[i][j]:
                    ps[names[j]] = edges[i][j]
            for inp, k in ins[i]:
                if k:
                    ps[inp] = k
            self.params[n] = ps
        self.inputs = {p for ps in self.params.values() for p in ps if p not in self.params}
        self.mod = make_module(build_src(names, edges, ins), env={"_ret": _ret})

    def reference(self, finals, overrides, supplied, fail=None):
        """-> (missing_required_inputs, called set, values) or fails with Boom"""
        called, missing = [], set()
        val = {}

        def need(n):
            if n in val or n in missing:
                return
            if n in overrides:
                val[n] = overrides[n]
                return
            if n not in self.params:
                return
            kw = {}
            for p, k in self.params[n].items():
                if p in overrides and p in self.params:
                    val[p] = overrides[p]
                    kw[p] = val[p]
                elif p in self.params:
                    need(p)
                    kw[p] = val.get(p)
                elif p in supplied:
                    kw[p] = overrides.get(p, supplied[p])
                elif k == 1:
                    missing.add(p)
                else:
                    kw[p] = DEFAULT
            called.append(n)
            v = VALS.get(n, _TERM)
            val[n] = (n, tuple(sorted(kw.items(), key=lambda t: t[0]))) if v is _TERM else v

        for f in finals:
            need(f)
        return missing, called, val


def depends_closure(prog, n, overrides):
    """functions that must have run before n"""
    out = set()

    def go(m):
        for p in prog.params.get(m, ()):
            if p in prog.params and p not in overrides and p not in out:
                out.add(p)
                go(p)
    go(n)
    return out


def mk_driver(prog, flavour, config):
    if flavour == "builder":
        return driver.Builder().with_modules(prog.mod).with_config(dict(config)).build()
    if flavour == "legacy":
        return driver.Driver(dict(config), prog.mod, adapter=base.DefaultAdapter())
    if flavour == "result_builder":
        return driver.Builder().with_modules(prog.mod).with_config(dict(config)).with_adapters(base.DictResult()).build()
    raise AssertionError(flavour)


def check_case(ctx, prog, dr, finals, overrides, inputs, config, fail, tag, finals_as="str", case=None):
    supplied = {**config, **inputs}
    missing, called, val = prog.reference(finals, overrides, supplied)
    # an override for an external input needs the input to be supplied as well on this driver: not generated
    LOG.clear()
    FAIL["name"], FAIL["exc"] = fail, None
    if finals_as == "str":
        fv = list(finals)
    elif finals_as == "fn":
        fv = [getattr(prog.mod, f) for f in finals]
    else:
        vs = {v.name: v for v in dr.list_available_variables()}
        fv = [vs[f] for f in finals]
    inputs_before, overrides_before = dict(inputs), dict(overrides)
    try:
        got = dr.execute(fv, inputs=inputs or None, overrides=overrides or None)
        res = ("ok", got)
    except CaseTimeout:
        raise
    except BaseException as e:
        res = ("err", e)
    log = list(LOG)
    FAIL["name"] = None
    names = [n for n, _ in log]
    ctx.cases += 1
    ctx.trace()
    ctx.transition(len(log) + 1)

    def bad(what, detail):
        ctx.violation("%s|%s|fin=%s|ov=%s|in=%s|cfg=%s|fail=%s|%s" % (what, tag, ",".join(finals), sorted(overrides), sorted(inputs), sorted(config), fail, finals_as),
                      "%s: %s; program:\n%s" % (what, detail, build_src(prog.names, prog.edges, prog.ins)),
                      case or dict(names=prog.names, edges=prog.edges, ins=prog.ins, finals=list(finals),
                           overrides=sorted(overrides), inputs=sorted(inputs), config=sorted(config), fail=fail, as_=finals_as))
    if inputs != inputs_before or overrides != overrides_before:
        bad("arguments-mutated", "caller's inputs/overrides were modified")
    if len(set(names)) != len(names):
        bad("called-twice", names)
        return
    if missing:
        ctx.outcome("missing-input")
        if res[0] == "ok":
            bad("missing-input-accepted", "missing %s, returned %r" % (missing, res[1]))
        elif names:
            bad("ran-before-input-check", names)
        return
    # order
    pos = {n: i for i, n in enumerate(names)}
    for n in names:
        for d in depends_closure(prog, n, overrides):
            if d not in pos or pos[d] > pos[n]:
                bad("order", "%s ran without/before %s: %s" % (n, d, names))
                return
    if not set(names) <= set(called):
        bad("unneeded-called", "called %s, needed %s" % (names, called))
        return
    if fail is not None and fail in called:
        ctx.outcome("raised")
        if res[0] != "err" or res[1] is not FAIL["exc"]:
            bad("exception-lost", "expected the function's own exception, got %r" % (res,))
            return
        for n in names:
            if fail in depends_closure(prog, n, overrides):
                bad("ran-after-failure", n)
        return
    ctx.outcome("ok")
    if res[0] != "ok":
        bad("unexpected-error", exc_brief(res[1]))
        return
    if set(names) != set(called):
        bad("needed-not-called", "called %s, needed %s" % (names, called))
        return
    exp = {f: (val[f] if f in val else supplied[f]) for f in finals}
    if res[1] != exp or list(res[1]) != list(exp):
        bad("wrong-value", "expected %r got %r" % (exp, res[1]))


# ------------------------------------------------------------------ enumeration
def edge_patterns(n, kinds):
    cells = [(i, j) for i in range(n) for j in range(i)]
    for combo in itertools.product(kinds, repeat=len(cells)):
        e = [[0] * n for _ in range(n)]
        for (i, j), k in zip(cells, combo):
            e[i][j] = k
        yield e


PERMS = {2: [("b", "a"), ("a", "b")], 3: [("b", "c", "a"), ("a", "b", "c")],
         4: [("c", "a", "d", "b"), ("a", "b", "c", "d")], 5: [("d", "b", "e", "a", "c")]}


def families(tier):
    q = tier == "quick"
    F = []
    # (family, n, edge kinds, input kinds, override sizes, fails, supply modes)
    F.append(("A3", 3))
    F.append(("B4", 4))
    F.append(("C5", 5))
    F.append(("D3none", 3))
    if not q:
        F.append(("A4", 4))
        F.append(("C6", 6))
    return F


def programs(fam):
    if fam == "A3":
        for e in edge_patterns(3, (0, 1, 2)):
            for ks in itertools.product((0, 1, 2), repeat=3):
                yield PERMS[3][0], e, [(("x", k),) for k in ks]
    elif fam == "A4":
        for e in edge_patterns(4, (0, 1, 2)):
            for ks in itertools.product((0, 1, 2), repeat=4):
                yield PERMS[4][0], e, [(("x", k),) for k in ks]
    elif fam == "B4":
        for e in edge_patterns(4, (0, 1)):
            for ks in itertools.product((0, 1), repeat=4):
                # y: optional input of the last function, x required where ks
                yield PERMS[4][0], e, [(("x", k), ("y", 2 if i == 3 else 0)) for i, k in enumerate(ks)]
    elif fam == "C5":
        for e in edge_patterns(5, (0, 1)):
            yield PERMS[5][0], e, [(("x", 1 if i == 0 else 0),) for i in range(5)]
    elif fam == "C6":
        for e in edge_patterns(6, (0, 1)):
            yield ("d", "b", "e", "a", "f", "c"), e, [(("x", 0),) for i in range(6)]
    elif fam == "D3none":
        for e in edge_patterns(3, (0, 1, 2)):
            yield PERMS[3][0], e, [(("x", 2 if i == 1 else 0),) for i in range(3)]


def jobs(tier):
    out = []
    for fam, n in families(tier):
        total = sum(1 for _ in programs(fam))
        parts = {"A3": 6, "B4": 24, "C5": 16, "D3none": 4, "A4": 300, "C6": 200}[fam]
        for p in range(parts):
            out.append((fam, p, parts))
    return out


def run_program(ctx, fam, names, edges, ins, tier):
    prog = Prog(names, edges, ins)
    tag = "%s:%s:%s%s" % (fam, edges, ins, ":values %r" % sorted(VALS.items()) if VALS else "")
    xs = sorted(prog.inputs)
    try:
        d0 = {fl: mk_driver(prog, fl, {}) for fl in ("builder",)}
        small = fam in ("A3", "D3none")
        if small:
            d0["legacy"] = mk_driver(prog, "legacy", {})
            d0["result_builder"] = mk_driver(prog, "result_builder", {})
        dcfg = mk_driver(prog, "builder", {"x": "XC"}) if small else None
        supplies = [dict(s) for s in ({}, {"x": "X"}, {"x": "X", "y": "Y"}) if set(s) <= set(xs) or not s]
        if fam == "D3none":
            supplies = [{}, {"x": None}] if xs else [{}]
        finals_list = list(subsets(names, 1))
        if small:
            finals_list += [tuple(reversed(f)) for f in finals_list if len(f) > 1]
            if xs:
                finals_list += [(names[0], "x"), ("x", names[-1])]
        omax = {"A3": 3, "B4": 2, "C5": 1, "D3none": 2, "A4": 2, "C6": 1}[fam]
        ov_sets = list(subsets(names, 0, omax))
        ovval = {"A3": lambda n: ("OV", n), "D3none": lambda n: None}.get(fam, lambda n: ("OV", n))
        for finals in finals_list:
            for ov in ov_sets:
                overrides = {n: ovval(n) for n in ov}
                if fam == "D3none":
                    overrides = {n: (None if i == 0 else False) for i, n in enumerate(ov)}
                for sup in supplies:
                    if "x" in finals and "x" not in sup:
                        continue
                    ctx.state((tag, finals, ov, tuple(sorted(sup))))
                    check_case(ctx, prog, d0["builder"], finals, overrides, dict(sup), {}, None, tag)
                    if fam in ("A3",) and not ov:
                        check_case(ctx, prog, d0["legacy"], finals, overrides, dict(sup), {}, None, tag)
                        check_case(ctx, prog, d0["result_builder"], finals, overrides, dict(sup), {}, None, tag)
                        if "x" not in finals:
                            check_case(ctx, prog, d0["builder"], finals, overrides, dict(sup), {}, None, tag, "fn")
                            check_case(ctx, prog, d0["builder"], finals, overrides, dict(sup), {}, None, tag, "var")
                if dcfg is not None and xs and fam == "A3":
                    check_case(ctx, prog, dcfg, finals, overrides, {}, {"x": "XC"}, None, tag)
                # extra supplied values that no function uses never matter
                if not ov and fam == "B4":
                    check_case(ctx, prog, d0["builder"], finals, {}, {"x": "X", "zz": 1}, {}, None, tag)
            # failures
            if fam in ("A3", "B4"):
                for f in names:
                    ctx.state((tag, finals, "fail", f))
                    check_case(ctx, prog, d0["builder"], finals, {}, {"x": "X"}, {}, f, tag)
        if ctx.cases % 5000 < 50:
            ctx.sample(dict(program=build_src(names, edges, ins), finals=list(finals_list[-1]), overrides=list(ov_sets[-1])))
    finally:
        drop_module(prog.mod)


def run_job(job, ctx):
    fam, part, parts = job
    for i, (names, edges, ins) in enumerate(programs(fam)):
        if i % parts != part:
            continue
        if ctx.out_of_time():
            return
        VALS.clear()
        with ctx.guard(120):
            try:
                if fam == "D3none":
                    for falsy in FALSY:
                        VALS.clear()
                        VALS.update({n: v for n, v in zip(names, falsy) if v is not _TERM})
                        run_program(ctx, fam, names, edges, ins, ctx.tier)
                    VALS.clear()
                else:
                    run_program(ctx, fam, names, edges, ins, ctx.tier)
            except CaseTimeout:
                ctx.violation("hang|%s|%s|%s" % (fam, edges, ins), "execution did not terminate", dict(names=names, edges=edges, ins=ins))


def replay(case, ctx):
    prog = Prog(case["names"], case["edges"], [tuple(tuple(x) for x in i) for i in case["ins"]])
    dr = mk_driver(prog, "builder", {k: "XC" for k in case.get("config", [])})
    check_case(ctx, prog, dr, tuple(case["finals"]), {n: ("OV", n) for n in case["overrides"]},
               {k: k.upper() for k in case["inputs"]}, {k: "XC" for k in case.get("config", [])}, case["fail"], "replay", case.get("as_", "str"))
