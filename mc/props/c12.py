"""C12: expansion decorators equal the hand-written dataflow.

Every assignment of a dependency (none, literal, upstream, crossed upstream, absent input, grouped list, grouped dict) to every parameter
of a decorated function, for one and two expansions at once, through every decorator form; field and column extraction over all
combinations of produced/missing fields, fills and stackings; replaced bodies over all argument mappings.  For each program the nodes,
their dependencies and all values are compared with an expansion computed by an independent reference."""
from __future__ import annotations
import itertools
from mc.core import exc_brief
from mc.dagcmp import compare
from mc.progs import subsets
import hamilton.plugins.pandas_extensions  # noqa: F401
import pandas as pd

TECHNIQUE = ("exhaustive enumeration of decorated programs within bounds, each built and executed on the real code and compared with an "
             "independently expanded reference dataflow")
RULE = ("state = one program (decorator form, assignment of dependencies to parameters, config) ; transition = one build or execution; trace = one program "
        "with all its executions compared with the reference expansion")
ASSUMPTIONS = ["three parameters, two expansions, groups of up to three members", "literals are not modified by the functions"]
BUDGET = {"quick": 300, "thorough": 3 * 3600}

ABSENT = {"z", "c"}  # not functions: inputs
UP = {"a", "b", "u", "v"}

# dependency specs: (source text, kind, payload)
DEPS = {
    "-": None,
    "V": ("value(1)", "lit", 1),
    "Vn": ("value(None)", "lit", None),
    "Vl": ("value(['x'])", "lit", ["x"]),
    "Su": ("source('u')", "src", "u"),
    "Sv": ("source('v')", "src", "v"),
    "Sa": ("source('a')", "src", "a"),
    "Sb": ("source('b')", "src", "b"),
    "Sz": ("source('z')", "src", "z"),
    "GL": ("group(source('u'), value(1), source('v'))", "list", [("src", "u"), ("lit", 1), ("src", "v")]),
    "GLx": ("group(source('v'), source('u'), source('v'))", "list", [("src", "v"), ("src", "u"), ("src", "v")]),
    "GLb": ("group(source('b'), source('a'))", "list", [("src", "b"), ("src", "a")]),
    "GD": ("group(k=source('u'), l=value(2), m=source('v'))", "dict", {"k": ("src", "u"), "l": ("lit", 2), "m": ("src", "v")}),
    "GDb": ("group(a=source('b'), b=source('a'))", "dict", {"a": ("src", "b"), "b": ("src", "a")}),
}
OPT_A = ["-", "V", "Vn", "Su", "Sb", "Sz", "GL", "GLx", "GLb", "GD", "GDb"]
OPT_B = ["-", "Vl", "Su", "Sa", "GLb", "GD"]
OPT_C = ["-", "V", "Su", "Sz", "Sa"]
SECOND = [("-", "-", "-"), ("V", "Sa", "Su"), ("Sb", "Sa", "-"), ("Su", "Su", "Su"), ("Sz", "Vl", "V")]
UPSRC = "".join("def %s() -> Any:\n    return ('%s',)\n" % (n, n) for n in sorted(UP))


def uses(spec):
    """names a dependency refers to"""
    if spec is None:
        return set()
    _, k, p = spec
    if k == "src":
        return {p}
    if k == "list":
        return {n for kk, n in p if kk == "src"}
    if k == "dict":
        return {n for kk, n in p.values() if kk == "src"}
    return set()


def val(spec, env):
    _, k, p = spec
    if k == "lit":
        return p
    if k == "src":
        return env[p]
    if k == "list":
        return [env[n] if kk == "src" else n for kk, n in p]
    return {key: env[n] if kk == "src" else n for key, (kk, n) in p.items()}


def expand(outs):
    """outs: name -> {param: dep key}; -> nodes, evaluator"""
    nodes = {n: () for n in UP}
    for o, m in outs.items():
        deps = set()
        for p in "abc":
            deps |= {p} if m[p] == "-" else uses(DEPS[m[p]])
        nodes[o] = deps
        for d in deps & ABSENT:
            nodes[d] = "input"

    def ev(o, inputs):
        env = {n: (n,) for n in UP}
        env.update(inputs)
        m = outs[o]
        args = []
        for p in "abc":
            if m[p] == "-":
                v = env[p] if p in env else "dc" if p == "c" else KeyError
            else:
                need = uses(DEPS[m[p]])
                if need - set(env):
                    v = "dc" if p == "c" else KeyError
                else:
                    v = val(DEPS[m[p]], env)
            if v is KeyError:
                return KeyError
            args.append(v)
        return ("f",) + tuple(args)
    return nodes, ev


def ann(outs, p):
    ks = {DEPS[m[p]][1] for m in outs.values() if m[p] != "-"} & {"list", "dict"}
    if len(ks) > 1:
        return None
    return {"list": "List[Any]", "dict": "Dict[str, Any]"}[ks.pop()] if ks else "Any"


def param_source(form, outs, async_=False):
    anns = [ann(outs, p) for p in "abc"]
    if None in anns:
        return None, None
    fn = "def f(a: %s, b: %s, c: %s = 'dc') -> Any:\n    return ('f', a, b, c)\n" % tuple(anns)
    maps = {o: {p: k for p, k in m.items() if k != "-"} for o, m in outs.items()}

    def d(m):
        return "dict(%s)" % ", ".join("%s=%s" % (p, DEPS[k][0]) for p, k in m.items())
    if form == "parameterize":
        dec = "@parameterize(%s)\n" % ", ".join("%s=%s" % (o, d(m)) for o, m in maps.items())
    elif form == "documented":
        dec = "@parameterize(%s)\n" % ", ".join("%s=(%s, 'doc %s')" % (o, d(m), o) for o, m in maps.items())
    elif form == "inject":
        (o, m), = maps.items()
        if o != "f" or not m:
            return None, None
        dec = "@inject(%s)\n" % ", ".join("%s=%s" % (p, DEPS[k][0]) for p, k in m.items())
    elif form == "sources":
        if any(not m or any(DEPS[k][1] != "src" for k in m.values()) for m in maps.values()):
            return None, None
        dec = "@parameterize_sources(%s)\n" % ", ".join("%s=dict(%s)" % (o, ", ".join("%s=%r" % (p, DEPS[k][2]) for p, k in m.items())) for o, m in maps.items())
    elif form == "values":
        ps = {tuple(m) for m in maps.values()}
        if len(ps) != 1 or len(list(ps)[0]) != 1 or any(DEPS[k][1] != "lit" for m in maps.values() for k in m.values()):
            return None, None
        p = list(ps)[0][0]
        dec = "@parameterize_values(parameter=%r, assigned_output={%s})\n" % (p, ", ".join("(%r, 'd'): %r" % (o, DEPS[m[p]][2]) for o, m in maps.items()))
    elif form == "resolve":
        dec = "@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda flag: parameterize(%s))\n" % ", ".join("%s=%s" % (o, d(m)) for o, m in maps.items())
    elif form == "resolve_from_config":
        dec = "@resolve_from_config(decorate_with=lambda flag, other=3: parameterize(%s))\n" % ", ".join("%s=%s" % (o, d(m)) for o, m in maps.items())
    return UPSRC, dec + fn


def check_params(form, outs, ctx):
    up, src = param_source(form, outs)
    if src is None:
        return
    nodes, ev = expand(outs)
    cfg = {"flag": 1} if form.startswith("resolve") else {}
    if cfg:
        nodes = dict(nodes, flag="input")
    runs = []
    names = list(outs)
    inputs_used = {n for n, d in nodes.items() if d == "input"} & ABSENT
    inval = {n: ("in", n) for n in ABSENT}
    for p in "abc":  # inputs are type checked
        if any(m[p] == "Sz" for m in outs.values()) and ann(outs, p) != "Any":
            inval["z"] = ["in"] if ann(outs, p).startswith("List") else {"in": "z"}
    for sub in subsets(sorted(inputs_used)):
        inp = {n: inval[n] for n in sub}
        vals = {o: ev(o, inp) for o in names}
        for sel in ([names] + [[n] for n in names]) if len(names) > 1 else [names]:
            if any(vals[n] is KeyError for n in sel):
                runs.append((sel, inp, {}, Exception))
            else:
                runs.append((sel, inp, {}, vals))
    # an override of an upstream node is seen by every expansion using it
    ov = {"u": ("ov",)}
    if all(v == "-" or "u" in uses(DEPS[v]) or True for m in outs.values() for v in m.values()):
        full = {n: inval[n] for n in inputs_used}
        vals = {o: ev(o, dict(full, u=("ov",))) for o in names}
        runs.append((names, full, ov, vals))
    src = up + src
    key = "params|%s|%s" % (form, ";".join("%s=%s" % (o, ",".join(m[p] for p in "abc")) for o, m in outs.items()))
    report(ctx, key, src, nodes, runs, cfg, dict(kind="params", form=form, outs=outs))


def report(ctx, key, src, nodes, runs, cfg, case, hidden=()):
    ctx.state(key)
    ctx.cases += 1
    ctx.trace()
    ctx.transition(1 + len(runs))
    msg = compare(src, nodes, runs, cfg, hidden)
    ctx.outcome(key.split("|")[0] + (" differs" if msg else " same"))
    if msg:
        ctx.violation(key, "%s\nprogram:\n%s" % (msg, src), case)


# ------------------------------------------------------------------------------------------------ fields
def check_fields(ctx):
    for want in subsets(["p", "q", "r"], 1):
        for produced in subsets(["p", "q", "r", "s"]):
            for fill in ("none", "0", "'F'", "[]"):
                for stack in ("plain", "inject", "does", "config", "tag", "typing", "subclass"):
                    _fields(ctx, want, produced, fill, stack)


def _fields(ctx, want, produced, fill, stack):
    fl = "" if fill == "none" else ", fill_with=%s" % fill
    typ = "Dict[str, Any]" if stack == "typing" else "dict"
    body = "{%s}" % ", ".join("%r: (%r, x)" % (k, k) for k in produced)
    dec = "@extract_fields({%s}%s)\n" % (", ".join("%r: Any" % k for k in want), fl)
    pre, name, arg, xdep = "", "f", "x: Any", "x"
    if stack == "inject":
        pre, arg, xdep = "@inject(x=source('y'))\n", "x: Any", "y"
    elif stack == "tag":
        pre = "@tag(a='b')\n"
    elif stack == "config":
        pre, name = "@config.when(k=1)\n", "f__k"
    if stack == "does":
        src = "def _impl(x: Any) -> dict:\n    return %s\n%s@does(_impl)\ndef f(x: Any) -> %s:\n    pass\n" % (body, dec, typ)
    else:
        src = "%s%sdef %s(%s) -> %s:\n    return %s\n" % (pre, dec, name, arg, typ, body)
    src += "def use(%s) -> Any:\n    return (%s,)\n" % (", ".join("%s: Any" % k for k in want), ", ".join(want))
    d = {k: (k, ("in",)) for k in produced}
    missing = [k for k in want if k not in produced]
    if fill != "none":
        for k in missing:
            d[k] = eval(fill)
    nodes = {"f": {xdep}, xdep: "input", "use": set(want), **{k: {"f"} for k in want}}
    if stack == "config":
        nodes["k"] = "input"
    cfg = {"k": 1} if stack == "config" else {}
    inp = {xdep: ("in",)}
    runs = [(["f"], inp, {}, {"f": d})]
    for k in want:
        runs.append(([k], inp, {}, {k: d[k]} if k in d else Exception))
    if not missing or fill != "none":
        runs.append((["use"] + list(want), inp, {}, dict(d, use=tuple(d[k] for k in want))))
        runs.append((["use"], inp, {want[0]: "ov"}, {"use": ("ov",) + tuple(d[k] for k in want[1:])}))
        runs.append((["use"], {}, {"f": {k: "o" + k for k in want}}, {"use": tuple("o" + k for k in want)}))
    report(ctx, "fields|%s|%s|%s|%s" % ("".join(want), "".join(produced), fill, stack), src, nodes, runs, cfg, dict(kind="job", job=["fields"]))


def check_columns(ctx):
    for want in subsets(["p", "q", "r"], 1):
        for produced in subsets(["p", "q", "r", "s"], 1):
            for fill in ("none", "0", "'F'"):
                for doc in (False, True):
                    for stack in ("plain", "inject", "config"):
                        _columns(ctx, want, produced, fill, doc, stack)


def _columns(ctx, want, produced, fill, doc, stack):
    fl = "" if fill == "none" else ", fill_with=%s" % fill
    cols = ", ".join("(%r, 'doc')" % k if doc and i % 2 == 0 else repr(k) for i, k in enumerate(want))
    pre, xdep, name = {"plain": ("", "x", "f"), "inject": ("@inject(x=source('y'))\n", "y", "f"), "config": ("@config.when(k=1)\n", "x", "f__k")}[stack]
    body = "pd.DataFrame({%s})" % ", ".join("%r: [x, %d]" % (k, i) for i, k in enumerate(produced))
    src = "import pandas as pd\n%s@extract_columns(%s%s)\ndef %s(x: int) -> pd.DataFrame:\n    return %s\n" % (pre, cols, fl, name, body)
    src += "def use(%s) -> list:\n    return [%s]\n" % (", ".join("%s: pd.Series" % k for k in want), ", ".join("list(%s)" % k for k in want))
    d = pd.DataFrame({k: [9, i] for i, k in enumerate(produced)})
    missing = [k for k in want if k not in produced]
    if fill != "none":
        for k in missing:
            d[k] = eval(fill)
    nodes = {"f": {xdep}, xdep: "input", "use": set(want), **{k: {"f"} for k in want}}
    cfg = {}
    if stack == "config":
        nodes["k"], cfg = "input", {"k": 1}
    inp = {xdep: 9}
    runs = [(["f"], inp, {}, {"f": d})]
    for k in want:
        runs.append(([k], inp, {}, {k: d[k]} if k in d else Exception))
    if not missing or fill != "none":
        runs.append((["use"] + list(want), inp, {}, dict({k: d[k] for k in want}, use=[list(d[k]) for k in want])))
    report(ctx, "columns|%s|%s|%s|%s|%s" % ("".join(want), "".join(produced), fill, doc, stack), src, nodes, runs, cfg, dict(kind="job", job=["columns"]))


def check_param_columns(ctx):
    """parameterize_extract_columns"""
    opts = ["V", "Su", "Sz", "-"]
    for reassign in (True, False):
        for m1, m2 in itertools.product(itertools.product(opts, repeat=2), repeat=2):
            dep = {"V": ("value(3)", None), "Su": ("source('u')", "u"), "Sz": ("source('z')", "z")}

            def mp(m):
                return "{%s}" % ", ".join("%r: %s" % (p, dep[k][0]) for p, k in zip("ab", m) if k != "-")

            def deps(m):
                return {p if k == "-" else dep[k][1] for p, k in zip("ab", m)} - {None}

            def vals(m, env):
                return [env[p] if k == "-" else 3 if k == "V" else env[dep[k][1]] for p, k in zip("ab", m)]
            o1, o2 = ("p", "q"), ("r", "s")
            cols = ("('x', 'y')" if reassign else "('p', 'q', 'r', 's')")
            body = "pd.DataFrame({'x': [a, 1], 'y': [b, 2]})" if reassign else "pd.DataFrame({'s': [a, 1], 'p': [b, 2], 'q': [a, b], 'r': [0, b]})"
            src = ("import pandas as pd\ndef u() -> int:\n    return 7\n"
                   "@parameterize_extract_columns(ParameterizedExtract(%r, %s), ParameterizedExtract(%r, %s), reassign_columns=%r)\n"
                   "def f(a: int, b: int) -> pd.DataFrame:\n    return %s\n") % (o1, mp(m1), o2, mp(m2), reassign, body)
            env = {"a": 1, "b": 2, "u": 7, "z": 26}
            nodes = {"u": (), "f__0": deps(m1), "f__1": deps(m2), "p": {"f__0"}, "q": {"f__0"}, "r": {"f__1"}, "s": {"f__1"}}
            ins = (deps(m1) | deps(m2)) - {"u"}
            for i in ins:
                nodes[i] = "input"
            want = {}
            for nm, m, o in (("f__0", m1, o1), ("f__1", m2, o2)):
                a, b = vals(m, env)
                df = (pd.DataFrame({o[0]: [a, 1], o[1]: [b, 2]}) if reassign else pd.DataFrame({"s": [a, 1], "p": [b, 2], "q": [a, b], "r": [0, b]}))
                want[nm] = df
                for c in o:
                    want[c] = df[c]
            inp = {i: env[i] for i in ins}
            runs = [(["p", "q", "r", "s"], inp, {}, want), (["f__1", "f__0"], inp, {}, want), (["s"], {i: env[i] for i in deps(m2) - {"u"}}, {}, want)]
            report(ctx, "pcols|%s|%s|%s" % (reassign, m1, m2), src, nodes, runs, {}, dict(kind="job", job=["pcols"]))


def check_does(ctx):
    """does: every mapping of the replacing function's two parameters to the decorated function's parameters"""
    impls = {
        "kw": ("def _impl(**kw: Any) -> Any:\n    return ('kw', sorted(kw.items()))\n", None),
        "two": ("def _impl(m: Any, n: Any = 'dn') -> Any:\n    return ('two', m, n)\n", ("m", "n")),
        "same": ("def _impl(a: Any, b: Any = 'ib', c: Any = 'ic') -> Any:\n    return ('same', a, b, c)\n", ("a", "b", "c")),
    }
    for iname, (isrc, _) in impls.items():
        for nparams in (1, 2, 3):
            ps = ["a", "b", "c"][:nparams]
            for nopt in range(nparams + 1):
                sig = ", ".join("%s: Any%s" % (p, " = 'd%s'" % p if i >= nparams - nopt else "") for i, p in enumerate(ps))
                targets = {"kw": ["k"], "two": ["m", "n"], "same": ["a", "b", "c"]}[iname]
                for mapping in itertools.product([None] + ps, repeat=len(targets)):
                    mp = {t: s for t, s in zip(targets, mapping) if s is not None}
                    # expected keyword arguments of the replacing function
                    def kwargs(vals):
                        out = {p: v for p, v in vals.items() if p not in mp.values()}
                        out.update({t: vals[s] for t, s in mp.items()})
                        return out
                    names = set(kwargs({p: 0 for p in ps}))
                    if iname == "two" and not ({"m"} <= names <= {"m", "n"}):
                        continue
                    if iname == "same" and not ({"a"} <= names <= {"a", "b", "c"}):
                        continue
                    if any(t in ps and t not in mp.values() for t in mp):
                        continue  # the mapped name is also an unmapped parameter: ambiguous
                    src = isrc + "@does(_impl%s)\ndef f(%s) -> Any:\n    pass\ndef g(f: Any) -> Any:\n    return ('g', f)\n" % (
                        "".join(", %s=%r" % kv for kv in mp.items()), sig)
                    nodes = {"f": set(ps), "g": {"f"}, **{p: "input" for p in ps}}
                    runs = []
                    for sup in subsets(ps):
                        opt = ps[nparams - nopt:]
                        if any(p not in sup and p not in opt for p in ps):
                            runs.append((["g"], {p: p.upper() for p in sup}, {}, Exception))
                            continue
                        kw = kwargs({p: (p.upper() if p in sup else "d" + p) for p in ps})
                        if iname == "kw":
                            v = ("kw", sorted(kw.items()))
                        elif iname == "two":
                            v = ("two", kw["m"], kw.get("n", "dn"))
                        else:
                            v = ("same", kw["a"], kw.get("b", "ib"), kw.get("c", "ic"))
                        runs.append((["g", "f"], {p: p.upper() for p in sup}, {}, {"g": ("g", v), "f": v}))
                    report(ctx, "does|%s|%d|%d|%s" % (iname, nparams, nopt, mp), src, nodes, runs, {}, dict(kind="job", job=["does"]))


def check_two_fns(ctx):
    """several decorated functions in one module and expansions feeding each other"""
    for perm in itertools.permutations(range(3)):
        parts = [
            "@parameterize(p1=dict(x=value(1)), p2=dict(x=source('e1')))\ndef p(x: Any, w: Any = 'dw') -> Any:\n    return ('p', x, w)\n",
            "@extract_fields({'e1': Any, 'e2': Any})\n@inject(s=source('base'))\ndef e(s: Any) -> dict:\n    return {'e1': ('e1', s), 'e2': ('e2', s)}\n",
            "@parameterize_sources(q1=dict(l='p1', r='p2'), q2=dict(l='p2', r='e2'))\ndef q(l: Any, r: Any) -> Any:\n    return ('q', l, r)\n",
        ]
        src = "".join(parts[i] for i in perm)
        e1, e2 = ("e1", "B"), ("e2", "B")

        def w(wv):
            p1, p2 = ("p", 1, wv), ("p", e1, wv)
            return {"p1": p1, "p2": p2, "q1": ("q", p1, p2), "q2": ("q", p2, e2), "e1": e1, "e2": e2, "e": {"e1": e1, "e2": e2}}
        nodes = {"p1": {"w"}, "p2": {"e1", "w"}, "e": {"base"}, "e1": {"e"}, "e2": {"e"}, "q1": {"p1", "p2"}, "q2": {"p2", "e2"}, "w": "input", "base": "input"}
        alln = sorted(w(0))
        runs = []
        for r in range(1, 3):
            for sel in itertools.permutations(alln, r):
                runs.append((list(sel), {"base": "B"}, {}, w("dw")))
        runs.append((alln, {"base": "B", "w": None}, {}, w(None)))
        report(ctx, "mixed|%s" % (perm,), src, nodes, runs, {}, dict(kind="job", job=["mixed"]))


def jobs(tier):
    out = []
    for a in OPT_A:
        out.append(("one", a))
        for s in range(len(SECOND)):
            out.append(("two", a, s))
    return out + [("fields",), ("columns",), ("pcols",), ("does",), ("mixed",)]


def run_job(job, ctx):
    with ctx.guard(3000):
        if job[0] == "one":
            for b, c in itertools.product(OPT_B, OPT_C):
                m = dict(a=job[1], b=b, c=c)
                for form in ("parameterize", "documented", "sources", "values", "resolve", "resolve_from_config"):
                    check_params(form, {"p": m}, ctx)
                check_params("inject", {"f": m}, ctx)
        elif job[0] == "two":
            m2 = dict(zip("abc", SECOND[job[2]]))
            for b, c in itertools.product(OPT_B, OPT_C):
                m = dict(a=job[1], b=b, c=c)
                for form in ("parameterize", "sources", "values", "resolve"):
                    check_params(form, {"p": m, "q": m2}, ctx)
                if ctx.tier != "quick":
                    check_params("parameterize", {"q": m2, "p": m}, ctx)
                    for m3 in SECOND:
                        check_params("parameterize", {"p": m, "q": m2, "r": dict(zip("abc", m3))}, ctx)
        else:
            dict(fields=check_fields, columns=check_columns, pcols=check_param_columns, does=check_does, mixed=check_two_fns)[job[0]](ctx)


def replay(case, ctx):
    if case.get("kind") == "params":
        check_params(case["form"], case["outs"], ctx)
    else:
        run_job(tuple(case["job"]), ctx)
