"""C13: sub-dataflows and pipes compute their inlined equivalent.

Every combination of inner dataflow, wiring of its inputs, inner and outer config, decorator form and second instance; every sequence of
pipe steps over a step alphabet with conditions, targets and namespaces; every assignment of mutators to targets.  Each program is built
and executed on the real code and compared with a reference that inlines the text."""
from __future__ import annotations
import asyncio, itertools
from mc.core import exc_brief
from mc.dagcmp import HDR, build, nodes_of, same
from mc.progs import make_module, drop_module, subsets
from hamilton import async_driver

TECHNIQUE = ("exhaustive enumeration of programs using sub-dataflows, pipes and mutations within bounds, each built and executed on the real "
             "code and compared with a reference evaluator that inlines them")
RULE = ("state = one program with its config; transition = one build or execution; trace = one program with all its executions (all choices of "
        "requested instances, overrides inside one instance) compared with the inlined reference")
ASSUMPTIONS = ["up to two instances per program, nested two deep; inner dataflows of up to four functions", "up to three pipe steps, two mutators, two targets",
               "names that two decorators would define twice are not claimed beyond being rejected"]
BUDGET = {"quick": 400, "thorough": 3 * 3600}


class Prog:
    def __init__(self, key, mods, src, case):
        self.key, self.mods, self.src, self.case = key, mods, src, case

    def open(self, config):
        self.made = []
        src = self.src
        for alias, s in self.mods.items():
            for a2, m2 in zip(self.mods, self.made):
                s = s.replace("@@%s@@" % a2, m2.__name__)
            self.made.append(make_module(HDR + s))
        for a2, m2 in zip(self.mods, self.made):
            src = src.replace("@@%s@@" % a2, m2.__name__)
        try:
            dr, ms = build(src, config)
        except BaseException:
            self.close()
            raise
        self.made += ms
        return dr

    def close(self):
        for m in self.made:
            drop_module(m)


def check(ctx, prog, config, runs, required=(), absent=()):
    """runs: list of (outputs, inputs, overrides, want); want: dict or Exception"""
    key = "%s|%s" % (prog.key, sorted(config.items(), key=str))
    ctx.state(key)
    ctx.cases += 1
    ctx.trace()
    ctx.transition(1 + len(runs))
    msg = None
    try:
        dr = prog.open(config)
    except Exception as e:
        msg = "building raised " + exc_brief(e)
    if msg is None:
        try:
            got = nodes_of(dr)
            for n in required:
                if n not in got:
                    msg = "node %s is missing (nodes: %s)" % (n, sorted(got))
            for n in absent:
                if n in got:
                    msg = "node %s should not exist" % n
            for outs, inputs, ovr, want in runs if msg is None else ():
                try:
                    r = dr.execute(list(outs), inputs=dict(inputs), overrides=dict(ovr))
                except Exception as e:
                    if want is not Exception:
                        msg = "executing %s (inputs %s, overrides %s) raised %s" % (list(outs), sorted(inputs), ovr, exc_brief(e))
                    continue
                if want is Exception:
                    msg = "executing %s (inputs %s) gave %r, expected an error" % (list(outs), sorted(inputs), r)
                elif not same(dict(r), {o: want[o] for o in outs}):
                    msg = "executing %s (inputs %s, overrides %s) gave %r, expected %r" % (list(outs), sorted(inputs), ovr, dict(r), {o: want[o] for o in outs})
                if msg:
                    break
        finally:
            prog.close()
    ctx.outcome(prog.key.split("|")[0] + (" differs" if msg else " same"))
    if msg:
        txt = "".join("# module %s\n%s" % (a, s) for a, s in prog.mods.items()) + "# main\n" + prog.src
        ctx.violation(key, "config %s: %s\n%s" % (config, msg, txt), prog.case)
    return msg


# ------------------------------------------------------------------------------------------------ subdags
# inner dataflows: functions as (name, [params], defaults, condition on c)
INNER = {
    "two": [("g", ["x"], {}, None), ("h", ["g", "y"], {"y": "dy"}, None)],
    "shared": [("g", ["x", "c"], {"c": "dc"}, None), ("h", ["g", "x"], {}, None)],
    "cond": [("g", ["x"], {}, 1), ("g", ["x", "y"], {}, 2), ("h", ["g"], {}, None)],
    "shadow": [("g", ["u"], {}, None), ("w", ["g", "x"], {}, None), ("h", ["w", "g"], {}, None)],
}
OUTER_FNS = {"u": (), "x": (), "g": ("u",)}  # outer functions; g has the name of an inner one
XOPT = ["-", "value", "u", "y", "gout", "None"]
YOPT = ["-", "value", "x"]
COPT = [None, 1, 2]
XDEP = {"value": "value('lx')", "u": "source('u')", "y": "source('y')", "x": "source('x')", "gout": "source('g')", "None": "value(None)"}


def inner_src(fns):
    out = ""
    for name, ps, dflt, cond in fns:
        dec = "" if cond is None else "@config.when(c=%d)\n" % cond
        suffix = "" if cond is None else "__c%d" % cond
        sig = ", ".join("%s: Any%s" % (p, " = %r" % dflt[p] if p in dflt else "") for p in ps)
        out += "%sdef %s%s(%s) -> Any:\n    return ('%s%s', %s)\n" % (dec, name, suffix, sig, name, suffix, "".join(p + ", " for p in ps))
    return out


class Missing(Exception):
    pass


class Ref:
    """inlining evaluator: scope lookups by name"""

    def __init__(self, config, inputs, overrides):
        self.config, self.inputs, self.ovr = config, inputs, overrides
        self.inst = {}

    def add(self, name, ns, inner, inputs, cfg, external, final_params, final_dflt=None):
        self.inst[name] = dict(ns=ns, inner=inner, inputs=inputs, cfg=cfg, external=external, params=final_params, dflt=final_dflt or {})

    def outer(self, n):
        if n in self.ovr:
            return self.ovr[n]
        if n in self.inst:
            return self.final(n)
        if n in OUTER_FNS:
            return ("outer_" + n,) + tuple(self.outer(p) for p in OUTER_FNS[n])
        if n in self.inputs:
            return self.inputs[n]
        if n in self.config:
            return self.config[n]
        raise Missing(n)

    def fns(self, i):
        cfg = dict(self.config, **i["cfg"])
        out = {}
        for name, ps, dflt, cond in i["inner"]:
            if cond is None or cfg.get("c") == cond:
                out[name] = (name + ("" if cond is None else "__c%d" % cond), ps, dflt)
        return out

    def scoped(self, i, n):
        """value of name n seen inside instance i"""
        full = "%s.%s" % (i["ns"], n)
        f = self.fns(i)
        if n in f or n in i["inputs"] or n in i["cfg"]:
            if full in self.ovr:
                return self.ovr[full]
        if n in f:
            label, ps, dflt = f[n]
            args = []
            for p in ps:
                try:
                    args.append(self.scoped(i, p))
                except Missing:
                    if p not in dflt or self.blocked(i, p):
                        raise
                    args.append(dflt[p])
            return (label,) + tuple(args)
        if n in i["inputs"]:
            k, v = i["inputs"][n]
            return v if k == "lit" else self.outer(v)
        if n in i["cfg"]:
            return i["cfg"][n]
        return self.outer(n)

    def blocked(self, i, p):
        """p is explicitly wired to something that is missing: that is an error, not a default"""
        return p in self.fns(i) or p in i["inputs"]

    def final(self, name):
        i = self.inst[name]
        args = []
        for p in i["params"]:
            args.append(self.outer(p) if p in i["external"] else self.scoped(i, p))
        return ("final",) + tuple(args)


def dep(opt):
    if opt == "value":
        return ("lit", "lx")
    if opt == "None":
        return ("lit", None)
    return ("src", {"gout": "g"}.get(opt, opt))


def opts_kw(x, y, c):
    kw = {}
    if x != "-":
        kw["x"] = dep(x)
    if y != "-":
        kw["y"] = dep(y)
    return kw, ({} if c is None else {"c": c})


def kw_src(inp, cfg, ns=None, ext=()):
    def d(v):
        return "value(%r)" % (v[1],) if v[0] == "lit" else "source(%r)" % v[1]
    parts = []
    if inp:
        parts.append("inputs={%s}" % ", ".join("%r: %s" % (k, d(v)) for k, v in inp.items()))
    if cfg:
        parts.append("config=%r" % (cfg,))
    if ns:
        parts.append("namespace=%r" % ns)
    if ext:
        parts.append("external_inputs=%r" % (list(ext),))
    return "".join(", " + p for p in parts)


OUTER_SRC = "".join("def %s(%s) -> Any:\n    return ('outer_%s', %s)\n" % (n, ", ".join(p + ": Any" for p in ps), n, "".join(p + ", " for p in ps)) for n, ps in OUTER_FNS.items())
SECOND = [("-", "-", None), ("u", "value", 1), ("value", "-", 2), ("y", "x", 2)]


def sub_case(ctx, inner, o1, o2, form, config, ext):
    fns = INNER[inner]
    i1, c1 = opts_kw(*o1)
    insts = [("f1", i1, c1)]
    if o2 is not None:
        i2, c2 = opts_kw(*o2)
        insts.append(("f2", i2, c2))
    if form == "chain":  # the second instance consumes the first
        insts[1][1]["x"] = ("src", "f1")
    if any(set(i) & set(c) for _, i, c in insts):
        return
    ext = ["u"] if ext else []
    # keep to outer config keys that do not conflict with a pure input of the same name
    params = ["h", "g"] + ext
    finalsrc = "def %%s(%s) -> Any:\n    return ('final', %s)\n" % (", ".join(p + ": Any" for p in params), "".join(p + ", " for p in params))
    src = "import @@m@@ as _m\n" + OUTER_SRC
    ns = {"f1": "f1", "f2": "f2"}
    if form in ("plain", "chain"):
        for nme, i, c in insts:
            src += "@subdag(_m%s)\n" % kw_src(i, c, None, ext) + finalsrc % nme
    elif form == "callables":
        src = src.replace("import @@m@@ as _m\n", "import @@m@@ as _m\n_fs = [v for k, v in vars(_m).items() if getattr(v, '__module__', None) == _m.__name__]\n")
        for nme, i, c in insts:
            src += "@subdag(*_fs%s)\n" % kw_src(i, c, None, ext) + finalsrc % nme
    elif form == "namespace":
        ns = {"f1": "n1", "f2": "n2"}
        for nme, i, c in insts:
            src += "@subdag(_m%s)\n" % kw_src(i, c, ns[nme], ext) + finalsrc % nme
    elif form == "param":
        # shared options of the decorator, overridden per instance
        d = []
        for nme, i, c in insts:
            inner_kw = kw_src(i, c, None, ext)
            d.append("%s=dict(%s)" % (nme, inner_kw[2:]))
        src += "@parameterized_subdag(_m, %s)\n" % ", ".join(d) + finalsrc % "_p".replace("_p", "p")
    elif form == "param_shared":
        shared_i, shared_c = {"x": ("lit", "shared")}, {"c": 1}
        if any("c" in i for _, i, _ in insts):
            return
        d = []
        for nme, i, c in insts:
            d.append("%s=dict(%s)" % (nme, kw_src(i, c)[2:]))
        src += "@parameterized_subdag(_m%s, %s)\n" % (kw_src(shared_i, shared_c, None, ext), ", ".join(d)) + finalsrc % "p"
        insts = [(n, dict(shared_i, **i), dict(shared_c, **c)) for n, i, c in insts]
    names = [n for n, _, _ in insts]
    prog = Prog("sub|%s|%s|%s|%s|%s" % (inner, o1, o2, form, bool(ext)), {"m": inner_src(fns)}, src,
                dict(kind="sub", args=[inner, list(o1), None if o2 is None else list(o2), form, config, bool(ext)]))

    def ev(outs, inputs, ovr):
        r = Ref(config, inputs, ovr)
        for n, i, c in insts:
            r.add(n, ns[n], fns, i, c, ext, params)
        out = {}
        for o in outs:
            if "." in o:
                q = [k for k in ns if ns[k] == o.split(".")[0]][0]
                out[o] = r.ovr[o] if o in r.ovr else r.scoped(r.inst[q], o.split(".")[1])
            else:
                out[o] = r.outer(o)
        return out
    r0 = Ref(config, {}, {})
    for n, i, c in insts:
        r0.add(n, ns[n], fns, i, c, ext, params)
    if any("g" not in r0.fns(r0.inst[n]) for n in names):
        return  # the final function's parameter would be nowhere
    runs = []
    sels = [names, names[::-1]] + [[n] for n in names] + [[ns[names[-1]] + ".g", names[0]]]
    for inputs in ({"y": ("in", "y")}, {}):
        for sel in sels:
            runs.append((sel, inputs, {}, tryev(ev, sel, inputs, {})))
    full = {"y": ("in", "y")}
    for ovr in ({ns["f1"] + ".g": "OV"}, {"u": "OU"}, {"g": "OG"}, {"f1": "OF"}, {"x": "OX"}):
        runs.append((names, full, ovr, tryev(ev, names, full, ovr)))
    check(ctx, prog, config, runs, required=names + ["%s.%s" % (ns[n], k) for n in names for k in r0.fns(r0.inst[n])])


def tryev(ev, *a):
    try:
        return ev(*a)
    except Missing:
        return Exception


def run_sub(ctx, inner, form):
    for o1 in itertools.product(XOPT, YOPT, COPT):
        for o2 in ([None] + SECOND if form != "chain" else SECOND):
            if inner == "shadow" and o1[1] != "-":
                continue
            for config in ({}, {"c": 1}, {"c": 2}):
                for ext in (False, True):
                    if ctx.tier == "quick" and (ext and o2 is not None and o2 != SECOND[1]):
                        continue
                    sub_case(ctx, inner, o1, o2, form, config, ext)


# decorated inner functions and nesting, against hand-written text
def inlined_cases():
    """(name, modules, main source, config list, hand-written equivalent as a function config -> (env -> outputs))"""
    L = []
    inner_deco = ("@parameterize(p1=dict(x=value(1)), p2=dict(x=source('q')))\ndef p(x: Any, k: Any = 'dk') -> Any:\n    return ('p', x, k)\n"
                  "@extract_fields({'e1': Any, 'e2': Any})\ndef e(p1: Any, p2: Any) -> dict:\n    return {'e1': ('e1', p1), 'e2': ('e2', p2)}\n")

    def deco(q, k):
        p1, p2 = ("p", 1, k), ("p", q, k)
        return p1, p2, ("e1", p1), ("e2", p2)

    for qsrc, qv in (("", None), ("inputs={'q': value(5)}", 5), ("inputs={'q': source('z')}", "z"), ("inputs={'q': source('z'), 'k': value('K')}", "z"), ("config={'k': 'CK'}", None)):
        k = "K" if "'K'" in qsrc else "CK" if "CK" in qsrc else "dk"
        src = "import @@m@@ as _m\n@subdag(_m%s)\ndef f(e1: Any, e2: Any, p1: Any) -> Any:\n    return ('f', e1, e2, p1)\n" % (", " + qsrc if qsrc else "")

        def want(cfg, env, qv=qv, k=k):
            kk = env.get("k", k) if k == "dk" else k
            q = env["z"] if qv == "z" else env["q"] if qv is None else qv
            p1, p2, e1, e2 = deco(q, kk)
            return {"f": ("f", e1, e2, p1), "f.e1": e1, "f.p2": p2, "f.e": {"e1": e1, "e2": e2}}
        L.append(("deco" + qsrc, {"m": inner_deco}, src, [{}], want, [{"q": "Q", "z": "Z"}, {"q": "Q", "z": "Z", "k": "EK"}] if k == "dk" else [{"q": "Q", "z": "Z"}]))
    # nesting: outer subdag around a module that itself has a subdag
    inner1 = "def a(x: Any) -> Any:\n    return ('a', x)\ndef b(a: Any, t: Any = 'dt') -> Any:\n    return ('b', a, t)\n"
    for i1, i2 in itertools.product(["", "inputs={'x': value(1)}", "inputs={'x': source('y')}", "inputs={'x': source('b0')}"], ["", "inputs={'x': value(2)}", "inputs={'y': source('x')}", "inputs={'y': value(3), 'x': source('y')}"]):
        mid = "import @@m@@ as _m\ndef b0(x: Any) -> Any:\n    return ('b0', x)\n@subdag(_m%s)\ndef s(b: Any, a: Any) -> Any:\n    return ('s', b, a)\n" % (", " + i1 if i1 else "")
        main = "import @@n@@ as _n\n@subdag(_n%s)\ndef f(s: Any, b0: Any) -> Any:\n    return ('f', s, b0)\n@subdag(_n, inputs={'x': value('fx2'), 'y': value('fy2')}, config={'t': 'T'})\ndef f2(s: Any) -> Any:\n    return ('f2', s)\n" % (", " + i2 if i2 else "")

        def want(cfg, env, i1=i1, i2=i2):
            def mid_scope(x, y, t):
                b0 = ("b0", x) if x is not KeyError else KeyError
                xi = {"": x, "inputs={'x': value(1)}": 1, "inputs={'x': source('y')}": y, "inputs={'x': source('b0')}": b0}[i1]
                a = ("a", xi)
                b = ("b", a, t)
                return ("s", b, a), b0, a, b
            x, y = env["x"], env["y"]
            mx, my = {"": (x, y), "inputs={'x': value(2)}": (2, y), "inputs={'y': source('x')}": (x, x), "inputs={'y': value(3), 'x': source('y')}": (y, 3)}[i2]
            t = env.get("t", "dt")
            s, b0, a, b = mid_scope(mx, my, t)
            s2, _, a2, b2 = mid_scope("fx2", "fy2", "T")
            return {"f": ("f", s, b0), "f2": ("f2", s2), "f.s": s, "f2.s": s2, "f.s.a": a, "f2.s.b": b2}
        L.append(("nest|%s|%s" % (i1, i2), {"m": inner1, "n": mid}, main, [{}], want, [{"x": "X", "y": "Y"}, {"x": "X", "y": "Y", "t": "ET"}]))
    # config of an outer subdag reaches the inner one, inner config wins
    innerc = "@config.when(c=1)\ndef a__one(x: Any) -> Any:\n    return ('a1', x)\n@config.when(c=2)\ndef a__two(x: Any) -> Any:\n    return ('a2', x)\n@config.when_not_in(c=[1, 2])\ndef a__other(x: Any) -> Any:\n    return ('ao', x)\n"
    for ci, co in itertools.product([None, 1, 2], repeat=2):
        mid = "import @@m@@ as _m\n@subdag(_m%s)\ndef s(a: Any) -> Any:\n    return ('s', a)\n" % ("" if ci is None else ", config={'c': %d}" % ci)
        main = ("import @@n@@ as _n\nimport @@m@@ as _m\n@subdag(_n%s)\ndef f(s: Any) -> Any:\n    return ('f', s)\n"
                "@subdag(_m)\ndef d(a: Any) -> Any:\n    return ('d', a)\n") % ("" if co is None else ", config={'c': %d}" % co)

        def want(cfg, env, ci=ci, co=co):
            c = ci or co or cfg.get("c")
            lab = {1: "a1", 2: "a2"}.get(c, "ao")
            lab0 = {1: "a1", 2: "a2"}.get(cfg.get("c"), "ao")
            return {"f": ("f", ("s", (lab, env["x"]))), "d": ("d", (lab0, env["x"]))}
        L.append(("cfg|%s|%s" % (ci, co), {"m": innerc, "n": mid}, main, [{}, {"c": 1}, {"c": 2}, {"c": 3}], want, [{"x": "X"}]))
    # an input that only the final function uses; a final function that is itself expanded, renamed by config, validated by a pipe
    g = "def g(x: Any = 'dx') -> Any:\n    return ('g', x)\n"
    for isrc, iv in (("value(3)", 3), ("source('y')", "Y"), ("value(None)", None)):
        main = "import @@m@@ as _m\n@subdag(_m, inputs={'k': %s})\ndef f(g: Any, k: Any) -> Any:\n    return ('f', g, k)\n" % isrc
        L.append(("finalonly|%s" % isrc, {"m": g}, main, [{}], lambda cfg, env, iv=iv: {"f": ("f", ("g", "dx"), iv)}, [{"y": "Y"}]))
    main = "import @@m@@ as _m\n@extract_fields({'p': Any, 'q': Any})\n@subdag(_m, inputs={'x': source('y')})\ndef f(g: Any) -> dict:\n    return {'p': ('p', g), 'q': 1}\n"
    L.append(("fields of final", {"m": g}, main, [{}], lambda cfg, env: {"p": ("p", ("g", "Y")), "q": 1, "f.g": ("g", "Y")}, [{"y": "Y"}]))
    main = ("import @@m@@ as _m\n@config.when(c=1)\n@subdag(_m, inputs={'x': value(1)})\ndef f__one(g: Any) -> Any:\n    return ('f1', g)\n"
            "@config.when_not(c=1)\n@subdag(_m, inputs={'x': value(2)})\ndef f__two(g: Any) -> Any:\n    return ('f2', g)\n")
    L.append(("config of final", {"m": g}, main, [{}, {"c": 1}, {"c": 2}], lambda cfg, env: {"f": ("f1", ("g", 1)) if cfg.get("c") == 1 else ("f2", ("g", 2))}, [{}]))
    main = ("import @@m@@ as _m\ndef _st(v: Any, k: Any) -> Any:\n    return ('st', v, k)\n@pipe_output(step(_st, k=source('y')).when(c=1), step(_st, k=2).named('z'))\n@subdag(_m, inputs={'x': source('y')})\ndef f(g: Any) -> Any:\n    return ('f', g)\n"
            "@subdag(_m, inputs={'x': source('f')})\ndef h(g: Any) -> Any:\n    return ('h', g)\n")

    def want(cfg, env):
        v = ("f", ("g", "Y"))
        raw = v
        if cfg.get("c") == 1:
            v = ("st", v, "Y")
        v = ("st", v, 2)
        return {"f": v, "f.z": v, "h": ("h", ("g", v)), "f.raw": raw, "f.g": ("g", "Y")}
    L.append(("pipe on final", {"m": g}, main, [{}, {"c": 1}], want, [{"y": "Y"}]))
    # pipes inside a sub-dataflow, conditions from the instance's config
    inner_pipe = ("def _s1(v: Any, k: Any) -> Any:\n    return ('s1', v, k)\ndef _s2(v: Any) -> Any:\n    return ('s2', v)\n"
                  "@pipe_input(step(_s1, k=source('j')).when(c=1), step(_s2).when_not(c=1), on_input='x')\ndef a(x: Any) -> Any:\n    return ('a', x)\n"
                  "@pipe_output(step(_s2).when_in(c=[1, 2]), step(_s1, k=value(7)))\ndef b(a: Any, j: Any) -> Any:\n    return ('b', a, j)\n"
                  "def j(x: Any) -> Any:\n    return ('j', x)\n"
                  "@mutate(apply_to(j).when(c=2))\ndef _mu(v: Any) -> Any:\n    return ('mu', v)\n")
    for c1, c2 in itertools.product([None, 1, 2], repeat=2):
        main = "import @@m@@ as _m\n" + "".join("@subdag(_m, inputs={'x': %s}%s)\ndef %s(b: Any) -> Any:\n    return ('%s', b)\n" % (
            x, "" if c is None else ", config={'c': %d}" % c, n, n) for n, x, c in (("f1", "value(1)", c1), ("f2", "source('y')", c2)))

        def want(cfg, env, c1=c1, c2=c2):
            out = {}
            for n, x, c in (("f1", 1, c1), ("f2", env["y"], c2)):
                c = cfg.get("c") if c is None else c
                j = ("j", x)
                if c == 2:
                    j = ("mu", j)
                a = ("a", ("s1", x, j) if c == 1 else ("s2", x))
                b = ("b", a, j)
                if c in (1, 2):
                    b = ("s2", b)
                b = ("s1", b, 7)
                out.update({n: (n, b), n + ".j": j, n + ".a": a, n + ".b": b})
            return out
        L.append(("pipes inside|%s|%s" % (c1, c2), {"m": inner_pipe}, main, [{}, {"c": 1}, {"c": 2}], want, [{"y": "Y"}]))
    return L


def run_inlined(ctx):
    for name, mods, main, cfgs, want, envs in inlined_cases():
        prog = Prog("inlined|" + name, mods, main, dict(kind="inlined"))
        for cfg in cfgs:
            runs = []
            for env in envs:
                w = want(cfg, env)
                keys = list(w)
                for sel in [keys, keys[::-1]] + [[k] for k in keys]:
                    runs.append((sel, env, {}, w))
            check(ctx, prog, cfg, runs)


# ------------------------------------------------------------------------------------------------ pipes
# step alphabet: (source, function, extra argument kind, condition)
STEPS = {
    "s": ("step(_s)", "s", None, None),
    "sv": ("step(_r, k=value(1))", "r", ("lit", 1), None),
    "sl": ("step(_r, None)", "r", ("lit", None), None),
    "su": ("step(_r, k=source('u'))", "r", ("src", "u"), None),
    "sa": ("step(_r, source('a'))", "r", ("src", "a"), None),
    "w1": ("step(_s).when(c=1)", "s", None, lambda c: c == 1),
    "n1": ("step(_r, k=source('u')).when_not(c=1)", "r", ("src", "u"), lambda c: c != 1),
    "i12": ("step(_s).when_in(c=[1, 2]).when_not(d=1)", "s", None, lambda c: c in (1, 2)),
    "o12": ("step(_r, k=2).when_not_in(c=[1, 2]).named('nm')", "r", ("lit", 2), lambda c: c not in (1, 2)),
    "nm": ("step(_s).named('nm2')", "s", None, None),
}
ABC_STEPS = list(STEPS)
STEP_SRC = "def _s(v: Any) -> Any:\n    return ('s', v)\ndef _r(v: Any, k: Any) -> Any:\n    return ('r', v, k)\n"


def apply_steps(seq, v, env, c):
    for s in seq:
        _, fn, extra, cond = STEPS[s]
        if cond and not cond(c):
            continue
        if fn == "s":
            v = ("s", v)
        else:
            v = ("r", v, extra[1] if extra[0] == "lit" else env[extra[1]])
    return v


def pipe_case(ctx, pin, pout, on_input, ns, seqg, config, async_):
    if "o12" in pin and pin.count("o12") > 1 or pout.count("o12") > 1 or pin.count("nm") > 1 or pout.count("nm") > 1:
        return  # one name given twice
    if ns == "None" and seqg:
        return
    if ns == "None" and pin and pout:
        return  # both pipes would name nodes the same
    nskw = {"...": "", "None": ", namespace=None", "n": ", namespace='n%s'"}[ns]

    def nk(tag):
        return nskw % tag if "%" in nskw else nskw
    if pin and pout and ns == "...":
        pin_ns = ", namespace='pin'"  # otherwise both pipes of one function name nodes the same
    else:
        pin_ns = nk("i")
    dec = ""
    if pin:
        dec += "@pipe_input(%s%s%s)\n" % (", ".join(STEPS[s][0] for s in pin), pin_ns, "" if on_input is None else ", on_input=%r" % on_input)
    if pout:
        dec += "@pipe_output(%s%s)\n" % (", ".join(STEPS[s][0] for s in pout), nk("o"))
    kw = "async " if async_ else ""
    steps = STEP_SRC if not async_ else STEP_SRC.replace("def _s(", "async def _s(")
    src = steps + "def u() -> Any:\n    return ('u',)\n" + dec + kw + "def f(a: Any, b: Any) -> Any:\n    return ('f', a, b)\n"
    src += ("@pipe_output(%s%s)\n" % (", ".join(STEPS[s][0] for s in seqg), nk("g")) if seqg else "") + "def g(f: Any, u: Any) -> Any:\n    return ('g', f, u)\n"
    env = {"a": "A", "b": "B"}
    key = "pipe|%s|%s|%s|%s|%s|%s" % (",".join(pin), ",".join(pout), on_input, ns, ",".join(seqg), "async" if async_ else "sync")
    prog = Prog(key, {}, src, dict(kind="pipe", args=[list(pin), list(pout), on_input, ns, list(seqg), config, async_]))
    c = config.get("c")

    def ev(outs, inputs, ovr):
        e = dict(inputs)
        e["u"] = ovr.get("u", ("u",))
        fa, fb = e["a"], e["b"]
        tgt = on_input or "a"
        piped = apply_steps(pin, e[tgt], e, c)
        if tgt == "a":
            fa = piped
        else:
            fb = piped
        raw = ("f", fa, fb)
        active = any(STEPS[s][3] is None or STEPS[s][3](c) for s in pout)
        if active:
            raw = ovr.get("f.raw", raw)
        f = ovr.get("f", apply_steps(pout, raw, e, c))
        g = apply_steps(seqg, ("g", f, e["u"]), e, c)
        return {"f": f, "g": g, "f.raw": raw}
    active = any(STEPS[s][3] is None or STEPS[s][3](c) for s in pout)
    runs = [(sel, env, {}, ev(sel, env, {})) for sel in (["f"], ["g", "f"], ["g"] + (["f.raw"] if active else []))]
    runs.append((["g", "f"], env, {"u": "OU"}, ev(None, env, {"u": "OU"})))
    runs.append((["g"], env, {"f": "OF"}, ev(None, env, {"f": "OF"})))
    if active:
        runs.append((["g"], env, {"f.raw": "OR"}, ev(None, env, {"f.raw": "OR"})))
    if async_:
        return check_async(ctx, prog, config, runs[:3])
    check(ctx, prog, config, runs, required=["f", "g"] + (["f.raw"] if active else []), absent=[] if active else ["f.raw"])


def check_async(ctx, prog, config, runs):
    key = "%s|%s" % (prog.key, sorted(config.items()))
    ctx.state(key)
    ctx.cases += 1
    ctx.trace()
    ctx.transition(1 + len(runs))
    m = make_module(HDR + prog.src)
    msg = None

    async def go():
        dr = await async_driver.Builder().with_modules(m).with_config(config).build()
        for outs, inputs, ovr, want in runs:
            r = await dr.execute(list(outs), inputs=dict(inputs))
            if not same({o: r[o] for o in outs}, {o: want[o] for o in outs}) or set(r) != set(outs):
                return "executing %s gave %r, expected %r" % (outs, r, {o: want[o] for o in outs})
    try:
        msg = asyncio.run(go())
    except Exception as e:
        msg = "raised " + exc_brief(e)
    drop_module(m)
    if msg:
        ctx.violation(key, "async driver, config %s: %s\n%s" % (config, msg, prog.src), prog.case)


CONFIGS = [{}, {"c": 1}, {"c": 2}, {"c": 3}]


def seqs(n):
    out = [()]
    for k in range(1, n + 1):
        out += list(itertools.product(ABC_STEPS, repeat=k))
    return out


def run_pipe(ctx, first, ns):
    quick = ctx.tier == "quick"
    for rest in seqs(1 if quick else 2):
        seq = (first,) + rest
        for config in CONFIGS:
            for on in (None, "a", "b"):
                pipe_case(ctx, seq, (), on, ns, (), config, False)
                pipe_case(ctx, seq, (first,), on, ns, ("su",) if ns != "None" else (), config, False)
            pipe_case(ctx, (), seq, None, ns, (), config, False)
            if ns != "None":
                pipe_case(ctx, ("su",), seq, "b", ns, seq, config, False)
            if len(seq) <= 2 and ns == "...":
                pipe_case(ctx, (), seq, None, ns, (), config, True)
                pipe_case(ctx, seq, (), None, ns, (first,), config, True)


# targets of output pipes on functions with several outputs; mutations
MUT = {  # first mutator variants: (source, effect list of (target function, node filter or None, k value spec, condition))
    "f": ("@mutate(f)\ndef _m1(v: Any) -> Any:\n    return ('m1', v, None)\n", [("f", None, ("lit", None), None)]),
    "fg": ("@mutate(f, g)\ndef _m1(v: Any) -> Any:\n    return ('m1', v, None)\n", [("f", None, ("lit", None), None), ("g", None, ("lit", None), None)]),
    "fgk": ("@mutate(f, apply_to(g, k=value(2)), k=source('u'))\ndef _m1(v: Any, k: Any) -> Any:\n    return ('m1', v, k)\n", [("f", None, ("src", "u"), None), ("g", None, ("lit", 2), None)]),
    "when": ("@mutate(apply_to(f).when(c=1), apply_to(g).when_not(c=1), k=value(5))\ndef _m1(v: Any, k: Any) -> Any:\n    return ('m1', v, k)\n", [("f", None, ("lit", 5), lambda c: c == 1), ("g", None, ("lit", 5), lambda c: c != 1)]),
    "field": ("@mutate(apply_to(e).on_output('p'), f)\ndef _m1(v: Any) -> Any:\n    return ('m1', v, None)\n", [("e", ["p"], ("lit", None), None), ("f", None, ("lit", None), None)]),
    "fields": ("@mutate(e)\ndef _m1(v: Any) -> Any:\n    return ('m1', v, None)\n", [("e", ["p", "q"], ("lit", None), None)]),
    "named": ("@mutate(apply_to(f).named('mm'), apply_to(g).named('mm'))\ndef _m1(v: Any) -> Any:\n    return ('m1', v, None)\n", [("f", None, ("lit", None), None), ("g", None, ("lit", None), None)]),
}
MUT2 = {
    "-": ("", []),
    "f": ("@mutate(f)\ndef _m2(v: Any) -> Any:\n    return ('m2', v, None)\n", [("f", None, ("lit", None), None)]),
    "all": ("@mutate(g, f, apply_to(e).on_output(['q']))\ndef _m2(v: Any) -> Any:\n    return ('m2', v, None)\n", [("f", None, ("lit", None), None), ("g", None, ("lit", None), None), ("e", ["q"], ("lit", None), None)]),
    "k": ("@mutate(apply_to(f, k=source('g')).when_in(c=[1]), k=value(8))\ndef _m2(v: Any, k: Any) -> Any:\n    return ('m2', v, k)\n", [("f", None, ("src", "g"), lambda c: c == 1)]),
}


def mutate_case(ctx, k1, k2, pre, order, config, async_):
    c = config.get("c")
    kw = "async " if async_ else ""
    parts = ["def u() -> Any:\n    return ('u',)\n",
             ("@pipe_output(step(_s))\n" if pre else "") + kw + "def f(a: Any) -> Any:\n    return ('f', a)\n",
             "def g(a: Any) -> Any:\n    return ('g', a)\n",
             "@extract_fields({'p': Any, 'q': Any})\ndef e(a: Any) -> dict:\n    return {'p': ('p', a), 'q': ('q', a)}\n",
             "def z(f: Any, g: Any, p: Any, q: Any) -> Any:\n    return ('z', f, g, p, q)\n"]
    src = "def _s(v: Any) -> Any:\n    return ('s', v)\n" + "".join(parts)
    muts = [MUT[k1][0], MUT2[k2][0]]
    effects = [("m1", MUT[k1][1]), ("m2", MUT2[k2][1])]
    if order:
        muts, effects = muts[::-1], effects[::-1]
    src += "".join(muts)
    key = "mutate|%s|%s|%s|%s|%s" % (k1, k2, pre, order, "async" if async_ else "sync")
    prog = Prog(key, {}, src, dict(kind="mutate", args=[k1, k2, pre, order, config, async_]))

    def ev(a):
        vals = {"u": ("u",), "g": ("g", a), "f": ("s", ("f", a)) if pre else ("f", a), "p": ("p", a), "q": ("q", a)}
        fn_nodes = {"f": ["f"], "g": ["g"], "e": ["p", "q"]}
        # g's chain never depends on f, f's may depend on g: evaluate g first
        for target in ("g", "e", "f"):
            for lab, effs in effects:
                for t, flt, k, cond in effs:
                    if t != target or (cond and not cond(c)):
                        continue
                    for n in fn_nodes[t]:
                        if flt is None or n in flt:
                            vals[n] = (lab, vals[n], k[1] if k[0] == "lit" else vals[k[1]])
        vals["z"] = ("z", vals["f"], vals["g"], vals["p"], vals["q"])
        vals["e"] = {"p": ("p", a), "q": ("q", a)}
        return vals
    env = {"a": "A"}
    w = ev("A")
    runs = [(["z"], env, {}, w), (["f", "g", "p", "q", "e"], env, {}, w), (["f"], env, {}, w), (["q"], env, {}, w)]
    if async_:
        return check_async(ctx, prog, config, runs)
    check(ctx, prog, config, runs, absent=["_m1", "_m2"])


def run_mutate(ctx, k1):
    for k2, pre, order, config in itertools.product(MUT2, (False, True), (False, True), CONFIGS[:3]):
        mutate_case(ctx, k1, k2, pre, order, config, False)
        mutate_case(ctx, k1, k2, pre, order, config, True)


def run_targets(ctx):
    """output pipes with targets on functions with several outputs; one apply_to used by several mutators; a target that does not exist"""
    outs = ["p", "q", "r"]
    for t1, t2 in itertools.product([None] + [list(s) for s in subsets(outs, 1)] + ["p", "r"], repeat=2):
        for config in CONFIGS[:2]:
            for glob in (None, "p", ["q", "r"]):
                if glob is not None and (t1 is not None or t2 is not None):
                    continue
                def st(k, t, when=""):
                    return "step(_r, k=%r)%s%s" % (k, "" if t is None else ".on_output(%r)" % (t,), when)
                src = STEP_SRC + "@pipe_output(%s, %s%s)\n@extract_fields({'p': Any, 'q': Any, 'r': Any})\ndef f(a: Any) -> dict:\n    return {'p': ('p', a), 'q': ('q', a), 'r': ('r', a)}\n" % (
                    st(1, t1), st(2, t2, ".when(c=1)"), "" if glob is None else ", on_output=%r" % (glob,))
                src += "def z(r: Any, p: Any, q: Any) -> Any:\n    return ('z', p, q, r)\n"
                w = {"f": {n: (n, "A") for n in outs}}
                for n in outs:
                    v = (n, "A")
                    for k, t, on in ((1, t1, True), (2, t2, config.get("c") == 1)):
                        hit = (t is None or n == t or (isinstance(t, list) and n in t)) and (glob is None or n == glob or (isinstance(glob, list) and n in glob))
                        if on and hit:
                            v = ("r", v, k)
                    w[n] = v
                w["z"] = ("z", w["p"], w["q"], w["r"])
                prog = Prog("targets|%s|%s|%s" % (t1, t2, glob), {}, src, dict(kind="targets"))
                check(ctx, prog, config, [(["z", "f"] + outs, {"a": "A"}, {}, w), (["q"], {"a": "A"}, {}, w), (["z"], {"a": "A"}, {"q": "OQ"}, {"z": ("z", w["p"], "OQ", w["r"])})])
    src = ("def f(a: Any) -> Any:\n    return ('f', a)\n_t = apply_to(f)\n_w = apply_to(f).when(c=1)\n"
           "@mutate(_t, k=value(1))\ndef _m1(v: Any, k: Any) -> Any:\n    return ('m1', v, k)\n@mutate(_t, _w, k=value(2))\ndef _m2(v: Any, k: Any) -> Any:\n    return ('m2', v, k)\n"
           "@mutate(_w)\ndef _m3(v: Any) -> Any:\n    return ('m3', v)\n")
    for config in CONFIGS[:2]:
        v = ("m2", ("m1", ("f", "A"), 1), 2)
        if config.get("c") == 1:
            v = ("m3", ("m2", v, 2))
        check(ctx, Prog("targets|shared apply_to", {}, src, dict(kind="targets")), config, [(["f"], {"a": "A"}, {}, {"f": v})])
    for on in ("q", "v"):
        src = STEP_SRC + "@pipe_input(step(_s), on_input=%r)\ndef f(a: Any, b: Any) -> Any:\n    return ('f', a, b)\n" % on
        prog = Prog("targets|on_input %s" % on, {}, src, dict(kind="targets"))
        try:
            dr = prog.open({})
            r = dr.execute(["f"], inputs={"a": 1, "b": 2, on: 3})
            if r["f"] == ("f", ("s", 1), 2):
                ctx.violation("targets|on_input", "@pipe_input(on_input=%r) names no parameter of f(a, b), yet a is piped: %r" % (on, r), prog.case)
        except Exception:
            pass
        finally:
            prog.close()
    # the piped parameter has the name of a parameter of the step, and steps bind several parameters to one source
    for seq in [q for q in seqs(2) if q]:
        if seq.count("o12") > 1 or seq.count("nm") > 1:
            continue
        for tgt, other in (("k", "v"), ("v", "k")):
            src = STEP_SRC + "def u() -> Any:\n    return ('u',)\n@pipe_input(%s, on_input=%r)\ndef f(k: Any, v: Any) -> Any:\n    return ('f', k, v)\n" % (", ".join(STEPS[x][0] for x in seq), tgt)
            for config in CONFIGS[:2]:
                env = {"k": "K", "v": "V", "a": "A"}
                w = dict(env)
                w[tgt] = apply_steps(seq, env[tgt], dict(env, u=("u",)), config.get("c"))
                check(ctx, Prog("targets|names %s %s" % (tgt, seq), {}, src, dict(kind="targets")), config, [(["f"], env, {}, {"f": ("f", w["k"], w["v"])})])
    # two functions use one step function object, and one pipe decorator object
    src = STEP_SRC + ("_st = step(_r, k=value(1))\n_p = pipe_output(_st, _st)\n@_p\ndef f(a: Any) -> Any:\n    return ('f', a)\n@_p\ndef g(f: Any) -> Any:\n    return ('g', f)\n"
                      "@pipe_input(_st.when(c=1), _st, on_input='g')\n@pipe_output(_st)\ndef h(f: Any, g: Any) -> Any:\n    return ('h', f, g)\n").replace("on_input='g')", "on_input='g', namespace='hin')")
    for config in CONFIGS[:2]:
        def rr(v, n):
            for _ in range(n):
                v = ("r", v, 1)
            return v
        f = rr(("f", "A"), 2)
        g = rr(("g", f), 2)
        h = rr(("h", f, rr(g, 2 if config.get("c") == 1 else 1)), 1)
        check(ctx, Prog("targets|shared step", {}, src, dict(kind="targets")), config, [(["h", "g", "f"], {"a": "A"}, {}, {"f": f, "g": g, "h": h})])


def run_columns(ctx, lib):
    """with_columns: the frame gets exactly the selected columns, whichever other builds happened before"""
    pd = __import__(lib)
    if lib == "pandas":
        import hamilton.plugins.pandas_extensions  # noqa: F401
        hdr = "import pandas as pd\nfrom hamilton.plugins.h_pandas import with_columns\n"
    else:
        import hamilton.plugins.polars_extensions  # noqa: F401
        hdr = "import polars as pd\nfrom hamilton.plugins.h_polars import with_columns\n"
    inner = hdr + ("def s(a: pd.Series, b: pd.Series) -> pd.Series:\n    return a + b\n"
                   "@config.when(c=1)\ndef t__one(s: pd.Series, k: int) -> pd.Series:\n    return s * k\n"
                   "@config.when_not(c=1)\ndef t__two(s: pd.Series) -> pd.Series:\n    return s * 100\n"
                   "@config.when(c=1)\ndef only(a: pd.Series) -> pd.Series:\n    return a - 1\n"
                   "@config.when(c=2)\ndef other(t: pd.Series) -> pd.Series:\n    return t - 2\n")
    A, B = pd.Series([1, 2]), pd.Series([10, 20])
    mk = (lambda c: pd.DataFrame(c))

    def cols(cfg, k, a, b):
        c = cfg.get("c")
        v = {"s": a + b}
        v["t"] = v["s"] * k if c == 1 else v["s"] * 100
        if c == 1:
            v["only"] = a - 1
        if c == 2:
            v["other"] = v["t"] - 2
        return v
    for select in [None] + [list(x) for x in subsets(["s", "t", "a"], 1)] + [["t", "s"]]:
        for ns in (None, "n"):
            for order in itertools.permutations([{"c": 1, "k": 3}, {"c": 2}, {"c": 3}], 3 if ctx.tier != "quick" else 2):
                two = "" if ns is None else "@with_columns(_m, columns_to_pass=['a', 'b'], select=['s'])\n"
                src = hdr + "import @@m@@ as _m\n" + (
                    "@with_columns(_m, columns_to_pass=['a', 'b']%s%s, config_required=['c'])\ndef f(df: pd.DataFrame, z: int = 1) -> pd.DataFrame:\n    return df\n"
                    "%sdef g(df: pd.DataFrame, f: pd.DataFrame) -> list:\n    return [list(df.columns), list(f.columns)]\n") % (
                    "" if select is None else ", select=%r" % select, "" if ns is None else ", namespace='n'", two.replace(", select=['s']", ", select=['s'], config_required=['c']"))
                prog = Prog("columns|%s|%s|%s|%s" % (lib, select, ns, [o["c"] for o in order]), {"m": inner}, src, dict(kind="columns " + lib))
                # several drivers from the same modules
                mods = [make_module(HDR + inner)]
                m = make_module(HDR + src.replace("@@m@@", mods[0].__name__))
                ctx.state(prog.key)
                ctx.cases += 1
                ctx.trace()
                msg = None
                from hamilton import driver
                drs = []
                try:
                    for cfg in order:
                        drs.append((cfg, driver.Builder().with_modules(m).with_config(dict(cfg)).build()))
                        ctx.transition()
                    for cfg, dr in drs + drs[::-1]:
                        df = mk({"a": A, "b": B})
                        r = dr.execute(["f", "g"], inputs={"df": df})
                        ctx.transition()
                        v = cols(cfg, cfg.get("k"), A, B)
                        v["a"] = A
                        names = list(select) if select is not None else ["a", "b", "s", "t"] + (["only"] if cfg["c"] == 1 else ["other"] if cfg["c"] == 2 else [])
                        want = {"a": list(A), "b": list(B), **{n: list(v[n]) for n in names if n not in ("a", "b")}}
                        got = {c: list(r["f"][c]) for c in r["f"].columns}
                        if got != want:
                            msg = "config %s (drivers built with %s): f is %s, expected %s" % (cfg, order, got, want)
                        if set(r["g"][1]) != set(want) or set(r["g"][0]) != {"a", "b"} | ({"s"} if two else set()):
                            msg = msg or "config %s (drivers built with %s): g sees columns %s" % (cfg, order, r["g"])
                        if list(df.columns) != ["a", "b"]:
                            msg = msg or "the input data frame was changed"
                except Exception as e:
                    msg = "config %s of drivers %s: %s" % (cfg, order, exc_brief(e))
                for x in mods + [m]:
                    drop_module(x)
                ctx.outcome("columns" + (" differs" if msg else " same"))
                if msg:
                    ctx.violation(prog.key, msg + "\n" + inner + src, prog.case)


def jobs(tier):
    out = [("inlined",), ("targets",), ("columns pandas",), ("columns polars",)]
    for inner in INNER:
        for form in ("plain", "chain", "callables", "namespace", "param", "param_shared"):
            out.append(("sub", inner, form))
    for s in ABC_STEPS:
        for ns in ("...", "None", "n"):
            out.append(("pipe", s, ns))
    for k in MUT:
        out.append(("mutate", k))
    return out


def run_job(job, ctx):
    with ctx.guard(6000):
        if job[0] == "inlined":
            run_inlined(ctx)
        elif job[0] == "targets":
            run_targets(ctx)
        elif job[0].startswith("columns"):
            run_columns(ctx, job[0].split()[1])
        elif job[0] == "sub":
            run_sub(ctx, job[1], job[2])
        elif job[0] == "pipe":
            run_pipe(ctx, job[1], job[2])
        elif job[0] == "mutate":
            run_mutate(ctx, job[1])


def replay(case, ctx):
    k = case["kind"]
    if k == "sub":
        a = case["args"]
        sub_case(ctx, a[0], tuple(a[1]), None if a[2] is None else tuple(a[2]), a[3], a[4], a[5])
    elif k == "pipe":
        a = case["args"]
        pipe_case(ctx, tuple(a[0]), tuple(a[1]), a[2], a[3], tuple(a[4]), a[5], a[6])
    elif k == "mutate":
        mutate_case(ctx, *case["args"])
    else:
        run_job((k,), ctx)
