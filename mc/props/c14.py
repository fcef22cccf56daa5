"""C14: a dataflow builds exactly when it is well formed, independent of order.

All pairs of produced and requested types; all multisets of requested types of one input in every order and split over modules; every
placement of function definitions in modules with and without overriding, in every module order; every definition order of several
dataflows.  The oracle for types is a first-principles table, for names and overriding a dictionary."""
from __future__ import annotations
import itertools
from mc.core import exc_brief
from mc.dagcmp import HDR, nodes_of, same
from mc.progs import make_module, drop_module, subsets
from hamilton import driver

TECHNIQUE = ("exhaustive enumeration of modules within bounds (types, placements, definition and module orders), each built on the real code and "
             "compared with a first-principles reference for well-formedness and wiring")
RULE = "state = one set of modules in one order; transition = one build or execution; trace = one such set compared with the reference and with its reorderings"
ASSUMPTIONS = ["type alphabet of 19 annotations; unions requested from unions are not claimed", "up to three uses of one input, three modules, five functions",
               "inputs that one function declares Any while others disagree are a known finding"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}

TYPES_SRC = "class A:\n    pass\nclass B(A):\n    pass\nclass C:\n    pass\nclass G(list):\n    pass\nT1 = TypeVar('T1')\n"
TYPES = ["A", "B", "C", "int", "bool", "str", "object", "Any", "Optional[A]", "Union[A, C]", "Union[int, str]", "list", "List[int]", "List[str]", "Sequence[int]",
         "Dict[str, int]", "dict", "Tuple[int, str]", "int | None"]
SUB = {("B", "A"), ("bool", "int")}
UNIONS = {"Optional[A]": ["A", "NoneType"], "Union[A, C]": ["A", "C"], "Union[int, str]": ["int", "str"], "int | None": ["int", "NoneType"]}
PLAIN = {"A", "B", "C", "int", "bool", "str", "object", "list", "dict"}
GEN = {"list": ("list", None), "List[int]": ("list", "int"), "List[str]": ("list", "str"), "Sequence[int]": ("seq", "int"), "Dict[str, int]": ("dict", "str,int"), "dict": ("dict", None), "Tuple[int, str]": ("tuple", "int,str")}
GSUB = {("list", "seq"), ("tuple", "seq")}


def compat(p, r):
    """a value of type p may be given where r is requested: True, False or None (not claimed)"""
    if p == r or r == "Any" or p == "Any":
        return True
    if r == "object":
        return True if p in PLAIN else None
    if p == "object":
        return False
    if p in UNIONS:
        return None if r in UNIONS else False
    if r in UNIONS:
        return any(compat(p, m) for m in UNIONS[r])
    if p in GEN and r in GEN:
        (po, pa), (ro, ra) = GEN[p], GEN[r]
        if po == ro:
            return pa is None or ra is None or pa == ra
        if (po, ro) in GSUB:
            return None if po == "tuple" else (pa is None or pa == ra)
        return False
    if p in GEN or r in GEN:
        return None if (p, r) == ("str", "Sequence[int]") else False
    return (p, r) in SUB


def build(mods, **kw):
    b = driver.Builder().with_modules(*mods)
    if kw.get("config"):
        b = b.with_config(kw["config"])
    if kw.get("overrides"):
        b = b.allow_module_overrides()
    return b.build()


def types_module():
    return make_module(HDR + TYPES_SRC)


def run_edges(ctx, p):
    tm = types_module()
    for r in TYPES:
        want = compat(p, r)
        for future in (False, True):
            for opt in (False, True):
                src = ("from __future__ import annotations\n" if future else "") + HDR + "from %s import *\n" % tm.__name__ + (
                    "def prod() -> %s:\n    return None\ndef use(prod: %s%s) -> int:\n    return 1\n" % (p, r, " = None" if opt else ""))
                key = "edge|%s|%s|%s|%s" % (p, r, future, opt)
                ctx.state(key)
                ctx.cases += 1
                ctx.trace()
                ctx.transition()
                m = make_module(src)
                err = None
                try:
                    dr = build([m])
                    if nodes_of(dr)["use"][1] | nodes_of(dr)["use"][2] != {"prod"}:
                        ctx.violation(key, "use(prod: %s) does not depend on prod" % r, dict(job=["edges", p]))
                except Exception as e:
                    err = e
                drop_module(m)
                if want is None:
                    continue
                ctx.outcome("edge ok" if err is None else "edge rejected")
                if want and err is not None:
                    ctx.violation(key, "prod() -> %s used as prod: %s was rejected: %s" % (p, r, exc_brief(err)), dict(job=["edges", p]))
                elif not want and err is None:
                    ctx.violation(key, "prod() -> %s used as prod: %s was accepted" % (p, r), dict(job=["edges", p]))
                elif err is not None and not ("prod" in str(err) and "use" in str(err)):
                    ctx.violation(key, "the error does not name the parameter and the function: %s" % exc_brief(err), dict(job=["edges", p]))
    drop_module(tm)


def tightest(types):
    c = [t for t in types if all(compat(t, r) for r in types)]
    return c


def run_inputs(ctx, first):
    """uses of one input with the given types, all orders of the functions and two splits over modules"""
    tm = types_module()
    n = 3
    for rest in itertools.combinations_with_replacement(TYPES, n - 1):
        types = (first,) + rest
        if any(TYPES.index(r) < TYPES.index(first) for r in rest):
            continue
        if any(compat(a, b) is None for a in types for b in types):
            continue
        inconsistent = not tightest([t for t in types if t != "Any"] or ["Any"])
        if "Any" in types:
            # known finding: whether the others must agree depends on the order; only report it once
            if inconsistent:
                if types == ("int", "str", "Any") or set(types) == {"int", "str", "Any"}:
                    known_any(ctx, tm)
                continue
        cands = tightest([t for t in types if t != "Any"] or ["Any"])
        seen = {}
        for perm in sorted(set(itertools.permutations(types))):
            for split in (0, 1, 2):
                fs = ["def f%d(x: %s) -> int:\n    return %d\n" % (i, t, i) for i, t in enumerate(perm)]
                hdr = HDR + "from %s import *\n" % tm.__name__
                groups = [fs] if split == 0 else [fs[:1], fs[1:]] if split == 1 else [fs[2:], fs[:2]]
                mods = [make_module(hdr + "".join(g)) for g in groups]
                key = "inputs|%s|%s|%d" % (";".join(types), ";".join(perm), split)
                ctx.state(key)
                ctx.cases += 1
                ctx.trace()
                ctx.transition()
                err, typ = None, None
                try:
                    dr = build(mods)
                    v = [v for v in dr.list_available_variables() if v.name == "x"][0]
                    typ = v.type
                    if not v.is_external_input:
                        ctx.violation(key, "x is not an input", dict(job=["inputs", first]))
                except Exception as e:
                    err = e
                for m in mods:
                    drop_module(m)
                ctx.outcome("inputs ok" if err is None else "inputs rejected")
                if (err is None) != bool(cands):
                    ctx.violation(key, "functions f0, f1, f2 request x as %s (modules split %d): %s, expected %s" % (
                        ", ".join(perm), split, "accepted" if err is None else "rejected (%s)" % exc_brief(err), "accepted" if cands else "rejected"), dict(job=["inputs", first]))
                    return drop_module(tm)
                if err is not None and "x" not in str(err):
                    ctx.violation(key, "the error does not name the input: %s" % exc_brief(err), dict(job=["inputs", first]))
                if "Any" not in types and err is None and len(set(cands)) == 1:
                    ns = {**vars(tm)}
                    want = eval(cands[0], ns)
                    if typ != want:
                        ctx.violation(key, "functions request x as %s: the input has type %r, expected %r" % (", ".join(perm), typ, want), dict(job=["inputs", first]))
    drop_module(tm)


def known_any(ctx, tm):
    res = set()
    for perm in itertools.permutations(["int", "str", "Any"]):
        m = make_module(HDR + "".join("def f%d(x: %s) -> int:\n    return %d\n" % (i, t, i) for i, t in enumerate(perm)))
        try:
            build([m])
            res.add(True)
        except Exception:
            res.add(False)
        drop_module(m)
        ctx.transition()
    if len(res) > 1:
        ctx.violation("input requested as Any and as incompatible types", "functions request one input as int, str and Any: whether the dataflow builds depends on the order of the functions",
                      dict(job=["inputs", "int"]))


# ------------------------------------------------------------------------------------------------ placements
def run_placements(ctx, part):
    """three function names placed in up to three modules (any subset of modules each), all module orders, with and without overriding"""
    names = {"a": "()", "b": "(a: Any)", "c": "(a: Any, b: Any)"}
    places = [p for p in subsets(range(3))]
    combos = list(itertools.product(places, repeat=3))
    for idx, combo in enumerate(combos):
        if idx % 4 != part:
            continue
        for order in itertools.permutations(range(3)):
            for over in (False, True):
                for cfg in ({}, {"a": "CFG"}):
                    if cfg and order != (0, 1, 2):
                        continue
                    placement(ctx, names, combo, order, over, cfg, part)


def placement(ctx, names, combo, order, over, cfg, part):
    mods = []
    for mi in range(3):
        src = ""
        for (n, sig), pl in zip(names.items(), combo):
            if mi in pl:
                args = [x.split(":")[0].strip() for x in sig.strip("()").split(",") if x.strip()]
                src += "def %s%s -> Any:\n    return ('%s%d', %s)\n" % (n, sig, n, mi, "".join(a + ", " for a in args))
        mods.append(make_module(HDR + src))
    key = "place|%s|%s|%s|%s" % (combo, order, over, sorted(cfg))
    ctx.state(key)
    ctx.cases += 1
    ctx.trace()
    ctx.transition()
    case = dict(job=["place", part])
    dup = [n for n, pl in zip(names, combo) if len(pl) > 1 and n not in cfg]
    err = dr = None
    try:
        dr = build([mods[i] for i in order], overrides=over, config=dict(cfg))
    except Exception as e:
        err = e
    try:
        if dup and not over:
            ctx.outcome("place duplicate")
            if err is None:
                ctx.violation(key, "%s is defined in several modules, yet building succeeded" % dup, case)
            elif not any(n in str(err) for n in dup):
                ctx.violation(key, "the error does not name the function defined twice (%s): %s" % (dup, exc_brief(err)), case)
            return
        if err is not None:
            ctx.violation(key, "building raised %s" % exc_brief(err), case)
            return
        win = {}
        for i in order:
            for n, pl in zip(names, combo):
                if i in pl and n not in cfg:
                    win[n] = i
        got = nodes_of(dr)
        fns = {n for n, v in got.items() if not v[0]}
        if fns != set(win):
            ctx.violation(key, "function nodes are %s, expected %s" % (sorted(fns), sorted(win)), case)
            return
        env = {}
        for n in "abc":
            if n in win:
                args = {"a": (), "b": ("a",), "c": ("a", "b")}[n]
                env[n] = ("%s%d" % (n, win[n]),) + tuple(env[x] for x in args)
            else:
                env[n] = cfg.get(n, ("in", n))
        if win:
            used = {d for n in win for d in {"a": (), "b": ("a",), "c": ("a", "b")}[n]}
            inp = {n: ("in", n) for n in "abc" if n not in win and n in used and n not in cfg}
            r = dr.execute(sorted(win), inputs=inp)
            ctx.transition()
            ctx.outcome("place ok")
            if not same(dict(r), {n: env[n] for n in sorted(win)}):
                ctx.violation(key, "results %r, expected %r (placement %s, module order %s, overriding %s)" % (r, {n: env[n] for n in win}, combo, order, over), case)
    finally:
        for m in mods:
            drop_module(m)


def run_visibility(ctx):
    """only public functions defined in the given modules become nodes"""
    tag = 0
    for relation in ("other", "prefix", "infix", "suffix", "sub", "parent", "given"):
        base = "zzmod%d" % tag
        tag += 1
        lib = {"other": "unrelated_lib", "prefix": base + "_lib", "infix": "my_%s_lib" % base, "suffix": "my_" + base, "sub": base + ".inner", "parent": base.rsplit("d", 1)[0] + "d", "given": "given_lib"}[relation]
        if relation == "parent":
            base, lib = base + ".deep", base
        libm = make_module(HDR + "def helper(q: Any) -> Any:\n    return ('helper', q)\ndef _priv() -> Any:\n    return 1\n", name=lib)
        for style in ("name", "alias", "star", "wrapped"):
            imp = {"name": "from %s import helper\n", "alias": "from %s import helper as h2\n", "star": "from %s import *\n", "wrapped": "import %s as _l\nhelper = _l.helper\n"}[style] % lib
            src = HDR + imp + ("import functools\nclass K:\n    def meth(self) -> int:\n        return 1\nlam = lambda: 1\nconst = 5\n"
                               "def _private(z: Any) -> Any:\n    return z\ndef __dunder() -> Any:\n    return 1\n"
                               "def pub(x: Any) -> Any:\n    return ('pub', _private(x))\n@hamilton_exclude\ndef excl() -> int:\n    return 1\n"
                               "part = functools.partial(pub, x=1)\nbuiltin = len\n")
            src = src.replace("lam = lambda: 1\n", "")
            key = "vis|%s|%s" % (relation, style)
            ctx.state(key)
            ctx.cases += 1
            ctx.trace()
            ctx.transition(2)
            m = make_module(src, name=base)
            try:
                dr = build([m, libm] if relation == "given" else [m])
                fns = {n for n, v in nodes_of(dr).items() if not v[0]}
                want = {"pub"} | ({"helper"} if relation == "given" else set())
                if relation == "sub":
                    want.add("helper")  # a package and what it exposes of its own submodules
                if fns != want:
                    ctx.violation(key, "module %s importing from %s: nodes %s, expected %s" % (base, lib, sorted(fns), sorted(want)), dict(job=["vis"]))
                elif dr.execute(["pub"], inputs={"x": 1})["pub"] != ("pub", 1):
                    ctx.violation(key, "wrong result", dict(job=["vis"]))
            except Exception as e:
                ctx.violation(key, "building raised %s" % exc_brief(e), dict(job=["vis"]))
            drop_module(m)
        drop_module(libm)
    # malformed functions: rejected, and the error names them
    for name, src in {
        "noann": "def bad(x) -> int:\n    return 1\n", "noret": "def bad(x: int):\n    return 1\n",
    }.items():
        for other in ("", "def good(bad: int) -> int:\n    return 1\n"):
            m = make_module(HDR + src + other)
            key = "malformed|%s|%s" % (name, bool(other))
            ctx.state(key)
            ctx.cases += 1
            ctx.transition()
            try:
                build([m])
                ctx.violation(key, "accepted a function without annotations: %s" % src, dict(job=["vis"]))
            except Exception as e:
                if "bad" not in str(e):
                    ctx.violation(key, "the error does not name the function: %s" % exc_brief(e), dict(job=["vis"]))
            drop_module(m)


# ------------------------------------------------------------------------------------------------ definition order
FLOWS = {
    "plain": ["def a(x: Any) -> Any:\n    return ('a', x)\n", "def b(a: Any, y: Any = 'dy') -> Any:\n    return ('b', a, y)\n", "def c(b: Any, a: Any) -> Any:\n    return ('c', b, a)\n",
              "def d(x: Any, c: Any) -> Any:\n    return ('d', x, c)\n", "def e() -> Any:\n    return ('e',)\n"],
    "decorated": ["@parameterize(p=dict(v=value(1)), q=dict(v=source('a')))\ndef a0(v: Any) -> Any:\n    return ('a0', v)\n", "def a(x: Any) -> Any:\n    return ('a', x)\n",
                  "@extract_fields({'f1': Any, 'f2': Any})\ndef z(q: Any) -> dict:\n    return {'f1': ('f1', q), 'f2': 2}\n", "@tag(t='1')\n@config.when(k=1)\ndef m__one(f1: Any, p: Any) -> Any:\n    return ('m1', f1, p)\n",
                  "@config.when_not(k=1)\ndef m__two(f2: Any, p: Any) -> Any:\n    return ('m2', f2, p)\n"],
    "typed": ["def a(x: int) -> int:\n    return x + 1\n", "def b(x: object, a: object) -> str:\n    return str((x, a))\n", "def c(x: Optional[int], b: str) -> list:\n    return [x, b]\n",
              "def d(x: Union[int, str], c: Sequence) -> tuple:\n    return (x, tuple(c))\n", "def e(d: tuple, y: bool, z: Union[bool, str] = 'z') -> Any:\n    return (d, y, z)\n"],
}


def describe(dr):
    return {v.name: (v.is_external_input, str(v.type), tuple(sorted(v.required_dependencies)), tuple(sorted(v.optional_dependencies)), tuple(sorted((k, str(t)) for k, t in v.tags.items() if k != "module")))
            for v in dr.list_available_variables()}


def run_order(ctx, flow):
    parts = FLOWS[flow]
    inputs = {"x": 3, "y": True}
    ref = {}
    for perm in itertools.permutations(range(len(parts))):
        for cut in ([0] if ctx.tier == "quick" else [0, 1, 2, 3, 4]) if perm != tuple(range(len(parts))) else [0, 1, 2, 3, 4]:
            for rev in ((False, True) if cut else (False,)):
                for cfg in ({}, {"k": 1}):
                    groups = [perm] if not cut else [perm[:cut], perm[cut:]]
                    if rev:
                        groups = groups[::-1]
                    mods = [make_module(HDR + "".join(parts[i] for i in g)) for g in groups]
                    key = "order|%s|%s|%s" % (flow, groups, cfg)
                    ctx.state(key)
                    ctx.cases += 1
                    ctx.trace()
                    ctx.transition(2)
                    try:
                        dr = build(mods, config=dict(cfg))
                        desc = describe(dr)
                        outs = sorted(n for n, v in desc.items() if not v[0])
                        used = {n for n, v in desc.items() if v[0]}
                        res = dict(dr.execute(outs, inputs={k: v for k, v in inputs.items() if k in used}))
                        got = (desc, res)
                    except Exception as e:
                        got = "raised " + exc_brief(e)
                    for m in mods:
                        drop_module(m)
                    w = ref.setdefault(str(cfg), got)
                    if isinstance(got, str) or got != w:
                        ctx.violation(key, "definition order %s gives %r, order %s gives %r" % (groups, got, tuple(range(len(parts))), w), dict(job=["order", flow]))
                        return


def jobs(tier):
    return ([("edges", t) for t in TYPES] + [("inputs", t) for t in TYPES] + [("place", i) for i in range(4)] + [("vis",)] + [("order", f) for f in FLOWS])


def run_job(job, ctx):
    with ctx.guard(3000):
        if job[0] == "edges":
            run_edges(ctx, job[1])
        elif job[0] == "inputs":
            run_inputs(ctx, job[1])
        elif job[0] == "place":
            run_placements(ctx, job[1])
        elif job[0] == "vis":
            run_visibility(ctx)
        else:
            run_order(ctx, job[1])


def replay(case, ctx):
    run_job(tuple(case["job"]), ctx)
