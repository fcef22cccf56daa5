"""C22: code versions of nodes and dataflows, and the comparison of two versions of a dataflow.

All functions of a bounded grammar, each written in every layout of a fixed set (comments, docstrings, blank lines, quoting, ...), are
built into real dataflows; versions must agree exactly where the code agrees (decided on the syntax tree by an independent normal form).
Decorated dataflows are edited function by function; separate processes, module orders and drivers must agree; and all ordered pairs of
a universe of small dataflows are compared with the real diff, through git."""
from __future__ import annotations
import ast, io, itertools, json, os, pathlib, shutil, subprocess, sys, tempfile, tokenize
from mc.core import exc_brief
from mc.progs import make_module, drop_module
from hamilton import driver, graph_types, settings, async_driver
from hamilton.cli import commands, logic
import hamilton.plugins.pandas_extensions  # noqa: F401

TECHNIQUE = ("exhaustive enumeration of functions of a bounded grammar x layouts, of single-function edits of decorated dataflows, of module orders / drivers / processes, and of all ordered pairs of small dataflows for "
             "the comparison; oracle: equality of normalised syntax trees and explicit set difference")
RULE = "state = one program text (or ordered pair of dataflows); transition = one version computed by the real code; trace = one program (pair) whose versions were compared with the oracle"
ASSUMPTIONS = ["functions at the top level of a module (nested definitions whose source is indented are not claimed)", "decorator values written literally in the source", "functions merely called by a node's function (helpers, the target of @does) are not part of its version",
               "docstrings of functions; docstrings of classes nested in functions are not claimed", "comparison: the modules exist in both versions"]
BUDGET = {"quick": 420, "thorough": 3 * 3600}
HDR = "from typing import *\nfrom hamilton.function_modifiers import *\nfrom hamilton.function_modifiers import base\nfrom hamilton.htypes import Parallelizable, Collect\nimport pandas as pd\n"


# ------------------------------------------------------------------------------------------------ oracle
def normal(src):
    """syntax tree without function docstrings; equal iff the code is equal"""
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:]
    return ast.dump(t)


# ------------------------------------------------------------------------------------------------ grammar
def atoms(q):
    return ["x", "y", "0", "1", "1.0", "True", "None", "''", "'a'", "'# a'", "b'a'", "-1", "'a b'", "'a  b'", "[]", "()", "{}", "..."] if not q else ["x", "y", "0", "1", "1.0", "True", "None", "'a'", "'# a'", "b'a'", "-1", "'a  b'"]


def exprs(q):
    A = atoms(q)
    E = list(A)
    S = ["x", "y", "1", "'a'"]
    for a in S:
        for b in S:
            E += ["%s + %s" % (a, b), "%s - %s" % (a, b), "%s == %s" % (a, b), "%s if %s else 0" % (a, b), "[%s, %s]" % (a, b), "(%s, %s)" % (a, b), "{%s: %s}" % (a, b), "%s and %s" % (a, b), "%s or %s" % (a, b)]
            if not q:
                E += ["%s ** %s" % (a, b), "%s // %s" % (a, b), "%s is %s" % (a, b), "%s in %s" % (a, b), "{%s, %s}" % (a, b), "max(%s, %s)" % (a, b), "max(%s, key=%s)" % (a, b), "lambda v: (%s, %s)" % (a, b), "f'{%s}%s'" % (a.strip("'"), b.strip("'"))]
    E += ["(%s + %s) * %s" % t for t in itertools.product(["x", "y"], ["x", "1"], ["x", "2"])] + ["%s + %s * %s" % t for t in itertools.product(["x", "y"], ["x", "1"], ["x", "2"])]
    E += ["x.real", "x.imag", "x[0]", "x[0:1]", "x[:]", "not x", "~x", "-x", "[v for v in x]", "{v for v in x}", "(v for v in x)", "[v for v in x if v]", "lambda v: v", "lambda v, w: v", "f'{x}'", "f'{x!r}'", "f'{x:2}'", "f'a{x}'",
          "print(x)", "print(x, y)", "print(*x)", "print(**x)", "print(x, sep='')", "(v := x)"]
    return list(dict.fromkeys(E))


def bodies(q):
    B = [["return " + e] for e in exprs(q)]
    S = ["x = 1", "x = 2", "y += x", "del y", "pass", "'text'", "'other'", "assert x", "x: int = 1", "global zz", "import os", "import os as o", "from os import path", "raise ValueError(x)"]
    B += [[s, "return x"] for s in S] + [[s, "return y"] for s in S[:3]]
    B += [[s, t, "return x"] for s in S[:6] for t in S[:6]]
    B += [["if x:", "    return x", "return y"], ["if x:", "    return y", "return y"], ["if x:", "    y = 1", "return y"], ["if x:", "    pass", "y = 1", "return y"], ["for v in x:", "    pass", "else:", "    y = 1", "return y"],
          ["for v in x:", "    y = v", "return y"], ["while x:", "    break", "return y"], ["while x:", "    continue", "return y"], ["try:", "    return x", "except ValueError:", "    return y"], ["try:", "    return x", "except TypeError:", "    return y"],
          ["try:", "    return x", "finally:", "    pass"], ["with x:", "    return y"], ["with x as z:", "    return y"], ["def h(a):", "    'nested doc'", "    return a", "return h(x)"], ["def h(a):", "    return a + 1", "return h(x)"],
          ["async def h(a):", "    return a", "return h(x)"], ["match x:", "    case 1:", "        return y", "return x"], ["match x:", "    case 2:", "        return y", "return x"], ["return"], ["pass"], ["yield x", "yield y"], ["yield x"], ["return x; y = 1"],
          ["global zz", "zz = 1", "return x"], ["nonlocal_ = 1", "return x"], ["x, y = y, x", "return x"], ["x = y = 1", "return x"], ["'text'", "'text 2'", "return x"], ["'a' 'b'", "return x"], ["f'doc {x}'", "return x"], ["b'doc'", "return x"],
          ["1", "return x"], ["2", "return x"], ["return '''a", "b'''"], ["return '''a", "  b'''"], ["return 'a\\nb'"], ["return \"it's\""], ["return 'it is'"], ["return 1_000"], ["return 1000"], ["return 0x10"], ["return 16"], ["return u'a'"], ["return r'\\n'"], ["return '\\n'"], ["return '\\ud800'"], ["return 'é'"], ["return '\\xe9'"]]
    return B


SIGS = ["def f(x: int, y: int) -> int", "def f(x: int, y: float) -> int", "def f(x: int, y: int) -> float", "def f(y: int, x: int) -> int", "def f(x: int, y: int = 1) -> int", "def f(x: int, y: int = 2) -> int", "def f(x: int, *, y: int) -> int", "async def f(x: int, y: int) -> int",
        "def f(x: int, y: 'int') -> int", "def f(x: Optional[int], y: int) -> int"]
DECOS = ["@tag(a='b')", "@tag(a='c')", "@tag(a='b', c='d')", "@tag(a='b')\n@tag(c='d')", "@tag(c='d')\n@tag(a='b')", "@tag_outputs(f={'a': 'b'})"]


# ------------------------------------------------------------------------------------------------ layouts
def docs():
    return ["'''doc'''", "'''other doc'''", "\"doc\"", "r'''raw \\d doc'''", "'''doc\n\n    :param x: def g(): # no\n    '''", "u'doc'", "'doc' 'umented'"]


def blankable(lines):
    return not any("'''" in l for l in lines)


def layouts(sig, body, decos):
    """(name, text): texts with the same code"""
    ind = lambda ls, n=4: ["" if not l else " " * n + l for l in ls]
    D = [decos] if decos else []
    multi = not blankable(body)
    plain = lambda b, n=4: "\n".join(D + [sig + ":"] + ind(b, n)) + "\n" if not multi else "\n".join(D + [sig + ":", "    " + body[0]] + body[1:]) + "\n"
    yield "plain", plain(body)
    if multi:
        yield "comment after", plain(body) + "# after\n"
        yield "docstring", "\n".join(D + [sig + ":", "    '''doc'''", "    " + body[0]] + body[1:]) + "\n"
        return
    for i, d in enumerate(docs()):
        yield "docstring %d" % i, plain([d] + body)
    yield "comment first", "\n".join(D + [sig + ":", "# at column zero", "    # def g(): pass"] + ind(body)) + "\n"
    yield "comment each line", "\n".join(D + [sig + ":  # sig"] + [l + "  # " + str(i) for i, l in enumerate(ind(body))]) + "\n"
    yield "blank lines", "\n".join(D + [sig + ":", ""] + [x for l in ind(body) for x in (l, "", "   ")][:-2]) + "\n"
    yield "indent 2", "\n".join(D + [sig + ":"] + ["  " * ((len(l) - len(l.lstrip())) // 4 + 1) + l.lstrip() for l in body]) + "\n"
    yield "tabs", "\n".join(D + [sig + ":"] + ["\t" * ((len(l) - len(l.lstrip())) // 4 + 1) + l.lstrip() for l in body]) + "\n"
    yield "trailing space", "\n".join(D + [sig + ":  "] + [l + "  " for l in ind(body)]) + "\n"
    yield "comment before", "# before\n" + plain(body)
    yield "comment after", plain(body) + "    # inside\n# after\n"
    yield "split signature", "\n".join(D + [sig.replace("(", "(\n        ", 1).replace(", ", ",  # c\n        ").replace(") ->", "\n    ) ->") + ":"] + ind(body)) + "\n" if "[" not in sig else plain(body)
    if decos:
        yield "comment after decorator", "\n".join(D + ["# between", sig + ":"] + ind(body)) + "\n"
        yield "decorator spacing", "\n".join([d.replace("(", "( ").replace("=", " = ") for d in D] + [sig + ":"] + ind(body)) + "\n"
    last = body[-1]
    if last.startswith("return ") and ";" not in last and ":=" not in last and "'''" not in last:
        e = last[7:]
        yield "parentheses", plain(body[:-1] + ["return (" + e + ")"])
        yield "lines in parentheses", "\n".join(D + [sig + ":"] + ind(body[:-1]) + ["    return (  # c", "        # c2", "  " + e, "    )"]) + "\n"
        yield "backslash", "\n".join(D + [sig + ":"] + ind(body[:-1]) + ["    return \\", "  " + e]) + "\n"
        if "'" in e and '"' not in e and "\\" not in e and not e.startswith("f"):
            yield "quotes", plain(body[:-1] + ["return " + e.replace("'", '"')])
        if e.endswith("]") and e.startswith("[") and e != "[]" and " for " not in e:
            yield "trailing comma", plain(body[:-1] + ["return " + e[:-1] + ",]"])
    if len(body) == 1 and body[0].split()[0] not in ("if", "for", "while", "try:", "with", "def", "match"):
        yield "one line", "\n".join(D + [sig + ": " + body[0]]) + "\n"
        yield "semicolon", "\n".join(D + [sig + ": " + body[0] + ";"]) + "\n"
    if len(body) == 2 and not any(l.endswith(":") for l in body):
        yield "two on a line", "\n".join(D + [sig + ":", "    " + body[0] + "; " + body[1]]) + "\n"


def programs(tier):
    q = tier == "quick"
    P = [(SIGS[0], b, None) for b in bodies(q)]
    for s in SIGS[1:]:
        P += [(s, b, None) for b in (["return x"], ["return x + y"])]
    for d in DECOS:
        P += [(SIGS[0], b, d) for b in (["return x"], ["return y"])]
    return P


def version_of(src, extra=""):
    """(node version, graph version) of function f in a real dataflow"""
    m = make_module(HDR + extra + src)
    try:
        dr = driver.Builder().with_modules(m).build()
        g = graph_types.HamiltonGraph.from_graph(dr.graph)
        d = logic.hash_hamilton_nodes(dr)
        return g["f"].version, g.version, d["f"], logic.hash_dataflow(d), logic.version_hamilton_functions(m)["f"]
    finally:
        drop_module(m)


def grammar_job(job, ctx):
    _, i, parts = job
    P = programs(ctx.tier)
    table = {}        # normal form -> {(kind of version): {version: example}}
    back = {}
    for k, (sig, body, deco) in enumerate(P):
        if k % parts != i:
            vs = [next(iter(layouts(sig, body, deco)))]     # the others' plain layout: for distinctness across parts
        else:
            vs = list(layouts(sig, body, deco))
        for name, text in vs:
            try:
                nf = normal(text)
            except SyntaxError:
                continue
            try:
                v = version_of(text)
            except SyntaxError:
                continue
            ctx.state(text)
            ctx.transition(5)
            ctx.trace()
            ctx.cases += 1
            ctx.outcome("layout " + name)
            if None in v:
                ctx.violation("none|" + text, "a function has no version:\n%s" % text, dict(job=list(job)))
                continue
            for kind, val in zip(("node", "dataflow", "cli node", "cli dataflow", "cli function"), v):
                t = table.setdefault(nf, {}).setdefault(kind, {})
                if val not in t and t:
                    ctx.violation("cosmetic|%s|%s" % (kind, text), "%s version differs between\n%s\nand (%s)\n%s" % (kind, next(iter(t.values())), name, text), dict(job=list(job)))
                t.setdefault(val, text)
                b = back.setdefault(kind, {}).setdefault(val, (nf, text))
                if b[0] != nf:
                    ctx.violation("collision|%s|%s" % (kind, text), "%s version is the same for\n%s\nand\n%s" % (kind, b[1], text), dict(job=list(job)))
        if ctx.out_of_time():
            return
    ctx.count("programs", len(P))


# ------------------------------------------------------------------------------------------------ decorated dataflows, edited function by function
# source with @@NAME@@ markers: one per function; node names that come from that function
DEC = {
    "plain": ("def a(x: int) -> int:\n    @@a@@\n    return x\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", {"a": {"a"}, "b": {"b"}}, {}),
    "parameterize": ("@parameterize(p=dict(x=value(1)), q=dict(x=source('i')))\ndef a(x: int) -> int:\n    @@a@@\n    return x\ndef b(p: int, q: int) -> int:\n    @@b@@\n    return p\n", {"a": {"p", "q"}, "b": {"b"}}, {}),
    "extract": ("@extract_fields(dict(p=int, q=int))\ndef a(x: int) -> dict:\n    @@a@@\n    return dict(p=x, q=x)\ndef b(p: int) -> int:\n    @@b@@\n    return p\n", {"a": {"a", "p", "q"}, "b": {"b"}}, {}),
    "config": ("@config.when(k=1)\ndef a__one(x: int) -> int:\n    @@a@@\n    return x\n@config.when(k=2)\ndef a__two(x: int) -> int:\n    return x + 2\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", {"a": {"a"}, "b": {"b"}}, {"k": 1}),
    "pipe": ("def _s(v: int, w: int) -> int:\n    @@s@@\n    return v + w\ndef _t(v: int) -> int:\n    @@t@@\n    return v\n@pipe_input(step(_s, w=value(1)).named('one'), step(_t).named('two'), namespace='ns')\ndef a(x: int) -> int:\n    @@a@@\n    return x\n", None, {}),
    "pipe_output": ("def _s(v: int) -> int:\n    @@s@@\n    return v\n@pipe_output(step(_s))\ndef a(x: int) -> int:\n    @@a@@\n    return x\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", None, {}),
    "mutate": ("def a(x: int) -> int:\n    @@a@@\n    return x\n@mutate(a)\ndef _m(v: int) -> int:\n    @@m@@\n    return v\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", None, {}),
    "subdag": ("def _h() -> None:\n    pass\ndef s1(z: int) -> int:\n    @@s1@@\n    return z\ndef s2(s1: int) -> int:\n    @@s2@@\n    return s1\n@subdag(s1, s2, inputs={'z': source('x')}, namespace='n')\ndef a(s2: int) -> int:\n    @@a@@\n    return s2\n", None, {"z": 1}),
    "does": ("def _d(**kw: int) -> int:\n    return sum(kw.values())\n@does(_d)\ndef a(x: int, y: int) -> int:\n    pass\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", None, {}),
    "inject": ("@inject(q=value(3))\ndef a(x: int, q: int) -> int:\n    @@a@@\n    return x\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", {"a": {"a"}, "b": {"b"}}, {}),
    "check": ("@check_output(range=(0, 10))\ndef a(x: int) -> int:\n    @@a@@\n    return x\ndef b(a: int) -> int:\n    @@b@@\n    return a\n", {"a": {"a", "a_raw", "a_range_validator"}, "b": {"b"}}, {}),
    "tags": ("@tag(k='v')\n@cache(behavior='recompute')\ndef a(x: int) -> int:\n    @@a@@\n    return x\ndef b(a: int, c: int = 3) -> int:\n    @@b@@\n    return a\n", {"a": {"a"}, "b": {"b"}}, {}),
    "columns": ("@extract_columns('p', 'q')\ndef a(x: int) -> pd.DataFrame:\n    @@a@@\n    return pd.DataFrame({'p': [x], 'q': [x]})\n@parameterize_sources(r=dict(u='p'), t=dict(u='q'))\ndef b(u: pd.Series) -> pd.Series:\n    @@b@@\n    return u\n", {"a": {"a", "p", "q"}, "b": {"r", "t"}}, {}),
    "fan": ("def e(x: int) -> Parallelizable[int]:\n    @@e@@\n    yield x\ndef c(e: int) -> int:\n    @@c@@\n    return e\ndef z(c: Collect[int]) -> list:\n    @@z@@\n    return list(c)\n", {"e": {"e"}, "c": {"c"}, "z": {"z"}}, {}),
    "resolve": ("@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda n: parameterize(p=dict(u=value(n))))\ndef a(u: int) -> int:\n    @@a@@\n    return u\ndef b(p: int) -> int:\n    @@b@@\n    return p\n", {"a": {"p"}, "b": {"b"}}, {"n": 1}),
}
EDITS = ["v = 1", "v = 2", "'''doc'''\n    pass", "v = 'a # b'"]
COSM = ["pass  # comment", "pass\n    # more", "\n    pass\n", "pass    "]


def fill(src, **kw):
    import re
    return re.sub(r"@@(\w+)@@", lambda m: kw.get(m.group(1), "pass"), src)


def build(srcs, cfg, kind="classic"):
    ms = [make_module(HDR + s) for s in srcs]
    b = driver.Builder().with_modules(*ms).with_config({settings.ENABLE_POWER_USER_MODE: True, **cfg})
    if kind == "dynamic":
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
    return b.build()


def versions(srcs, cfg, kind="classic"):
    dr = build(srcs, cfg, kind)
    g = graph_types.HamiltonGraph.from_graph(dr.graph)
    nv = {n.name: n.version for n in g.nodes}
    assert nv == logic.hash_hamilton_nodes(dr)
    return nv, g.version


def edits_job(job, ctx):
    import re
    name = job[1]
    src, owner, cfg = DEC[name]
    fns = re.findall(r"@@(\w+)@@", src)
    base_nv, base_gv = versions([fill(src)], cfg)
    inputs = {n.name for n in graph_types.HamiltonGraph.from_graph(build([fill(src)], cfg).graph).nodes if n.is_external_input}

    def note(key, msg):
        ctx.state(name + key)
        ctx.transition(len(base_nv) + 1)
        ctx.trace()
        ctx.cases += 1
        if msg:
            ctx.violation("edit|%s|%s" % (name, key), "dataflow with %s, %s: %s" % (name, key, msg), dict(job=list(job)))
    seen = {base_gv: "unchanged"}
    for f in fns:
        touched = set()
        for e in EDITS:
            nv, gv = versions([fill(src, **{f: e})], cfg)
            if e.startswith("'''"):
                note("%s:%r" % (f, e), "adding a docstring changed %s" % sorted(k for k in nv if nv[k] != base_nv[k]) if (nv, gv) != (base_nv, base_gv) else None)
                continue
            ch = {k for k in nv if nv[k] != base_nv.get(k)}
            touched |= ch
            msg = None
            if gv in seen:
                msg = "the version of the dataflow is that of (%s)" % seen[gv]
            elif not ch:
                msg = "no node's version changed"
            elif owner is not None and ch != owner[f]:
                msg = "the versions of %s changed, the function makes %s" % (sorted(ch), sorted(owner[f]))
            elif ch & inputs:
                msg = "the version of input %s changed" % sorted(ch & inputs)
            seen[gv] = "%s: %s" % (f, e)
            note("%s:%r" % (f, e), msg)
        for c in COSM:
            nv, gv = versions([fill(src, **{f: c})], cfg)
            note("%s:%r" % (f, c), "layout only changed %s" % sorted(k for k in nv if nv[k] != base_nv[k]) if (nv, gv) != (base_nv, base_gv) else None)
    # all combinations of two edited functions have distinct versions
    for f, g in itertools.combinations(fns, 2):
        for e1, e2 in itertools.product(("v = 1", "v = 2"), repeat=2):
            nv, gv = versions([fill(src, **{f: e1, g: e2})], cfg)
            note("%s+%s:%s%s" % (f, g, e1, e2), "the version of the dataflow is that of (%s)" % seen[gv] if gv in seen else None)
            seen[gv] = "%s: %s, %s: %s" % (f, e1, g, e2)
    ctx.outcome(name)


# ------------------------------------------------------------------------------------------------ processes, module orders, drivers
CHILD = """
import sys, json
sys.path[:0] = %r
from mc.props import c22
print("RESULT" + json.dumps(c22.all_versions()))
"""


def split_modules(name):
    """the functions of a dataflow spread over modules where the decorators allow it"""
    src, _, cfg = DEC[name]
    src = fill(src)
    if name in ("plain", "parameterize", "extract", "inject", "check", "tags", "columns"):
        i = src.index("def b(") if name != "columns" else src.index("@parameterize_sources")
        return [src[:i], src[i:], "def other(x: int) -> int:\n    return x\n"], cfg
    return [src, "def other(x: int, a: int) -> int:\n    return x\n"], cfg


def all_versions():
    out = {}
    for name in sorted(DEC):
        srcs, cfg = split_modules(name)
        out[name] = versions(srcs, cfg)
    return json.loads(json.dumps(out))


def process_job(job, ctx):
    _, seed = job
    want = all_versions()
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % [p for p in sys.path if p]], env=env, capture_output=True, text=True, timeout=300)
    line = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
    if not line:
        raise RuntimeError("child failed: %s" % r.stderr[-2000:])
    got = json.loads(line[-1][6:])
    for name in sorted(want):
        ctx.state("process%s%s" % (name, seed))
        ctx.transition(len(want[name][0]))
        ctx.trace()
        ctx.cases += 1
        ctx.outcome("process")
        if got[name] != want[name]:
            d = sorted(k for k in want[name][0] if want[name][0][k] != got[name][0].get(k))
            ctx.violation("process|%s" % name, "dataflow with %s: versions differ between processes (hash seed %s): %s" % (name, seed, d or "dataflow"), dict(job=list(job)))


def order_job(job, ctx):
    name = job[1]
    srcs, cfg = split_modules(name)
    want = versions(srcs, cfg)
    for perm in itertools.permutations(range(len(srcs))):
        for kind in ("classic", "dynamic"):
            got = versions([srcs[i] for i in perm], cfg, kind)
            ctx.state("order%s%s%s" % (name, perm, kind))
            ctx.transition(len(want[0]))
            ctx.trace()
            ctx.cases += 1
            ctx.outcome("order")
            if got != want:
                d = sorted(k for k in want[0] if want[0][k] != got[0].get(k))
                ctx.violation("order|%s" % name, "dataflow with %s: module order %s, %s driver: versions differ for %s" % (name, perm, kind, d or "the dataflow"), dict(job=list(job)))


# ------------------------------------------------------------------------------------------------ comparison
SLOT = {
    "a": [None, "def a(x: int) -> int:\n    return x\n", "def a(x: int) -> int:\n    return x + 1\n", "def a(x: int) -> int:\n    '''doc'''\n    return x  # c\n"],
    "b": [None, "def b(a: int, y: int) -> int:\n    return a\n", "def b(a: int) -> int:\n    return a\n", "@parameterize(b1=dict(a=source('x')), b2=dict(a=source('a')))\ndef b(a: int) -> int:\n    return a\n"],
    "c": [None, "@extract_fields(dict(c1=int, c2=int))\ndef c(a: int) -> dict:\n    return dict(c1=a, c2=a)\n", "@extract_fields(dict(c1=int))\ndef c(a: int) -> dict:\n    return dict(c1=a, c2=a)\n", "def c1(x: int) -> int:\n    return x\n"],
}


def universe():
    U = []
    for t in itertools.product(*[range(len(v)) for v in SLOT.values()]):
        if not any(t):
            continue
        U.append((t, "".join(SLOT[k][i] or "" for k, i in zip(SLOT, t))))
    return U


def code_of(dr):
    """node -> what it is: the normal form of its function, or its being an input"""
    import inspect
    out = {}
    for n in dr.graph.nodes.values():
        if n.user_defined:
            out[n.name] = "input"
        else:
            out[n.name] = repr([normal(inspect.getsource(f)) for f in n.originating_functions])
    return out


def func_of(dr):
    return {n.name: n.originating_functions[0].__name__ for n in dr.graph.nodes.values() if n.originating_functions}


def diff_job(job, ctx):
    _, i, parts = job
    U = universe()
    d = os.path.realpath(tempfile.mkdtemp(prefix="c22_"))
    cwd = os.getcwd()
    env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v")

    def git(*a):
        return subprocess.run(["git", *a], cwd=d, env=env, capture_output=True, text=True, check=True).stdout.strip()
    try:
        git("init", "-q")
        os.makedirs(os.path.join(d, "sub"))
        p = pathlib.Path(d, "sub", "flow.py")
        os.chdir(d)
        mine = [u for k, u in enumerate(U) if k % parts == i]
        drs = {}
        for t, s in U:
            p.write_text(HDR + s)
            drs[t] = commands.build([p])
        for t, s in mine:
            p.write_text(HDR + s)
            git("add", "-A")
            git("commit", "-q", "--allow-empty", "-m", "x")
            ref = git("rev-parse", "HEAD")
            rc = code_of(drs[t])
            for t2, s2 in U:
                cc = code_of(drs[t2])
                want = dict(current_only=sorted(set(cc) - set(rc)), reference_only=sorted(set(rc) - set(cc)), edit=sorted(k for k in cc if k in rc and cc[k] != rc[k]))
                p.write_text(HDR + s2)
                got = commands.diff(drs[t2], [p], ref if ctx.tier != "quick" else "HEAD")
                ctx.state("diff%s%s" % (t, t2))
                ctx.transition(len(cc) + len(rc))
                ctx.trace()
                ctx.cases += 1
                msg = None
                g = {k: sorted(v) for k, v in got.items()}
                if g != want:
                    msg = "reported %s, expected %s" % (g, want)
                else:
                    fc, fr = func_of(drs[t2]), func_of(drs[t])
                    for k in got:
                        for n, f in got[k].items():
                            e = fc.get(n) or fr.get(n)
                            if f != e:
                                msg = "node %s is attributed to function %s, it comes from %s" % (n, f, e)
                ctx.outcome("diff " + "+".join(k for k in want if want[k]) if any(want.values()) else "diff none")
                if msg:
                    ctx.violation("diff|%s|%s" % (t, t2), "from\n%s\nto\n%s\n%s" % (s, s2, msg), dict(job=list(job)))
            if ctx.out_of_time():
                return
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def jobs(tier):
    J = [("diff", i, 16) for i in range(16)]
    J += [("grammar", i, 8) for i in range(8)]
    J += [("edits", n) for n in DEC] + [("order", n) for n in DEC]
    J += [("process", s) for s in ((0, 1, 77) if tier == "quick" else (0, 1, 2, 3, 77, 123456))]
    return J


def run_job(job, ctx):
    dict(grammar=grammar_job, edits=edits_job, process=process_job, order=order_job, diff=diff_job)[job[0]](job, ctx)


def replay(case, ctx):
    run_job(tuple(case["job"]), ctx)
