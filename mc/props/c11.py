"""C11: config decides exactly which implementations exist, build after build.

Part A enumerates all pairs of conditions on two implementations of one name (and all stacks of two conditions), laid out in one or
two modules, under names with and without suffixes, and for each of them every history of configs built from the same module objects.
Part B does the same for one module using every decorator whose effect depends on config, against builds from fresh modules."""
from __future__ import annotations
import copy, itertools
from mc.core import exc_brief
from mc.progs import make_module, drop_module
from hamilton import driver, settings, base

TECHNIQUE = ("explicit-state exploration of build histories (sequences of configs over the same module objects), every build of the real "
             "driver compared with an independent evaluation of the conditions")
RULE = ("state = (conditions, layout, names, history of configs built so far); transition = one driver build; trace = one history, after each build "
        "the nodes, their dependencies and values are compared with the reference, and earlier drivers are executed again")
ASSUMPTIONS = ["two config keys, up to five values each, a missing key included", "two implementations per name, stacks of at most two conditions",
               "histories of length 2 (quick) or 3 (thorough)"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}

MISSING = object()
HDR = "from hamilton.function_modifiers import *\n"

# (source of the decorator, predicate on a config dict)
CONDS = [
    ("config.when({n}k=1)", lambda c: c.get("k") == 1),
    ("config.when({n}k=None)", lambda c: c.get("k") is None),
    ("config.when({n}k=1, l=1)", lambda c: c.get("k") == 1 and c.get("l") == 1),
    ("config.when_not({n}k=1)", lambda c: c.get("k") != 1),
    ("config.when_not({n}k=1, l=1)", lambda c: c.get("k") != 1 and c.get("l") != 1),
    ("config.when_not({n}k=None)", lambda c: c.get("k") is not None),
    ("config.when_in({n}k=[1, 2])", lambda c: c.get("k") in (1, 2)),
    ("config.when_in({n}k=[1, None])", lambda c: c.get("k") in (1, None)),
    ("config.when_in({n}k=[1, 2], l=(0,))", lambda c: c.get("k") in (1, 2) and c.get("l") == 0 and c.get("l") is not None),
    ("config.when_in({n}k=[])", lambda c: False),
    ("config.when_not_in(k=[1, 2])", lambda c: c.get("k") not in (1, 2)),
    ("config.when_not_in(k=[None])", lambda c: c.get("k") is not None),
    ("config.when_not_in(k=[2], l=[1])", lambda c: c.get("k") != 2 and c.get("l") != 1),
    ("config(lambda c: 'k' in c and c['k'] == 2)", lambda c: c.get("k") == 2),
    ("config(lambda c: c['k'] == c['l'], config_used=['k', 'l'])", lambda c: c.get("k") == c.get("l")),
    ("hamilton_exclude", lambda c: False),
]
KS = [MISSING, 1, 2, None, 0]
LS = [MISSING, 1, 0]


def configs(tier):
    out = []
    for k in KS:
        for l in LS:
            c = {}
            if k is not MISSING:
                c["k"] = k
            if l is not MISSING:
                c["l"] = l
            out.append(c)
    return out


FEW = [{}, {"k": 1}, {"k": 2, "l": 0}, {"k": None, "l": 1}, {"k": 1, "l": 1}, {"k": 0, "l": 0}]


class Prog:
    """impls: list of (fn name, list of condition indices, target name or None); the node is `node`"""

    def __init__(self, node, impls, layout):
        self.node, self.impls, self.layout = node, impls, layout

    def srcs(self):
        fns = []
        for i, (name, conds, target) in enumerate(self.impls):
            n = "name=%r, " % target if target else ""
            # conditions are applied bottom up
            decs = "".join("@%s\n" % CONDS[c][0].replace("{n}", n) for c in reversed(conds))
            fns.append("%sdef %s(d%d: str) -> str:\n    return 'v%d(%%s)' %% d%d\n" % (decs, name, i, i, i))
        deps = "def d0() -> str:\n    return 'D0'\n\ndef d1() -> str:\n    return 'D1'\n"
        user = "def g(%s: str) -> str:\n    return 'g(%%s)' %% %s\n" % (self.node, self.node)
        if self.layout == "one":
            return [HDR + "\n".join(fns + [deps, user])]
        if self.layout == "rev":
            return [HDR + "\n".join([user, deps] + fns[::-1])]
        return [HDR + f for f in fns] + [HDR + deps + user]

    def expected(self, cfg):
        sel = [i for i, (_, conds, _) in enumerate(self.impls) if all(CONDS[c][1](cfg) for c in conds)]
        return sel


def check_driver(p, cfg, dr, ctx, where):
    """-> None or a text"""
    sel = p.expected(cfg)
    names = {n.name: n for n in dr.list_available_variables()}
    if p.node in names and sel and not names[p.node].is_external_input:
        i = sel[0]
        want_names = {p.node, "g", "d0", "d1"} | set()
        if set(names[p.node].required_dependencies) != {"d%d" % i} or names[p.node].optional_dependencies:
            return "%s depends on %s" % (p.node, names[p.node].required_dependencies)
    elif sel:
        return "%s should be implemented by v%d but is not a function node (nodes %s)" % (p.node, sel[0], sorted(names))
    elif p.node not in names or not names[p.node].is_external_input:
        return "%s should have no implementation, got %s" % (p.node, p.node in names)
    extra = {n for n, v in names.items() if not v.is_external_input} - {p.node, "g", "d0", "d1"}
    if extra:
        return "extra nodes %s" % sorted(extra)
    if sel:
        got = dr.execute(["g", p.node])
        v = "v%d(D%d)" % (sel[0], sel[0])
        want = {"g": "g(%s)" % v, p.node: v}
    else:
        got = dr.execute(["g"], inputs={p.node: "IN"})
        want = {"g": "g(IN)"}
    if got != want:
        return "value %r instead of %r" % (got, want)


def build(mods, cfg, how):
    if how == "builder":
        return driver.Builder().with_modules(*mods).with_config(cfg).build()
    return driver.Driver(cfg, *mods, adapter=base.DefaultAdapter())


def run_history(p, hist, ctx, hows=("builder",), case=None):
    mods = [make_module(s, env={}) for s in p.srcs()]
    built = []
    ok = True
    try:
        for k, cfg in enumerate(hist):
            ctx.transition()
            given = dict(cfg)
            sel = p.expected(cfg)
            msg = None
            try:
                dr = build(mods, given, hows[k % len(hows)])
            except Exception as e:
                dr = None
                if len(sel) < 2:
                    msg = "build raised " + exc_brief(e)
                elif p.node not in str(e):
                    msg = "the error does not name %s: %s" % (p.node, exc_brief(e))
            if dr is not None:
                if len(sel) > 1:
                    msg = "two implementations selected for %s were accepted" % p.node
                else:
                    try:
                        msg = check_driver(p, cfg, dr, ctx, "new")
                    except Exception as e:
                        msg = "raised " + exc_brief(e)
            if msg is None and given != cfg:
                msg = "config passed by the caller was changed to %r" % (given,)
            if msg is None:
                for j, (c0, d0) in enumerate(built):
                    try:
                        m = check_driver(p, c0, d0, ctx, "old")
                    except Exception as e:
                        m = "raised " + exc_brief(e)
                    if m:
                        msg = "driver built before (config %r) changed: %s" % (c0, m)
            ctx.outcome("ambiguous" if len(sel) > 1 else "selected" if sel else "absent")
            if msg:
                desc = " / ".join("%s[%s]%s" % (n, "; ".join(CONDS[c][0].replace("{n}", "") for c in cs), "->" + t if t else "") for n, cs, t in p.impls)
                ctx.violation("cond|%s|%s|%s" % (desc, p.layout, "first build" if k == 0 else "rebuild"),
                              "%s: after building configs %r: %s" % (desc, hist[:k + 1], msg),
                              dict(kind="cond", node=p.node, impls=[list(map(lambda x: x, i)) for i in p.impls], layout=p.layout, hist=[dict(h) for h in hist]))
                ok = False
                break
            if dr is not None:
                built.append((dict(cfg), dr))
    finally:
        for m in mods:
            drop_module(m)
    ctx.cases += 1
    ctx.trace()
    return ok


# ------------------------------------------------------------------------------------------------ part B
RICH = HDR + '''
import sys
from hamilton.function_modifiers import config as _c

def base_(x: int) -> int:
    return x

def _plus(v: int, by: int = 1) -> int:
    return v + by

def _times(v: int) -> int:
    return v * 3

@pipe_input(step(_plus, by=value(2)).when(k=1), step(_times).when_not(k=2), step(_plus).when_in(l=[1, 2]).named("last"))
def piped(base_: int) -> int:
    return base_

@pipe_output(step(_plus, by=value(5)).when(k=2), step(_times).when(l=1))
def outp(base_: int) -> int:
    return base_

@config.when(k=1)
@extract_fields({"p": int, "q": int})
def fields__one(base_: int) -> dict:
    return {"p": base_, "q": base_ + 1}

@config.when_not(k=1)
@extract_fields({"p": int, "q": int})
def fields__other(base_: int) -> dict:
    return {"p": base_ + 10, "q": base_ + 11}

@config.when(k=1)
def inner__a(y: int) -> int:
    return y + 100

@config.when_not(k=1)
def inner__b(y: int) -> int:
    return y + 200

@subdag(inner__a, inner__b, inputs={"y": source("base_")}, config={"k": configuration("l")}) if False else (lambda f: f)
def plain(base_: int) -> int:
    return base_

@subdag(inner__a, inner__b, inputs={"y": source("base_")}, config={"k": 1})
def sub_one(inner: int) -> int:
    return inner

@subdag(inner__a, inner__b, inputs={"y": source("base_")}, config={"k": 2})
def sub_two(inner: int) -> int:
    return inner

@parameterized_subdag(inner__a, inner__b, inputs={"y": source("base_")}, ps_1={"config": {"k": 1}}, ps_2={"config": {"k": 2}}, ps_d={})
def ps(inner: int) -> int:
    return inner

@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda l=None: parameterize(**{"r%d" % i: dict(n=value(i)) for i in range(l if l else 1)}))
def rr(n: int, base_: int) -> int:
    return base_ + n

@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda k=None: inject(n=value(k)))
def inj(n: object, base_: int) -> str:
    return "%s-%s" % (n, base_)

@parameterize(par_a=dict(n=value(1)), par_b=dict(n=source("p")))
@config.when_in(l=[1, None])
def par(n: int, base_: int) -> int:
    return base_ * n

@config.when_not_in(l=[1, None])
def par__alt(base_: int) -> int:
    return base_ - 1000

@tag(owner="me")
@config.when(name="renamed", k=2)
def some_fn__x__y(base_: int) -> int:
    return base_ - 1

@config.when(name="renamed", k=1)
def some_fn__x__z(base_: int) -> int:
    return base_ - 2

@config.when(k=2)
@config.when_not(l=0)
def two__dun__ders(base_: int) -> int:
    return base_ - 3

def reads_k(k: object = "no-k", base_: int = 0) -> str:
    return "%r %d" % (k, base_)

def target_fn(base_: int) -> int:
    return base_

@mutate(apply_to(target_fn).when(k=1))
def _mut(v: int) -> int:
    return v + 7000

@mutate(apply_to(target_fn).when_not(k=1), by=value(3))
def _mut2(v: int, by: int) -> int:
    return v + 9000 + by
'''


def describe(dr):
    out = {}
    for n in dr.list_available_variables():
        out[n.name] = (str(n.type), n.is_external_input, tuple(sorted(n.required_dependencies)), tuple(sorted(n.optional_dependencies)),
                       tuple(sorted((k, str(v)) for k, v in n.tags.items() if k != "module")))
    return out


def observe(dr):
    d = describe(dr)
    names = sorted(n for n, v in d.items() if not v[1])
    return d, dr.execute(names, inputs={"x": 5, "y": 50})


def rich_build(mod, cfg):
    return driver.Builder().with_modules(mod).with_config({settings.ENABLE_POWER_USER_MODE: True, **cfg}).build()


def reference_rich(cfg):
    """values written out by hand"""
    k, l, b = cfg.get("k"), cfg.get("l"), 5
    v = {"base_": 5, "plain": 5}
    x = b
    if k == 1:
        x = x + 2
    if k != 2:
        x = x * 3
    if l in (1, 2):
        x = x + 1
    v["piped"] = x
    x = b
    if k == 2:
        x = x + 5
    if l == 1:
        x = x * 3
    v["outp"] = x
    v["p"], v["q"] = (5, 6) if k == 1 else (15, 16)
    v["fields"] = dict(p=v["p"], q=v["q"])
    v["inner"] = 150 if k == 1 else 250
    v["sub_one"], v["sub_two"] = 105, 205
    v["ps_1"], v["ps_2"], v["ps_d"] = 105, 205, (105 if k == 1 else 205)
    for i in range(l if l else 1):
        v["r%d" % i] = 5 + i
    v["inj"] = "%s-5" % k
    if l in (1, None):
        v["par_a"], v["par_b"] = 5, 5 * v["p"]
    else:
        v["par"] = -995
    if k == 2:
        v["renamed"] = 4
    if k == 1:
        v["renamed"] = 3
    if k == 2 and l != 0:
        v["two__dun"] = 2
    v["reads_k"] = "%r 5" % (k if "k" in cfg else "no-k")
    v["target_fn"] = 7005 if k == 1 else 9008
    return v


def rich(hist, ctx, fresh):
    mod = make_module(RICH)
    old = []
    try:
        for i, cfg in enumerate(hist):
            ctx.transition()
            key = tuple(sorted(cfg.items(), key=repr))
            msg = None
            try:
                dr = rich_build(mod, cfg)
                got = observe(dr)
            except Exception as e:
                dr, got, msg = None, None, "raised " + exc_brief(e)
            if dr is not None:
                if got != fresh[key]:
                    a, b = got[0], fresh[key][0]
                    diff = {n: (a.get(n), b.get(n)) for n in set(a) | set(b) if a.get(n) != b.get(n)} or \
                           {n: (got[1].get(n), fresh[key][1].get(n)) for n in got[1] if got[1].get(n) != fresh[key][1].get(n)}
                    msg = "differs from a build from fresh modules (this, fresh): %r" % (diff,)
                else:
                    ref = reference_rich(cfg)
                    bad = {n: (got[1].get(n), w) for n, w in ref.items() if n not in got[1] or got[1][n] != w}
                    for n in ("par", "par_a", "par_b", "renamed", "two__dun", "r0", "r1", "r2"):
                        if n in got[1] and n not in ref:
                            bad[n] = (got[1][n], "absent")
                    if bad:
                        msg = "values (got, want) %r" % (bad,)
            for c0, d0, g0 in old:
                if msg is None and observe(d0) != g0:
                    msg = "driver built earlier with %r changed" % (c0,)
            ctx.outcome("rich ok" if msg is None else "rich bad")
            if msg:
                ctx.violation("rich|%s|%r" % ("first" if i == 0 else "after %r" % (hist[:i],), cfg), "history %r: %s" % (hist[:i + 1], msg),
                              dict(kind="rich", hist=[dict(h) for h in hist]))
                break
            old.append((cfg, dr, got))
    finally:
        drop_module(mod)
    ctx.cases += 1
    ctx.trace()


def rich_configs():
    out = []
    for k in (MISSING, 1, 2, None):
        for l in (MISSING, 0, 1, 3):
            c = {}
            if k is not MISSING:
                c["k"] = k
            if l is not MISSING:
                c["l"] = l
            out.append(c)
    return out


def fresh_builds():
    out = {}
    for cfg in rich_configs():
        mod = make_module(RICH)
        out[tuple(sorted(cfg.items(), key=repr))] = observe(rich_build(mod, cfg))
        drop_module(mod)
    return out


# ------------------------------------------------------------------------------------------------
NAMES = [("f", "f__a", "f__b"), ("f", "f", "f__b"), ("f__x", "f__x__1", "f__x__2"), ("f_", "f___a", "f___b")]


def jobs(tier):
    out = []
    n = len(CONDS)
    for c in range(n):
        out.append(("pair", c))
        out.append(("stack", c))
    out.append(("named", 0))
    k = 8 if tier == "quick" else 24
    for i in range(k):
        out.append(("rich", i, k))
    return out


def histories(tier, few, rich=False):
    cs = FEW if few else configs(tier)
    yield from ([c] for c in configs(tier))
    yield from (list(t) for t in itertools.permutations(cs, 2))
    if tier == "thorough":
        yield from (list(t) for t in itertools.permutations(FEW, 3))


def run_job(job, ctx):
    tier = ctx.tier
    with ctx.guard(3000):
        if job[0] == "pair":
            c = job[1]
            for d in range(len(CONDS)):
                for ni, (node, na, nb) in enumerate(NAMES):
                    for layout in ("one", "rev", "two") if ni in (0, 1) else ("one",):
                        if layout == "rev" and na == nb:
                            continue
                        p = Prog(node, [(na, [c], None), (nb, [d], None)], layout)
                        for h in histories(tier, few=True):
                            if len(h) > 1 and ni != 0 and layout != "one" and tier == "quick":
                                continue
                            ctx.state((c, d, ni, layout, repr(h)))
                            if not run_history(p, h, ctx, ("builder", "driver")):
                                break
                if ctx.out_of_time():
                    return
        elif job[0] == "stack":
            c = job[1]
            for d in range(len(CONDS)):
                for node, na, nb in NAMES[:3]:
                    p = Prog(node, [(na, [c, d], None), (nb, [0, 15], None)], "one")
                    for h in histories(tier, few=True):
                        ctx.state(("stack", c, d, na, repr(h)))
                        if not run_history(p, h, ctx):
                            break
                if ctx.out_of_time():
                    return
        elif job[0] == "named":
            named = [i for i, (s, _) in enumerate(CONDS) if "{n}" in s]
            for c, d in itertools.product(named, named):
                for node, na, nb, ta, tb in (("tgt", "one", "two", "tgt", "tgt"), ("f", "f__a", "other__x", None, "f"), ("f__y", "f__a", "g__b__c", "f__y", "f__y"),
                                             ("_hid", "h__a", "h__b", "_hid", "_hid")):
                    p = Prog(node, [(na, [c], ta), (nb, [d], tb)], "one")
                    for h in histories(tier, few=True):
                        if len(h) > 1 and (c + d) % 3 and tier == "quick":
                            continue
                        ctx.state(("named", c, d, na, ta, repr(h)))
                        if not run_history(p, h, ctx):
                            break
                if ctx.out_of_time():
                    return
        elif job[0] == "rich":
            fresh = fresh_builds()
            cs = rich_configs()
            hs = [[c] for c in cs] + [list(t) for t in itertools.permutations(cs, 2)]
            if tier == "thorough":
                hs += [list(t) for t in itertools.permutations(cs, 3)]
            else:
                hs += [[a, b, a] for a, b in itertools.permutations(cs[::3], 2)]
            for i, h in enumerate(hs):
                if i % job[2] != job[1]:
                    continue
                if ctx.out_of_time():
                    return
                ctx.state(("rich", repr(h)))
                rich(h, ctx, fresh)


def replay(case, ctx):
    if case.get("kind") == "cond":
        run_history(Prog(case["node"], [(a, list(b), c) for a, b, c in case["impls"]], case["layout"]), case["hist"], ctx, ("builder", "driver"))
    elif case.get("kind") == "rich":
        rich(case["hist"], ctx, fresh_builds())
    else:
        run_job(tuple(case["job"]), ctx)
