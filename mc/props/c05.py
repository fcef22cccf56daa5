"""C05: caching never changes results.  Breadth-first exploration of histories of runs that share one cache; between runs one thing
changes (a function body, an input, an override, config, behaviours, outputs, stored entries); every run is compared with the run
without a cache."""
from __future__ import annotations
import itertools
from mc.core import exc_brief
from mc import cachelab as L
from mc.cachelab import Prog, MemStores, DiskStores, HDR
from mc.progs import make_module
from hamilton import driver, settings
from hamilton.execution import executors, grouping

TECHNIQUE = ("explicit-state exploration of run/edit/damage histories on the real caching adapter and stores, deduplicated on the canonical "
             "cache content, each run compared with the uncached run")
RULE = ("state = (current code, inputs, overrides, outputs, behaviours, config; canonical content of the stores); transition = one change followed by "
        "one cached run on the real code; trace = one history, its last run compared with the uncached run")
ASSUMPTIONS = ["functions are deterministic and values are not modified in place by the caller",
               "an edit changes the source of the node's own function or decorators (helpers called by it are documented as not versioned)",
               "nodes marked ignore keep their value (histories in which they change are C06)", "data savers (side effects) are C16"]
BUDGET = {"quick": 300, "thorough": 4 * 3600}


def F(n, params, body, typ="str", dec=""):
    return "%sdef %s(%s) -> %s:\n    LOG.append('%s')\n    return %s\n" % (dec, n, params, typ, n, body)


def progs():
    ps = []
    ps.append(Prog("diamond", {
        "a": [F("a", "x: str", "'a0(%s)' % x"), F("a", "x: str", "'a1(%s)' % x")],
        "b": [F("b", "a: str", "'b0(%s)' % a"), F("b", "a: str", "'K'")],
        "c": [F("c", "a: str, k: str = 'dk'", "'c0(%s,%s)' % (a, k)"), F("c", "a: str, k: str = 'dk2'", "'c0(%s,%s)' % (a, k)")],
        "d": [F("d", "b: str, c: str", "'d0(%s,%s)' % (b, c)"), F("d", "c: str, b: str", "'d0(%s,%s)' % (c, b)")]},
        [dict(x="0"), dict(x="1"), dict(x="0", k="z")], [{}, {"b": "ob"}, {"a": "a0(1)"}, {"x": "1"}, {"x": "ov2"}], [["d"], ["b", "c"]],
        [{}, {"recompute": True}, {"recompute": ["a"]}, {"disable": ["a"]}, {"disable": ["b", "x"]}, {"default_behavior": "disable"}]))
    # all nodes produce the same few values: results are shared between nodes and versions
    ps.append(Prog("collide", {
        "a": [F("a", "x: str", "x"), F("a", "x: str", "x + ''"), F("a", "x: str", "'q'")],
        "b": [F("b", "a: str", "a"), F("b", "x: str", "x")],
        "c": [F("c", "a: str, b: str", "a"), F("c", "a: str, b: str", "b"), F("c", "b: str, a: str", "a")]},
        [dict(x="p"), dict(x="q")], [{}, {"a": "q"}], [["c"], ["a", "b"]], [{}, {"recompute": ["b"]}, {"disable": True}]))
    # values that are falsy or not strings, a stored format, a config alternative, swapped arguments
    ps.append(Prog("types", {
        "n": [F("n", "x: int", "None", "object"), F("n", "x: int", "0", "object"), F("n", "x: int", "[]", "object")],
        "j": [F("j", "n: object, x: int", "{'n': n, 'x': [x]}", "dict", "@cache(format='json')\n"),
              F("j", "n: object, x: int", "{'n': n, 'x': [x, 1]}", "dict", "@cache(format='json')\n")],
        "w": [F("w__1", "j: dict", "[j, 1]", "list", "@config.when(k=1)\n") + F("w__2", "j: dict", "[j, 2]", "list", "@config.when(k=2)\n")],
        "s": [F("s", "p: int, q: int, w: list", "(p - q, w)", "tuple"), F("s", "q: int, p: int, w: list", "(q - p, w)", "tuple")]},
        [dict(x=1, p=1, q=2), dict(x=1, p=2, q=1), dict(x=0, p=1, q=2), dict(x=True, p=1, q=2)], [{}, {"n": False}], [["s"], ["j", "n"]],
        [{}, {"recompute": ["n"]}], [dict(k=1), dict(k=2)]))
    # fan-out
    ps.append(Prog("fan", {
        "e": ["def e(xs: list) -> Parallelizable[str]:\n    yield from xs\n", "def e(xs: list) -> Parallelizable[str]:\n    yield from xs[::-1]\n"],
        "f": [F("f", "e: str, y: str", "'f0(%s,%s)' % (e, y)"), F("f", "e: str, y: str", "'f1'")],
        "h": [F("h", "f: str, e: str", "'h0(%s,%s)' % (f, e)")],
        "g": [F("g", "h: Collect[str], y: str", "y + '|'.join(h)"), F("g", "h: Collect[str], y: str", "y + '-'.join(h)")],
        "y": [F("y", "x: str", "'y' + x")],
        "z": [F("z", "g: str, y: str", "g + y")]},
        [dict(xs=["1", "2"], x="0"), dict(xs=["2", "1"], x="0"), dict(xs=["1", "1", "2"], x="0"), dict(xs=[], x="0"), dict(xs=["1", "2"], x="1")],
        [{}, {"y": "oy"}, {"g": "og"}], [["z"], ["g"]], [{}, {"recompute": ["f"]}, {"disable": ["h"]}, {"recompute": True}], dynamic=True))
    # fan-out whose body nodes only see each other; every assignment of behaviours to them
    def beh():
        out = []
        for t in itertools.product(("", "recompute", "disable"), repeat=3):
            b = {}
            for n, k in zip("fhg", t):
                if k:
                    b.setdefault(k, []).append(n)
            out.append(b)
        return out + [{"disable": ["e"]}, {"recompute": ["e"]}, {"disable": ["e", "f"]}, {"default_behavior": "disable"}]
    ps.append(Prog("fanline", {
        "e": ["def e(xs: list) -> Parallelizable[str]:\n    yield from xs\n"],
        "f": [F("f", "e: str", "'f0(%s)' % e")],
        "h": [F("h", "f: str", "'h0(%s)' % f"), F("h", "f: str", "'h1(%s)' % f")],
        "g": [F("g", "h: Collect[str]", "'|'.join(h)")],
        "z": [F("z", "g: str", "'z' + g")]},
        [dict(xs=["1", "2"]), dict(xs=["2", "1", "2"])], [{}], [["z"]], beh(), dynamic=True))
    # data loader; nodes whose value is a generator-free container of containers; subdag and pipe
    ps.append(Prog("deco", {
        "l": ["@dataloader()\ndef l(x: str) -> tuple[tuple, dict]:\n    LOG.append('l')\n    return (('l', x), {'m': x})\n",
              "@dataloader()\ndef l(x: str) -> tuple[tuple, dict]:\n    LOG.append('l')\n    return (('l', x), {'m': 'other'})\n",
              "@dataloader()\ndef l(x: str) -> tuple[tuple, dict]:\n    LOG.append('l')\n    return (('L', x), {'m': x})\n"],
        "st": ["def _st(l: tuple, y: str) -> tuple:\n    return l + (y,)\n", "def _st(l: tuple, y: str) -> tuple:\n    return (y,) + l\n"],
        "p": ["@pipe_input(step(_st, y=value('1')), step(_st, y=source('x')))\n" + F("p", "l: tuple", "['p', l]", "list"),
              "@pipe_input(step(_st, y=value('2')), step(_st, y=source('x')))\n" + F("p", "l: tuple", "['p', l]", "list"),
              "@pipe_input(step(_st, y=source('x')), step(_st, y=value('1')))\n" + F("p", "l: tuple", "['p', l]", "list")],
        "q": ["@parameterize(q1=dict(v=source('p'), w=value(1)), q2=dict(v=source('l'), w=value(1)))\n" + F("q", "v: object, w: int", "[v, w]", "object"),
              "@parameterize(q1=dict(v=source('p'), w=value(2)), q2=dict(v=source('p'), w=value(1)))\n" + F("q", "v: object, w: int", "[v, w]", "object")],
        "r": ["@extract_fields({'r1': object, 'r2': object})\n" + F("r", "q1: object, q2: object", "{'r1': q1, 'r2': q2}", "dict"),
              "@extract_fields({'r1': object, 'r2': object})\n" + F("r", "q1: object, q2: object", "{'r2': q1, 'r1': q2}", "dict")]},
        [dict(x="0"), dict(x="1")], [{}, {"l": ("o",)}], [["r1", "r2"], ["q2", "l"]],
        [{}, {"default_loader_behavior": "recompute"}, {"recompute": ["p"]}, {"disable": ["l"]}]))
    return ps


PAIRS = {}


def V(s):
    return s.replace("@@", "2"), s.replace("@@", "3")


def _pairs():
    P = PAIRS
    P["pipe_input literal"] = (*V("def _add(x:int,y:int)->int:\n    return x+y\ndef x()->int:\n    return 1\n@pipe_input(step(_add,y=value(@@)))\ndef f(x:int)->int:\n    return x\n"), ["f"])
    P["pipe_output literal"] = (*V("def _add(x:int,y:int)->int:\n    return x+y\n@pipe_output(step(_add,y=value(@@)))\ndef f()->int:\n    return 1\n"), ["f"])
    P["mutate literal"] = (*V("def f()->int:\n    return 1\n@mutate(f,y=value(@@))\ndef _add(x:int,y:int)->int:\n    return x+y\n"), ["f"])
    P["mutate body"] = (*V("def f()->int:\n    return 1\n@mutate(f)\ndef _add(x:int)->int:\n    return x+@@\n"), ["f"])
    P["two mutations, second edited"] = (*V("def f()->int:\n    return 1\n@mutate(f)\ndef _add(x:int)->int:\n    return x+1\n@mutate(f)\ndef _mul(x:int)->int:\n    return x*@@\n"), ["f"])
    P["inject"] = (*V("@inject(a=value(@@))\ndef f(a:int)->int:\n    return a\n"), ["f"])
    P["parameterize"] = (*V("@parameterize(p=dict(a=value(@@)),q=dict(a=value(7)))\ndef f(a:int)->int:\n    return a\n"), ["p", "q"])
    P["parameterize swap"] = tuple("@parameterize(p=dict(a=value(%d)),q=dict(a=value(%d)))\ndef f(a:int)->int:\n    return a\n" % t for t in ((1, 7), (7, 1))) + (["p", "q"],)
    P["parameterize source"] = tuple("def u()->int:\n    return 1\ndef v()->int:\n    return 2\n@parameterize(p=dict(a=source('%s')))\ndef f(a:int)->int:\n    return a\n" % t for t in ("u", "v")) + (["p"],)
    P["parameterize crossed sources"] = tuple("def u()->int:\n    return 1\ndef v()->int:\n    return 2\n@parameterize(p=dict(a=source('%s'),b=source('%s')))\ndef f(a:int,b:int)->int:\n    return a-b\n" % tuple(t) for t in ("uv", "vu")) + (["p"],)
    P["parameterize_sources"] = tuple("def u()->int:\n    return 1\ndef v()->int:\n    return 2\n@parameterize_sources(p=dict(a='%s',b='%s'))\ndef f(a:int,b:int)->int:\n    return a-b\n" % tuple(t) for t in ("uv", "vu")) + (["p"],)
    P["subdag inputs"] = (*V("def s(a:int)->int:\n    return a\n@subdag(s,inputs={'a':value(@@)})\ndef f(s:int)->int:\n    return s\n"), ["f"])
    P["subdag config"] = (*V("def s(a:int)->int:\n    return a\n@subdag(s,config={'a':@@})\ndef f(s:int)->int:\n    return s\n"), ["f"])
    P["subdag body"] = (*V("def s(a:int)->int:\n    return a*@@\n@subdag(s,inputs={'a':value(5)})\ndef f(s:int)->int:\n    return s\n"), ["f"])
    P["subdag wrapper"] = (*V("def s(a:int)->int:\n    return a\n@subdag(s,inputs={'a':value(5)})\ndef f(s:int)->int:\n    return s*@@\n"), ["f"])
    P["parameterized_subdag"] = (*V("def s(a:int)->int:\n    return a\n@parameterized_subdag(s,p={'inputs':{'a':value(@@)}},q={'inputs':{'a':value(9)}})\ndef f(s:int)->int:\n    return s\n"), ["p", "q"])
    P["extract_fields"] = (*V("@extract_fields(dict(p=int,q=int))\ndef f()->dict:\n    return dict(p=@@,q=2)\n"), ["p", "q"])
    P["group"] = (*V("@parameterize(p=dict(a=group(value(1),value(@@))))\ndef f(a:list[int])->int:\n    return sum(a)\n"), ["p"])
    P["group sources"] = tuple("def u()->int:\n    return 1\ndef v()->int:\n    return 2\n@parameterize(p=dict(a=group(source('%s'),source('%s'))))\ndef f(a:list[int])->list:\n    return a\n" % tuple(t) for t in ("uv", "vu")) + (["p"],)
    P["group dict"] = tuple("def u()->int:\n    return 1\ndef v()->int:\n    return 2\n@parameterize(p=dict(a=group(m=source('%s'),n=source('%s'))))\ndef f(a:dict[str,int])->dict:\n    return a\n" % tuple(t) for t in ("uv", "vu")) + (["p"],)
    P["pipe order"] = tuple("def _add(x:int)->int:\n    return x+1\ndef _mul(x:int)->int:\n    return x*3\ndef x()->int:\n    return 1\n@pipe_input(step(_%s),step(_%s))\ndef f(x:int)->int:\n    return x\n" % t for t in (("add", "mul"), ("mul", "add"))) + (["f"],)
    P["default value"] = (*V("def f(b:int=@@)->int:\n    return b\n"), ["f"])
    P["apply_to literal"] = (*V("def f()->int:\n    return 1\n@mutate(apply_to(f,y=value(@@)))\ndef _ad(x:int,y:int)->int:\n    return x+y\n"), ["f"])
    P["pipe body"] = (*V("def _add(x:int)->int:\n    return x+@@\ndef x()->int:\n    return 1\n@pipe_input(step(_add))\ndef f(x:int)->int:\n    return x\n"), ["f"])
    P["pipe_output body"] = (*V("def _add(x:int)->int:\n    return x+@@\n@pipe_output(step(_add))\ndef f()->int:\n    return 1\n"), ["f"])
    P["pipe step condition"] = ("def _add(x:int)->int:\n    return x+1\ndef x()->int:\n    return 1\n@pipe_input(step(_add).when(k=1))\ndef f(x:int)->int:\n    return x\n",) * 2 + (["f"], dict(k=1), dict(k=2))
    P["config.when"] = ("@config.when(k=1)\ndef f__a()->int:\n    return 1\n@config.when(k=2)\ndef f__b()->int:\n    return 2\ndef g(f:int)->int:\n    return f\n",) * 2 + (["g"], dict(k=1), dict(k=2))
    P["config value"] = ("def g(k:int)->int:\n    return k\n",) * 2 + (["g"], dict(k=1), dict(k=2))
    P["config value in a fan-out"] = ("def e(k:int)->Parallelizable[int]:\n    yield from range(k)\ndef f(e:int,k:int)->int:\n    return e*k\ndef g(f:Collect[int])->list:\n    return list(f)\n",) * 2 + (["g"], dict(k=2), dict(k=3))
    P["resolve config"] = ("@resolve(when=ResolveAt.CONFIG_AVAILABLE,decorate_with=lambda n: parameterize(p=dict(a=value(n))))\ndef f(a:int)->int:\n    return a\n",) * 2 + (["p"], dict(n=1), dict(n=2))
    P["rename"] = ("def a()->int:\n    return 1\ndef b()->int:\n    return 2\n", "def b()->int:\n    return 1\ndef a()->int:\n    return 2\n", ["a", "b"])
    P["annotation and kind"] = ("def a()->list:\n    return [1, 2]\ndef b(a:list)->str:\n    return repr(a)\n", "def a()->list:\n    return [1, 2, 3]\ndef b(a:list)->str:\n    return repr(a)\n", ["a", "b"])
    P["operator only"] = ("def f(x:int=7)->int:\n    return x + 2\n", "def f(x:int=7)->int:\n    return x - 2\n", ["f"])
    P["string literal"] = ("def f(x:int=7)->str:\n    return 'a b'\n", "def f(x:int=7)->str:\n    return 'a  b'\n", ["f"])
    P["indentation"] = ("def f(x:int=7)->int:\n    if x > 9:\n        x = 1\n    x = x + 1\n    return x\n", "def f(x:int=7)->int:\n    if x > 9:\n        x = 1\n        x = x + 1\n    return x\n", ["f"])
    P["nested function"] = (*V("def f(x:int=7)->int:\n    def g():\n        return @@\n    return g()\n"), ["f"])
    P["lambda"] = (*V("def f(x:int=7)->int:\n    g = lambda: @@\n    return g()\n"), ["f"])
    P["hash in string"] = ("def f(x:int=7)->str:\n    return 'a#b'\n", "def f(x:int=7)->str:\n    return 'a#c'\n", ["f"])
    P["from_ materializer literal"] = None


_pairs()


def jobs(tier):
    out = []
    for p in progs():
        for be in ("memory", "disk"):
            for i in range(len(p.changes())):
                out.append(("hist", p.name, be, i))
            if be == "disk":
                out.append(("damage", p.name, be, 0))
            else:
                out.append(("damage", p.name, be, 0))
        out.append(("grouping", p.name))
    for name in PAIRS:
        out.append(("pair", name))
    return out


def run_job(job, ctx):
    with ctx.guard(3000):
        if job[0] == "hist":
            history(job, ctx)
        elif job[0] == "damage":
            damage(job, ctx)
        elif job[0] == "pair":
            pair(job[1], ctx)
        elif job[0] == "grouping":
            groupings(job[1], ctx)


def stores_for(be):
    return MemStores() if be == "memory" else DiskStores()


def step(p, st, stores, ctx, hist, same=False):
    """one cached run on a new driver (twice on the same driver if same), compared with the uncached run"""
    want = p.reference(st)
    for k in range(2 if same else 1):
        try:
            if k == 0:
                dr = p.cached_driver(st, stores)
            got = p.run(st, dr)
        except Exception as e:
            got = "raised " + exc_brief(e)
        ctx.cases += 1
        ctx.transition()
        ctx.trace()
        bad = got != want or repr(got) != repr(want)
        ctx.outcome("wrong" if bad else "hit" if not L.LOG else "executed %d" % len(L.LOG))
        if bad:
            ctx.violation("%s:%s:%s" % (p.name, stores.kind, kind_of(p, hist)), "history %r: a run without a cache returns %r, the cached run %r" % (
                hist, want, got), dict(kind="hist", prog=p.name, be=stores.kind, hist=hist))
            return False
    return True


def kind_of(p, hist):
    def nm(h):
        if h is None:
            return "rerun"
        if isinstance(h, (list, tuple)) and h and h[0] == "damage":
            return ".".join(str(x) for x in h[1])
        if isinstance(h, str):
            return h
        return "%s=%d" % (p.dims[h[0]][0], h[1])
    return ">".join(nm(h) for h in hist)


def history(job, ctx):
    _, pname, be, first = job
    p = [q for q in progs() if q.name == pname][0]
    depth = (2 if pname == "fanline" else {"memory": 3, "disk": 3}[be]) if ctx.tier == "quick" else {"memory": 5, "disk": 4}[be]
    ch1 = p.changes()[first]
    if p.apply(p.start(), ch1) is None:
        return
    seen = set()
    base = stores_for(be)
    if not step(p, p.start(), base, ctx, []):
        return
    level = [(p.start(), base, [])]
    for d in range(1, depth + 1):
        nxt = []
        for st, stores, hist in level:
            for ch in ([ch1] if d == 1 else p.changes()):
                st2 = p.apply(st, ch)
                if st2 is None or (d > 1 and ch is None):
                    continue
                s2 = stores.snapshot()
                h2 = hist + [ch]
                ok = step(p, st2, s2, ctx, h2, same=(d == 1))
                key = (st2, L.contents(s2))
                ctx.state((pname, be, key))
                if ok and d < depth and key not in seen and not ctx.out_of_time():
                    seen.add(key)
                    nxt.append((st2, s2, h2))
                else:
                    s2.close()
            stores.close()
        level = nxt
    for _, s, _ in level:
        s.close()


def damage(job, ctx):
    """after every prefix of changes: every single damage, then a run, then every further change, then a run"""
    _, pname, be, _ = job
    p = [q for q in progs() if q.name == pname][0]
    singles = [c for c in p.changes() if p.apply(p.start(), c) is not None]
    for ch in singles:
        st = p.apply(p.start(), ch)
        base = stores_for(be)
        hist = []
        if not step(p, p.start(), base, ctx, hist):
            return
        if ch is not None:
            hist = [ch]
            if not step(p, st, base, ctx, hist):
                base.close()
                continue
        for m in L.mutations(base):
            s2 = base.snapshot()
            try:
                L.mutate(s2, m)
            except Exception as e:
                ctx.violation("%s:%s:mutation:%s" % (pname, be, m[0]), "history %r then %r raised %s" % (hist, m, exc_brief(e)),
                              dict(kind="hist", prog=p.name, be=be, hist=hist + [("damage", m)]))
                s2.close()
                continue
            h2 = hist + [("damage", m)]
            ctx.state((pname, be, "damaged", st, m, L.contents(s2)))
            if step(p, st, s2, ctx, h2):
                # the cache has to be usable afterwards: once more, and with the starting point
                step(p, st, s2, ctx, h2 + [None])
                if ch is not None:
                    i = ch[0]
                    step(p, p.start(), s2, ctx, h2 + [(i, 0)])
            s2.close()
        base.close()


def groupings(pname, ctx):
    """the same dataflow under other groupings of nodes into tasks, and plain execution, sharing one cache"""
    p = [q for q in progs() if q.name == pname][0]
    if p.dynamic:
        return
    G = [None, "blocks", "individual", "level", "all"]

    def drv(st, stores, g):
        b = p.builder(st)
        if g:
            b = (b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
                 .with_remote_executor(executors.SynchronousLocalTaskExecutor()))
            b = b.with_grouping_strategy(dict(blocks=grouping.GroupByRepeatableBlocks, individual=grouping.GroupNodesIndividually,
                                              level=grouping.GroupNodesByLevel, all=grouping.GroupNodesAllAsOne)[g]())
        return b.with_cache(metadata_store=stores.meta, result_store=stores.res).build()
    for ch in p.changes():
        st = p.apply(p.start(), ch)
        if st is None or p.dims[(ch or (0,))[0]][0] == "behaviour":
            continue
        for g1, g2 in itertools.product(G, G):
            stores = MemStores()
            for s, g in ((p.start(), g1), (st, g2), (p.start(), g2)):
                want = p.reference(s)
                try:
                    got = p.run(s, drv(s, stores, g))
                except Exception as e:
                    got = "raised " + exc_brief(e)
                ctx.cases += 1
                ctx.transition()
                ctx.trace()
                ctx.state((pname, "grouping", g1, g2, ch, s))
                ctx.outcome("wrong" if repr(got) != repr(want) else "same")
                if repr(got) != repr(want):
                    ctx.violation("%s:grouping:%s>%s:%s" % (pname, g1, g2, kind_of(p, [ch])),
                                  "grouping %s then %s with change %r: want %r got %r" % (g1, g2, ch, want, got),
                                  dict(kind="grouping", prog=pname))


def pair(name, ctx):
    spec = PAIRS[name]
    for be in ("memory", "disk"):
        for order in ((0, 1, 0, 1), (1, 0, 1, 0)):
            stores = stores_for(be)
            for k, i in enumerate(order):
                if spec is None:
                    b, outs, inputs = from_literal(i)
                else:
                    cfg = spec[3 + i] if len(spec) > 3 else {}
                    mod = make_module(HDR + spec[i], name="pairmod", env={"LOG": L.LOG})
                    outs = spec[2]

                    def b(mod=mod, cfg=cfg):
                        bb = driver.Builder().with_modules(mod).with_config({settings.ENABLE_POWER_USER_MODE: True, **cfg})
                        if "Parallelizable" in spec[0]:
                            bb = (bb.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
                                  .with_remote_executor(executors.SynchronousLocalTaskExecutor()))
                        return bb
                want = b().build().execute(outs)
                try:
                    c = b()
                    c = c.with_cache(path=stores.dir) if be == "disk" else c.with_cache(metadata_store=stores.meta, result_store=stores.res)
                    got = c.build().execute(outs)
                except Exception as e:
                    got = "raised " + exc_brief(e)
                ctx.cases += 1
                ctx.transition()
                ctx.trace()
                ctx.state(("pair", name, be, order[:k + 1]))
                ctx.outcome("pair wrong" if got != want else "pair same")
                if repr(got) != repr(want):
                    ctx.violation("pair:%s" % name, "dataflow edited (%s), versions run in order %r: without a cache %r, with %r" % (
                        name, order[:k + 1], want, got), dict(kind="pair", name=name))
            stores.close()


def from_literal(i):
    import json, os
    from hamilton.io.materialization import from_
    d = os.environ.get("VERIF_SHM") or "/tmp"
    path = os.path.join(d, "lit%d-%d.json" % (os.getpid(), i))
    with open(path, "w") as f:
        json.dump({"v": i}, f)
    mod = make_module(HDR + "def u(t: dict) -> str:\n    return repr(t)\n", name="pairmod")
    return (lambda: driver.Builder().with_modules(mod).with_materializers(from_.json(target="t", path=path))), ["u"], {}


def replay(case, ctx):
    if case.get("kind") == "pair":
        return pair(case["name"], ctx)
    if case.get("kind") == "grouping":
        return groupings(case["prog"], ctx)
    if case.get("kind") != "hist":
        return run_job(tuple(case["job"]), ctx)
    p = [q for q in progs() if q.name == case["prog"]][0]
    stores = stores_for(case["be"])
    st = p.start()
    step(p, st, stores, ctx, [])
    hist = []
    for h in case["hist"]:
        hist.append(h)
        if h is not None and h[0] == "damage":
            L.mutate(stores, tuple(h[1]))
            continue
        st = p.apply(st, tuple(h) if h is not None else None) or st
        step(p, st, stores, ctx, hist, same=len(hist) == 1)
    stores.close()
