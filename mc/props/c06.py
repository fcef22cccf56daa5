"""C06: what re-executes is exactly what must.  Histories of runs on the real caching adapter are explored in lock step with a model of
the cache (a map from node, code and dependency values to results); after every run the executed functions and all values must agree."""
from __future__ import annotations
import dataclasses, itertools
from mc.core import exc_brief
from mc import cachelab as L
from mc.cachelab import Prog, MemStores, DiskStores, HDR
from mc.progs import make_module
from hamilton import driver, registry
from hamilton.function_modifiers import source
from hamilton.io.data_adapters import DataLoader
from hamilton.io.materialization import from_

TECHNIQUE = ("explicit-state exploration of an abstract cache model in lock step with the real caching adapter and stores (conformance of executed "
             "functions and values after every transition)")
RULE = ("state = (settings of the run, abstract cache content); transition = one change (code, input, function outcome, behaviour, outputs, override, "
        "deletion) followed by a run of both model and real code; trace = one history whose runs all conform")
ASSUMPTIONS = ["each function returns values that tell apart its code, arguments and occasion", "data savers are only checked for precedence of behaviours"]
BUDGET = {"quick": 300, "thorough": 4 * 3600}

TICK = [0]


def F(n, params, deps, ver=0, dec="", tick=False):
    body = "'%s%d%s(%s)' %% (%s)" % (n, ver, ".%s" if tick else "", ",".join(["%s"] * len(deps)), ", ".join((["TICK[0]"] if tick else []) + list(deps)) + ",") \
        if deps or tick else "'%s%d'" % (n, ver)
    return "%sdef %s(%s) -> str:\n    LOG.append('%s')\n    return %s\n" % (dec, n, params, n, body)


SINGLE = [{b: [n]} for n in ("x", "a", "b", "c") for b in ("recompute", "disable", "ignore")]
MULTI = [{}, {"recompute": True}, {"disable": True}, {"ignore": True}, {"default": True}, {"default_behavior": "recompute"}, {"default_behavior": "disable"},
         {"default_behavior": "ignore", "default": ["b", "c"]}, {"disable": ["a"], "ignore": ["b"]}, {"ignore": ["a"], "recompute": ["b"]},
         {"recompute": ["a", "c"]}, {"disable": ["x"], "ignore": ["a"]}]


class MProg(Prog):
    """a dataflow whose model is known: node -> (params, ticking?, decorator behaviour)"""

    def __init__(self, name, nodes, **kw):
        self.nodes = nodes
        fns = {}
        for n, d in nodes.items():
            dec = "@cache(behavior='%s')\n" % d["dec"] if d.get("dec") else ""
            if d.get("expand"):
                fns[n] = ["def %s(%s: list) -> Parallelizable[str]:\n    LOG.append('%s')\n    yield from %s\n" % (n, d["deps"][0], n, d["deps"][0])]
                continue
            params = ", ".join("%s: %s" % (p, "Collect[str]" if p == d.get("collect") else "str") for p in d["deps"])
            fns[n] = []
            for v in range(d.get("versions", 1)):
                src = F(n, params, d["deps"], v, dec, d.get("tick"))
                if d.get("collect"):
                    src = src.replace("    return", "    %s = list(%s)\n    return" % (d["collect"], d["collect"]))
                fns[n].append(src)
        super().__init__(name, fns, **kw)

    def module(self, versions):
        m = super().module(versions)
        m.__dict__["TICK"] = TICK
        return m


def progs():
    ps = []
    inp = [dict(x="0"), dict(x="1")]
    ps.append(MProg("tri", dict(a=dict(deps=["x"], versions=2, tick=True), b=dict(deps=["a"], versions=2), c=dict(deps=["a", "b"])),
                    inputs=inp, overrides=[{}, {"a": "oa"}], outputs=[["c"], ["b"]], behaviours=MULTI[:1] + SINGLE + MULTI[1:]))
    ps.append(MProg("chain", dict(a=dict(deps=["x"]), b=dict(deps=["a", "x"], tick=True, dec="recompute"), c=dict(deps=["b"], dec="ignore"), d=dict(deps=["c", "x"])),
                    inputs=inp, overrides=[{}, {"b": "ob"}], outputs=[["d"], ["d", "b"]],
                    behaviours=[{}, {"default": ["b"]}, {"default": ["c"]}, {"default": True}, {"disable": ["c"]}, {"recompute": ["a"]}, {"ignore": ["b"]}, {"disable": ["b", "a"]},
                                {"default_behavior": "recompute"}, {"default_behavior": "ignore"}]))
    ps.append(MProg("fan", dict(y=dict(deps=["x"], tick=True), e=dict(deps=["xs"], expand=True), f=dict(deps=["e", "y"], versions=2), h=dict(deps=["f", "e"], tick=True),
                                g=dict(deps=["h", "y"], collect="h", versions=2), z=dict(deps=["g", "x"])),
                    inputs=[dict(xs=["1", "2"], x="0"), dict(xs=["2", "1"], x="0"), dict(xs=["2", "3", "2"], x="0"), dict(xs=[], x="0"), dict(xs=["1", "2"], x="1")],
                    overrides=[{}, {"y": "oy"}], outputs=[["z"], ["g"]], dynamic=True,
                    behaviours=[{}] + [{b: [n]} for n in ("f", "h", "g", "y") for b in ("recompute", "disable", "ignore")] + [{"recompute": True}, {"disable": True}, {"ignore": ["x", "y"]}]))
    return ps


# ------------------------------------------------------------------------------------------------------------- the model
class Model:
    def __init__(self, store=None, results=None):
        self.store, self.results = dict(store or {}), set(results or ())

    def copy(self):
        return Model(self.store, self.results)

    def key(self):
        return (tuple(sorted((k, v) for k, v in self.store.items() if not any(isinstance(x, int) for x in k[2]))), tuple(sorted(self.results)))


def behaviour(p, n, beh, dec):
    nodes = p.nodes.get(n, {})
    if nodes.get("expand"):
        return "recompute"
    for b in ("default", "recompute", "disable", "ignore"):
        if b in beh and (beh[b] is True or n in beh[b]):
            return b
    return dec or beh.get("default_behavior") or "default"


_uniq = itertools.count()


def model_run(p, st, m):
    """returns (results, executed multiset as sorted list)"""
    beh, inputs, over = p.setting(st, "behaviour"), p.setting(st, "input"), p.setting(st, "override")
    vers = dict(zip(p.fns, p.versions(st)))
    tick = TICK[0]
    executed = []
    vals = {}

    def bof(n):
        return behaviour(p, n, beh, p.nodes.get(n, {}).get("dec"))

    def call(n, args):
        d = p.nodes[n]
        executed.append(n)
        deps = [args[q] for q in d["deps"]]
        if not deps and not d.get("tick"):
            return "%s%d" % (n, vers[n])
        return ("%s%d" % (n, vers[n])) + (".%s" % tick if d.get("tick") else "") + "(" + ",".join("%s" % (v,) for v in deps) + ")"

    def node(n, args):
        b = bof(n)
        if b in ("disable", "ignore"):
            v = call(n, args)
            if b == "ignore":
                m.results.add(v)
            return v
        key = []
        for q in p.nodes[n]["deps"]:
            bq = bof(q)
            key.append("<ignore>" if bq == "ignore" else next(_uniq) if bq == "disable" else "v" + repr(args[q]))
        key = (n, vers[n], tuple(key))
        if b == "default" and key in m.store and m.store[key] in m.results:
            return m.store[key]
        v = call(n, args)
        m.store[key] = v
        m.results.add(v)
        return v

    def get(n, item=None):
        """value of n; item = (expand node name, value, memo) inside a fan-out"""
        memo = item[2] if item else vals
        if n in over:
            return over[n]
        if n not in p.nodes:
            return inputs[n]
        if item and n == item[0]:
            return item[1]
        if n in vals:
            return vals[n]
        if n in memo:
            return memo[n]
        d = p.nodes[n]
        inside = item and depends(p, n, item[0], over)
        tgt = memo if inside else vals
        args = {}
        for q in d["deps"]:
            if q == d.get("collect"):
                e = expand_of(p, q)
                items = expand(e)
                args[q] = [get(q, (e, it, {})) for it in items]
            else:
                args[q] = get(q, item if inside else None)
        tgt[n] = node(n, args)
        return tgt[n]

    def expand(e):
        if e not in vals:
            executed.append(e)
            vals[e] = list(get(p.nodes[e]["deps"][0]))
        return vals[e]

    res = {o: get(o) for o in p.setting(st, "outputs")}
    return res, sorted(executed)


def depends(p, n, e, over):
    if n == e:
        return True
    if n in over or n not in p.nodes or p.nodes[n].get("collect"):
        return False
    return any(depends(p, q, e, over) for q in p.nodes[n]["deps"])


def expand_of(p, n):
    if p.nodes.get(n, {}).get("expand"):
        return n
    for q in p.nodes.get(n, {}).get("deps", ()):
        e = expand_of(p, q)
        if e:
            return e
    return None


# ------------------------------------------------------------------------------------------------------------- exploration
def jobs(tier):
    out = [("table", i) for i in range(6)] + [("loader",), ("saver",), ("defaults",)]
    for p in progs():
        for be in ("memory", "disk"):
            for i in range(len(p.changes())):
                out.append(("hist", p.name, be, i))
            if not p.dynamic:
                for i in range(len(p.behaviours)):
                    out.append(("behav", p.name, be, i))
    return out


def run_job(job, ctx):
    with ctx.guard(3000):
        if job[0] == "hist":
            history(job, ctx)
        elif job[0] == "behav":
            behav(job, ctx)
        elif job[0] == "table":
            table(job[1], ctx)
        elif job[0] == "loader":
            loader(ctx)
        elif job[0] == "defaults":
            defaults(ctx)
        elif job[0] == "saver":
            saver(ctx)


def stores_for(be):
    return MemStores() if be == "memory" else DiskStores()


def step(p, st, stores, model, ctx, hist, same=False):
    dr = None
    for k in range(2 if same else 1):
        want, wexec = model_run(p, st, model)
        try:
            if dr is None:
                dr = p.cached_driver(st, stores)
            got = p.run(st, dr)
            gexec = sorted(L.LOG)
        except Exception as e:
            got, gexec = "raised " + exc_brief(e), sorted(L.LOG)
        ctx.cases += 1
        ctx.transition()
        ctx.trace()
        ctx.outcome("%d of %d executed" % (len(gexec), len(p.nodes)))
        if got != want or gexec != wexec:
            ctx.violation("%s:%s:%s" % (p.name, stores.kind, kind_of(p, hist)),
                          "history %r: must execute %r and return %r; executed %r and returned %r" % (hist, wexec, want, gexec, got),
                          dict(kind="hist", prog=p.name, be=stores.kind, hist=hist))
            return False
    return True


def kind_of(p, hist):
    out = []
    for h in hist:
        if h is None:
            out.append("rerun")
        elif h[0] == "tick":
            out.append("tick%d" % h[1])
        elif isinstance(h[0], str):
            out.append(".".join(str(x) for x in h))
        else:
            nm = p.dims[h[0]][0]
            out.append("%s=%s" % (nm, p.behaviours[h[1]] if nm == "behaviour" else h[1]))
    return ">".join(out)


def do_change(p, st, tick, ch, stores, model):
    """applies one change; returns (settings, tick) or None if not applicable"""
    if ch is None:
        return st, tick
    if ch[0] == "tick":
        return None if ch[1] == tick else (st, ch[1])
    if ch[0] == "delete":
        vals = sorted(model.results)
        if ch[1] >= len(vals):
            return None
        v = vals[ch[1]]
        dv = _data_version(v)
        if not stores.res.exists(dv):
            return st, tick
        stores.res.delete(dv)
        model.results.discard(v)
        return st, tick
    if ch[0] == "delete_all_results":
        stores.res.delete_all()
        model.results.clear()
        return st, tick
    if ch[0] == "delete_all_metadata":
        stores.meta.delete_all()
        model.store.clear()
        return st, tick
    s2 = p.apply(st, ch)
    return None if s2 is None else (s2, tick)


def _data_version(v):
    from hamilton.caching.fingerprinting import hash_value
    return hash_value(v)


EXTRA = [("tick", 0), ("tick", 1), ("delete_all_results",), ("delete_all_metadata",)] + [("delete", i) for i in range(4)]


def history(job, ctx):
    _, pname, be, first = job
    p = [q for q in progs() if q.name == pname][0]
    depth = (3 if be == "memory" else 2) if ctx.tier == "quick" else (4 if be == "memory" else 3)
    changes = p.changes()
    ch1 = changes[first]
    if p.apply(p.start(), ch1) is None:
        return
    explore(p, be, ctx, depth, [ch1], changes[1:] + EXTRA, ch1)


def behav(job, ctx):
    """under one behaviour setting: longer histories of inputs, code, occasions and deletions"""
    _, pname, be, bi = job
    p = [q for q in progs() if q.name == pname][0]
    depth = 3 if ctx.tier == "quick" else (5 if be == "memory" else 4)
    dim = [i for i, (n, _) in enumerate(p.dims) if n == "behaviour"][0]
    ch = [c for c in p.changes()[1:] if p.dims[c[0]][0] in ("code:a", "input", "override")] + EXTRA[:5]
    # after the exploration under this behaviour, the last step may also return to the default behaviour
    explore(p, be, ctx, depth, [(dim, bi)] if bi else [None], ch + [(dim, 0)], ("b", bi))


def explore(p, be, ctx, depth, firsts, changes, tag):
    seen = set()
    TICK[0] = 0
    base, model = stores_for(be), Model()
    if not step(p, p.start(), base, model, ctx, []):
        base.close()
        return
    level = [(p.start(), 0, base, model, [])]
    for d in range(1, depth + 1):
        nxt = []
        for st, tick, stores, mod, hist in level:
            for ch in (firsts if d == 1 else changes):
                if ch is not None and not isinstance(ch[0], str) and p.apply(st, ch) is None:
                    continue
                if ch is not None and ch[0] == "tick" and ch[1] == tick:
                    continue
                s2, m2 = stores.snapshot(), mod.copy()
                h2 = hist + [ch]
                r = do_change(p, st, tick, ch, s2, m2)
                if r is None:
                    s2.close()
                    continue
                st2, t2 = r
                TICK[0] = t2
                ok = step(p, st2, s2, m2, ctx, h2, same=(d == 1))
                key = (st2, t2, m2.key())
                ctx.state((p.name, be, key))
                if ok and d < depth and key not in seen and not ctx.out_of_time():
                    seen.add(key)
                    nxt.append((st2, t2, s2, m2, h2))
                else:
                    s2.close()
            stores.close()
        level = nxt
    for x in level:
        x[2].close()
    TICK[0] = 0


# ------------------------------------------------------------------------------------------------------------- precedence
B4 = ["default", "recompute", "disable", "ignore"]


def table(part, ctx):
    """decorator x builder x default_behavior: three runs with changing outcome of the node; executions and values per the model"""
    combos = list(itertools.product([None] + B4, [None] + B4 + ["all:" + b for b in B4], [None] + B4, ("memory", "disk")))
    for i, (dec, bld, dflt, be) in enumerate(combos):
        if i % 6 != part:
            continue
        beh = {}
        if bld:
            beh[bld.split(":")[-1]] = True if bld.startswith("all:") else ["a"]
        if dflt:
            beh["default_behavior"] = dflt
        p = MProg("tab", dict(a=dict(deps=["x"], tick=True, dec=dec), b=dict(deps=["a"])), inputs=[dict(x="0")], outputs=[["b"]], behaviours=[beh])
        stores, model = stores_for(be), Model()
        for k, t in enumerate((0, 1, 0, 1)):
            TICK[0] = t
            ctx.state(("table", dec, bld, dflt, be, k))
            want, wexec = model_run(p, p.start(), model)
            try:
                got = p.run(p.start(), p.cached_driver(p.start(), stores))
            except Exception as e:
                got = "raised " + exc_brief(e)
            gexec = sorted(L.LOG)
            ctx.cases += 1
            ctx.transition()
            ctx.trace()
            ctx.outcome("table")
            if got != want or gexec != wexec:
                ctx.violation("table:%s:%s:%s" % (dec, bld, dflt), "decorator %s, builder %s, default_behavior %s, run %d: must execute %r -> %r, executed %r -> %r" % (
                    dec, bld, dflt, k, wexec, want, gexec, got), dict(kind="table", part=part))
                break
        stores.close()
    TICK[0] = 0


@dataclasses.dataclass
class McLoad(DataLoader):
    at: str

    @classmethod
    def name(cls):
        return "mc06"

    @classmethod
    def applicable_types(cls):
        return [str]

    def load_data(self, type_):
        L.LOG.append("l")
        return "l" + self.at + str(TICK[0]), {}


registry.register_adapter(McLoad)


def defaults(ctx):
    """a parameter left at its default and one supplied with that value are the same dependency value"""
    src = HDR + "def a(x: str, y: int = 3, z: str = 'z') -> str:\n    LOG.append('a')\n    return '(a %s %s %s)' % (x, y, z)\ndef b(a: str, y: int = 4) -> str:\n    LOG.append('b')\n    return '(b %s %s)' % (a, y)\n"
    opts = [dict(x="0"), dict(x="0", y=3), dict(x="0", y=4), dict(x="0", z="z"), dict(x="0", y=3, z="w")]
    for be in ("memory", "disk"):
        for seq in itertools.product(opts, repeat=3):
            mod = make_module(src, name="dmod", env={"LOG": L.LOG})
            stores = stores_for(be)
            seen = set()
            for k, inp in enumerate(seq):
                del L.LOG[:]
                bld_ = driver.Builder().with_modules(mod)
                bld_ = bld_.with_cache(path=stores.dir) if be == "disk" else bld_.with_cache(metadata_store=stores.meta, result_store=stores.res)
                va = "(a %s %s %s)" % (inp["x"], inp.get("y", 3), inp.get("z", "z"))
                vb = "(b %s %s)" % (va, inp.get("y", 4))
                wexec = [n for n, v in (("a", va), ("b", vb)) if v not in seen]
                seen |= {va, vb}
                try:
                    got = bld_.build().execute(["b"], inputs=dict(inp))
                except Exception as e:
                    got = "raised " + exc_brief(e)
                execs = sorted(L.LOG)
                ctx.cases += 1
                ctx.transition()
                ctx.trace()
                ctx.state(("defaults", be, repr(seq[:k + 1])))
                ctx.outcome("defaults")
                if got != {"b": vb} or execs != wexec:
                    ctx.violation("defaults:%s:%r" % (be, seq[:k + 1]), "runs with inputs %r: the last must execute %r -> %r, executed %r -> %r" % (seq[:k + 1], wexec, vb, execs, got), dict(kind="defaults"))
                    break
            stores.close()


def loader(ctx):
    """default_loader_behavior applies to loaders, before default_behavior, after decorator and builder"""
    loader_kind(ctx, "dataloader")
    loader_kind(ctx, "load_from")
    loader_kind(ctx, "from_")


def loader_kind(ctx, how):
    src = HDR + "%s@dataloader()\ndef l(x: str) -> tuple[str, dict]:\n    LOG.append('l')\n    return 'l' + x + str(TICK[0]), {}\n" \
                "def b(l: str) -> str:\n    LOG.append('b')\n    return 'b' + l\n"
    if how == "load_from":
        src = HDR + "%s@load_from.mc06(at=source('x'))\ndef b(l: str) -> str:\n    LOG.append('b')\n    return 'b' + l\n"
    elif how == "from_":
        src = HDR + "%sdef b(l: str) -> str:\n    LOG.append('b')\n    return 'b' + l\n"
    for ldr, dflt, bld, be in itertools.product([None] + B4, [None] + B4, [None] + B4, ("memory", "disk")):
        if ldr is None and dflt not in (None, "default"):
            continue  # the builder passes its own default for these nodes; nothing is promised
        mod = make_module(src % "", name="lmod", env={"LOG": L.LOG, "TICK": TICK})
        kw = {}
        if ldr:
            kw["default_loader_behavior"] = ldr
        if dflt:
            kw["default_behavior"] = dflt
        if bld:
            kw[bld] = ["l"]
        eff = bld or ldr or dflt or "default"
        b_beh = dflt or "default"
        stores = stores_for(be)
        seen_b, first_l = {}, None
        x_beh = dflt or "default"
        for k, t in enumerate((0, 1)):
            TICK[0] = t
            del L.LOG[:]
            bld_ = driver.Builder().with_modules(mod)
            if how == "from_":
                bld_ = bld_.with_materializers(from_.mc06(target="l", at=source("x")))
            bld_ = bld_.with_cache(path=stores.dir, **kw) if be == "disk" else bld_.with_cache(metadata_store=stores.meta, result_store=stores.res, **kw)
            try:
                got = bld_.build().execute(["b"], inputs=dict(x="0"))
            except Exception as e:
                got = "raised " + exc_brief(e)
            execs = sorted(L.LOG)
            ctx.cases += 1
            ctx.transition()
            ctx.trace()
            ctx.state((how, ldr, dflt, bld, be, k))
            # the loader executes on the second run unless its effective behaviour is default and its input is versioned
            l_exec = k == 0 or eff != "default" or x_beh == "disable"
            l_val = "l0%d" % (t if l_exec else 0)
            dep = "<i>" if eff == "ignore" else ("u%d" % k if eff == "disable" else l_val)
            if b_beh == "default":
                b_exec = dep not in seen_b
                b_val = "b" + l_val if b_exec else seen_b[dep]
                seen_b[dep] = b_val
            else:
                b_exec, b_val = True, "b" + l_val
            want, wexec = {"b": b_val}, (["b"] if b_exec else []) + (["l"] if l_exec else [])
            ctx.outcome("loader")
            if got != want or execs != wexec:
                ctx.violation("%s:%s:%s:%s" % (how, ldr, dflt, bld), how + ": default_loader_behavior %s, default_behavior %s, builder %s, run %d: must execute %r -> %r, executed %r -> %r" % (
                    ldr, dflt, bld, k, wexec, want, execs, got), dict(kind="loader"))
                break
        stores.close()
    TICK[0] = 0


def saver(ctx):
    src = HDR + "def a(x: str) -> str:\n    LOG.append('a')\n    return 'a' + x\n@datasaver()\ndef s(a: str) -> dict:\n    LOG.append('s')\n    return {'a': a}\n"
    for sv, dflt, bld, be in itertools.product([None] + B4, [None] + B4, [None] + B4, ("memory", "disk")):
        if sv is None and dflt not in (None, "default"):
            continue  # the builder passes its own default for these nodes; nothing is promised
        mod = make_module(src, name="smod", env={"LOG": L.LOG, "TICK": TICK})
        kw = {}
        if sv:
            kw["default_saver_behavior"] = sv
        if dflt:
            kw["default_behavior"] = dflt
        if bld:
            kw[bld] = ["s"]
        eff, oth = bld or sv or dflt or "default", dflt or "default"
        stores = stores_for(be)
        for k in range(3):
            del L.LOG[:]
            b = driver.Builder().with_modules(mod)
            b = b.with_cache(path=stores.dir, **kw) if be == "disk" else b.with_cache(metadata_store=stores.meta, result_store=stores.res, **kw)
            try:
                got = b.build().execute(["s"], inputs=dict(x="0"))
            except Exception as e:
                got = "raised " + exc_brief(e)
            execs = sorted(L.LOG)
            ctx.cases += 1
            ctx.transition()
            ctx.trace()
            ctx.state(("saver", sv, dflt, bld, be, k))
            a_exec = k == 0 or oth != "default"
            s_exec = k == 0 or eff != "default" or oth == "disable"
            wexec = (["a"] if a_exec else []) + (["s"] if s_exec else [])
            ctx.outcome("saver")
            if got != {"s": {"a": "a0"}} or execs != wexec:
                ctx.violation("saver:%s:%s:%s" % (sv, dflt, bld), "default_saver_behavior %s, default_behavior %s, builder %s, run %d: must execute %r, executed %r -> %r" % (
                    sv, dflt, bld, k, wexec, execs, got), dict(kind="saver"))
                break
        stores.close()


def replay(case, ctx):
    if case.get("kind") == "table":
        return table(case["part"], ctx)
    if case.get("kind") == "defaults":
        return defaults(ctx)
    if case.get("kind") == "loader":
        return loader(ctx)
    if case.get("kind") == "saver":
        return saver(ctx)
    if case.get("kind") != "hist":
        return run_job(tuple(case["job"]), ctx)
    p = [q for q in progs() if q.name == case["prog"]][0]
    stores, model = stores_for(case["be"]), Model()
    TICK[0] = 0
    st, tick = p.start(), 0
    step(p, st, stores, model, ctx, [])
    hist = []
    for h in case["hist"]:
        h = tuple(h) if h is not None else None
        hist.append(h)
        st, tick = do_change(p, st, tick, h, stores, model) or (st, tick)
        TICK[0] = tick
        step(p, st, stores, model, ctx, hist, same=len(hist) == 1)
    stores.close()
