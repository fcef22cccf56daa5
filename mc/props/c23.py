"""C23: the older caching adapters never return a stale or foreign value.

(1) CacheAdapter / DiskCacheAdapter: every sequence of runs up to a depth over program variants (code edits, changed decorator arguments, a failing
variant), inputs, and a new or a reused adapter; each run is compared with an uncached run of the same variant and inputs, and a repetition of a
completed run must not run a cached function again.
(2) CachingGraphAdapter: an explicit model (files, recomputed nodes) of the documented rules is explored in lockstep with the real adapter over every
sequence of runs (requested outputs, forced nodes, failing node) and deletions of cache files; every execution is distinguishable by its epoch."""
from __future__ import annotations
import itertools, json, logging, os, pickle, shutil, tempfile, warnings
from mc.core import exc_brief
from mc.progs import make_module, drop_module
from hamilton import base, driver
from hamilton.lifecycle.default import CacheAdapter
import hamilton.plugins.pandas_extensions  # noqa: F401  (columns of data frames)

logging.getLogger("hamilton").setLevel(logging.CRITICAL + 1)

TECHNIQUE = ("exhaustive exploration of all run histories up to a depth against the real adapters on real storage; oracle: the uncached run for the key/value caches, "
             "lockstep comparison with an explicit model of the documented rules for the tag-driven file cache")
RULE = "state = one history (prefix); transition = one run or deletion executed on the real adapter; trace = one history whose every step was compared"
ASSUMPTIONS = ["deterministic functions; results that are not None", "histories of 3 runs (key/value caches) and 3 operations (file cache) at the quick tier, one more at thorough",
               "DiskCacheAdapter: functions that become one node each and whose parameters are required (its key has neither node nor parameter names; see known findings)",
               "file cache: the contract is per run - it does not track code or inputs, and recomputation propagates within the run"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}

H = "from hamilton.function_modifiers import *\nfrom typing import Any, List\nimport pandas as pd\nfrom hamilton.function_modifiers import subdag, step\n"


def T(log, name, *args):
    log.append(name)
    return "%s(%s)" % (name, ",".join(str(a) for a in args))


# name -> (variants, inputs, outputs, economy)
FAMS = {
    "chain": ([
        "def a(x: int) -> str:\n    return T('a', x)\ndef b(a: str, y: int) -> str:\n    return T('b', a, y)\n",
        "def a(x: int) -> str:\n    return T('A', x)\ndef b(a: str, y: int) -> str:\n    return T('b', a, y)\n",
        "def a(x: int) -> str:\n    return T('a', x)\ndef b(a: str, y: int) -> str:\n    return T('B', a, y)\n",
        "def a(x: int) -> str:\n    return T('a', x)\ndef b(a: str, y: int) -> str:\n    T('b')\n    raise RuntimeError('boom')\n"],
        [dict(x=1, y=1), dict(x=1, y=2), dict(x=2, y=1)], ["b", "a"], True),
    "same code": (["def a(x: int, y: int) -> str:\n    return T('a', x, y)\ndef b(y: int, x: int) -> str:\n    return T('b', y, x)\n",
                   "def a(y: int, x: int) -> str:\n    return T('a', y, x)\ndef b(x: int, y: int) -> str:\n    return T('b', x, y)\n",
                   "def a(x: int, y: int) -> str:\n    return T('a', x, y)\ndef b(x: int, y: int) -> str:\n    return T('a', y, x)\n"],
                  [dict(x=1, y=1), dict(x=1, y=2), dict(x=2, y=1)], ["a", "b"], True),
    "optional": (["def a(x: int, y: int = 3, z: int = 4) -> str:\n    return T('a', x, y, z)\n", "def a(x: int, y: int = 3, z: int = 5) -> str:\n    return T('a', x, y, z)\n"],
                 [dict(x=1), dict(x=1, y=7), dict(x=1, z=7), dict(x=1, y=7, z=7)], ["a"], True),
    "boundaries": (["def a(x: str, y: str) -> str:\n    return T('a', x, y)\ndef b(x: Any, y: Any) -> str:\n    return T('b', x, y)\n"],
                   [dict(x="pq", y="r"), dict(x="p", y="qr"), dict(x="", y="pqr"), dict(x="pqr", y="")], ["a", "b"], True),
    "fields": (["@extract_fields(dict(p=str, q=str))\ndef a(x: int) -> dict:\n    return dict(p=T('p', x), q=T('q', x))\n",
                "@extract_fields(dict(p=str, q=str))\ndef a(x: int) -> dict:\n    return dict(q=T('p', x), p=T('q', x))\n",
                "@extract_fields(dict(p=str))\ndef a(x: int) -> dict:\n    return dict(p=T('p', x), q=T('q', x))\n@extract_fields(dict(q=str))\ndef b(x: int) -> dict:\n    return dict(p=T('bp', x), q=T('bq', x))\n"],
               [dict(x=1), dict(x=2)], ["p", "q"], False),
    "columns": (["@extract_columns('p', 'q')\ndef a(x: int) -> pd.DataFrame:\n    return pd.DataFrame(dict(p=[T('p', x)], q=[T('q', x)]))\ndef r(p: pd.Series, q: pd.Series) -> str:\n    return T('r', p.iloc[0], q.iloc[0])\n",
                 "@extract_columns('p', 'q')\ndef a(x: int) -> pd.DataFrame:\n    return pd.DataFrame(dict(q=[T('p', x)], p=[T('q', x)]))\ndef r(p: pd.Series, q: pd.Series) -> str:\n    return T('r', p.iloc[0], q.iloc[0])\n"],
                [dict(x=1), dict(x=2)], ["r"], False),
    "parameterize": (["@parameterize(p=dict(u=value(1)), q=dict(u=value(2)))\ndef a(u: int) -> str:\n    return T('a', u)\ndef r(p: str, q: str, x: int) -> str:\n    return T('r', p, q)\n",
                      "@parameterize(p=dict(u=value(2)), q=dict(u=value(1)))\ndef a(u: int) -> str:\n    return T('a', u)\ndef r(p: str, q: str, x: int) -> str:\n    return T('r', p, q)\n",
                      "@parameterize(p=dict(u=source('x')), q=dict(u=value(1)))\ndef a(u: int) -> str:\n    return T('a', u)\ndef r(p: str, q: str, x: int) -> str:\n    return T('r', p, q)\n"],
                     [dict(x=1), dict(x=2)], ["p", "q", "r"], True),
    "sources": (["@parameterize(p=dict(u=source('x'), v=source('y')), q=dict(u=source('y'), v=source('x')))\ndef a(u: int, v: int) -> str:\n    return T('a', u, v)\n",
                 "@parameterize(q=dict(u=source('x'), v=source('y')), p=dict(u=source('y'), v=source('x')))\ndef a(u: int, v: int) -> str:\n    return T('a', u, v)\n"],
                [dict(x=1, y=1), dict(x=1, y=2), dict(x=2, y=1)], ["p", "q"], True),
    "inject": (["@inject(u=value(1))\ndef a(u: int, x: int) -> str:\n    return T('a', u, x)\n", "@inject(u=value(2))\ndef a(u: int, x: int) -> str:\n    return T('a', u, x)\n",
                "@inject(u=source('x'))\ndef a(u: int, x: int) -> str:\n    return T('a', u, x)\n", "@inject(u=group(source('x'), value(2)))\ndef a(u: List[int], x: int) -> str:\n    return T('a', u, x)\n"],
               [dict(x=1), dict(x=2)], ["a"], True),
    "pipe": (["def _s(v: Any, w: Any = 0) -> str:\n    return T('s', v, w)\n@pipe_input(step(_s), step(_s, w=value(1)))\ndef a(x: Any) -> str:\n    return T('a', x)\n",
              "def _s(v: Any, w: Any = 0) -> str:\n    return T('S', v, w)\n@pipe_input(step(_s), step(_s, w=value(1)))\ndef a(x: Any) -> str:\n    return T('a', x)\n",
              "def _s(v: Any, w: Any = 0) -> str:\n    return T('s', v, w)\n@pipe_input(step(_s, w=value(2)), step(_s, w=value(1)))\ndef a(x: Any) -> str:\n    return T('a', x)\n"],
             [dict(x=1), dict(x=2)], ["a"], True),
    "subdag": (["def _f(i: int) -> str:\n    return T('f', i)\ndef f(i: int) -> str:\n    return T('f', i)\n@subdag(f, inputs={'i': source('x')})\ndef A(f: str) -> str:\n    return T('A', f)\n@subdag(f, inputs={'i': value(2)})\ndef B(f: str) -> str:\n    return T('B', f)\n".replace("def _f(i: int) -> str:\n    return T('f', i)\n", ""),
                "def f(i: int) -> str:\n    return T('F', i)\n@subdag(f, inputs={'i': source('x')})\ndef A(f: str) -> str:\n    return T('A', f)\n@subdag(f, inputs={'i': value(2)})\ndef B(f: str) -> str:\n    return T('B', f)\n"],
               [dict(x=1), dict(x=2)], ["A", "B"], True),
}
DISK = ("chain", "same code", "boundaries")


def adapter(kind, path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "shelve":
            return CacheAdapter(cache_path=path)
        if kind == "shelve-b":
            return CacheAdapter(cache_vars=["b", "q", "B"], cache_path=path)
        from hamilton.plugins.h_diskcache import DiskCacheAdapter
        return DiskCacheAdapter(cache_path=path)


def norm(v):
    return {k: (list(x) if hasattr(x, "iloc") else x) for k, x in v.items()} if isinstance(v, dict) else v


def go(mod, log, outs, inputs, *ad):
    del log[:]
    try:
        r = driver.Builder().with_modules(mod).with_adapters(*ad, base.DictResult()).build().execute(list(outs), inputs=dict(inputs))
        return "ok", norm(r), list(log)
    except Exception as e:
        if str(e) != "boom":
            return "exc", exc_brief(e), list(log)
        return "boom", None, list(log)


class Lab:
    def __init__(self, fam):
        self.log = []
        self.variants, self.inputs, self.outs, self.economy = FAMS[fam]
        self.mods = []
        for s in self.variants:
            self.mods.append(make_module(H + s, name="mccache", env=dict(T=lambda n, *a: T(self.log, n, *a))))
        self.runs = [(v, i) for v in range(len(self.mods)) for i in range(len(self.inputs))]
        self.want = {(v, i): go(self.mods[v], self.log, self.outs, self.inputs[i]) for v, i in self.runs}


def run_kv(ctx, kind, fam, first, depth):
    lab = Lab(fam)
    root = tempfile.mkdtemp(prefix="mc23")
    try:
        # an op: (variant, input, fresh adapter?)
        ops = [(v, i, f) for v, i in lab.runs for f in (0, 1)]
        nops = len(lab.runs)
        if nops ** depth > 3000:
            depth = 3
        n = 0
        for seq in itertools.product(lab.runs, repeat=depth - 1):
            seq = (tuple(first),) + seq
            for mode in ("new", "reused"):
                n += 1
                d = os.path.join(root, str(n))
                os.mkdir(d)
                ad = adapter(kind, d + "/c")
                done = set()
                key = "kv|%s|%s|%s|%s" % (kind, fam, mode, seq)
                ctx.cases += 1
                ctx.trace()
                for k, (v, i) in enumerate(seq):
                    if mode == "new" and k:
                        ad = adapter(kind, d + "/c")
                    got = go(lab.mods[v], lab.log, lab.outs, lab.inputs[i], ad)
                    want = lab.want[v, i]
                    ctx.transition()
                    ctx.state(("kv", kind, fam, mode, seq[:k + 1]))
                    hist = "%s, %s adapter: runs (variant, inputs) %s" % (fam, mode, [(a, lab.inputs[b]) for a, b in seq[:k + 1]])
                    case = dict(job=["kv", kind, fam, list(first), depth], key=key)
                    if got[:2] != want[:2]:
                        ctx.violation("kv|%s|%s|wrong" % (kind, fam), "%s: the last run gives %r, without the adapter %r" % (hist, got[:2], want[:2]), case)
                        break
                    if (v, i) in done and lab.economy and kind != "shelve-b" and got[2] and want[0] == "ok":
                        ctx.violation("kv|%s|%s|recomputed" % (kind, fam), "%s: the last run repeats a completed one and still runs %r" % (hist, got[2]), case)
                        break
                    if want[0] == "ok":
                        done.add((v, i))
                    ctx.outcome(("kv", want[0], "hits" if len(got[2]) < len(want[2]) else "computed"))
                cl = getattr(getattr(ad, "cache", None), "close", None)
                if cl:
                    cl()
                shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
        for m in lab.mods:
            drop_module(m)


# ---- known findings of DiskCacheAdapter -----------------------------------------------------------------
def run_disk_known(ctx):
    root = tempfile.mkdtemp(prefix="mc23")
    try:
        for fam, sig in (("optional", "DiskCacheAdapter: equal values for different optional parameters"), ("fields", "DiskCacheAdapter: nodes extracted from one function")):
            lab = Lab(fam)
            for a, b in itertools.product(lab.runs, repeat=2):
                d = tempfile.mkdtemp(dir=root)
                ctx.cases += 1
                ctx.trace()
                for v, i in (a, b):
                    ad = adapter("disk", d + "/c")
                    got = go(lab.mods[v], lab.log, lab.outs, lab.inputs[i], ad)
                    ctx.transition()
                    ctx.state(("disk", fam, a, b, v, i))
                    if got[:2] != lab.want[v, i][:2]:
                        ctx.violation(sig, "%s: runs %s give %r instead of %r" % (fam, (a, b), got[:2], lab.want[v, i][:2]), dict(job=["diskknown"]))
                    ad.cache.close()
            for m in lab.mods:
                drop_module(m)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- file cache -----------------------------------------------------------------------------------------
SHAPES = {"chain": {"a": [], "b": ["a"], "c": ["b"]}, "skip": {"a": [], "b": ["a"], "c": ["a", "b"]}, "join": {"a": [], "b": [], "c": ["a", "b"]},
          "diamond": {"a": [], "b": ["a"], "e": ["a"], "c": ["b", "e"]}, "chain4": {"a": [], "b": ["a"], "e": ["b"], "c": ["e"]}}


class FileLab:
    def __init__(self, shape, tags):
        self.shape, self.tags = SHAPES[shape], dict(zip(SHAPES[shape], tags))
        self.log, self.epoch, self.fail = [], 0, None
        src = H
        for n, deps in self.shape.items():
            if self.tags[n]:
                src += "@tag(cache=%r)\n" % self.tags[n]
            src += "def %s(%s) -> dict:\n    return F(%r, %s)\n" % (n, ", ".join(["%s: dict" % d for d in deps] + ["x: int"]), n, ", ".join(deps + ["x"]))
        self.mod = make_module(src, name="mcfile", env=dict(F=self.f))
        self.dir = tempfile.mkdtemp(prefix="mc23")
        self.adapters = {}

    def f(self, name, *args):
        if name == self.fail:
            raise RuntimeError("boom")
        self.log.append(name)
        return {"n": name, "epoch": self.epoch, "args": [a for a in args]}

    def read(self, n):
        fmt = self.tags[n]
        p = os.path.join(self.dir, "%s.%s" % (n, fmt))
        if not os.path.exists(p):
            return None
        with open(p, "rb") as fh:
            b = fh.read()
        return b

    def snap(self):
        return {n: self.read(n) for n in self.shape if self.tags[n]}

    def restore(self, s):
        for n, b in s.items():
            p = os.path.join(self.dir, "%s.%s" % (n, self.tags[n]))
            if b is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                with open(p, "wb") as fh:
                    fh.write(b)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        drop_module(self.mod)


def model_run(lab, files, outs, force, fail, epoch, x):
    """the documented rules; files: {node: value}. Returns (result or None, executed, files, computed)"""
    files = dict(files)
    computed, memo, executed = set(), {}, []

    def ev(n):
        if n in memo:
            return memo[n]
        args = [ev(d) for d in lab.shape[n]]
        dirty = any(d in computed for d in lab.shape[n])
        if lab.tags[n] and not dirty and n not in force and n in files:
            memo[n] = files[n]
            return files[n]
        if n == fail:
            raise RuntimeError("boom")
        executed.append(n)
        v = {"n": n, "epoch": epoch, "args": args + [x]}
        if lab.tags[n]:
            files[n] = v
            computed.add(n)
        elif dirty:
            computed.add(n)
        memo[n] = v
        return v
    try:
        return {o: ev(o) for o in outs}, executed, files
    except RuntimeError:
        return None, executed, files


def load(lab, snap):
    r = {}
    for n, b in snap.items():
        if b is not None:
            r[n] = pickle.loads(b) if lab.tags[n] == "pickle" else json.loads(b.decode())
    return r


def run_file(ctx, shape, tags, depth, shared):
    from hamilton.experimental.h_cache import CachingGraphAdapter
    lab = FileLab(shape, tags)
    names = list(lab.shape)
    last = names[-1]
    runs = [("run", o, f, e) for o in ([last], [names[1], names[0]], [names[0], last]) for f in [()] + [(n,) for n in names if lab.tags[n]] for e in [None] + names]
    runs = [r for r in runs if r[3] is None or (r[1] == [last] and len(r[2]) <= 1)]
    ops = runs + [("delete", n) for n in names if lab.tags[n]]
    if shared is not None:
        ops = [o for o in ops if o[0] == "delete" or (o[2] == tuple(shared) and o[3] is None)]
        ad = CachingGraphAdapter(lab.dir, base.DictResult(), force_compute=set(shared) or None)
        shared_driver = driver.Driver({}, lab.mod, adapter=ad)
    try:
        def step(hist, snap, files):
            if len(hist) == depth:
                ctx.trace()
                return
            for op in ops:
                lab.restore(snap)
                lab.epoch = len(hist) + 1
                ctx.transition()
                ctx.cases += 1
                h = hist + [op]
                ctx.state((shape, tags, shared, h))
                case = dict(job=["file", shape, list(tags), depth, shared], history=h)
                if op[0] == "delete":
                    p = os.path.join(lab.dir, "%s.%s" % (op[1], lab.tags[op[1]]))
                    if not os.path.exists(p):
                        continue
                    os.unlink(p)
                    want_files = {k: v for k, v in files.items() if k != op[1]}
                else:
                    _, outs, force, fail = op
                    want, executed, want_files = model_run(lab, files, outs, force, fail, lab.epoch, lab.epoch * 10)
                    del lab.log[:]
                    lab.fail = fail
                    if shared is None:
                        dr = driver.Driver({}, lab.mod, adapter=CachingGraphAdapter(lab.dir, base.DictResult(), force_compute=set(force) or None))
                    else:
                        dr = shared_driver
                    try:
                        got = dr.execute(list(outs), inputs={"x": lab.epoch * 10})
                    except Exception as e:
                        if str(e) != "boom":
                            raise
                        got = None
                    where = "%s tags %s, shared adapter forcing %s, history %s" % (shape, lab.tags, shared, h)
                    ctx.outcome(("file", "failed" if want is None else "ok", len(executed)))
                    if got != want:
                        ctx.violation("file|%s|%s|value" % (shape, tags), "%s: the run returns %r, the documented rules give %r" % (where, got, want), case)
                        return
                    if sorted(lab.log) != sorted(executed):
                        ctx.violation("file|%s|%s|executed" % (shape, tags), "%s: the run executes %r, the documented rules %r" % (where, lab.log, executed), case)
                        return
                s2 = lab.snap()
                if load(lab, s2) != want_files:
                    ctx.violation("file|%s|%s|files" % (shape, tags), "%s: cached files hold %r, the documented rules %r" % (h, load(lab, s2), want_files), case)
                    return
                step(h, s2, want_files)
        step([], {n: None for n in names if lab.tags[n]}, {})
    finally:
        lab.close()


def jobs(tier):
    deep = tier != "quick"
    js = []
    for kind, fams in (("shelve", FAMS), ("shelve-b", ("chain", "fields", "sources", "subdag")), ("disk", DISK)):
        for fam in fams:
            nv, ni = len(FAMS[fam][0]), len(FAMS[fam][1])
            if kind == "disk" and not deep and nv * ni > 9:
                depth = 2
            else:
                depth = 3 + deep
            for v in range(nv):
                for i in range(ni):
                    js.append(["kv", kind, fam, [v, i], depth])
    for shape, g in SHAPES.items():
        k = len(g)
        for tags in itertools.product((None, "pickle"), repeat=k):
            if not any(tags):
                continue
            tags = ["json" if (t and i == 1) else t for i, t in enumerate(tags)]
            js.append(["file", shape, tags, (2 if k == 4 else 3) + deep, None])
            js.append(["file", shape, tags, 3 + deep, []])
            js.append(["file", shape, tags, 3 + deep, [n for n, t in zip(g, tags) if t][:1]])
    js.append(["diskknown"])
    return js


def run_job(job, ctx):
    {"kv": run_kv, "file": run_file, "diskknown": run_disk_known}[job[0]](ctx, *job[1:])


def replay(case, ctx):
    run_job(case["job"], ctx)
