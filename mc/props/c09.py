"""C09: cache stores are maps. Every operation sequence up to a depth is executed on the real stores and compared,
after every operation, with a dictionary model."""
from __future__ import annotations
import itertools, os, shutil, tempfile
from mc.core import exc_brief
from hamilton.caching.cache_key import create_cache_key
from hamilton.caching.stores.base import search_data_adapter_registry
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore

TECHNIQUE = ("explicit-state exploration of all store operation sequences up to a depth on the real stores, every state compared with a map model")
RULE = ("state = model state (live keys, run records) reached on the real store; transition = one store operation; trace = one complete operation "
        "sequence replayed on a fresh store with all observations compared after each operation")
ASSUMPTIONS = ["2 cache keys x 2 data versions x 2 runs; 2 result keys x several values and formats", "run ids are initialised once each (they are uuids)"]
BUDGET = {"quick": 300, "thorough": 3 * 3600}

K = [create_cache_key("n1", "c1", {"dep": "dv=="}), create_cache_key("n2", "c2", {})]
V = ["v1==", "v2=="]
R = ["run-b", "run-a"]
SHM = os.environ.get("VERIF_SHM") or None

META_OPS = ([("init", r) for r in R] + [("set", k, v, r) for k in K for v in V for r in R] + [("del", k) for k in K] +
            [("delall",), ("reopen",), ("roundtrip",)])
VALS = ["a", None, {"a": [1, {"b": None}]}, 0]
RES = ["dv1==", "dv_2-=="]
RES_OPS = ([("set", d, i, None) for d in RES for i in range(len(VALS))] + [("set", d, 2, "json") for d in RES] + [("set", RES[0], 2, "pickle")] +
           [("del", d) for d in RES] + [("delall",), ("reopen",), ("roundtrip",)])


def jobs(tier):
    out = []
    for be in ("sqlite", "memory"):
        for i in range(len(META_OPS)):
            out.append(("meta", be, i))
        for i in range(len(PREFIXES)):
            out.append(("meta", be, [i]))
    for be in ("file", "memory"):
        for i in range(len(RES_OPS)):
            out.append(("res", be, i))
    for i in range(8):
        out.append(("both", "disk", i))
    return out


# ------------------------------------------------------------------------------------------------------------- metadata
class MetaModel:
    def __init__(self):
        self.data, self.runs = {}, {}

    def enabled(self, op):
        if op[0] == "init":
            return op[1] not in self.runs
        if op[0] == "set":
            return op[3] in self.runs
        return True

    def apply(self, op):
        if op[0] == "init":
            self.runs[op[1]] = set()
        elif op[0] == "set":
            self.data[op[1]] = op[2]
            self.runs[op[3]].add(op[1])
        elif op[0] == "del":
            self.data.pop(op[1], None)
        elif op[0] == "delall":
            self.data.clear()
            self.runs.clear()
        elif op[0] == "roundtrip":
            for r in self.runs:
                self.runs[r] &= set(self.data)
            live = set().union(*self.runs.values()) if self.runs else set()
            # only what some run recorded travels
            self.data = {k: v for k, v in self.data.items() if k in live}

    def key(self):
        return (tuple(sorted(self.data.items())), tuple((r, tuple(sorted(ks))) for r, ks in self.runs.items()))

    def observe(self):
        return dict(size=len(self.data), get={k: self.data.get(k) for k in K}, exists={k: k in self.data for k in K}, run_ids=list(self.runs),
                    runs={r: sorted((k, self.data[k]) for k in ks if k in self.data) for r, ks in self.runs.items()},
                    last=list(self.runs)[-1] if self.runs else None, unknown=["no-such-run"] + [x for x in R if x not in self.runs])


def meta_observe(s):
    runs = {r: sorted(set((m["cache_key"], m["data_version"]) for m in s.get_run(r))) for r in s.get_run_ids()}
    unk = []
    for r in ["no-such-run"] + R:
        try:
            s.get_run(r)
        except IndexError:
            unk.append(r)
    return dict(size=s.size, get={k: s.get(k) for k in K}, exists={k: s.exists(k) for k in K}, run_ids=list(s.get_run_ids()), runs=runs,
                last=s.last_run_id if s.get_run_ids() else None, unknown=unk)


class MetaImpl:
    def __init__(self, be, root):
        self.be, self.root, self.n = be, root, 0
        self.dir = self.fresh()
        self.s = SQLiteMetadataStore(path=self.dir) if be == "sqlite" else InMemoryMetadataStore()

    def fresh(self):
        return tempfile.mkdtemp(dir=self.root)

    def apply(self, op):
        s = self.s
        if op[0] == "init":
            s.initialize(op[1])
        elif op[0] == "set":
            s.set(cache_key=op[1], data_version=op[2], run_id=op[3])
        elif op[0] == "del":
            s.delete(op[1])
        elif op[0] == "delall":
            s.delete_all()
        elif op[0] == "reopen":
            if self.be == "sqlite":
                self.s = SQLiteMetadataStore(path=self.dir)
        elif op[0] == "roundtrip":
            if self.be == "sqlite":
                mem = InMemoryMetadataStore.load_from(s)
                self.dir = self.fresh()
                self.s = SQLiteMetadataStore(path=self.dir)
                mem.persist_to(self.s)
            else:
                disk = SQLiteMetadataStore(path=self.fresh())
                s.persist_to(disk)
                self.s = InMemoryMetadataStore.load_from(disk)


# -------------------------------------------------------------------------------------------------------------- results
class ResModel:
    def __init__(self):
        self.data = {}

    def enabled(self, op):
        return True

    def apply(self, op):
        if op[0] == "set":
            self.data[op[1]] = op[2]
        elif op[0] == "del":
            self.data.pop(op[1], None)
        elif op[0] == "delall":
            self.data.clear()

    def key(self):
        return tuple(sorted(self.data.items()))

    def observe(self):
        return dict(exists={d: d in self.data for d in RES}, get={d: VALS[self.data[d]] if d in self.data else None for d in RES})


def res_observe(s):
    return dict(exists={d: s.exists(d) for d in RES}, get={d: s.get(d) for d in RES})


class ResImpl:
    def __init__(self, be, root):
        self.be, self.root = be, root
        self.dir = tempfile.mkdtemp(dir=root)
        self.s = FileResultStore(path=self.dir) if be == "file" else InMemoryResultStore()

    def apply(self, op):
        s = self.s
        if op[0] == "set":
            kw = {}
            if op[3]:
                kw["saver_cls"], kw["loader_cls"] = search_data_adapter_registry(op[3], type(VALS[op[2]]))
            s.set(op[1], VALS[op[2]], **kw)
        elif op[0] == "del":
            s.delete(op[1])
        elif op[0] == "delall":
            s.delete_all()
        elif op[0] == "reopen":
            if self.be == "file":
                self.s = FileResultStore(path=self.dir)
        elif op[0] == "roundtrip":
            if self.be == "file":
                mem = InMemoryResultStore.load_from(s, data_versions=RES)
                self.dir = tempfile.mkdtemp(dir=self.root)
                self.s = FileResultStore(path=self.dir)
                mem.persist_to(self.s)
            else:
                disk = FileResultStore(path=tempfile.mkdtemp(dir=self.root))
                s.persist_to(disk)
                self.s = InMemoryResultStore.load_from(disk, data_versions=RES)


# ----------------------------------------------------------------------------- both stores in one directory (the default)
class BothModel:
    def __init__(self):
        self.m, self.r = MetaModel(), ResModel()

    def enabled(self, op):
        return (self.m if op[0] == "m" else self.r).enabled(op[1])

    def apply(self, op):
        (self.m if op[0] == "m" else self.r).apply(op[1])

    def key(self):
        return (self.m.key(), self.r.key())

    def observe(self):
        return (self.m.observe(), self.r.observe())


class BothImpl:
    def __init__(self, be, root):
        self.m = MetaImpl("sqlite", root)
        self.r = ResImpl("file", root)
        self.r.dir = self.m.dir
        self.r.s = FileResultStore(path=self.m.dir)

    def apply(self, op):
        (self.m if op[0] == "m" else self.r).apply(op[1])


BOTH_OPS = [("m", ("init", R[0])), ("m", ("set", K[0], V[0], R[0])), ("m", ("set", K[1], V[1], R[0])), ("m", ("delall",)),
            ("r", ("set", RES[0], 0, None)), ("r", ("set", RES[1], 2, "json")), ("r", ("delall",)), ("m", ("reopen",))]


def both_observe(i):
    return (meta_observe(i.m.s), res_observe(i.r.s))


def run_seq(kind, be, ops, root, ctx):
    """execute ops on a fresh real store and on the model; compare after every operation"""
    Model, Impl, obs = dict(meta=(MetaModel, MetaImpl, lambda i: meta_observe(i.s)), res=(ResModel, ResImpl, lambda i: res_observe(i.s)),
                            both=(BothModel, BothImpl, both_observe))[kind]
    d = tempfile.mkdtemp(dir=root)
    try:
        m, im = Model(), Impl(be, d)
        for n, op in enumerate(ops):
            m.apply(op)
            ctx.transition()
            try:
                im.apply(op)
                got = obs(im)
            except Exception as e:
                got = exc_brief(e)
            exp = m.observe()
            if got != exp:
                bad = ops[:n + 1]
                ctx.violation("%s|%s|%s" % (kind, be, bad), "after %s\n expected %s\n got      %s" % (bad, exp, got), dict(kind=kind, be=be, ops=[list(map(_l, o)) for o in bad]))
                return False
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _l(x):
    return list(x) if isinstance(x, tuple) else x


def _t(o):
    return tuple(tuple(x) if isinstance(x, list) else x for x in o)


PREFIXES = [[("init", R[0]), ("init", R[1]), ("set", K[0], V[0], R[0])],
            [("init", R[0]), ("init", R[1]), ("set", K[0], V[0], R[0]), ("set", K[1], V[1], R[1]), ("set", K[0], V[1], R[1])],
            [("init", R[0]), ("set", K[0], V[0], R[0]), ("delall",), ("init", R[0])],
            [("init", R[0]), ("set", K[0], V[0], R[0]), ("delall",), ("init", R[1]), ("init", R[0])],
            [("init", R[0]), ("set", K[0], V[0], R[0]), ("reopen",), ("init", R[1]), ("set", K[0], V[1], R[1]), ("del", K[0])]]


def run_job(job, ctx):
    kind, be, first = job
    ops = dict(meta=META_OPS, res=RES_OPS, both=BOTH_OPS)[kind]
    Model = dict(meta=MetaModel, res=ResModel, both=BothModel)[kind]
    depth = {"quick": dict(meta=4, res=3, both=5), "thorough": dict(meta=5, res=5, both=7)}[ctx.tier][kind]
    root = tempfile.mkdtemp(dir=SHM)
    try:
        # maximal sequences only: every prefix is checked on the way
        def rec(seq, m_ops):
            if ctx.out_of_time():
                return
            m = Model()
            for o in seq:
                m.apply(o)
            ctx.state((kind, be, m.key()))
            nxt = [o for o in ops if m.enabled(o)]
            if kind == "meta" and not m.runs:
                nxt = [o for o in nxt if o[0] in ("init", "delall", "reopen") or len(seq) < 2]
            if len(seq) >= depth or not nxt:
                ctx.cases += 1
                ctx.trace()
                run_seq(kind, be, seq, root, ctx)
                return
            for o in nxt:
                rec(seq + [o], None)
        if isinstance(first, list):  # all continuations of a longer history
            depth = len(PREFIXES[first[0]]) + (3 if ctx.tier == "thorough" else 2)
            rec(list(PREFIXES[first[0]]), None)
        elif Model().enabled(ops[first]):
            rec([ops[first]], None)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def replay(case, ctx):
    root = tempfile.mkdtemp(dir=SHM)
    try:
        run_seq(case["kind"], case["be"], [_t(o) for o in case["ops"]], root, ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)
