"""C10: data fingerprints.

A bounded universe of values is enumerated type by type (nested collections, objects, arrays, series, data frames); fingerprints of all
values of one type are compared with each other (all pairs), with those of copies, of every insertion order, of other memory layouts and
of other interpreter processes with other hash seeds."""
from __future__ import annotations
import collections, copy, dataclasses, datetime, decimal, enum, itertools, json, os, pickle, subprocess, sys
from mc.core import exc_brief

TECHNIQUE = ("exhaustive enumeration of a bounded universe of nested values per type, all pairs compared for injectivity, all insertion orders, copies and memory layouts and several "
             "interpreter processes for stability, on the real fingerprinting code")
RULE = "state = one value; transition = one fingerprint computed; trace = one value whose fingerprint was compared with all others of its type, its copies and other processes"
ASSUMPTIONS = ["collections of up to three elements (four keys for mappings), nesting up to three levels", "distinct 128/224-bit digests are not expected to collide", "values of different types, or with elements of different types, are not compared"]
BUDGET = {"quick": 300, "thorough": 2 * 3600}


def fp(v):
    from hamilton.caching import fingerprinting
    return fingerprinting.hash_value(v)


class P:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return "P(%r, %r)" % (self.a, self.b)


@dataclasses.dataclass
class DC:
    a: int
    b: list


NT = collections.namedtuple("NT", "a b")
Color = enum.Enum("Color", "RED GREEN BLUE")
IColor = enum.IntEnum("IColor", "RED GREEN BLUE")


def seqs(vals, n, mk=list):
    return [mk(t) for k in range(n + 1) for t in itertools.product(vals, repeat=k)]


def maps(keys, vals):
    out = []
    for choice in itertools.product([None] + [(v,) for v in vals], repeat=len(keys)):
        out.append({k: copy.deepcopy(c[0]) for k, c in zip(keys, choice) if c is not None})
    return out


def sets(vals, mk=set):
    return [mk(t) for k in range(len(vals) + 1) for t in itertools.combinations(vals, k)]


def canon(v):
    """text that is equal exactly for equal values of one type"""
    if isinstance(v, (set, frozenset)):
        return "{" + ",".join(sorted(canon(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "<" + ",".join(sorted(canon(k) + ":" + canon(x) for k, x in v.items())) + ">"
    if isinstance(v, (list, tuple, collections.deque)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, P):
        return "P" + canon([v.a, v.b])
    return repr(v)


def universe(tier):
    """group -> values, pairwise different, all of one type including the types of their elements"""
    big = tier != "quick"
    n3 = 4 if big else 3
    I = [0, 1, -1, 10, 2 ** 70]
    F = [0.0, 1.0, -1.5, 1e300, 1e-300, float("inf"), float("-inf"), float("nan"), 0.1, 0.1 + 1e-16, 1 / 3]
    S = ["", "a", "b", "ab", "ba", "<none>", "<unhashable>", " ", "\u00e9", "e\u0301", "\ud800", "a\x00", "None", "0"]
    B = [b"", b"a", b"ab", b"\x00", b"\x00\x00", b"\xff"]
    U = {"int": I + list(range(20, 40)), "bool": [True, False], "float": F, "str": S + ["x" * k for k in range(2, 60)], "bytes": B, "bytearray": [bytearray(b) for b in B[:2] + B[3:]],
         "list[int]": seqs([0, 1, 10, -1], n3), "tuple[int]": seqs([0, 1, 10, -1], n3, tuple), "list[str]": seqs(["", "a", "b", "ab", "<none>"], n3), "list[float]": seqs([0.0, 1.0, 0.5, float("nan")], 3),
         "list[bytes]": seqs([b"", b"a", b"aa"], 3), "list[bool]": seqs([True, False], 4), "list[opt str]": seqs([None, "a", "None", "<none>"], n3), "deque[int]": seqs([0, 1], 3, collections.deque)}
    l2 = seqs([0, 1], 2)
    U["list[list[int]]"] = seqs(l2, n3)
    U["tuple[tuple[int]]"] = seqs([tuple(x) for x in l2], 3, tuple)
    U["list[list[list[int]]]"] = seqs(seqs(seqs([0, 1], 1), 2), 2)
    U["list[list[str]]"] = seqs(seqs(["a", "b", "ab"], 2), 2)
    U["dict[str,int]"] = maps(["a", "b", "ab", ""], [0, 1])
    U["dict[int,str]"] = maps([0, 1, 10, -1], ["a", "b"])
    U["dict[str,str]"] = maps(["a", "b", "c"], ["a", "b", "c"])
    U["dict[str,opt int]"] = maps(["a", "b", "c"], [None, 0, 1])
    U["dict[str,list[int]]"] = maps(["a", "b", "ab"], seqs([0, 1], 2 if big else 1))
    U["dict[str,dict[str,int]]"] = maps(["a", "b", "c"] if big else ["a", "b"], maps(["a", "b"], [0, 1]))
    U["dict[tuple[int],int]"] = maps([(), (0,), (0, 1), (1, 0)], [0, 1])
    U["dict[float,int]"] = maps([0.0, 1.5, float("inf")], [0, 1])
    U["list[dict[str,int]]"] = seqs(maps(["a", "b"], [0, 1]), 3 if big else 2)
    U["set[int]"] = sets([0, 1, -1, 8, 16, 10])
    U["frozenset[str]"] = sets(["", "a", "b", "ab"], frozenset)
    U["set[frozenset[int]]"] = sets(sets([0, 1], frozenset))
    U["set[tuple[int]]"] = sets([(), (0,), (1,), (0, 1), (1, 0)])
    U["dict[str,set[int]]"] = maps(["a", "b"], sets([0, 1, 8]))
    U["P"] = [P(a, b) for a in (0, 1, "x") if not isinstance(a, str) for b in (0, 1)] + []
    U["P[list]"] = [P(a, b) for a in seqs([0, 1], 2) for b in seqs([0, 1], 2)]
    U["list[P]"] = seqs([P(0, 0), P(0, 1), P(1, 0)], 3)
    U["dict[str,P]"] = maps(["a", "b"], [P(0, 0), P(0, 1)])
    U["DC"] = [DC(a, b) for a in (0, 1) for b in seqs([0, 1], 2)]
    U["NT"] = [NT(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
    U["Enum"], U["IntEnum"] = list(Color), list(IColor)
    U["range"] = [range(a, b) for a in range(3) for b in range(a + 1, 5)] + [range(0, 0)]
    U["datetime"] = [datetime.datetime(2020, 1, 1 + d, h, 0, 0, us) for d in range(2) for h in range(2) for us in (0, 1)]
    U["date"] = [datetime.date(2020, 1, d) for d in (1, 2, 3)]
    U["timedelta"] = [datetime.timedelta(days=d, seconds=s) for d in (0, 1) for s in (0, 1)]
    U["list[datetime]"] = seqs([datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 2)], 2)
    return U


def arrays(tier):
    import numpy as np
    import pandas as pd
    import polars as pl
    big = tier != "quick"
    U = {}
    for dt, vals in (("int64", [0, 1, -1]), ("float64", [0.0, 1.0, float("nan")]), ("bool", [True, False]), ("U2", ["", "a", "ab"]), ("int8", [0, 1, -1]), ("datetime64[ns]", [0, 1, 10 ** 15]), ("complex128", [0, 1, 1j])):
        for shape in ((0,), (1,), (2,), (3,), (2, 2), (1, 1, 2)):
            n = 1
            for q in shape:
                n *= q
            U["np[%s]%s" % (dt, shape)] = [np.array(t).astype(dt).reshape(shape) if n else np.zeros(shape, dt) for t in itertools.product(vals, repeat=n)]
        if dt == "complex128":
            continue
        U["np scalar %s" % dt] = [np.array([v]).astype(dt)[0] for v in vals]
        U["list[np scalar %s]" % dt] = [[np.array([v]).astype(dt)[0] for v in t] for k in range(3) for t in itertools.product(vals, repeat=k)]
        U["dict[str,np scalar %s]" % dt] = [{"k": np.array([v]).astype(dt)[0]} for v in vals]
    for shape in ((1,), (2,), (1, 2)):
        n = 1
        for q in shape:
            n *= q
        U["np[object]%s" % (shape,)] = [np.array(t, dtype=object).reshape(shape) for t in itertools.product(["a", "b", "ab"], repeat=n)]

        def objs(t):
            r = np.empty(n, dtype=object)
            for i, x in enumerate(t):
                r[i] = list(x)
            return r.reshape(shape)
        U["np[object lists]%s" % (shape,)] = [objs(t) for t in itertools.product([(), (0,), (1,)], repeat=n)]
    U["list[np]"] = [[np.array(a), np.array(b)] for a in ([0, 1], [1, 0], [1, 1]) for b in ([0, 1], [1, 0])]
    U["dict[str,np]"] = [{"k": np.array(a), "m": np.array(b)} for a in ([0, 1], [1, 0]) for b in ([0, 1], [1, 0])]
    idx = {"range": lambda n: list(range(n)), "dup": lambda n: [0] * n, "partdup": lambda n: [0, 1, 0, 1][:n], "str": lambda n: list("abcd")[:n], "rev": lambda n: list(range(n))[::-1]}
    N = 4 if big else 3
    for dt, vals in (("int64", [0, 1, -1]), ("float64", [0.0, 1.0, float("nan")]), ("object", ["", "a", "b"]), ("bool", [True, False]), ("datetime64[ns]", ["2020-01-01", "2020-01-02", None]), ("category", ["x", "y"])):
        for ix, f in idx.items():
            out, frames, two = [], [], []
            for n in range(N + 1):
                for t in itertools.product(vals, repeat=n):
                    s = pd.Series(list(t), index=f(n), dtype=dt if dt != "category" else pd.CategoricalDtype(["x", "y"]))
                    out.append(s)
                    frames.append(pd.DataFrame({"a": s}))
                    if n <= 2:
                        for u in itertools.product((0, 1), repeat=n):
                            two.append(pd.DataFrame({"a": s, "b": pd.Series(list(u), index=f(n), dtype="int64").to_numpy()}))
            U["Series[%s,%s]" % (dt, ix)] = out
            U["DataFrame[%s,%s]" % (dt, ix)] = frames
            U["DataFrame2[%s,%s]" % (dt, ix)] = two
    U["Series different index"] = [pd.Series([0, 1], index=i) for i in ([0, 1], [1, 0], [0, 0], [1, 1], [0, 2])]
    U["Series multiindex"] = [pd.Series(list(v), index=pd.MultiIndex.from_tuples(ix)) for v in itertools.product((0, 1), repeat=2) for ix in ([("a", 0), ("a", 1)], [("a", 0), ("a", 0)], [("b", 0), ("a", 1)])]
    U["list[Series]"] = [[pd.Series(list(v)), pd.Series(list(w))] for v in itertools.product((0, 1), repeat=2) for w in itertools.product((0, 1), repeat=2)]
    for dt, vals in ((pl.Int64, [0, 1, None]), (pl.Float64, [0.0, 1.5, None]), (pl.Utf8, ["", "a", "ab", None]), (pl.Boolean, [True, False, None])):
        ser = [pl.Series("s", list(t), dtype=dt) for n in range(N + 1) for t in itertools.product(vals, repeat=n)]
        U["pl.Series[%s]" % dt] = ser
        U["pl.DataFrame[%s]" % dt] = [pl.DataFrame({"s": s}) for s in ser]
        U["pl.DataFrame2[%s]" % dt] = [pl.DataFrame({"a": s, "b": t}) for n in (0, 1, 2) for s in (x for x in ser if len(x) == n) for t in (x for x in ser if len(x) == n)]
    return U


def acanon(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, np.ndarray):
        return canon(v.tolist())
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return repr((list(v.index), v.to_numpy().tolist()))
    if type(v).__module__.startswith("polars"):
        return repr(v.rows() if hasattr(v, "rows") else v.to_list())
    if isinstance(v, list):
        return repr([acanon(x) for x in v])
    if isinstance(v, dict):
        return repr([(k, acanon(x)) for k, x in v.items()])
    return canon(v)


def safe(v):
    try:
        return fp(v)
    except RecursionError:
        raise
    except Exception as e:
        return e


def group(ctx, name, vals, cn, case):
    seen = {}
    for v in vals:
        ctx.state((name, cn(v)))
        ctx.transition()
        ctx.trace()
        ctx.cases += 1
        h = safe(v)
        key = "%s|%s" % (name, cn(v)[:120])
        if isinstance(h, Exception):
            ctx.violation(key, "fingerprinting raised %s" % exc_brief(h), case)
            continue
        if not isinstance(h, str):
            ctx.violation(key, "the fingerprint is %r" % (h,), case)
            continue
        if "unhashable" in h:
            ctx.violation(key, "a value of a supported kind has no fingerprint", case)
            continue
        if h in seen and cn(seen[h]) != cn(v):
            ctx.violation("%s|%s" % (name, "same fingerprint"), "%s and %s have the same fingerprint %s" % (cn(seen[h])[:200], cn(v)[:200], h), case)
        seen.setdefault(h, v)
        for how, w in copies(v):
            ctx.transition()
            g = safe(w)
            if g != h:
                ctx.violation(key + "|" + how, "the fingerprint of %s is %s, that of %s is %r" % (cn(v)[:200], h, how, g), case)
    ctx.outcome("group " + name.split("[")[0])
    ctx.count("pairs compared", len(vals) * (len(vals) - 1) // 2)


def copies(v):
    yield "a deep copy", copy.deepcopy(v)
    try:
        yield "a pickled copy", pickle.loads(pickle.dumps(v))
    except Exception:
        pass
    if isinstance(v, dict) and 1 < len(v) <= 4:
        for p in itertools.permutations(v.items()):
            yield "the same mapping filled in another order", dict(p)
    if isinstance(v, (set, frozenset)) and 1 < len(v) <= 4:
        for p in itertools.permutations(v):
            s = set()
            for x in p:
                s.add(x)
            yield "the same set filled in another order", type(v)(s)
        s = set(range(-50, 50)) | set(v)
        s.intersection_update(set(v))
        yield "the same set after removals", type(v)(s)
    m = type(v).__module__.split(".")[0]
    if m == "numpy" and hasattr(v, "reshape") and v.ndim >= 1:
        import numpy as np
        yield "the same array in column-major layout", np.asfortranarray(v)
        w = np.repeat(v, 2, axis=-1)[..., ::2]
        yield "the same array as a strided view", w
    if m == "pandas":
        import pandas as pd
        yield "a slice of a larger object", pd.concat([v, v]).iloc[: len(v)] if len(v) else v.copy()
    if m == "polars":
        yield "a slice of a larger object", v.clone().extend(v).head(len(v)) if len(v) else v.clone()


def nested_orders(ctx, case):
    """orders at several levels at once"""
    def orders(v):
        if isinstance(v, dict):
            for p in itertools.permutations(v.items()):
                for vs in itertools.product(*[list(orders(x)) for _, x in p]):
                    yield dict(zip((k for k, _ in p), vs))
        elif isinstance(v, list):
            for vs in itertools.product(*[list(orders(x)) for x in v]):
                yield list(vs)
        elif isinstance(v, P):
            for a in orders(v.__dict__):
                q = P.__new__(P)
                q.__dict__.update(a)
                yield q
        else:
            yield v
    base = [{"a": {"x": 1, "y": 2, "z": {"k": 1, "l": 2}}, "b": {"x": 1, "y": 2}, "c": [{"m": 1, "n": 2}]}, [{"a": 1, "b": 2}, {"c": {"d": 1, "e": 2}, "f": 3}], {"p": P({"x": 1, "y": 2}, 3), "q": P(1, {"r": 1, "s": 2})}]
    for b in base:
        h = fp(b)
        for o in orders(b):
            ctx.state(repr(o))
            ctx.transition()
            ctx.trace()
            if fp(o) != h:
                ctx.violation("nested order|%r" % (b,), "%r and %r are equal but have different fingerprints" % (b, o), case)
                break


def unsupported(ctx, case):
    """a value that cannot be fingerprinted is reported as such at the top level, without an error"""
    import pandas as pd
    import polars as pl
    from hamilton.caching import fingerprinting

    class Slots:
        __slots__ = ("a",)
    vals = {"slots object": Slots(), "complex": 1j, "Decimal": decimal.Decimal(1), "series of lists": pd.Series([[1], [2]]), "frame of dicts": pd.DataFrame({"a": [{}]}), "polars lists": pl.DataFrame({"a": [[1]]}), "function": unsupported, "object": object(), "generator": (i for i in ())}
    for k, v in vals.items():
        ctx.state("unsupported " + k)
        ctx.transition()
        ctx.trace()
        h = safe(v)
        if isinstance(h, Exception):
            ctx.violation("unsupported|" + k, "fingerprinting raised %s" % exc_brief(h), case)


def known(ctx, case):
    """differences of arrays and frames that are not in their elements"""
    import numpy as np
    import pandas as pd
    import polars as pl
    pairs = {"numpy arrays that differ in shape": [(np.zeros(4), np.zeros((2, 2))), (np.array([[0, 1], [2, 3]]), np.array([0, 1, 2, 3])), (np.zeros((0, 2)), np.zeros((2, 0)))],
             "pandas data frames that differ in column names": [(pd.DataFrame({"a": [1]}), pd.DataFrame({"b": [1]})), (pd.DataFrame({"a": [1, 2], "b": [3, 4]}), pd.DataFrame({"b": [1, 2], "a": [3, 4]}))],
             "polars data frames that differ in column names": [(pl.DataFrame({"a": [1]}), pl.DataFrame({"b": [1]}))]}
    for k, ps in pairs.items():
        for a, b in ps:
            ctx.state(k)
            ctx.transition()
            ctx.trace()
            if fp(a) == fp(b):
                ctx.violation(k, "%s have the same fingerprint, e.g. %r and %r" % (k, a, b), case)


def dump(tier):
    import hamilton.plugins.pandas_extensions  # noqa: F401
    out = []
    for fam in (universe, arrays):
        for name, vals in fam(tier).items():
            for v in vals:
                h = safe(v)
                out.append((name, h if isinstance(h, str) else "error"))
    return out


def processes(ctx, tier, seed, case):
    mine = dump(tier)
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import json, sys\nfrom mc.props import c10\njson.dump(c10.dump(%r), sys.stdout)" % tier], env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise RuntimeError("helper process failed: " + r.stderr[-800:])
    other = json.loads(r.stdout[r.stdout.index("[["):])
    ctx.trace(len(mine))
    ctx.transition(len(mine))
    ctx.state(("process", seed))
    for i, (a, b) in enumerate(zip(mine, other)):
        if tuple(a) != tuple(b):
            ctx.violation("process|%s" % a[0], "value %d of the universe (%s) has fingerprint %s here and %s in a process with hash seed %s" % (i, a[0], a[1], b[1], seed), case)
    if len(mine) != len(other):
        raise RuntimeError("universes differ")
    ctx.outcome("process compared")


def jobs(tier):
    return [("plain", i, 4, tier) for i in range(4)] + [("arrays", i, 6, tier) for i in range(6)] + [("orders", tier), ("known", tier)] + [("process", s, tier) for s in ((1, 2, 123) if tier == "quick" else (1, 2, 3, 4, 123, 4294967295))]


def run_job(job, ctx):
    import hamilton.plugins.pandas_extensions  # noqa: F401
    case = dict(job=list(job))
    if job[0] in ("plain", "arrays"):
        for k, (name, vals) in enumerate((universe if job[0] == "plain" else arrays)(job[3]).items()):
            if k % job[2] == job[1]:
                group(ctx, name, vals, canon if job[0] == "plain" else acanon, case)
    elif job[0] == "orders":
        nested_orders(ctx, case)
    elif job[0] == "known":
        unsupported(ctx, case)
        known(ctx, case)
    else:
        processes(ctx, job[2], job[1], case)


def replay(case, ctx):
    run_job(tuple(case["job"]), ctx)
