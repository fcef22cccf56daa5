"""C08: crashes of a cached run.

The real caching adapter and stores run in a process whose file operations below the cache directory go through a fault injector
(mc/crashfs.c, preloaded): the process ends just before the n-th operation, or after a prefix of the bytes of the n-th write (also
those of SQLite's own files).  For every n and every prefix length of the bound, later runs start from what is left on disk."""
from __future__ import annotations
import ctypes, itertools, json, os, pickle, shutil, subprocess, sys, tempfile, traceback

TECHNIQUE = ("exhaustive enumeration of crash points on the real code: a preloaded fault injector ends the process before every file operation of a cached run (SQLite's included) and after "
             "prefixes of every write; every resulting directory is checked by later runs, in the thorough tier with a second crash at every point of the recovering run")
RULE = "state = directory left by one crash (operation, bytes of a torn write, scenario); transition = one run on it; trace = one crashed run followed by its later runs"
ASSUMPTIONS = ["the process dies, the machine does not: what was handed to the operating system is on disk", "one process writes; scenarios of up to four functions", "torn lengths in the quick tier: 1, half, all but one byte of each write"]
BUDGET = {"quick": 600, "thorough": 3 * 3600}
HDR = "from hamilton.function_modifiers import *\nfrom hamilton.htypes import Parallelizable, Collect\nfrom typing import *\n"

SRC = {
    "chain": "def a(x: int) -> int:\n    CALL('a', x)\n    return x + 1\ndef b(a: int) -> dict:\n    CALL('b', a)\n    return {'v': [a] * 3}\ndef c(b: dict) -> str:\n    CALL('c', b)\n    return str(b) * 4\n",
    "chain2": "def a(x: int) -> int:\n    CALL('a', x)\n    return x + 2\ndef b(a: int) -> dict:\n    CALL('b', a)\n    return {'v': [a] * 3}\ndef c(b: dict) -> str:\n    CALL('c', b)\n    return str(b) * 4\n",
    "same": "def a(x: int) -> list:\n    CALL('a', x)\n    return [x, x]\ndef b(x: int, a: list) -> list:\n    CALL('b', x)\n    return [x, x]\ndef c(a: list, b: list) -> list:\n    CALL('c', (a, b))\n    return a + b\n",
    "json": "@cache(format='json')\ndef a(x: int) -> dict:\n    CALL('a', x)\n    return {'k': list(range(x + 3))}\ndef b(a: dict) -> int:\n    CALL('b', a)\n    return sum(a['k'])\ndef c(b: int) -> list:\n    CALL('c', b)\n    return [b]\n",
    "text": "@cache(format='file')\ndef a(x: int) -> str:\n    CALL('a', x)\n    return 'line %d\\n' % x * 5\ndef b(a: str) -> int:\n    CALL('b', a)\n    return len(a)\n@cache(format='file')\ndef c(a: str) -> str:\n    CALL('c', a)\n    return a\n",
    "mixedfmt": "def a(x: int) -> str:\n    CALL('a', x)\n    return 'text %d' % x\n@cache(format='file')\ndef b(a: str) -> str:\n    CALL('b', a)\n    return a\n@cache(format='pickle')\ndef c(b: str) -> str:\n    CALL('c', b)\n    return b\n",
    "recompute": "@cache(behavior='recompute')\ndef a(x: int) -> list:\n    CALL('a', x)\n    return [x] * 4\ndef b(a: list) -> list:\n    CALL('b', a)\n    return a + a\ndef c(b: list) -> int:\n    CALL('c', b)\n    return len(b)\n",
    "disable": "@cache(behavior='disable')\ndef a(x: int) -> list:\n    CALL('a', x)\n    return [x] * 4\ndef b(x: int) -> list:\n    CALL('b', x)\n    return [x, x]\n@cache(behavior='ignore')\ndef c(b: list) -> int:\n    CALL('c', b)\n    return len(b)\n",
    "none": "def a(x: int) -> Optional[int]:\n    CALL('a', x)\n    return None\ndef b(a: Optional[int]) -> list:\n    CALL('b', a)\n    return []\ndef c(b: list) -> str:\n    CALL('c', b)\n    return ''\n",
    "fan": "def e(x: int) -> Parallelizable[int]:\n    CALL('e', x)\n    yield x\n    yield x + 1\ndef a(e: int) -> int:\n    CALL('a', e)\n    return e * 10\ndef b(a: Collect[int]) -> list:\n    CALL('b', list(a))\n    return list(a)\ndef c(b: list) -> int:\n    CALL('c', b)\n    return sum(b)\n",
    "parquet": "import pandas as pd\n@cache(format='parquet')\ndef a(x: int) -> pd.DataFrame:\n    CALL('a', x)\n    return pd.DataFrame({'u': [x, x + 1]})\ndef b(a: pd.DataFrame) -> int:\n    CALL('b', 0)\n    return int(a['u'].sum())\ndef c(b: int) -> int:\n    CALL('c', b)\n    return b\n",
}
ALWAYS = {"recompute": {"a"}, "disable": {"a", "c"}, "fan": {"e"}}

# (name, runs before, crashed run, runs after the crash); a run is (source, x, log to file)
SCEN = {}


def _scen():
    for s in SRC:
        if s == "chain2":
            continue
        SCEN[s + " cold"] = ([], (s, 1), [(s, 1), (s, 1), (s, 2)])
        SCEN[s + " warm other"] = ([(s, 2)], (s, 1), [(s, 1), (s, 1), (s, 2)])
        SCEN[s + " warm same"] = ([(s, 1)], (s, 1), [(s, 1), (s, 1)])
    SCEN["chain edited"] = ([("chain", 1)], ("chain2", 1), [("chain", 1), ("chain2", 1), ("chain2", 1)])
    SCEN["chain then other"] = ([], ("chain", 1), [("chain2", 1), ("chain", 1), ("chain", 1)])
    SCEN["chain logged"] = ([("chain", 2, "log")], ("chain", 1, "log"), [("chain", 1, "log"), ("chain", 1, "log")])
    SCEN["formats share a value"] = ([("text", 1)], ("mixedfmt", 1), [("mixedfmt", 1), ("mixedfmt", 1), ("text", 1)])


_scen()
QUICK = ["chain cold", "chain warm other", "chain edited", "chain then other", "chain logged", "same cold", "json cold", "text cold", "text warm other", "mixedfmt cold", "recompute warm same", "disable cold", "none cold",
         "fan cold", "fan warm other", "formats share a value"]


# ---------------------------------------------------------------- inside the preloaded process
class Lab:
    def __init__(self, d):
        from mc.progs import make_module
        from hamilton import driver
        from hamilton.execution import executors
        self.driver, self.executors, self.make = driver, executors, make_module
        self.dir, self.bak = os.path.join(d, "cache"), os.path.join(d, "bak")
        self.lib = ctypes.CDLL(None)
        self.lib.cfs_count.restype = ctypes.c_long
        self.lib.cfs_len.restype = ctypes.c_long
        self.lib.cfs_kind.restype = ctypes.c_char
        self.lib.cfs_name.restype = ctypes.c_char_p
        self.lib.cfs_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long]
        self.pipe = None
        self.log = []
        self.mods = {}
        self.refs = {}

    def call(self, name, arg):
        self.log.append(name + ":" + repr(arg))
        if self.pipe is not None:
            os.write(self.pipe, (json.dumps(["call", name + ":" + repr(arg)]) + "\n").encode())

    def mod(self, s):
        if s not in self.mods:
            self.mods[s] = self.make(HDR + SRC[s], name="crash_" + s.rstrip("2"), env={"CALL": self.call})
        sys.modules[self.mods[s].__name__] = self.mods[s]
        return self.mods[s]

    def builder(self, s):
        b = self.driver.Builder().with_modules(self.mod(s))
        if s == "fan":
            b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(self.executors.SynchronousLocalTaskExecutor()).with_remote_executor(self.executors.SynchronousLocalTaskExecutor())
        return b

    def execute(self, run, cached=True):
        s, x = run[0], run[1]
        b = self.builder(s)
        if cached:
            b = b.with_cache(path=self.dir, log_to_file=len(run) > 2)
        dr = b.build()
        return dr, dr.execute(["a", "b", "c"] if s != "fan" else ["b", "c"], inputs={"x": x})

    def want(self, run):
        k = run[:2]
        if k not in self.refs:
            self.refs[k] = canon(self.execute(run, False)[1])
        return self.refs[k]

    def child(self, fn):
        """runs fn(send) in a forked process; -> (messages, exit status)"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.pipe = w
                del self.log[:]

                def send(*m):
                    os.write(w, (json.dumps(m) + "\n").encode())
                try:
                    fn(send)
                except BaseException as e:
                    self.lib.cfs_disarm()
                    send("exc", "%s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-1200:])
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            buf += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        return [json.loads(l) for l in buf.decode().splitlines()], os.waitstatus_to_exitcode(st)

    def reset(self, src):
        shutil.rmtree(self.dir, ignore_errors=True)
        if os.path.isdir(src):
            shutil.copytree(src, self.dir)

    def save(self, dst):
        shutil.rmtree(dst, ignore_errors=True)
        if os.path.isdir(self.dir):
            shutil.copytree(self.dir, dst)

    def prepare(self, base):
        self.reset("/nonexistent")
        for run in base:
            m, st = self.child(lambda send: send("val", canon(self.execute(run)[1])))
            if st != 0 or not m or m[-1][0] != "val":
                return "the run %r raised %s" % (run, m[-1][1] if m else st)
            if m[-1][1] != self.want(run):
                return "the run %r returned %s" % (run, m[-1][1][:200])
        self.save(self.bak)

    def crash(self, run, at, torn):
        """-> (calls, operations or None when it crashed)"""
        def go(send):
            self.lib.cfs_arm(self.dir.encode(), at, torn)
            v = canon(self.execute(run)[1])
            self.lib.cfs_disarm()
            n = self.lib.cfs_count()
            send("ops", [[self.lib.cfs_kind(i).decode(), self.lib.cfs_len(i), self.lib.cfs_name(i).decode("utf8", "replace")] for i in range(n)])
            send("val", v)
        m, st = self.child(go)
        calls = [x[1] for x in m if x[0] == "call"]
        if st == 77:
            return calls, None, None
        bad = [x for x in m if x[0] == "exc"]
        if bad or st != 0:
            return calls, None, "the run %r raised %s (exit %s)" % (run, bad[0][1] if bad else "", st)
        v = [x[1] for x in m if x[0] == "val"][0]
        if v != self.want(run):
            return calls, None, "the run %r returned %s, expected %s" % (run, v[:200], self.want(run)[:200])
        return calls, [x[1] for x in m if x[0] == "ops"][0], None

    def after(self, runs, crashed, done, complete_before):
        """later runs; done: calls whose entries were completely stored before the crash"""
        def go(send):
            seen = set(complete_before)
            for i, run in enumerate(runs):
                always = ALWAYS.get(run[0], ())
                del self.log[:]
                try:
                    dr, v = self.execute(run)
                    v = canon(v)
                    for r in dr.cache.metadata_store.get_run_ids():
                        dr.cache.metadata_store.get_run(r)
                except Exception as e:
                    return send("bad", "the later run %r raised %s: %s" % (run, type(e).__name__, str(e)[:300]))
                if v != self.want(run):
                    return send("bad", "the later run %r returned %s, expected %s" % (run, v[:300], self.want(run)[:300]))
                new = [c for c in self.log if c.split(":")[0] not in always]
                if tuple(run) in seen and new:
                    return send("bad", "the later run %r computed %s again although a run with these settings was complete" % (run, new[:4]))
                if tuple(run) == tuple(crashed):
                    twice = [c for c in new if c in done]
                    if twice:
                        return send("bad", "the later run %r computed %s again although it was stored before the crash" % (run, twice[:4]))
                seen.add(tuple(run))
            send("ok")
        m, st = self.child(go)
        bad = [x for x in m if x[0] in ("bad", "exc")]
        if bad:
            return bad[0][1]
        if st != 0 or not any(x[0] == "ok" for x in m):
            return "the later runs ended with status %s" % st


def canon(v):
    import pandas as pd
    return repr([(k, x.to_dict("list") if isinstance(x, pd.DataFrame) else x) for k, x in sorted(v.items())])


def torn_lengths(kind, n, name, tier):
    if kind not in "wp" or n < 2:
        return []
    if tier == "quick" or name.startswith("metadata_store"):
        return sorted({1, n // 2, n - 1})
    return sorted(set(range(1, min(n, 300))) | {n // 2, n - 1})


def complete_calls(calls):
    return set(calls[:-1])


def worker(scen, tier, part, parts, double, only=None):
    base, run, after = SCEN[scen]
    if any("parquet" in r[0] for r in base + [run] + after):
        import hamilton.plugins.pandas_extensions  # noqa: F401
    import pandas  # noqa: F401
    d = tempfile.mkdtemp(prefix="c8", dir=os.environ.get("VERIF_SHM") or None)
    out = dict(points=0, runs=0, bad=[], states=[], kinds={})

    def bad(msg, at):
        out["bad"].append([msg, at])
    try:
        lab = Lab(d)
        for r in base + [run] + after:
            lab.want(tuple(r))
        m = lab.prepare(base)
        if m:
            bad(m, None)
            return out
        lab.reset(lab.bak)
        calls, ops, err = lab.crash(run, -1, -1)
        if err:
            bad(err, None)
            return out
        out["ops"] = len(ops)
        for k, _, _ in ops:
            out["kinds"][k] = out["kinds"].get(k, 0) + 1
        pts = [(i, t) for i, (k, n, name) in enumerate(ops) for t in [0] + torn_lengths(k, n, name, tier)] + [(len(ops), 0)]
        before = {tuple(r) for r in base}
        for j, (i, t) in enumerate(pts):
            if (only is None and j % parts != part) or (only is not None and [i, t] != only[:2]):
                continue
            lab.reset(lab.bak)
            calls, o, err = lab.crash(run, i, t)
            if err:
                bad(err, [i, t])
                continue
            out["points"] += 1
            finished = o is not None
            done = set(calls) if finished else complete_calls(calls)
            complete = before | ({tuple(run)} if finished else set())
            what = "%s %s%s" % (ops[i] if i < len(ops) else "end", "after %d bytes" % t if t else "before", " of run " + repr(run))
            out["states"].append("%s|%d|%d" % (scen, i, t))
            if not double:
                out["runs"] += len(after)
                m = lab.after(after, run, done, complete)
                if m:
                    bad("crash at operation %d (%s): %s" % (i, what, m), [i, t])
                continue
            first = after[0]
            snap = os.path.join(d, "snap")
            lab.save(snap)
            c2, ops2, err = lab.crash(first, -1, -1)
            if err:
                bad("crash at operation %d (%s): later %s" % (i, what, err), [i, t])
                continue
            for i2, (k2, n2, name2) in enumerate(ops2):
                for t2 in [0] + torn_lengths(k2, n2, name2, "quick")[1:2]:
                    if only is not None and [i2, t2] != only[2:]:
                        continue
                    lab.reset(snap)
                    c3, o3, err = lab.crash(first, i2, t2)
                    out["points"] += 1
                    out["runs"] += len(after)
                    out["states"].append("%s|%d|%d|%d|%d" % (scen, i, t, i2, t2))
                    dn = done | (complete_calls(c3) if tuple(first) == tuple(run) else set())
                    m = err or lab.after(after, run, dn, complete)
                    if m:
                        bad("crash at operation %d (%s), then at operation %d %s of %r: %s" % (i, what, i2, ops2[i2], first, m), [i, t, i2, t2])
            if len(out["bad"]) > 5:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def guarded(*a):
    from mc.core import _raised_by_code_under_test, exc_brief
    try:
        return worker(*a)
    except Exception as e:
        if not _raised_by_code_under_test(e):
            raise
        return dict(points=0, runs=0, states=[], kinds={}, bad=[["a run without crash or cache raised %s" % exc_brief(e), None]])


# ---------------------------------------------------------------- jobs
def compile_shim(d):
    so = os.path.join(d, "crashfs.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "crashfs.c")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, src, "-ldl"], check=True, capture_output=True)
    return so


def run_worker(args, timeout):
    d = tempfile.mkdtemp(prefix="c8w")
    try:
        env = dict(os.environ, LD_PRELOAD=compile_shim(d))
        code = "import json, sys, warnings, logging\nwarnings.simplefilter('ignore'); logging.disable(50)\nfrom mc.props import c08\nr = c08.guarded(*json.loads(sys.argv[1]))\nprint('\\nRESULT ' + json.dumps(r))"
        p = subprocess.run([sys.executable, "-c", code, json.dumps(args)], env=env, capture_output=True, text=True, timeout=timeout)
        lines = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
        if p.returncode != 0 or not lines:
            raise RuntimeError("crash worker failed (%s): %s" % (p.returncode, p.stderr[-1500:]))
        return json.loads(lines[-1][7:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jobs(tier):
    J = []
    if tier == "quick":
        for s in QUICK:
            J += [(s, i, 2, False) for i in range(2)]
    else:
        for s in SCEN:
            J += [(s, i, 4, False) for i in range(4)]
        for s in ("chain cold", "same warm other", "text cold", "json cold", "recompute warm same", "fan cold"):
            J += [(s, i, 16, True) for i in range(16)]
    return J


def run_job(job, ctx):
    s, part, parts, double = job
    r = run_worker([s, ctx.tier, part, parts, double], 800 if ctx.tier == "quick" else 3 * 3600)
    report(ctx, r, s, double)


def report(ctx, r, s, double):
    for st in r["states"]:
        ctx.state(st)
    ctx.transition(r["runs"])
    ctx.trace(r["points"])
    ctx.cases += r["points"]
    ctx.outcome("%s%s" % (s, " twice" if double else ""))
    ctx.count("crash points", r["points"])
    ctx.count("operations of one run, " + s, r.get("ops", 0)) if r["states"] else None
    for msg, at in r["bad"]:
        ctx.violation("%s|%s" % (s, msg.split("): ")[-1][:80]), msg, dict(scen=s, at=at, double=double))


def replay(case, ctx):
    r = run_worker([case["scen"], ctx.tier, 0, 1, case["double"], case["at"]], 600)
    report(ctx, r, case["scen"], case["double"])
