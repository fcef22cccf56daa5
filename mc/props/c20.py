"""C20: delivery of updates by the tracking clients.

Threaded client: its real code (queue worker, flush, stop, exit handling) runs under a controlled scheduler that owns threads, queue,
clock and exit sequence; every schedule up to a preemption bound at source-line granularity of clients.py is explored, with every
placement of failing requests.  Asynchronous client: the same on a controlled event loop with virtual time."""
from __future__ import annotations
from mc import simthreads
simthreads.install()
import asyncio, itertools, json, os, pickle
from mc import tsched
from mc.core import exc_brief, StopJob
from mc.explore import explore, explore_part
import requests
import requests.adapters
import aiohttp
from hamilton_sdk.api import clients

TECHNIQUE = ("stateless model checking of the real clients: all schedules of producers, background sender, stop and interpreter exit up to a preemption bound at source-line granularity, with "
             "timeouts firing at any point and every placement of a bounded number of failing requests; controlled event loop with virtual time for the asynchronous client")
RULE = "state = one schedule with its placement of failures (distinct choice sequence); transition = one scheduling point; trace = one complete execution of the real client judged by what the stub transport received"
ASSUMPTIONS = ["transport stubbed below requests / aiohttp (requests.adapters.HTTPAdapter.send, aiohttp.ClientSession._request)", "up to three updates, two runs, two producers, two failing requests; two preemptions",
               "the asynchronous client has no stop: delivery within three flush intervals is required while its event loop runs"]
BUDGET = {"quick": 420, "thorough": 3 * 3600}
DIRS = [os.path.dirname(os.path.abspath(clients.__file__))]


class Server:
    """what the stub transport saw: (run id, attributes, task updates, delivered)"""

    def __init__(self, choices, faults):
        self.choices, self.left, self.seen, self.busy = choices, faults, [], 0

    def fault(self):
        if self.left <= 0:
            return 0
        c = self.choices.choose(3)
        if c:
            self.left -= 1
        return c

    def record(self, method, url, body, fault):
        if "dag_runs_bulk" not in url:
            return
        rid = int(url.split("dag_run_id=")[1].split("&")[0])
        d = json.loads(body) if isinstance(body, (str, bytes)) else body
        self.seen.append((rid, d["attributes"], d["task_updates"], not fault))


SERVER = [None]
_send = requests.adapters.HTTPAdapter.send


def fake_send(self, request, **kw):
    srv, s = SERVER[0], simthreads.me()
    if srv is None:
        raise requests.exceptions.ConnectionError("no network")
    if s is not None:
        s.point()
    f = srv.fault()
    srv.record(request.method, request.url, request.body, f)
    if s is not None:
        s.point()
    if f == 2:
        raise requests.exceptions.ConnectionError("connection refused (injected)")
    r = requests.Response()
    r.status_code, r.url, r.request, r._content = (500 if f else 200), request.url, request, b"{}"
    return r


requests.adapters.HTTPAdapter.send = fake_send
requests.sessions.Session.trust_env = False


class _Resp:
    def __init__(self, status):
        self.status = status

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status, message="injected")

    async def json(self, **kw):
        return {}

    async def text(self, **kw):
        return ""

    async def read(self):
        return b"{}"

    def release(self):
        pass

    def close(self):
        pass

    @property
    def ok(self):
        return self.status < 400

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return None


async def fake_request(self, method, url, *, json=None, data=None, **kw):
    from mc.props import c20
    srv = SERVER[0]
    f = srv.fault()
    await LOOP[0].gate("request")
    srv.record(method, str(url), json if json is not None else data, f)
    if f == 2:
        raise aiohttp.ClientConnectionError("connection refused (injected)")
    return _Resp(500 if f else 200)


aiohttp.ClientSession._request = fake_request
LOOP = [None]


def update(i, run, node, status):
    """attribute i, and task update of the node"""
    return dict(dag_run_id=run, attributes=[dict(node_name=node, name="attr%d" % i, value=i)], task_updates=[dict(node_name=node, status=status, seq=i, **{"f%d" % i: i})])


def judge(srv, must, maybe=()):
    """must: updates that have to be delivered (unless their request failed), in the order queued per producer; maybe: allowed, not required"""
    got, failed = {}, set()
    for rid, attrs, tus, ok in srv.seen:
        ids = [a["value"] for a in attrs]
        for a in attrs:
            if ok:
                got.setdefault(a["value"], []).append((rid, a))
            else:
                failed.add(a["value"])
    byid = {u["attributes"][0]["value"]: u for u in list(must) + list(maybe)}
    for i, l in got.items():
        if i not in byid:
            return "an update that was never queued was delivered: %r" % (l,)
        if len(l) > 1:
            return "update %d was delivered %d times" % (i, len(l))
        rid, a = l[0]
        if rid != byid[i]["dag_run_id"] or a != byid[i]["attributes"][0]:
            return "update %d was delivered as %r of run %r" % (i, a, rid)
    for u in must:
        i = u["attributes"][0]["value"]
        if i not in got and i not in failed:
            return "update %d was queued before stopping and never sent" % i
    # state per run and node: every delivered update's fields arrive, the latest one wins
    for key in {(u["dag_run_id"], u["task_updates"][0]["node_name"]) for u in byid.values()}:
        mine = [u for u in byid.values() if (u["dag_run_id"], u["task_updates"][0]["node_name"]) == key]
        state, last = {}, -1
        for rid, attrs, tus, ok in srv.seen:
            if not ok or rid != key[0]:
                continue
            for t in tus:
                if t["node_name"] == key[1]:
                    if t["seq"] < last:
                        return "node %s of run %s: state %r delivered after a later one" % (key[1], key[0], t)
                    last = t["seq"]
                    state.update(t)
        for u in mine:
            i = u["attributes"][0]["value"]
            if i in got and state.get("f%d" % i) != i:
                return "the task update queued with attribute %d did not arrive: %r" % (i, state)
        ok = [u["task_updates"][0] for u in mine if u["attributes"][0]["value"] in got]
        if ok and state.get("status") != ok[-1]["status"]:
            return "node %s of run %s: the latest state %r is not what was delivered last: %r" % (key[1], key[0], ok[-1]["status"], state)


UPD = {
    "one": [(1, "n", "SUCCESS")],
    "same node": [(1, "n", "RUNNING"), (1, "n", "SUCCESS")],
    "two nodes": [(1, "n", "RUNNING"), (1, "m", "RUNNING"), (1, "n", "SUCCESS")],
    "two runs": [(1, "n", "RUNNING"), (2, "n", "FAILURE")],
    "producers": [(1, "n", "RUNNING"), (1, "n", "SUCCESS"), (1, "m", "RUNNING")],
    "three runs": [(1, "n", "RUNNING"), (2, "n", "FAILURE"), (3, "m", "RUNNING")],
}


def send(client, u):
    client.update_tasks(u["dag_run_id"], attributes=list(u["attributes"]), task_updates=list(u["task_updates"]))


def sync_case(ctx, upd, how, size, faults, bound, events, case, part, visits):
    ups = [update(i, *u) for i, u in enumerate(UPD[upd])]

    def once(ch):
        srv = SERVER[0] = Server(ch, faults)
        w = simthreads.World(ch, bound, DIRS, events, visits)
        done = []

        def main():
            c = clients.BasicSynchronousHamiltonClient("key", "user", "http://stub.invalid")
            if "pickled" in how:
                d = pickle.loads(pickle.dumps(c))
                c.stop()
                c = d
            if size:
                c.max_batch_size = size
            if "producer" in how:     # a second thread queues the last update
                import threading
                t = threading.Thread(target=lambda: (send(c, ups[-1]), done.append(ups[-1])))
                t.start()
                rest = ups[:-1]
            else:
                t, rest = None, ups
            for u in rest:
                send(c, u)
                done.append(u)
            if t is not None and "joined" in how:
                t.join()
            must.extend(done)
            if "stop" in how:
                c.stop()
                after_stop.append(len(srv.seen))
                if "twice" in how:
                    c.stop()
        must, after_stop = [], []
        try:
            w.run(main)
        except tsched.Deadlock as e:
            return "the program does not terminate: %s" % e, w.s.points
        finally:
            SERVER[0] = None
        if w.main_exc is not None:
            return "the program raised %s" % exc_brief(w.main_exc), w.s.points
        if w.exit_exc:
            return "an exit handler raised %s" % exc_brief(w.exit_exc[0]), w.s.points
        late = [u for u in ups if u not in must]
        bad = judge(srv, must, late)
        if bad is None and "stop" in how and after_stop:
            s2 = Server(None, 0)
            s2.seen = srv.seen[:after_stop[0]]
            bad = judge(s2, must, late)
            bad = bad and "when stop() returned: " + bad
        return bad, w.s.points
    loop(ctx, "sync|%s|%s|size %s|faults %d|%d %s" % (upd, how, size, faults, bound, events), case, once, part)


def loop(ctx, key, case, once, part):
    n = 0
    for trail, (bad, pts) in explore_part(once, *part):
        n += 1
        ctx.transition(pts)
        ctx.trace()
        ctx.cases += 1
        ctx.state((key, tuple(trail)))
        if bad:
            ctx.violation("%s|%s" % (key, bad.split(":")[0][:70]), "choices %s: %s" % ("".join(map(str, trail))[-150:], bad), dict(case, trail=trail))
            if len(ctx.violations) > 4 or "terminate" in bad:
                raise StopJob()
        if ctx.out_of_time():
            return
    ctx.outcome(key.split("|")[0] + " " + key.split("|")[2] if key.startswith("sync") else key)
    ctx.count("schedules " + key, n)


# ---------------------------------------------------------------- asynchronous client
class VLoop:
    """event loop in which requests and producers resume in the order the explorer chooses, and time is virtual"""

    def __init__(self, choices):
        from mc import aloop
        owner = self

        class Sel(aloop._Sel):
            def select(self, timeout=None):
                if timeout is not None and timeout <= 0:
                    return []
                owner.idle(timeout)
                return []
        self.sel = Sel()
        self.loop = asyncio.SelectorEventLoop(self.sel)
        self.now = 0.0
        self.loop.time = lambda: self.now
        self.choices, self.pending, self.events, self.early = choices, [], 0, 2
        self.loop.set_exception_handler(lambda l, c: None)

    def gate(self, label):
        f = self.loop.create_future()
        self.pending.append((label, f))
        return f

    def idle(self, timeout):
        self.pending = [(l, f) for l, f in self.pending if not f.done()]
        opts = list(range(len(self.pending))) + (["time"] if timeout is not None and (self.early > 0 or not self.pending) else [])
        if not opts:
            raise tsched.Deadlock("nothing can run")
        o = opts[self.choices.choose(len(opts))] if self.choices else opts[0]
        self.events += 1
        if o == "time":
            if self.pending:
                self.early -= 1
            self.now += timeout + 1e-6
        else:
            _, f = self.pending.pop(o)
            f.set_result(None)


def async_case(ctx, upd, size, faults, gated, case, part):
    import time
    ups = [update(i, *u) for i, u in enumerate(UPD[upd])]
    real = time.time

    def once(ch):
        srv = SERVER[0] = Server(ch, faults)
        vl = LOOP[0] = VLoop(ch)
        asyncio.set_event_loop(vl.loop)
        time.time = lambda: 1e9 + vl.now

        async def main():
            c = clients.BasicAsynchronousHamiltonClient("key", "user", "http://stub.invalid")
            if size:
                c.max_batch_size = size
            await c.ainit()
            for u in ups:
                if gated:
                    await vl.gate("producer")
                await c.update_tasks(u["dag_run_id"], attributes=list(u["attributes"]), task_updates=list(u["task_updates"]))
            t0 = vl.now
            await asyncio.sleep(3 * c.flush_interval + 1)
            # requests still in flight may finish
            for _ in range(50):
                if not [1 for l, f in vl.pending if l == "request" and not f.done()]:
                    break
                vl.choices, keep = None, vl.choices
                await asyncio.sleep(0.001)
                vl.choices = keep
            vl.choices = None
            await asyncio.sleep(2 * c.flush_interval + 1)
        try:
            try:
                vl.loop.run_until_complete(main())
            except tsched.Deadlock:
                return "the program does not terminate", vl.events
            except Exception as e:
                return "the program raised %s" % exc_brief(e), vl.events
            return judge(srv, ups), vl.events
        finally:
            time.time = real
            for t in asyncio.all_tasks(vl.loop):
                t.cancel()
            vl.choices = None
            try:
                vl.loop.run_until_complete(asyncio.sleep(0))
            except BaseException:
                pass
            vl.loop.close()
            asyncio.set_event_loop(None)
            SERVER[0] = LOOP[0] = None
    loop(ctx, "async|%s|size %s|faults %d|%s" % (upd, size, faults, gated), case, once, part)


def jobs(tier):
    J = []

    def sync(upd, how, size, faults, bound, events, parts=1, visits=None):
        J.extend(("sync", upd, how, size, faults, bound, events, visits, (i, parts)) for i in range(parts))
    if tier == "quick":
        for upd in UPD:
            for how in ("stop", "exit", "stop twice"):
                sync(upd, how, 0, 0, 1, "line", visits=2)
                sync(upd, how, 2, 1, 1, "call")
                sync(upd, how, 1, 2, 0, "call")
        sync("same node", "stop", 2, 0, 2, "line", 8, visits=1)
        sync("two runs", "exit", 1, 1, 1, "line", 4, visits=1)
        for upd in ("producers", "two runs"):
            for how in ("stop producer joined", "stop producer", "exit producer"):
                sync(upd, how, 2, 1, 1, "call", 2)
        sync("one", "stop pickled", 0, 1, 0, "call", 2)
        sync("same node", "exit pickled", 0, 0, 0, "call", 2)
        for upd in UPD:
            for size, faults, gated in itertools.product((0, 1, 2), (0, 1), (True, False)):
                J.append(("async", upd, size, faults, gated, (0, 1)))
        J.append(("async", "two nodes", 1, 2, True, (0, 1)))
    else:
        for upd in UPD:
            for how in ("stop", "exit", "stop twice", "stop producer joined", "stop producer", "exit producer", "stop pickled", "exit pickled"):
                if "producer" in how and upd not in ("producers", "two runs", "three runs"):
                    continue     # the order in which two producers queue updates of one node is theirs
                for size in (0, 1, 2):
                    if "pickled" in how:
                        sync(upd, how, size, 1, 1 if upd in ("one", "same node") else 0, "call", 4, visits=2)
                        continue
                    sync(upd, how, size, 1, 1, "line", 4, visits=3)
                    sync(upd, how, size, 2, 2, "call", 4, visits=3)
                    sync(upd, how, size, 0, 2, "line", 8, visits=1)
            for size, faults, gated in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (True, False)):
                J.append(("async", upd, size, faults, gated, (0, 1)))
    return J


def run_job(job, ctx):
    case = dict(job=list(job))
    if job[0] == "sync":
        _, upd, how, size, faults, bound, events, visits, part = job
        sync_case(ctx, upd, how, size, faults, bound, events, case, tuple(part), visits)
    else:
        _, upd, size, faults, gated, part = job
        async_case(ctx, upd, size, faults, gated, case, tuple(part))


def replay(case, ctx):
    run_job(tuple(tuple(x) if isinstance(x, list) else x for x in case["job"]), ctx)
