"""Common machinery: bounded exhaustive exploration of executions of the real code.

A property module (mc.props.cNN) provides
  LEVEL, TECHNIQUE, ASSUMPTIONS (texts), RULE
  jobs(tier)            -> list of picklable job descriptors (a partition of the bounded space)
  run_job(job, ctx)     -> explores its part completely; reports to ctx
  replay(case, ctx)     -> re-executes one recorded case (used to confirm determinism and by --replay)
Everything is enumerated; nothing is drawn at random.  VERIF_SEED only rotates the order in which jobs run.
"""
from __future__ import annotations
import contextlib, hashlib, json, multiprocessing, os, signal, sys, time, traceback

NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class CaseTimeout(BaseException):
    """A case did not terminate within its (very generous) limit."""


class StopJob(BaseException):
    pass


def h64(x) -> int:
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode("utf8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


class Ctx:
    MAX_VIOL_PER_JOB = 40

    def __init__(self, tier, job_name="", deadline=None):
        self.tier = tier
        self.job = job_name
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []      # dicts sig,msg,case
        self._sigs = set()
        self.truncated = False
        self.deadline = deadline
        self.extra = {}

    # -- coverage -----------------------------------------------------------
    def state(self, key):
        self.states.add(h64(key))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def out_of_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            self.truncated = True
            return True
        return False

    # -- verdicts -----------------------------------------------------------
    def violation(self, sig, msg, case):
        """sig: identifies the failing input / call site / history (matched against known findings)."""
        self.count("violating_cases")
        if sig in self._sigs:
            return
        self._sigs.add(sig)
        self.violations.append(dict(sig=sig, msg=msg, case=case))
        if len(self.violations) >= self.MAX_VIOL_PER_JOB:
            raise StopJob()

    @contextlib.contextmanager
    def guard(self, seconds=60):
        """Watchdog for one case; raises CaseTimeout in the main thread of the worker."""
        def onalarm(signum, frame):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def pack(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    cases=self.cases, outcomes=self.outcomes, samples=self.samples,
                    violations=self.violations, truncated=self.truncated, extra=self.extra)


def exc_brief(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def _raised_by_code_under_test(e):
    """innermost frames (after the last frame of this harness) lie in the repository"""
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    own = [i for i, f in enumerate(frames) if os.path.realpath(f).startswith(os.path.dirname(os.path.abspath(__file__)))]
    tail = frames[(own[-1] + 1) if own else 0:]
    return any(os.path.realpath(f).startswith(repo) for f in tail)


def _note_skipped(ctx):
    from mc import explore
    if explore.SKIPPED:
        ctx.truncated = True
        ctx.count("subtrees left out: executions not reproducible", len(explore.SKIPPED))


def _child(conn, mod, job, tier, deadline):
    # own process group is not changed: children die with the parent
    try:
        ctx = Ctx(tier, repr(job)[:120], deadline)
        try:
            mod.run_job(job, ctx)
        except StopJob:
            pass
        except CaseTimeout:
            ctx.violations.append(dict(sig="timeout:" + repr(job)[:200],
                                       msg="exploration of this job did not terminate", case=dict(job=job)))
        _note_skipped(ctx)
        conn.send(("ok", ctx.pack()))
    except BaseException as e:
        tb = traceback.format_exc()
        if _raised_by_code_under_test(e):
            # the code under test raised where the scenario has to succeed
            ctx.violations.append(dict(sig="raised:%s:%s" % (repr(job)[:120], type(e).__name__), msg=tb[-1500:], case=dict(job=job)))
            conn.send(("ok", ctx.pack()))
        elif ctx.violations:  # e.g. state leaked by a violation already reported made a later execution irreproducible
            conn.send(("ok", ctx.pack()))
        else:  # harness error: reported as such, never as a violation
            conn.send(("error", tb))
    finally:
        conn.close()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def run_jobs(mod, jobs, tier, deadline, nproc=None, in_process=False):
    """Runs every job in a forked child, nproc at a time. Returns (packs, errors, died)."""
    nproc = nproc or getattr(mod, "NPROC", NPROC)
    packs, errors, died = [], [], []
    if in_process:
        for j in jobs:
            ctx = Ctx(tier, repr(j)[:120], deadline)
            try:
                mod.run_job(j, ctx)
            except StopJob:
                pass
            packs.append(ctx.pack())
        return packs, errors, died
    mp = multiprocessing.get_context("fork")
    pending = list(jobs)
    running = {}
    while pending or running:
        while pending and len(running) < nproc:
            job = pending.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_child, args=(w, mod, job, tier, deadline))
            p.start()
            w.close()
            running[r] = (p, job)
        ready = multiprocessing.connection.wait(list(running), timeout=5)
        for r in ready:
            p, job = running.pop(r)
            try:
                kind, data = r.recv()
            except EOFError:
                p.join()
                died.append((job, p.exitcode))
                continue
            finally:
                r.close()
            p.join()
            if kind == "ok":
                packs.append(data)
            else:
                errors.append((job, data))
        if time.time() > (deadline or 1e18) + 120:
            for r, (p, job) in running.items():
                p.kill()
                died.append((job, "deadline"))
            running = {}
            pending = []
    return packs, errors, died


import multiprocessing.connection  # noqa: E402
