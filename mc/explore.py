"""Stateless exhaustive exploration: the code under test is re-executed for every sequence of choices."""
from __future__ import annotations
import gc


class Choices:
    """choose(n) returns 0..n-1; the explorer enumerates the complete choice tree depth first."""
    __slots__ = ("prefix", "pos", "trail", "sizes", "diverged")

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.sizes = []
        self.diverged = False

    def choose(self, n):
        if n <= 1:
            return 0
        c = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
        if c >= n:  # can only happen if a replayed execution diverged
            self.diverged = True
            raise Divergence("choice %d of %d at %d" % (c, n, self.pos))
        self.pos += 1
        self.trail.append(c)
        self.sizes.append(n)
        return c


class Divergence(BaseException):
    pass


_runs = [0]
SKIPPED = []       # prefixes that could not be reproduced
NOTHING = object()


def attempt(run, prefix, sizes=None):
    """one execution with this prefix; repeated if timing outside the explorer's control made it take other choices than recorded"""
    for _ in range(12):
        ch = Choices(prefix)
        if gc.isenabled():
            gc.collect()
            gc.freeze()
            gc.disable()     # a collection at an arbitrary moment would run finalizers there
        _runs[0] += 1
        if _runs[0] % 50 == 0:
            gc.collect()
        try:
            res = run(ch)
        except Divergence:
            ch.diverged = True
        if not ch.diverged and ch.pos >= len(prefix):
            return ch, res
    # what lies below this prefix depends on something outside the explorer's control: leave it out and say so
    SKIPPED.append(list(prefix))
    if len(SKIPPED) > 200:
        raise RuntimeError("executions are not reproducible")
    ch = Choices()
    ch.trail, ch.sizes = list(prefix), [c + 1 for c in prefix]
    if sizes is not None:
        ch.sizes = list(sizes)
    return ch, NOTHING


def explore(run, limit=None):
    """run(Choices) is called once per path of the choice tree; yields (trail, result)."""
    prefix = []
    sizes = None
    count = 0
    while True:
        ch, res = attempt(run, prefix, sizes)
        count += 1
        if res is not NOTHING:
            yield list(ch.trail), res
        # next path
        trail, sizes = ch.trail, ch.sizes
        i = len(trail) - 1
        while i >= 0 and trail[i] + 1 >= sizes[i]:
            i -= 1
        if i < 0:
            return
        prefix = trail[:i] + [trail[i] + 1]
        sizes = sizes[:i + 1]
        if limit is not None and count >= limit:
            raise RuntimeError("choice tree exceeds limit")


def explore_part(run, part, parts):
    """the same tree as explore(), split: this call covers the paths whose first non-default choice has index = part (mod parts);
    the all-default path belongs to part 0."""
    attempt(run, ())           # the first execution of a process may do things later ones do not
    ch, res = attempt(run, ())
    if part == 0:
        yield list(ch.trail), res
    sizes = list(ch.sizes)
    for i, n in enumerate(sizes):
        if i % parts != part:
            continue
        for c in range(1, n):
            fixed = [0] * i + [c]
            prefix = list(fixed)
            known = sizes[:i + 1]
            while True:
                ch, res = attempt(run, prefix, known)
                if res is not NOTHING:
                    yield list(ch.trail), res
                trail, sz = ch.trail, ch.sizes
                j = len(trail) - 1
                while j >= len(fixed) and trail[j] + 1 >= sz[j]:
                    j -= 1
                if j < len(fixed):
                    break
                prefix = trail[:j] + [trail[j] + 1]
                known = sz[:j + 1]
