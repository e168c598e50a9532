"""Controlled random source.

`install()` must run before dynamicprompts is imported.  It replaces
`random.Random` and the functions of the `random` module.  While an explorer is
active every primitive draw is a *choice point* with exact probabilities;
otherwise the ordinary Mersenne Twister is used (unseeded generators get
distinct but deterministic seeds, so that no check depends on OS entropy).
"""
from __future__ import annotations

import itertools
import random as _random
from fractions import Fraction

RealRandom = _random.Random
CTL = None  # the active Controller, if any
FLOAT_DRAWS = 0  # continuous draws seen: those are explored on a grid, not exactly
_entropy = itertools.count(0x5EED0001)


class TooManyRuns(Exception):
    """The exploration budget of one case was exceeded."""


class _Stop(BaseException):
    pass


class Controller:
    """One execution: follows `prefix`, then takes the first outcome."""

    __slots__ = ("prefix", "trace", "prob", "grid", "maxdepth")

    def __init__(self, prefix, grid, maxdepth=400):
        self.prefix = prefix
        self.trace = []  # [(index taken, number of outcomes)]
        self.prob = Fraction(1)
        self.grid = grid
        self.maxdepth = maxdepth

    def choose(self, weights):
        """Index into `weights` (ints/Fractions); zero weights never happen."""
        live = [i for i, w in enumerate(weights) if w > 0]
        pos = len(self.trace)
        if pos >= self.maxdepth:
            raise TooManyRuns
        j = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trace.append((j, len(live)))
        i = live[j]
        if len(live) > 1:
            self.prob *= Fraction(weights[i]) / sum(Fraction(weights[x]) for x in live)
        return i

    def uniform(self, n):
        pos = len(self.trace)
        if pos >= self.maxdepth:
            raise TooManyRuns
        j = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trace.append((j, n))
        if n > 1:
            self.prob /= n
        return j


class LazyDraws(list):
    """Result of choices(k>1): elements are drawn when looked at."""

    def __init__(self, draw, k):
        super().__init__()
        self._draw, self._k = draw, k

    def _upto(self, n):
        while list.__len__(self) < n:
            list.append(self, self._draw())

    def __len__(self):
        return self._k

    def __iter__(self):
        for i in range(self._k):
            self._upto(i + 1)
            yield list.__getitem__(self, i)

    def __getitem__(self, i):
        self._upto(self._k if isinstance(i, slice) or i < 0 else i + 1)
        return list.__getitem__(self, i)

    def pop(self, i=-1):
        self._upto(self._k)
        self._k -= 1
        return list.pop(self, i)

    def __eq__(self, other):
        return list(iter(self)) == list(other)

    __hash__ = None


class CtlRandom(RealRandom):
    def seed(self, a=None, version=2):
        if a is None:
            a = next(_entropy)
        return super().seed(a, version)

    def __init__(self, x=None):
        super().__init__(x)

    def random(self):
        if CTL is None:
            return super().random()
        global FLOAT_DRAWS
        FLOAT_DRAWS += 1
        g = CTL.grid
        return g[CTL.uniform(len(g))]

    def getrandbits(self, k):
        if CTL is None:
            return super().getrandbits(k)
        if k > 10:
            raise TooManyRuns
        return CTL.uniform(1 << k)

    def _randbelow(self, n):
        if CTL is None:
            return self._randbelow_with_getrandbits(n)
        return CTL.uniform(n)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if CTL is None:
            return super().choices(population, weights, cum_weights=cum_weights, k=k)
        n = len(population)
        if cum_weights is None:
            if weights is None:
                ws = None
            else:
                ws = [Fraction(w) for w in weights]
        elif weights is not None:
            raise TypeError("Cannot specify both weights and cumulative weights")
        else:
            cw = [Fraction(w) for w in cum_weights]
            ws = [b - a for a, b in zip([Fraction(0)] + cw, cw)]
        if ws is None:
            if n == 0:
                raise IndexError("Cannot choose from an empty population")

            def draw():
                return population[CTL.uniform(n)]

        else:
            if len(ws) != n:
                raise ValueError("The number of weights does not match the population")
            if sum(ws) <= 0:
                raise ValueError("Total of weights must be greater than zero")

            def draw():
                return population[CTL.choose(ws)]

        if k <= 1:
            return [draw() for _ in range(k)]
        return LazyDraws(draw, k)


_FUNCS = (
    "seed random uniform triangular randint choice randrange sample shuffle choices "
    "normalvariate lognormvariate expovariate vonmisesvariate gammavariate gauss "
    "betavariate binomialvariate paretovariate weibullvariate getstate setstate "
    "getrandbits randbytes"
).split()


def install():
    import sys

    assert "dynamicprompts" not in sys.modules
    _random.Random = CtlRandom
    inst = CtlRandom()
    _random._inst = inst
    for f in _FUNCS:
        if hasattr(_random, f):
            setattr(_random, f, getattr(inst, f))


# midpoints of 60 cells: exact for weight totals dividing 60
GRID60 = tuple((i + 0.5) / 60 for i in range(60))


def explore(fn, max_runs=20000, grid=GRID60, maxdepth=400):
    """Run fn() once per sequence of random outcomes; yield (prob, result).

    A result is ("ok", value) or ("exc", exception).  Raises TooManyRuns when
    the space is larger than max_runs.
    """
    global CTL
    prefix = []
    runs = deep = 0
    while True:
        if runs >= max_runs or deep >= 100:
            raise TooManyRuns
        ctl = Controller(prefix, grid, maxdepth)
        saved, CTL = CTL, ctl
        try:
            try:
                res = ("ok", fn())
            except TooManyRuns:
                if not prefix and not ctl.trace:
                    raise
                res = None  # deeper than the bound: this execution is cut off
                deep += 1
            except Exception as e:  # outcome of the code under test
                res = ("exc", e)
        finally:
            CTL = saved
        runs += 1
        if res:
            yield ctl.prob, res
        tr = ctl.trace
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            if deep:
                raise TooManyRuns
            return
        prefix = [t[0] for t in tr[:-1]] + [tr[-1][0] + 1]


def current():
    return CTL


class DevController(Controller):
    """Follows a base policy except at the given positions."""

    def __init__(self, policy, devs, maxdepth=5000):
        super().__init__([], GRID60, maxdepth)
        self.policy, self.devs = policy, devs

    def _pick(self, n):
        pos = len(self.trace)
        if pos >= self.maxdepth:
            raise TooManyRuns
        base = 0 if self.policy == "first" else n - 1 if self.policy == "last" else n // 2
        j = (base + self.devs.get(pos, 0)) % n
        self.trace.append((j, n))
        return j

    def choose(self, weights):
        live = [i for i, w in enumerate(weights) if w > 0]
        return live[self._pick(len(live))]

    def uniform(self, n):
        return self._pick(n)


def explore_dev(fn, depth, policies=("first", "last", "mid"), max_positions=60):
    """All executions that deviate from a fixed policy in at most `depth` draws."""
    global CTL

    def run(policy, devs):
        global CTL
        ctl = DevController(policy, devs)
        saved, CTL = CTL, ctl
        try:
            try:
                res = ("ok", fn())
            except TooManyRuns:
                raise
            except Exception as e:
                res = ("exc", e)
        finally:
            CTL = saved
        return ctl.trace, res

    def rec(policy, devs, start, left):
        trace, res = run(policy, devs)
        yield res
        if left:
            for pos in range(start, min(len(trace), max_positions)):
                for d in range(1, trace[pos][1]):
                    yield from rec(policy, {**devs, pos: d}, pos + 1, left - 1)

    for policy in policies:
        yield from rec(policy, {}, 0, depth)
