"""Bounded-exhaustive enumeration of template trees."""
from __future__ import annotations

import itertools
from functools import lru_cache

from .ast import EMPTY, Acc, Asg, Lit, Seq, Var, Wc, Wrap


class Grammar:
    """All trees of an exact size over a fixed alphabet.

    Sizes: literal/wildcard/access 1, variant 1 + sum of options, wrap 1 + both
    sides, sequence sum of parts (no two adjacent literals, which would merge)."""

    def __init__(
        self,
        lits=("a", "b"),
        atoms=(),
        empty=True,
        bounds=lambda n: (None,),
        seps=(None,),
        meths=("",),
        weights=(None,),
        max_opts=3,
        max_parts=3,
        wraps=False,
    ):
        self.lits = [Lit(x) for x in lits]
        self.atoms = list(atoms)
        self.empty = empty
        self.bounds, self.seps, self.meths, self.weights = bounds, seps, meths, weights
        self.max_opts, self.max_parts, self.wraps = max_opts, max_parts, wraps
        self._u, self._s, self._o = {}, {}, {}

    def units(self, size):
        """Non-sequence nodes of this size."""
        if size in self._u:
            return self._u[size]
        out = []
        if size == 1:
            out += self.lits + self.atoms
        if size >= 2:
            for n in range(1, self.max_opts + 1):
                for opts in self._options(n, size - 1):
                    for b in self.bounds(n):
                        for s in self.seps if b is not None else (None,):
                            for m in self.meths:
                                out.append(Var(opts, b, s, m))
        if self.wraps and size >= 3:
            for i in range(1, size - 1):
                for w in self.trees(i):
                    for x in self.trees(size - 1 - i):
                        out.append(Wrap(w, x))
        self._u[size] = out
        return out

    def _options(self, n, size):
        key = (n, size)
        if key in self._o:
            return self._o[key]
        out = []
        if n == 0:
            if size == 0:
                out.append(())
        else:
            for first in range(1, size - (n - 1) + 1):
                cands = list(self.trees(first))
                if first == 1 and self.empty:
                    cands.append(EMPTY)
                for c in cands:
                    for w in self.weights:
                        for rest in self._options(n - 1, size - first):
                            out.append(((w, c),) + rest)
        self._o[key] = out
        return out

    def trees(self, size):
        """Units and sequences of this size."""
        if size in self._s:
            return self._s[size]
        out = list(self.units(size))
        for k in range(2, self.max_parts + 1):
            out += [Seq(p) for p in self._parts(k, size, None)]
        self._s[size] = out
        return out

    def _parts(self, k, size, prev):
        if k == 0:
            return [()] if size == 0 else []
        res = []
        for first in range(1, size - (k - 1) + 1):
            for u in self.units(first):
                if type(u) is Lit and prev is Lit:
                    continue
                for rest in self._parts(k - 1, size - first, type(u)):
                    res.append((u,) + rest)
        return res

    def upto(self, size):
        for s in range(1, size + 1):
            yield from self.trees(s)


def var(*opts, bound=None, sep=None, meth=""):
    return Var(
        tuple(o if isinstance(o, tuple) else (None, Lit(o) if isinstance(o, str) else o) for o in opts),
        bound,
        sep,
        meth,
    )


def seq(*items):
    return Seq(tuple(Lit(i) if isinstance(i, str) else i for i in items))


def lit(s):
    return Lit(s)


ALL_BOUNDS = {
    n: [None]
    + [str(i) for i in range(0, n + 2)]
    + [f"{i}-{j}" for i in range(0, n + 2) for j in range(0, n + 2)]
    + [f"-{j}" for j in range(0, n + 2)]
    + [f"{i}-" for i in range(0, n + 2)]
    for n in range(1, 6)
}


def all_bounds(n):
    return ALL_BOUNDS[n]
