"""Reference semantics: a direct interpreter of the syntax tree.

Written from README.md / docs/SYNTAX.md, deliberately naive.  Random decisions
are asked from the active explorer (`rng.CTL`) so that exploring the reference
gives exact distributions.

Streams are Python iterators of strings: finite for the combinatorial method,
endless for the random and cyclical methods.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import rng
from .ast import Acc, Asg, Lit, Seq, Var, Wc, Wrap, clamp, raw_bounds, render

C, R, Y = "!", "~", "@"  # combinatorial, random, cyclical


class Undefined(Exception):
    pass


class SelfReference(Exception):
    pass


class World:
    """wildcards: name -> list of (node, weight); order is the lookup order."""

    def __init__(self, wildcards=None, unknown=None, wrapmark="__"):
        self.wildcards = wildcards or {}
        self.unknown = unknown
        self.wrapmark = wrapmark

    def values(self, name):
        return self.wildcards.get(name, [])


class Env:
    __slots__ = ("world", "vars", "busy")

    def __init__(self, world, vars=None, busy=frozenset()):
        self.world = world
        self.vars = vars or {}
        self.busy = busy

    def bind(self, d):
        return Env(self.world, {**self.vars, **d}, self.busy) if d else self

    def sampling(self, name):
        if name in self.busy:
            raise SelfReference(name)
        return Env(self.world, self.vars, self.busy | {name})


ELLIPSES = "\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19"


def wrap_text(w, inner):
    """Replace the first marker of w by inner (append if there is none)."""
    best = None
    i = 0
    while i < len(w):
        if w[i] in ELLIPSES:
            j = i
            while j < len(w) and w[j] in ELLIPSES:
                j += 1
            best = (i, j)
            break
        if w.startswith("...", i):
            j = i
            while j < len(w) and w[j] == ".":
                j += 1
            best = (i, j)
            break
        i += 1
    if best is None:
        return w + inner
    return w[: best[0]] + inner + w[best[1] :]


def join(texts, sep):
    texts = list(texts)
    if len(texts) == 1:
        return texts[0]
    s = sep.join(texts)
    if sep:  # no dangling separator for an empty first/last choice
        if s.startswith(sep):
            s = s[len(sep) :]
        if s.endswith(sep):
            s = s[: -len(sep)]
    return s


def method_of(n, env, m):
    """Method by which node n is sampled within a part sampled by m."""
    if type(n) in (Var, Wc) and n.meth:
        if m != C and n.meth == C:
            return m
        return n.meth
    if type(n) is Acc and m == C:
        v = lookup(n, env)
        if v is not None and n.name not in env.busy:
            return method_of(v, Env(env.world, env.vars, env.busy | {n.name}), m)
    return m


def lookup(n, env):
    if n.name in env.vars:
        return env.vars[n.name]
    if n.default is not None:
        return n.default
    if env.world.unknown is not None:
        return Lit(env.world.unknown)
    return None


def assign(items, env):
    """Apply the assignments of a sequence in order; return the other items."""
    rest = []
    for i in items:
        if type(i) is Asg:
            if i.keep and i.name in env.vars:
                continue
            v = i.value
            if i.imm:
                v = Lit(next(stream(v, env, env_method(env))))
            env = env.bind({i.name: v})
        else:
            rest.append(i)
    return rest, env


def env_method(env):
    return _METHOD[-1]


_METHOD = [C]


def wc_name(n, env, m):
    if isinstance(n.name, str):
        return n.name
    parts = n.name.items if type(n.name) is Seq else (n.name,)
    out = ""
    for p in parts:
        if type(p) is Acc and p.name not in env.vars and p.default is None:
            out += p.name
        else:
            out += next(stream(p, env, m))
    return out


def missing_text(name, env):
    w = env.world.wrapmark
    if not name.startswith(w):
        name = w + name
    if not name.endswith(w):
        name = name + w
    return name


def stream(n, env, m):
    """Iterator over the texts of node n sampled within method m."""
    m = method_of(n, env, m) if type(n) is not Acc else m
    t = type(n)
    if t is Acc:
        v = lookup(n, env)
        if v is None:
            raise Undefined(n.name)
        return stream(v, env.sampling(n.name), m)
    return {Lit: _lit, Seq: _seq, Var: _var, Wc: _wc, Wrap: _wrap}[t](n, env, m)


def once_if_endless(n, env, m):
    """A part inside combinatorial generation: endless parts count as one choice."""
    s = stream(n, env, m)
    if m == C and method_of(n, env, m) != C:
        return itertools.islice(s, 1)
    return s


def _lit(n, env, m):
    if m == C:
        yield n.text
    else:
        while True:
            yield n.text


def _seq(n, env, m):
    _METHOD.append(m)
    try:
        items, env = assign(n.items, env)
    finally:
        _METHOD.pop()
    if m != C:
        subs = [stream(i, env, m) for i in items]
        while True:
            yield "".join(next(s) for s in subs)
        return
    endless = {
        k: stream(i, env, m)
        for k, i in enumerate(items)
        if method_of(i, env, m) != C
    }

    def product(k):
        if k == len(items):
            yield ()
        elif k in endless:
            for rest in product(k + 1):
                yield (None,) + rest
        else:
            for v in stream(items[k], env, m):
                for rest in product(k + 1):
                    yield (v,) + rest

    for combo in product(0):
        yield "".join(
            next(endless[k]) if v is None else v for k, v in enumerate(combo)
        )


def var_options(n, env, m):
    """[(weight, node)], lo, hi, env -- a lone wildcard option stands for its values."""
    lo, hi = raw_bounds(n)
    if len(n.opts) == 1 and type(n.opts[0][1]) is Wc:
        w = n.opts[0][1]
        name = wc_name(w, env, m)
        vals = env.world.values(name)
        if not vals:
            return [(Fraction(1), Lit(missing_text(name, env)))], *clamp(lo, hi, 1), env
        opts = [(wt, node) for node, wt in vals]
        env = env.bind(dict(w.params))
    else:
        opts = [(Fraction(1) if w is None else Fraction(w), o) for w, o in n.opts]
    return opts, *clamp(lo, hi, len(opts)), env


def _var(n, env, m):
    sep = "," if n.sep is None else n.sep
    if len(n.opts) == 1 and type(n.opts[0][1]) is Wc:
        # a marked wildcard as the only option: its values are selected by its method
        m2 = method_of(n.opts[0][1], env, m)
        if m2 != m:
            s = _var(n, env, m2)
            yield from itertools.islice(s, 1) if m == C else s
            return
    opts, lo, hi, env = var_options(n, env, m)
    if not opts:
        return
    nodes = [o for _, o in opts]
    if m == C:
        seen = set()
        for k in range(lo, hi + 1):
            for perm in itertools.permutations(range(len(nodes)), k):
                for texts in _tuples([nodes[i] for i in perm], env, m):
                    if len(set(texts)) == k and texts not in seen:
                        seen.add(texts)
                        yield join(texts, sep)
    elif m == Y:
        perms = [
            perm
            for k in range(lo, hi + 1)
            for perm in itertools.permutations(range(len(nodes)), k)
        ]
        streams = {}
        for perm in itertools.cycle(perms):
            if perm not in streams:
                streams[perm] = [stream(nodes[i], env, m) for i in perm]
            yield join([next(s) for s in streams[perm]], sep)
    else:
        if len(nodes) == 1 and lo == hi == 1:
            yield from stream(nodes[0], env, m)
            return
        while True:
            k = lo + rng.CTL.uniform(hi - lo + 1)
            left = list(opts)
            picked = []
            for _ in range(k):
                i = rng.CTL.choose([w for w, _ in left])
                picked.append(left.pop(i)[1])
            yield join([next(stream(p, env, m)) for p in picked], sep)


def _tuples(nodes, env, m):
    if not nodes:
        yield ()
        return
    s = stream(nodes[0], env, m)
    if m == C and method_of(nodes[0], env, m) != C:
        # not a choice of its own: takes its next value for every choice of the rest
        for rest in _tuples(nodes[1:], env, m):
            yield (next(s),) + rest
        return
    for v in s:
        for rest in _tuples(nodes[1:], env, m):
            yield (v,) + rest


def _wc(n, env, m):
    name = wc_name(n, env, m)
    vals = env.world.values(name)
    env = env.bind(dict(n.params))
    if not vals:
        t = missing_text(name, env)
        if m == C:
            yield t
        else:
            while True:
                yield t
    if m == C:
        for node, wt in vals:
            for _ in range(int(wt)):
                yield from once_if_endless(node, env, m)
    elif m == Y:
        ss = [stream(node, env, m) for node, wt in vals for _ in range(int(wt))]
        while True:
            for s in ss:
                yield next(s)
    else:
        while True:
            i = rng.CTL.choose([wt for _, wt in vals])
            yield next(stream(vals[i][0], env, m))


def _wrap(n, env, m):
    if m == C:
        for w in once_if_endless(n.wrapper, env, m):
            for x in once_if_endless(n.inner, env, m):
                yield wrap_text(w, x)
    elif m == R:
        ws, xs = stream(n.wrapper, env, m), stream(n.inner, env, m)
        while True:
            yield wrap_text(next(ws), next(xs))
    else:
        raise NotImplementedError("cyclical wrap")


def take(n, world, m, k=None, vars=None):
    """First k texts (all of them when k is None)."""
    s = stream(n, Env(world, dict(vars or {})), m)
    return list(itertools.islice(s, k)) if k is not None else list(s)


def squash(s):
    return " ".join(s.split())


# --- membership: is a text one that the node denotes? -------------------------


def match(n, env, text):
    return len(text) in _ends(n, env, text, 0)


def _ends(n, env, text, pos):
    """Positions where a prefix of text[pos:] generated by n can end.
    (Selections with empty choices are outside the domain of this matcher.)"""
    t = type(n)
    if t is Lit:
        return {pos + len(n.text)} if text.startswith(n.text, pos) else set()
    if t is Seq:
        # immediate assignments are outside the domain of the matcher
        rest, env2 = [], env
        for i in n.items:
            if type(i) is Asg:
                assert not i.imm or type(i.value) is Lit
                if not (i.keep and i.name in env2.vars):
                    env2 = env2.bind({i.name: i.value})
            else:
                rest.append(i)
        cur = {pos}
        for i in rest:
            cur = set().union(*[_ends(i, env2, text, p) for p in cur]) if cur else cur
        return cur
    if t is Acc:
        v = lookup(n, env)
        if v is None:
            raise Undefined(n.name)
        return _ends(v, env.sampling(n.name), text, pos)
    if t is Wc:
        name = n.name
        vals = env.world.values(name)
        env2 = env.bind(dict(n.params))
        if not vals:
            return _ends(Lit(missing_text(name, env)), env, text, pos)
        out = set()
        for node, w in vals:
            if w > 0:
                out |= _ends(node, env2, text, pos)
        return out
    if t is Var:
        opts, lo, hi, env2 = var_options(n, env, R)
        sep = "," if n.sep is None else n.sep
        out = {pos} if lo == 0 else set()

        def go(p, used, k):
            res = set()
            for i, (w, node) in enumerate(opts):
                if i in used or w <= 0:
                    continue
                for e in _ends(node, env2, text, p):
                    if k + 1 >= lo:
                        res.add(e)
                    if k + 1 < hi and text.startswith(sep, e):
                        res |= go(e + len(sep), used | {i}, k + 1)
            return res

        if hi > 0:
            out |= go(pos, frozenset(), 0)
        return out
    raise TypeError(n)
