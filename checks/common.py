"""Shared worlds and families."""
from vlib.ast import *  # noqa: F401,F403
from vlib.gen import Grammar, all_bounds, lit, seq, var  # noqa: F401
from vlib.harness import Space, Violation  # noqa: F401
from vlib import cmp, env, ref, rng  # noqa: F401

import itertools  # noqa: E402

_cache = {}


def world(key="std", syn=DEFAULT, unknown=None):
    k = (key, syn, unknown)
    if k not in _cache:
        _cache[k] = env.make_world(WORLDS[key](), syn, unknown, dedup=key != "repeats")
    return _cache[k]


def _std():
    return {
        "w": [lit("p"), lit("q")],
        "v": [seq("r", var("s", "t")), lit("u"), seq(Wc("w"), "z")],
        "one": [lit("o")],
        "dup": [lit("a"), var("a", "m")],
    }


def _weighted():
    return {
        "w": [(lit("p"), 1), (lit("q"), 3)],
        "v": [(seq("r", var("s", "t")), 2), lit("u"), (Wc("w"), 0.5)],
        "f": [(lit("x"), 0.5), (lit("y"), 0.25), lit("z")],
        "e": [(lit("h"), 2), (lit("i"), 2)],
        "one": [(lit("o"), 5)],
        "g": [lit("x"), (lit("y"), 1.5), (lit("t"), 1.25)],
        "h": [(lit("x"), 2.25), (lit("y"), 2.5)],
        "i": [(lit("x"), 0.75), (lit("y"), 0.25)],
        "j": [(lit("x"), 1), (lit("y"), 1), (lit("t"), 9)],
        "z": [(lit("k"), 0), (lit("l"), 2), (lit("m"), 1)],
    }


def _repeats():
    """de-duplication is off in this one: equal values are separate values"""
    return {
        "w": [seq("p", var("x", "y", "z")), seq("p", var("x", "y", "z")), lit("q"), lit("q")],
        "v": [Wc("w"), Wc("w"), lit("r")],
        "u": [lit("k"), lit("k")],
    }


def _large():
    ws = [1, 2, 3, 0.5, 4, 8, 1.5, 0.25, 5, 16]
    return {**_weighted(), "large": [(lit(f"v{i:03d}"), ws[i % 10]) for i in range(64)], "larger": [(lit(f"v{i:03d}"), ws[i * 7 % 10]) for i in range(300)],
            **{f"tail{n}": [lit(f"v{i:03d}") for i in range(n - 1)] + [(lit(f"v{n - 1:03d}"), 3)] for n in (3, 33, 65, 130, 300)},
            **{f"head{n}": [(lit("v000"), 3)] + [lit(f"v{i:03d}") for i in range(1, n)] for n in (3, 65, 300)}}


def _par():
    return {**_std(), "par": [seq("k ", Acc("p"))], "pard": [seq(Acc("p", lit("d")), " ", Acc("q", var("e", "f"))), seq("n ", Wc("par"))]}


WORDS = ["tar", "rat", "ta", "tart", "Tar", "tar ", "t ar", "1", "01", "None", "TAR"]


def word_cases():
    """texts that resemble each other (reversed, prefixes, letter case, blanks)"""
    for a, b in itertools.product(WORDS, repeat=2):
        for bound in (None, "2", "1-2", "0-2"):
            yield var(a, b, bound=bound)
        yield var(a, b, bound="2", sep=" ")
        yield seq(var(a, b), " ", var(b, a))
        yield Seq((Asg("x", lit(a)), Asg("y", lit(b)), Acc("x"), lit("/"), Acc("y")))
    for c in itertools.product(WORDS[:7], repeat=3):
        yield var(*c, bound="2")


WORLDS = {"par": _par, "large": _large, "repeats": _repeats, "std": _std, "weighted": _weighted}
