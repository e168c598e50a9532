"""P04: cyclical generation walks every choice in order, in lock-step, forever."""
import itertools

from .common import *
from . import p01

RULE = (
    "every tree up to the stated size is sampled cyclically by the real code for more prompts than "
    "its period (bounded by the stated number) and compared prompt by prompt with the reference"
)
ASSUMPTIONS = ["wildcards without weights; wraps are not supported cyclically"]


def check(k=14):
    def run(case, st):
        w, wm = world()
        cmp.cyc(case, w, wm, st, k=k)

    return run


def mark(n):
    """The same template with every part marked cyclical, for the random generator."""
    t = type(n)
    if t is Seq:
        return Seq(tuple(mark(i) for i in n.items))
    if t is Var:
        return Var(n.opts, n.bound, n.sep, "@")
    if t is Wc:
        return Wc(n.name, "@", n.params)
    return n


def check_marked(case, st):
    """{@...} and __@w__ at the top of the template, in random generation and (one
    stream at a time) through the generator's one-call and stream interfaces."""
    w, wm = world()
    node = mark(case)
    text = render(node)
    want = ref.take(case, w, ref.Y, 11)
    st.add(1, 33, 3)
    got = cmp.outcome(lambda: env.RandomPromptGenerator(wm).generate(text, 11))
    if got != ("ok", want):
        raise Violation(f"{text!r} in random generation: expected {want!r}, got {cmp.fmt(got)}")
    got = cmp.outcome(lambda: env.RandomPromptGenerator(wm, seed=5).generate(text, 11, seeds=3))
    if got != ("ok", want):
        raise Violation(f"{text!r} in random generation with a seed: expected {want!r}, got {cmp.fmt(got)}")
    got = cmp.outcome(lambda: env.real_take(text, wm, ref.Y, 11))
    if got != ("ok", want):
        raise Violation(f"{text!r} in cyclical generation: expected {want!r}, got {cmp.fmt(got)}")


def g(size, **kw):
    a = dict(lits=("a", "b "), atoms=[Wc("w"), Wc("v")])
    a.update(kw)
    return lambda: Grammar(**a).trees(size)


def upto(size, **kw):
    a = dict(lits=("a", "b "), atoms=[Wc("w"), Wc("v"), Wc("dup")])
    a.update(kw)
    return lambda: Grammar(**a).upto(size)


def bound_cases():
    for n in (1, 2, 3):
        for b in all_bounds(n):
            for sep in (None, " & ", "|"):
                if b is None and sep:
                    continue
                yield var(*[f"{c}" for c in "xyz"[:n]], bound=b, sep=sep)
                yield seq("<", var(*[f"{c}" for c in "xyz"[:n]], bound=b, sep=sep), "> ", var("1", "2"))
    for b in all_bounds(3):
        yield var(Wc("v"), bound=b)
        yield var(var("p", "q"), "r", Wc("w"), bound=b)


def var_cases():
    body = Grammar(lits=("a ",), atoms=[Acc("x"), Acc("y", var("d", "e")), Wc("w")],
                   max_opts=2, max_parts=3, empty=False)
    for v in [lit("1"), var("1", "2"), Wc("w"), seq("k", var("1", "2")), var("1", "2", "3", bound="2")]:
        for imm in (False, True):
            for n in body.upto(3):
                if any(type(x) is Acc for x in walk(n)):
                    yield Seq((Asg("x", v, imm), n))


def scale_cases():
    def L(n, p="o"):
        return [f"{p}{i}" for i in range(n)]

    for n in (4, 5, 7, 10, 33, 101, 130):
        yield (var(*L(n)), 2 * n + 5)
        yield (seq(var(*L(n)), " ", var("a", "b", "c")), n * 3 + 4)
    for d in (2, 3, 5, 8):
        x = var("z", "y")
        for i in range(d):
            x = var(f"l{i}", x)
        yield (x, 2 ** (d + 2))
        yield (seq(x, " ", var("a", "b", "c")), 2 ** (d + 2))
    for n in (4, 5):
        for b in ("2", "3", "0-2", "1-3", str(n), "3-"):
            yield (var(*L(n), bound=b), 200)
    yield (Wc("big"), 320)
    yield (Wc("huge"), 2700)
    yield (seq(Wc("huge"), " ", Wc("w"), " ", var("a", "b", "c")), 1500)
    for n in (var("a", "b", "c"), seq(Wc("w"), " ", var("1", "2", "3")), var(var("a", "b"), Wc("w"), "c"), var("a", "b", "c", bound="2"), Wc("v"),
              Seq((Asg("x", var("1", "2", "3")), Acc("x"), Wc("w"), Acc("x")))):
        yield (n, 4000)
    yield (seq(*[x for i in range(60) for x in (var(*L(2 + i % 4)), " ")]), 130)
    yield (seq(Wc("big"), " ", Wc("w")), 320)
    yield (Wc("chain0"), 80)
    yield (seq(*[var(*L(k)) for k in (2, 3, 5, 7)]), 211 * 2)
    yield (var(Wc("w"), Wc("v"), bound="2", sep=" + "), 40)


def repeat_cases():
    g = Grammar(lits=("a",), atoms=[Wc("w"), Wc("v"), Wc("u")], bounds=lambda n: (None, "2", "0-2"), max_parts=2, max_opts=2)
    yield from g.upto(3)


def check_repeats(case, st):
    w, wm = world("repeats")
    cmp.cyc(case, w, wm, st, k=40)


def check_scale(case, st):
    node, k = case
    w, wm = p01.big_world()
    cmp.cyc(node, w, wm, st, k=k)


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("structures", "trees of size <= 3 over a,'b ',empty,w,v,dup; <=3 options/parts; 30 prompts", upto(3), check(30), min_cases=100),
        Space("structures4", "trees of size 4 over a,'b ',empty,w,v; 20 prompts", g(4), check(20), min_cases=500),
        Space("structures5", "trees of size 5 over a,empty,w,v, <=3 options; 24 prompts",
              g(5, lits=("a",)), check(24), min_cases=500),
        *([Space("structures6", "trees of size 6, one literal, one wildcard, <=3 options; 30 prompts",
                 g(6, lits=("a",), atoms=[Wc("w")]), check(30), min_cases=500)] if t else []),
        Space("bounds", "1..3 options with every bound, three separators, nested options, lone wildcards; 40 prompts", bound_cases, check(40), min_cases=200),
        Space("bounded-trees", "trees of size <= 4 with bounds none,2,0-2,1-3; 30 prompts",
              upto(4, lits=("a",), atoms=[Wc("v")], bounds=lambda n: (None, "2", "0-2"), max_parts=2), check(30), min_cases=500),
        Space("marked", "trees of size <= 4 whose top parts are marked cyclical, in random generation (also seeded): 11 prompts",
              upto(4, lits=("a",), atoms=[Wc("w")], max_parts=3), check_marked, min_cases=200),
        Space("programs", "assignment (5 values, immediate or not) before trees of size <= 3 with accesses and defaults; 14 prompts", var_cases, check(14), min_cases=300),
        Space("repeats", "trees of size <= 3 over wildcards with equal values (de-duplication off) and nested variants, bounds none,2,0-2; 40 prompts", repeat_cases, check_repeats, min_cases=50),
        Space("weights", "variants of 1..3 options with weights none,0,0.5,3 and four bounds; trees of size <= 4 with weights none,0,2; 20 prompts", p01.weight_cases, check(20), min_cases=500),
        Space("words", "pairs and triples of 11 words that resemble each other; 14 prompts", word_cases, check(14), min_cases=1000),
        Space("scale", "up to 130 options, 150-value wildcard, nesting depth 8, coprime periods, two full rounds", scale_cases, check_scale, min_cases=30, cpu=120),
    ]
