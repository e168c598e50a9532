"""P03: random choices follow the written weights exactly and independently."""
import itertools

from .common import *
from . import p02

RULE = (
    "for every case all outcomes of the random source are executed; the exact (rational) "
    "distribution of the prompt lists is compared with the reference's"
)
ASSUMPTIONS = [
    "random.Random's primitives (choices, choice, randint, ...) are distributed as documented",
    "at least as many options with positive weight as the largest permitted selection",
]
W = (None, "0", "0.5", "2", "3")
W3 = (None, "0.0009765625", "0.000030517578125", "1048576")
W2 = (None, "1.5", "1.25", "2.5", "0.75")


def ok_node(n, w):
    """enough positive options for every selection"""
    for x in walk(n):
        if type(x) is Var:
            opts, lo, hi, _ = ref.var_options(x, ref.Env(w), ref.R)
            if sum(1 for wt, _ in opts if wt > 0) < max(hi, 1):
                return False
    return True


def check(key="std", k=1, max_runs=5000):
    def run(case, st):
        w, wm = world(key)
        if not ok_node(case, w):
            return
        cmp.dist(case, w, wm, st, k=k, make=p02.real(wm, render(case), k), max_runs=max_runs)

    return run


def weight_cases(ns, weights=W):
    def it():
        for n in ns:
            for ws in itertools.product(weights, repeat=n):
                for b in [None] + [x for x in all_bounds(n) if x is not None and len(x) == 1 and 0 < int(x) <= n] + ["0-2", "1-3", "-", "2-1"][: 4 if n < 4 else 2]:
                    if b == "-":
                        continue
                    for sep in (None,) if b is None else (None, " x "):
                        yield var(*[(w, lit("abcd"[i])) for i, w in enumerate(ws)], bound=b, sep=sep)

    return it


def dup_cases():
    """equal options, nested options, options of different weight with equal text"""
    opts = [lit("a"), lit("b"), var("a", ("2", lit("c"))), Wc("f"), Wc("w")]
    for n in (2, 3):
        for os in itertools.product(opts, repeat=n):
            for ws in ((None,) * n, ("2", "1", "0.5")[:n], ("1", "3", "1")[:n]):
                for b in (None, "2", "1-2"):
                    if n == 3 and b and sum(type(o) is not Lit for o in os) > 1:
                        continue
                    yield var(*zip(ws, os), bound=b)


def wild_cases():
    for name in ("w", "v", "f", "e", "z", "one", "g", "h", "i", "j"):
        yield Wc(name)
        yield seq("x ", Wc(name), " y")
        yield var(Wc(name))
        yield var(Wc(name), "b")
        yield var(("3", Wc(name)), ("0.5", lit("b")))
        yield Wrap(lit("<...>"), Wc(name))
        yield Seq((Asg("q", Wc(name)), Acc("q"), lit(" "), Acc("q")))
        yield Seq((Asg("q", Wc(name), True), Acc("q"), lit(" "), Acc("q")))
        for b in ("1", "2", "0-2", "1-2", "3", "1-3", "-2", "0-1", "3-1"):
            yield var(Wc(name), bound=b)
            yield seq(var(Wc(name), bound=b, sep=" & "), "!")
    for a, b in itertools.product(("w", "f", "e", "z"), repeat=2):
        yield seq(Wc(a), " ", Wc(b))
        yield var(Wc(a), Wc(b), bound="2")


def repeat_cases():
    """de-duplication off: equal values are separate values"""
    for name in ("w", "v", "u"):
        yield Wc(name)
        yield var(Wc(name), "b")
        yield seq(Wc(name), " ", Wc("u"))
        for b in (None, "1", "2", "0-2", "1-2", "3", "1-3", "-2", "0-1"):
            yield var(Wc(name), bound=b)
            yield seq("<", var(Wc(name), bound=b, sep=" & "), ">")


def joint_cases():
    parts = [
        var(("3", lit("a")), lit("b")),
        var("c", ("0.5", lit("d")), bound="1-2"),
        Wc("w"),
        Wc("f"),
        var(Wc("w"), bound="1-2"),
        var(var("e", "f"), ("2", lit("g"))),
    ]
    for a, b in itertools.product(parts, repeat=2):
        yield seq(a, " ", b)


def history_cases():
    for n in joint_cases():
        for m in (lit("z"), var("y", "z"), Wc("f")):
            yield (m, n)


def check_history(case, st):
    """A generator used before is distributed like a fresh one, and independently
    of what it returned before."""
    first, second = case
    w, wm = world("weighted")
    t1, t2 = render(first), render(second)

    def go():
        g = env.RandomPromptGenerator(wildcard_manager=wm)
        return g.generate(t1, 1) + g.generate(t2, 1)

    def want():
        return ref.take(first, w, ref.R, 1) + ref.take(second, w, ref.R, 1)

    a = cmp.distribution(want, 4000)
    b = cmp.distribution(go, 40000, st)
    st.states += len(b)
    if a != b:
        raise Violation(f"joint distribution of {t1!r} then {t2!r} on one generator: {_diff(a, b)}")


def _diff(a, b):
    return "; ".join(f"{k}: expected {a.get(k, 0)}, got {b.get(k, 0)}" for k in {**a, **b} if a.get(k) != b.get(k))[:600]


def nested_cases(t):
    g = Grammar(lits=("a", "b"), atoms=[Wc("f")], weights=(None, "3"), bounds=lambda n: (None, "2"), max_parts=2, max_opts=2, empty=False)
    yield from g.upto(4 if not t else 5)


def scale_cases():
    ws = ["1", "2", "3", "0.5", "4", "0", "1.5", "8", "0.25", "5"]
    for n in (5, 6, 8, 10, 17, 40, 101):
        yield var(*[(ws[i % 10], lit(f"o{i}")) for i in range(n)])
        yield var(*[lit(f"o{i}") for i in range(n)])
    for n in (4, 5, 6):
        yield var(*[(ws[i], lit(f"o{i}")) for i in range(n)], bound="2")
        yield var(*[(ws[i], lit(f"o{i}")) for i in range(n)], bound="3")
        yield var(*[(ws[i], lit(f"o{i}")) for i in range(n)], bound="1-3")
        yield var(*[lit(f"o{i}") for i in range(n)], bound="0-3")
    yield var(*[(str(10**i), lit(f"o{i}")) for i in range(7)])
    yield var(("1000000", lit("a")), ("0.0078125", lit("b")))
    yield seq(*[var(("3", lit("a")), "b") for _ in range(6)])
    yield Wc("large")
    yield var(Wc("large"))
    yield var(Wc("large"), "x")
    yield Wc("larger")
    for n in ("tail3", "tail33", "tail65", "tail130", "tail300", "head3", "head65", "head300"):
        yield Wc(n)
        yield var(Wc(n))
        yield var(Wc(n), "x")
        yield Seq((Asg("q", Wc(n), True), Acc("q"), lit(" "), Acc("q")))
    for d in (3, 6, 10):
        n = var(("3", lit("z")), "y")
        for i in range(d):
            n = var(("3", n), lit(f"e{i}"))
        yield n


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("weights", "variants of 1..3 options (4 with weights 1,0.5,3), weights none,0,0.5,2,3, bounds 1..n,0-2,1-3,2-1",
              weight_cases((1, 2, 3)), check(), min_cases=500),
        Space("fractions", "variants of 2..3 options, weights none,1.5,1.25,2.5,0.75, bounds 1..n,0-2,1-3,2-1",
              weight_cases((2, 3), W2), check(), min_cases=500),
        Space("extremes", "variants of 2..3 options, weights none,2^-10,2^-15,2^20, bounds 1..n,0-2,1-3,2-1", weight_cases((2, 3), W3), check(), min_cases=400),
        Space("weights4", "variants of 4 options, weights %s, bounds none,1..4,0-2,1-3" % ("none,0.5,3" if t else "none,3"),
              weight_cases((4,), (None, "0.5", "3") if t else (None, "3")), check(max_runs=9000), min_cases=100),
        Space("options", "variants of 2..3 options that are equal, nested or wildcards, three weightings, bounds none,2,1-2",
              dup_cases, check("weighted"), min_cases=300),
        Space("wildcards", "10 weighted wildcards alone, as option, as only option with every bound, in wraps and variables",
              wild_cases, check("weighted"), min_cases=150),
        Space("repeats", "wildcards with equal values (de-duplication off) alone, as option, as only option with every bound", repeat_cases, check("repeats"), min_cases=50),
        Space("joint", "pairs of parts, 2 consecutive prompts: joint distribution", joint_cases, check("weighted", 2, 12000), min_cases=36),
        Space("history", "joint distribution of two calls on one generator", history_cases, check_history, min_cases=100),
        Space("nested", "trees of size <= %d, weights none,3, bounds none,2, weighted wildcard" % (5 if t else 4),
              lambda: nested_cases(t), check("weighted"), min_cases=500),
        Space("scale", "up to 101 options, weights from 1/128 to 10^6, six independent parts, weighted wildcards of 64 and 300 values, wildcards of 3 to 300 values where only the first or last weight differs, 10 levels", scale_cases, check("large", max_runs=9000), min_cases=25, cpu=120),
    ]
