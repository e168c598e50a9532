"""P11: variables -- immediate is fixed once, deferred is re-evaluated, ?= preserves."""
import itertools

from .common import *

RULE = (
    "every program of the stated number of assignments over the stated values is run by the real code in the stated methods "
    "(all outcomes of the random source) and compared with the reference interpreter, errors included"
)
ASSUMPTIONS = []

E = EMPTY
X, Y = Acc("x"), Acc("y")
VALUES = [lit("1"), var("1", "2"), E, X, Y, seq("k", Y), Wc("w")]
BODIES = [
    [X, lit("-"), X],
    [Acc("x", lit("d")), lit("-"), Acc("y", lit("e"))],
    [var(X, "z"), lit("-"), Y],
    [X, lit("-"), Acc("y", X)],
]
KINDS = [(False, False), (True, False), (False, True), (True, True)]


def asgs(names, values, kinds=KINDS):
    return [Asg(n, v, i, k) for n in names for v in values for i, k in kinds]


def run_case(node, st, modes="!@", k=6, vars=None, real_vars=None, unknown=None, max_runs=4000, ww=None, text=None):
    w, wm = ww or world("std", DEFAULT, unknown)
    text = render(node) if text is None else text
    kw = {}
    if real_vars is not None:
        kw["variables"] = real_vars
    if unknown is not None:
        kw["unknown_variable_value"] = unknown
    for m in modes:
        if m == "@" and any(type(x) is Wrap for x in walk(node)):
            continue
        if m == "~":
            cmd = cmp.outcome(lambda: env.parse(text))  # parse once, sample many times
            cmd = cmd[1] if cmd[0] == "ok" and cmd[1] else text
            for n in (2, 1):
                if cmp.dist(node, w, wm, st, k=n, m=m, vars=vars, max_runs=max_runs, make=lambda: env.real_take(cmd, wm, m, n, **kw)) is not False:
                    break
                st.skipped -= n > 1
            continue
        n = 40 if m == "!" else k
        want = cmp.ref_list(node, w, m, n, vars)
        got = cmp.outcome(lambda: env.real_take(text, wm, m, n, **kw))
        st.add(1, n, 1)
        if not cmp.same(want, got):
            raise Violation(f"{text!r} method {m}{' variables ' + repr(vars) if vars else ''}{' unknown=' + repr(unknown) if unknown is not None else ''}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")


def two_cases():
    A = asgs("xy", VALUES)
    for a in A:
        for b in BODIES:
            yield Seq((a, *b))
    for a, b in itertools.product(A, repeat=2):
        for body in BODIES[:2]:
            yield Seq((a, b, *body))


def three_cases(t):
    A = asgs("xy", [lit("1"), var("1", "2"), X, seq("k", Y)], KINDS[:3])
    for c in itertools.product(A, repeat=3):
        yield Seq((*c, *BODIES[1]))


def random_cases(t):
    A = asgs("x", VALUES) + asgs("y", [lit("1"), var("1", "2"), X], KINDS[:2])
    for a in A:
        for b in BODIES:
            yield Seq((a, *b))
    for a, b in itertools.product(A, A if t else asgs("y", [lit("1"), var("1", "2"), X, seq("k", X)], KINDS[:3])):
        yield Seq((a, b, X, lit("-"), Y, lit("-"), X))


def inter_cases():
    """assignments between uses, in any order"""
    items = [Asg("x", lit("1")), Asg("x", var("2", "3"), True), Asg("x", lit("4"), False, True), Asg("y", X), X, lit(" "), Y]
    for n in (2, 3, 4):
        for c in itertools.product(items, repeat=n):
            if any(type(a) is Lit and type(b) is Lit for a, b in zip(c, c[1:])):
                continue
            if any(type(a) is Asg for a in c) and any(type(a) is Acc for a in c):
                if n < 4 or type(c[0]) is Asg:
                    yield Seq(c)


def outside_cases():
    outs = [{}, {"x": lit("E")}, {"x": E}, {"x": var("E", "F")}, {"x": lit("E"), "y": X}, {"y": lit("G")}]
    for o in range(len(outs)):
        for a in asgs("x", VALUES) + asgs("y", [X, lit("1")]):
            for b in BODIES[:3]:
                yield (outs[o], Seq((a, *b)))
        for b in BODIES:
            yield (outs[o], Seq(tuple(b)))


def check_outside(case, st):
    vars, node = case
    real = {k: env.parse(render(v)) if v != E else _lit("") for k, v in vars.items()}
    before = dict(real)
    run_case(node, st, "!@~", vars=vars, real_vars=real)
    if real != before:
        raise Violation(f"{render(node)!r}: the variables given by the caller were changed: {before} -> {real}")


def _lit(t):
    from dynamicprompts.commands import LiteralCommand

    return LiteralCommand(t)


def unknown_cases():
    for u in (None, "UU", "", " ? ", "{a|b}", "${x}"):
        for b in BODIES + [[Wrap(seq("<...", Acc("u"), ">"), X)], [var(Acc("u"), "b")], [Acc("u")], [Acc("u", Acc("v"))], [Acc("u", Acc("v", lit("d")))]]:
            for a in [None, Asg("x", lit("1")), Asg("x", Acc("u")), Asg("x", Acc("u"), True), Asg("u", lit("2"), False, True)]:
                yield (u, Seq(tuple(([a] if a else []) + b)))


def check_unknown(case, st):
    u, node = case
    run_case(node, st, "!@~", unknown=u)


def nested_cases():
    """values and uses inside variants, wraps, other variables"""
    vals = [var("1", "2"), seq("k", var("1", "2")), Wrap(lit("<...>"), var("1", "2")), var("1", Y), Wc("w"), var("1", "2", "3", bound="2"), Acc("z", var("1", "2"))]
    uses = [
        [var(X, "b")], [var(X, X)], [var(X, X, bound="2")], [Wrap(X, X)], [Wrap(seq("[", X, "...]"), lit("i"))],
        [Acc("q", X)], [var(var(X, "b"), "c")], [X, X, X], [var(seq(X, "!"), "c"), X], [var(X, bound="0-1")], [X, var("a", "b"), X],
    ]
    for v in vals:
        for imm in (False, True):
            for u in uses:
                yield Seq((Asg("y", lit("Y")), Asg("x", v, imm), *u))


def cycle_cases():
    """self reference through 1..4 variables, through defaults, options, wraps; with a
    way out, without one, and shadowed by an immediate value"""
    names = "abcd"
    for n in (1, 2, 3, 4):
        for link in (lambda x: x, lambda x: seq("k", x), lambda x: var(x, "s"), lambda x: var("s", seq("k", x)), lambda x: Acc("none", x), lambda x: Wrap(lit("<...>"), x), lambda x: var(x)):
            for close in (True, False):
                items = []
                for i in range(n):
                    nxt = Acc(names[(i + 1) % n]) if close or i + 1 < n else lit("end")
                    items.append(Asg(names[i], link(nxt)))
                for start in range(n):
                    yield Seq((*items, Acc(names[start])))
                yield Seq((Asg("a", lit("0"), True), *items[1:], Acc("a"), Acc(names[n - 1], lit("d"))))
    yield Seq((Asg("x", lit("1")), Asg("x", seq(X, "2"), True), X))
    yield Seq((Asg("x", lit("1")), Asg("x", seq(X, "2"), True), Asg("x", seq(X, "3"), True), X))
    yield Seq((Asg("x", lit("1")), Asg("x", seq(X, "2")), X))
    yield Acc("x", Acc("x"))
    yield Acc("x", Acc("x", lit("d")))
    yield Seq((Asg("x", Acc("x", lit("d"))), X))


_wv = []


def wild_cases():
    for name in ("ux", "uy", "dx", "loop", "kx"):
        for a in [None, Asg("x", lit("1")), Asg("x", var("1", "2")), Asg("x", var("1", "2"), True), Asg("x", Wc(name)), Asg("x", E)]:
            for body in ([Wc(name)], [Wc(name), lit(" "), Wc(name)], [var(Wc(name), "b")], [X, lit(" "), Wc(name)]):
                yield Seq(tuple(([a] if a else []) + body))


def check_wild(node, st):
    if not _wv:
        _wv.append(env.make_world({
            "w": [lit("p"), lit("q")], "ux": [X, lit("n")], "uy": [seq("<", X, ">")], "dx": [Acc("x", lit("d")), seq(X, X)],
            "loop": [Acc("x", Wc("w"))], "kx": [seq("k", var(X, "z"))],
        }))
    run_case(node, st, "!@~", ww=_wv[0], max_runs=4000)


def once_cases():
    """an immediate variable is drawn once per run even with many uses and prompts; a
    deferred one is drawn at each use"""
    for uses in (1, 2, 3):
        for prompts in (1, 2, 3):
            for imm in (False, True):
                for v in (var("1", "2"), Wc("w"), var("1", ("3", lit("2"))), var("1", "2", bound="0-2")):
                    yield (uses, prompts, imm, v)


def check_once(case, st):
    uses, prompts, imm, v = case
    if not imm and uses * prompts > (3 if v.__class__ is Var and v.bound else 6):
        return
    items = [Asg("x", v, imm)]
    for i in range(uses):
        items += [X, lit(" ")]
    node = Seq(tuple(items))
    w, wm = world()
    text = render(node)
    cmp.dist(node, w, wm, st, k=prompts, make=lambda: env.RandomPromptGenerator(wm).generate(text, prompts), max_runs=20000)


def name_cases():
    for n in ("x", "X", "_x", "-x", "x1", "x_y", "x-y", "longer_name", "a1b2"):
        for o in ("x", "x1", "xx", "y"):
            if n != o:
                yield (n, o)


def check_name(case, st):
    n, o = case
    node = Seq((Asg(n, lit("N")), Asg(o, lit("O")), Acc(n), lit(" "), Acc(o), lit(" "), Acc("q_" + n, lit("d"))))
    run_case(node, st, "!@~")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("two", "programs of <= 2 assignments over x,y: 7 values x immediate x preserving, 2-4 bodies; combinatorial and cyclical", two_cases, lambda c, st: run_case(c, st, "!@"), min_cases=5000),
        Space("three", "programs of 3 assignments over x,y: 4 values x 3 kinds, one body; combinatorial%s" % (", cyclical, random" if t else ""),
              lambda: three_cases(t), lambda c, st: run_case(c, st, "!@~" if t else "!"), min_cases=10000),
        Space("random", "programs of <= 2 assignments, 2 prompts, all random outcomes", lambda: random_cases(t), lambda c, st: run_case(c, st, "~"), min_cases=400),
        Space("interleaved", "all sequences of <= 4 of 7 assignments, uses and texts", inter_cases, lambda c, st: run_case(c, st, "!@"), min_cases=1000),
        Space("outside", "6 sets of variables given by the caller x one assignment x 3 bodies; three methods", outside_cases, check_outside, min_cases=500),
        Space("unknown", "unknown variables without and with a substitute (also empty, with blanks, or looking like syntax)", unknown_cases, check_unknown, min_cases=100),
        Space("nested", "7 values x immediate x 11 nested uses; three methods", nested_cases, lambda c, st: run_case(c, st, "!@~", max_runs=700), cpu=90, min_cases=150),
        Space("cycles", "reference cycles of length 1..4 through 7 kinds of links, closed or open, every entry point", cycle_cases, lambda c, st: run_case(c, st, "!@~"), min_cases=100),
        Space("wildcards", "variables used inside wildcard values", wild_cases, check_wild, min_cases=100),
        Space("once", "joint distribution of up to 3 uses in up to 3 prompts, immediate or deferred", once_cases, check_once, min_cases=60),
        Space("names", "variable names that resemble each other", name_cases, check_name, min_cases=30),
    ]
