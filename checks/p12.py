"""P12: variable bindings and wildcard parameters stay in scope."""
import itertools

from .common import *
from .p11 import run_case

RULE = (
    "every template and wildcard content of the stated alphabet is run by the real code and compared with the reference "
    "interpreter, which binds lexically nested copies of the environment; in histories every call is compared with what the "
    "same call gives alone, and the objects handed in by the caller are compared before and after"
)
ASSUMPTIONS = ["assignments occur where the grammar admits them: at the top of a template or of a wildcard value"]

X, Y = Acc("x"), Acc("y")
XD, YD = Acc("x", lit("nx")), Acc("y", lit("ny"))
# what a wildcard value can do with x and y
LEAF = [seq("[", XD, "]"), seq("[", XD, ",", YD, "]")]
MID = [
    seq(Asg("x", lit("M")), XD),
    seq(Asg("x", lit("M")), Wc("l")),
    seq(Asg("x", lit("M"), True), Wc("l"), XD),
    seq(Asg("x", lit("M"), False, True), Wc("l")),
    seq(XD, Wc("l", "", (("x", lit("P")),)), XD),
    seq(Wc("l", "", (("y", XD),)), YD),
    seq(Wc("l", "", (("x", lit("P")), ("y", lit("Q")))), Wc("l")),
    seq(Asg("y", XD), Wc("l"), YD),
    seq(Asg("y", XD, True), Asg("x", lit("M")), Wc("l")),
    var(Wc("l", "", (("x", lit("P")),)), XD),
    var(Wc("l", "", (("x", lit("P")),))),
    Wrap(seq("<", XD, "...>"), Wc("l", "", (("x", lit("P")),))),
    Wrap(Wc("l", "", (("x", lit("P")),)), XD),
    Acc("z", Wc("l", "", (("x", lit("P")),))),
]
ITEMS = [
    Asg("x", lit("T")), Asg("x", lit("U"), True), Asg("x", lit("V"), False, True), Asg("y", XD),
    XD, YD, Wc("l"), Wc("m"), Wc("m", "", (("x", lit("A")),)), Wc("m", "", (("y", XD),)),
    var(Wc("m", "", (("x", lit("A")),))), var(Wc("m"), XD), Wrap(XD, Wc("m", "", (("x", lit("A")),))), lit(" "),
]
_worlds = {}


def mid_world(i, j):
    if (i, j) not in _worlds:
        if len(_worlds) > 40:
            _worlds.clear()
        _worlds[i, j] = env.make_world({"l": [LEAF[j]], "m": [MID[i]]})
    return _worlds[i, j]


def include_cases(t):
    n = 3
    for i in range(len(MID)):
        for k in range(1, n + 1):
            for c in itertools.product(ITEMS, repeat=k):
                if any(type(a) is Lit and type(b) is Lit for a, b in zip(c, c[1:])):
                    continue
                if not any(uses_m(x) for x in c):
                    continue
                if k == 3 and not t and (not (type(c[0]) is Asg or uses_m(c[0])) or type(c[2]) in (Asg, Lit)):
                    continue  # in the quick tier: something binds first, something is generated last
                yield (i, 1, Seq(c) if k > 1 else c[0])


def uses_m(n):
    return any(type(x) is Wc and x.name == "m" for x in walk(n))


def check_include(case, st, modes):
    i, j, node = case
    if any(type(x) is Wrap for x in walk(MID[i])):
        modes = modes.replace("@", "")
    run_case(node, st, modes, k=3, ww=mid_world(i, j), max_runs=1500)


CHAIN = {
    "none": lambda nxt: seq(XD, nxt(()), XD),
    "asg": lambda nxt: Seq((Asg("x", lit("A")), XD, nxt(()), XD)),
    "imm": lambda nxt: Seq((Asg("x", seq(XD, "i"), True), XD, nxt(()), XD)),
    "keep": lambda nxt: Seq((Asg("x", lit("K"), False, True), XD, nxt(()), XD)),
    "pass": lambda nxt: seq(XD, nxt((("x", lit("P")),)), XD),
    "passy": lambda nxt: seq(XD, nxt((("y", XD),)), YD),
    "opt": lambda nxt: seq(XD, var(nxt((("x", lit("P")),)), "o"), XD),
    "lone": lambda nxt: seq(XD, var(nxt((("x", lit("P")), ("y", lit("Q"))))), YD),
}


def chain_cases(t):
    """levels of includes; every level assigns, passes, preserves or does nothing"""
    return itertools.product(CHAIN, repeat=4 if t else 3)


def check_chain(c, st, modes="!@~"):
    spec = {}
    for d, a in enumerate(c):
        nxt = (lambda p, d=d: Wc(f"w{d + 1}" if d + 1 < len(c) else "leaf", "", p))
        spec[f"w{d}"] = [CHAIN[a](nxt)]
    spec["leaf"] = [seq("[", XD, ",", YD, "]")]
    ww = env.make_world(spec)
    run_case(Wc("w0"), st, modes, k=3, ww=ww, max_runs=1500)
    run_case(Seq((Asg("x", lit("T")), Wc("w0"), lit("/"), Wc("w0"), XD)), st, "!@", k=3, ww=ww)


def deep_cases():
    """long chains: one action at one level, or two, or all the same"""
    for n in (5, 8, 12):
        for a in CHAIN:
            if a not in ("opt",):
                yield (a,) * n
            for i in range(n):
                for base in ("none", "pass"):
                    yield tuple(a if j == i else base for j in range(n))
        for a, b in itertools.product(CHAIN, repeat=2):
            yield tuple(a if j == 1 else b if j == n - 2 else "none" for j in range(n))


def check_deep(c, st):
    check_chain(c, st, "!@")


# --- several values: a binding made by one value is not seen by the next -------

VALS = [
    [seq(Asg("x", lit("1")), X), XD],
    [seq(Asg("x", var("1", "2"), True), X), XD],
    [seq(Asg("x", lit("1")), Wc("n", "", (("y", X),))), seq(XD, YD)],
    [seq(Asg("x", lit("1"), False, True), X), XD, seq(Asg("x", lit("3"), False, True), X)],
    [var(Wc("n", "", (("x", lit("P")),)), XD), XD],
]
USES = [
    [Wc("s")], [Wc("s"), lit(" "), XD], [Wc("s"), lit(" "), Wc("s")], [Wc("s", "", (("x", lit("A")),)), lit(" "), Wc("s")],
    [var(Wc("s"), XD)], [var(Wc("s"), XD, bound="2")], [var(Wc("s"))], [var(Wc("s", "", (("x", lit("A")),))), XD],
    [var(Wc("s", "", (("x", lit("A")),)), Wc("s"))], [Asg("x", lit("T")), Wc("s"), XD], [Asg("x", lit("T"), False, True), Wc("s"), XD],
    [Wrap(Wc("s"), Wc("s"))], [Acc("x", Wc("s")), XD], [var(Wc("s"), bound="2")],
]


def sibling_cases():
    for v in VALS:
        for u in USES:
            for k in (1, 2, 3):
                yield (v, Seq(tuple(u)) if len(u) > 1 else u[0], k)


def check_sibling(case, st):
    v, node, k = case
    w, wm = ww = env.make_world({"s": v, "n": [seq("(", XD, YD, ")")]})
    if k == 1:
        run_case(node, st, "!@", k=9, ww=ww)
    cmp.dist(node, w, wm, st, k=k, max_runs=600)


# --- histories: nothing survives a call -----------------------------------------

TEMPLATES = [
    Seq((Asg("x", lit("T")), XD, lit(" "), Wc("m"))),
    Seq((XD, lit(" "), Wc("m"))),
    Seq((Asg("x", var("1", "2"), True), X, XD)),
    Seq((Asg("x", lit("K"), False, True), X, YD)),
    Seq((Wc("m", "", (("x", lit("A")), ("y", lit("B")))), lit(" "), XD, YD)),
    X,  # an error: x has no value
    Seq((Asg("x", X), lit("-"), X)),  # an error: x in terms of itself
    var(Wc("m", "", (("x", lit("A")),)), XD),
]
GENS = ["C1", "C2", "R1", "CX", "YX"]


def history_cases(t):
    ops = list(itertools.product(range(len(TEMPLATES)), GENS))
    # all histories of 2 calls; of 3 calls with the last on the generators used before
    for a, b in itertools.product(ops, repeat=2):
        yield (a, b)
    for a, b, c in itertools.product(ops, repeat=3):
        if t or (a[1][0] == b[1][0] and c[1] in (a[1], b[1]) and a[1] in ("C1", "CX", "YX") and a[1] == b[1]):
            yield (a, b, c)


def hist_world():
    return env.make_world({
        "l": [seq("[", XD, ",", YD, "]")],
        "m": [seq(Asg("y", lit("My")), Wc("l"), XD), seq(Wc("l", "", (("x", lit("P")),)), YD)],
    })


OUT = {"y": lit("Oy")}


def check_history(case, st):
    w, wm = hist_world()
    objs = {}
    given = {"y": env.parse("Oy")}
    for step, (ti, g) in enumerate(case):
        node = TEMPLATES[ti]
        text = render(node)
        if g not in objs:
            objs[g] = {
                "C1": lambda: env.CombinatorialPromptGenerator(wm), "C2": lambda: env.CombinatorialPromptGenerator(wm),
                "R1": lambda: env.RandomPromptGenerator(wm),
                "CX": lambda: env.context(wm, "!", variables=given), "YX": lambda: env.context(wm, "@", variables=given),
            }[g]()
        o = objs[g]
        hist = [(render(TEMPLATES[a]), b) for a, b in case[:step]]
        if g == "R1":
            try:
                cmp.dist(node, w, wm, st, k=2, make=lambda: o.generate(text, 2), max_runs=500)
            except Violation as v:
                raise Violation(f"after {hist}: {v}")
            continue
        if g in ("C1", "C2"):
            want = cmp.ref_list(node, w, "!", 20)
            got = cmp.outcome(lambda: o.generate(text, 20))
        else:
            m = "!" if g == "CX" else "@"
            want = cmp.ref_list(node, w, m, 5, OUT)
            got = cmp.outcome(lambda: [str(r) for r in o.sample_prompts(text, 5)])
        st.add(1, 1, 1)
        if not cmp.same(want, got):
            raise Violation(f"after {hist}: {text!r} on {g}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")
        if given != {"y": env.parse("Oy")}:
            raise Violation(f"after {hist}, {text!r}: the variables given by the caller became {given}")


# --- names that depend on variables are looked up in the scope of the template ----


def path_cases():
    names = [X, XD, Acc("x", lit("b")), seq("d/", X), seq(X, "/e"), seq("d/", Acc("x", lit("b"))), seq(XD, "/e")]
    params = [(), (("x", lit("b")),), (("y", lit("b")),), (("x", lit("b")), ("y", lit("a"))), (("x", YD),), (("y", XD),)]
    pre = [(), (Asg("x", lit("a")),), (Asg("x", lit("a"), True),), (Asg("x", lit("a"), False, True),), (Asg("y", lit("a")),),
           (Asg("x", lit("a")), Asg("y", lit("b"))), (Asg("y", lit("b")), Asg("x", Y))]
    for a, n, p in itertools.product(pre, names, params):
        w = Wc(n, "", p)
        for body in ([w], [w, lit(" "), XD, YD], [XD, lit(" "), w, lit(" "), w], [var(w, "o")], [var(w), XD], [var(w, bound="1-2")], [Wc("m"), XD], [Wc("m", "", (("x", lit("b")),)), XD]):
            yield (w, Seq((*a, *body)) if a or len(body) > 1 else body[0])


def check_path(case, st, modes):
    w, node = case
    vals = lambda c: [seq(c, XD, YD)]
    ww = env.make_world({"a": vals("A"), "b": vals("B") + [lit("B2")], "d/a": vals("DA"), "d/b": vals("DB"), "a/e": vals("EA"), "b/e": vals("EB"), "m": [seq("<", w, ">")]})
    run_case(node, st, modes, k=4, ww=ww, max_runs=600)


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("include", "sequences of <= 3 of 14 parts (assignments, uses, includes with and without parameters, nested) x 14 contents of the included wildcard; combinatorial%s" % (", cyclical, random" if t else ""),
              lambda: include_cases(t), lambda c, st: check_include(c, st, "!@~" if t else "!"), min_cases=9000),
        Space("include-modes", "sequences of <= 2 of 14 parts x 14 contents; cyclical and random (2 prompts, all outcomes)",
              lambda: (c for c in include_cases(False) if type(c[2]) is not Seq or len(c[2].items) <= 2), lambda c, st: check_include(c, st, "@~"), min_cases=500),
        Space("chain", "%d levels of includes, each level one of 8 actions on the binding; three methods" % (4 if t else 3), lambda: chain_cases(t), check_chain, min_cases=500),
        Space("deep-chain", "5, 8 and 12 levels of includes: each action at each level, pairs of actions; combinatorial and cyclical", deep_cases, check_deep, min_cases=300),
        Space("siblings", "wildcards of 2-3 values of which some bind x, used twice or next to x; 1..3 prompts, all outcomes", sibling_cases, check_sibling, min_cases=200),
        Space("paths", "7 prefixes x 7 wildcard names that mention variables x 6 parameter lists x 8 positions; combinatorial, cyclical and all random outcomes", path_cases, lambda c, st: check_path(c, st, "!@~"), min_cases=2000),
        Space("histories", "all histories of 2 and many of 3 calls of 8 templates (binding, reading, failing) on 5 generators sharing one manager; each call as if alone", lambda: history_cases(t), check_history, min_cases=2000),
    ]
