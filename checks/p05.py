"""P05: bounds and separators hold in every sampling mode."""
import itertools

from .common import *
from . import p02

RULE = (
    "every (number of options, bound text, separator, option kind, mode) in the stated product; the "
    "complete output (all prompts, several periods, or all random outcomes) is compared with the reference"
)
ASSUMPTIONS = ["an open upper bound on a lone wildcard counts the written options"]

SEPS = (None, " and ", "; ", "|", ".", ":", "-", " ", "::", "&", "\\", "a", "+)(", "1", "~")
WORDS = ["x", "y", "z", "u", "v"]


def modes(node, st, w=None, wm=None, rnd=True):
    if w is None:
        w, wm = world()
    cmp.comb(node, w, wm, st)
    cmp.cyc(node, w, wm, st, k=60)
    if rnd:
        text = render(node)
        cmp.dist(node, w, wm, st, k=1, make=p02.real(wm, text, 1), max_runs=3000, exact=False)


def check(case, st):
    modes(case, st)


def product_cases(ns, seps):
    def it():
        for n in ns:
            for b in all_bounds(n):
                for s in seps:
                    if b is None and s is not None:
                        continue
                    yield var(*WORDS[:n], bound=b, sep=s)

    return it


def spaced_cases():
    """white space in the bound prefix does not matter; digits and dashes in options do not confuse it"""
    for text, node in [
        ("{ 2$$x|y|z}", var("x", "y", "z", bound="2")),
        ("{2$$ x|y|z}", var("x", "y", "z", bound="2")),
        ("{2$$ and $$ x|y|z}", var("x", "y", "z", bound="2", sep=" and ")),
        ("{1-2$$ , $$x|y|z}", var("x", "y", "z", bound="1-2", sep=" , ")),
        ("{\n1-2$$\nx|\ny|\nz}", var("x", "y", "z", bound="1-2")),
        ("{2|3|4}", var("2", "3", "4")),
        ("{1-2|3}", var("1-2", "3")),
        ("{2$$1|2|3}", var("1", "2", "3", bound="2")),
        ("{2$$1-2|2-3|3}", var("1-2", "2-3", "3", bound="2")),
        ("{02$$x|y|z}", var("x", "y", "z", bound="2")),
        ("{1 - 2$$x|y|z}", None),
        ("{2$$2::x|y|3::z}", var(("2", lit("x")), "y", ("3", lit("z")), bound="2")),
        ("{10$$x|y}", var("x", "y", bound="2")),
        ("{12-15$$x|y|z}", var("x", "y", "z", bound="3")),
        ("{0-100$$x|y}", var("x", "y", bound="0-2")),
        ("{2-100$$x|y|z}", var("x", "y", "z", bound="2-3")),
    ]:
        if node is not None:
            yield (text, node)


def check_spaced(case, st):
    text, node = case
    w, wm = world()
    cmp.comb(node, w, wm, st, text=text)
    cmp.cyc(node, w, wm, st, k=30, text=text)
    cmp.dist(node, w, wm, st, k=1, text=text, make=p02.real(wm, text, 1), exact=True)


def kind_cases():
    """every bound on options that are nested, equal, empty, ranged, wildcards or variables"""
    sets = [
        (var("x", "y"), lit("z")),
        (lit("x"), lit("x"), lit("y")),
        (lit("x"), EMPTY),
        (EMPTY, EMPTY),
        (lit("x"), EMPTY, lit("y")),
        (var("x", "y", bound="2"), lit("z")),
        (var("x", "y", bound="0-1"), lit("z")),
        (Wc("w"), lit("z")),
        (Wc("w"), Wc("w")),
        (Wc("w"), Wc("v")),
        (seq("k ", var("x", "y")), lit("z")),
        (Acc("q", lit("x")), lit("z")),
        (var("x", "y"), var("x", "y")),
        (var(var("x", "y"), "z"),),
        (Wc("w"),),
        (Wc("v"),),
        (Wc("one"),),
        (Wc("dup"),),
        (Wc("nope"),),
        (var(Wc("w")),),
        (seq(Wc("w"), "!"),),
    ]
    for os in sets:
        n = len(os)
        bs = all_bounds(3) if n == 1 else all_bounds(n)
        for b in bs:
            for s in (None, " + ") if b is not None else (None,):
                yield var(*os, bound=b, sep=s)


def placed_cases():
    """a bounded variant beside, inside and around other parts"""
    for b in all_bounds(2):
        for s in (None, "/") if b is not None else (None,):
            v = var("x", "y", bound=b, sep=s)
            yield seq("<", v, ">")
            yield seq(v, " ", v)
            yield var(v, "z")
            yield var(v, "z", bound="2", sep=" ; ")
            yield var(v, bound="1-2")
            yield Seq((Asg("q", v), Acc("q"), lit(" "), Acc("q")))
            yield Seq((Asg("q", v, True), Acc("q"), lit(" "), Acc("q")))


def wild_cases():
    """bounded variants inside wildcard values"""
    for b in all_bounds(3):
        yield b


def check_wild(b, st):
    spec = {"k": [lit("n"), var("x", "y", "z", bound=b, sep=" or ")]}
    w, wm = env.make_world(spec)
    for node in (Wc("k"), var(Wc("k"), bound="2"), seq(Wc("k"), "!")):
        modes(node, st, w, wm)


def marked_cases():
    for b in all_bounds(2) + [x for x in ("2", "0-2", "1-3", "3", "2-", "-2")]:
        for m in "~@!":
            for s in (None, " + ") if b is not None else (None,):
                yield var("x", "y", "z", bound=b, sep=s, meth=m)


def check_marked(case, st):
    """a marked variant keeps its bounds in each generator"""
    w, wm = world()
    text = render(case)
    for gm in "!~@":
        eff = case.meth if not (gm != "!" and case.meth == "!") else gm
        if eff == "~":
            cmp.dist(case, w, wm, st, k=1, m=gm, text=text)
        elif eff == "@":
            want = ref.take(Var(case.opts, case.bound, case.sep), w, ref.Y, 40)
            got = cmp.outcome(lambda: env.real_take(text, wm, gm, 40))
            st.add(1, 40, 1)
            if got != ("ok", want):
                raise Violation(f"{text!r} in mode {gm}: expected {want!r}, got {cmp.fmt(got)}")
        else:
            want = ref.take(Var(case.opts, case.bound, case.sep), w, ref.C, None)
            got = cmp.outcome(lambda: env.real_take(text, wm, gm, 200))
            st.add(1, 40, 1)
            if got != ("ok", want):
                raise Violation(f"{text!r} in mode {gm}: expected {want!r}, got {cmp.fmt(got)}")


def many_cases():
    for n in (6, 7, 8, 9, 11, 12):
        for b in ("2", "0-2", "1-2", "-2", "2-1", f"{n-1}-" if n < 7 else "0-1", f"{n}" if n < 7 else "1"):
            yield (n, b)


def check_many(case, st):
    n, b = case
    node = var(*[f"o{i}" for i in range(n)], bound=b, sep=" ~ ")
    w, wm = world()
    cmp.comb(node, w, wm, st)
    cmp.cyc(node, w, wm, st, k=400)
    cmp.dist(node, w, wm, st, k=1, exact=False)


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("bounds", "1..%d options x every bound text with numbers 0..n+1 (exact, a-b, -b, a-, reversed) x separators none,' and ','|'; combinatorial, cyclical (60 prompts), all random outcomes" % (4 if not t else 5),
              product_cases((1, 2, 3), (None, " and ", "|")), check, min_cases=200),
        Space("bounds4", "4 options x every bound text",
              product_cases((4,) if not t else (4, 5), (None,)), check, min_cases=50, cpu=120),
        Space("separators", "2..3 options, %d separators, every bound of 2 options" % len(SEPS),
              product_cases((2,), SEPS), check, min_cases=200),
        Space("written", "white space, leading zeros and large numbers in bounds, numeric options; exact distributions", spaced_cases, check_spaced, min_cases=14),
        Space("option-kinds", "21 option lists (nested, equal, empty, ranged, wildcard, variable, missing) x every bound x 2 separators", kind_cases, check, min_cases=500),
        Space("placed", "a 2-option variant with every bound in 7 surroundings", placed_cases, check, min_cases=200),
        Space("in-wildcards", "every bound of a 3-option variant inside a wildcard value, 3 uses", wild_cases, check_wild, min_cases=30),
        Space("marked", "3 options, bounds, each sampler mark, in each of the three generation methods", marked_cases, check_marked, min_cases=150),
        Space("many", "6..12 options, bounds of at most 2 (all for 6)", many_cases, check_many, min_cases=40, cpu=120),
    ]
