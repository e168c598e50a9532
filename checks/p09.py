"""P09: comments and layout white space never change which prompts are generated."""
import itertools

from .common import *
from vlib import layout as lay

RULE = (
    "for every tree up to the stated size, every slot where layout can stand gets every layout item (single, everywhere at "
    "once, and pairs for small trees); the squashed prompts of the real code are compared with the reference's"
)
ASSUMPTIONS = ["layout inside wildcard names, wildcard parameter lists, and inside a bound or weight prefix is not covered"]

ITEMS = [" ", "\n", "\t", "\r\n", "# c\n", " # c {a|b} }\n", "#|${x}__w__$$%{\n", "\n# one\n  # two\n\n", "#\n"]


def judge(text, node, st, modes="!"):
    w, wm = world()
    want = cmp.ref_list(node, w, ref.C, 200)
    if want[0] == "ok":
        want = ("ok", [ref.squash(x) for x in want[1]])
    got = cmp.outcome(lambda: env.real_take(text, wm, ref.C, 200))
    st.add(1, 1, 1)
    sq = ("ok", [ref.squash(x) for x in got[1]]) if got[0] == "ok" else got
    if not cmp.same(want, sq):
        raise Violation(f"{text!r}: expected (squashed) {cmp.fmt(want)}, got {cmp.fmt(got)}")
    if "i" in modes and got[0] == "ok":
        g = env.CombinatorialPromptGenerator(wm, ignore_whitespace=True)
        got2 = cmp.outcome(lambda: g.generate(text, 200))
        st.add(0, 1, 1)
        if got2 != want:
            raise Violation(f"{text!r} with squashing: expected {cmp.fmt(want)}, got {cmp.fmt(got2)}")


def single(node, st, items=ITEMS, modes="!"):
    kinds = lay.slots(node)
    for i in range(len(kinds)):
        for it in items:
            text, tree = lay.layout(node, lambda j, k: it if j == i else "")
            judge(text, tree, st, modes)
    for it in items:
        text, tree = lay.layout(node, lambda j, k: it)
        judge(text, tree, st, modes)


def check_small(node, st):
    single(node, st, modes="!i")
    n = len(lay.slots(node))
    for i, j in itertools.combinations(range(n), 2):
        for a, b in (("# c\n", "# d\n"), ("\n", "# }\n"), ("# |\n", " ")):
            text, tree = lay.layout(node, lambda k, kept: a if k == i else b if k == j else "")
            judge(text, tree, st)


def check_large(node, st):
    single(node, st, modes="!i")


def check_deep(node, st):
    single(node, st, ["\n ", "# c {|}\n"])


def tree_cases(sizes, **kw):
    a = dict(lits=("a", "b c"), atoms=[Wc("w")], bounds=lambda n: (None, "2"), seps=(None, "; "), weights=(None,), max_opts=2, max_parts=2, wraps=True)
    a.update(kw)

    def it():
        g = Grammar(**a)
        for s in sizes:
            yield from g.trees(s)

    return it


def program_cases():
    vals = [lit("1"), var("1", "2"), Wrap(lit("q ... r"), lit("s"))]
    bodies = [[Acc("x")], [Acc("x"), lit(" t"), Acc("y", lit("d"))], [var(Acc("x"), "u")], [Wrap(seq("a ... ", Acc("x")), var("b", "c"))]]
    for v in vals:
        for imm, keep in ((False, False), (True, False), (False, True)):
            for b in bodies:
                yield Seq((Asg("x", v, imm, keep), *b))
    for m in "~@!":
        yield var("a", meth=m)
        yield var("a", ("3", lit("b")), meth="@")
        yield var("a", "b", bound="1-2", meth="!")


def content_cases(n):
    chars = "{}|$%_#:/*( "
    for k in range(0, n + 1):
        for t in itertools.product(chars, repeat=k):
            yield "".join(t)


CT = [
    ("a %sb", ["a b"]),
    ("{%sa|b}", ["a", "b"]),
    ("{a%s|b}", ["a", "b"]),
    ("${x=%s1}${x}", ["1"]),
    ("{a|b}%s", ["a", "b"]),
    ("%sz {a|b}", ["z a", "z b"]),
]


def check_content(c, st):
    """whatever a comment contains is ignored"""
    w, wm = world()
    for t, want in CT:
        text = t % f"#{c}\n"
        got = cmp.outcome(lambda: env.real_take(text, wm, ref.C, 9))
        st.add(1, 1, 1)
        sq = [ref.squash(x) for x in got[1]] if got[0] == "ok" else got
        if sq != want:
            raise Violation(f"{text!r}: expected {want!r}, got {got[1]!r}")


def last_cases():
    for c in ("", " c", "{|}", "__w__", "${x}", "#", " # d"):
        for pre, want in (("a", ["a"]), ("{a|b} ", ["a", "b"]), ("__w__", ["p", "q"]), ("${x=1}${x}", ["1"]), ("%{a...$$b}", ["ab"]), ("a\n\n", ["a"])):
            yield (pre, c, want)


def check_last(case, st):
    """a comment may end the template without a newline"""
    pre, c, want = case
    w, wm = world()
    text = f"{pre}#{c}"
    got = cmp.outcome(lambda: env.real_take(text, wm, ref.C, 9))
    st.add(1, 1, 1)
    if got[0] != "ok" or [ref.squash(x) for x in got[1]] != want:
        raise Violation(f"{text!r}: expected {want!r}, got {got[1]!r}")


def line_cases():
    """commented-out lines of a multi-line variant: every subset"""
    for n in (1, 2, 3, 4):
        for mask in range(2**n):
            for style in range(3):
                yield (n, mask, style)


def check_line(case, st):
    n, mask, style = case
    keep = [f"o{i} x" for i in range(n) if not mask >> i & 1]
    lines = ["{", "  first  # always"]
    for i in range(n):
        body = f"| o{i} x" + (["", "   # note", "  # }"][style])
        lines.append(("  # " if mask >> i & 1 else "  ") + body)
    lines.append("}")
    text = "\n".join(lines)
    w, wm = world()
    want = ["first"] + keep
    st.add(1, 1, 1)
    got = cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm, ignore_whitespace=True).generate(text, 20))
    if got != ("ok", want):
        raise Violation(f"{text!r}: expected {want!r}, got {got[1]!r}")
    got = cmp.outcome(lambda: env.real_take(text, wm, ref.Y, len(want) * 2))
    if got[0] != "ok" or [ref.squash(x) for x in got[1]] != want * 2:
        raise Violation(f"{text!r} cyclically: expected {want * 2!r}, got {got[1]!r}")


def squash_cases():
    g = Grammar(lits=("a", " b  c ", "\n"), atoms=[Wc("s")], bounds=lambda n: (None, "2"), seps=(None, "  ;  "), max_opts=2, max_parts=3)
    yield from g.upto(3)
    for n in (lit("   "), lit(" \n\t x \u00a0 y"), seq(var("", " "), "k"), Wrap(lit("  <  ...  > "), lit(" i  j ")), Seq((Asg("x", lit("a  b ")), Acc("x"), Acc("x"))),
              Seq((Asg("x", var("a  b ", " c"), True), Acc("x"), lit("  "), Acc("x"))), Wc(" s "), Seq((Asg("x", lit("s")), Wc(Acc("x")))), Wc("no  pe")):
        yield n
    for k in (10, 63, 64, 65, 99, 100, 101, 127, 128, 129, 257, 1001):
        yield lit("".join(f"w{i}" + ("  ", "\n", " \t ", " ")[i % 4] for i in range(k)))
        yield lit("a" + "\n" * k + "b" + " " * k)


_sw = []


def check_squash(node, st):
    """squashing = the normal prompts, squashed; in every method"""
    if not _sw:
        _sw.append(env.make_world({"s": [lit("p  q"), lit("r "), seq("t", var("  1 ", "2"))]}))
    w, wm = _sw[0]
    text = render(node)
    if not text.strip() and not text:
        return
    for m in "!@~":
        if m == "@" and any(type(x) is Wrap for x in walk(node)):
            continue
        if m == "~":
            a = cmp.distribution(lambda: [ref.squash(x) for x in env.real_take(text, wm, m, 1)], 4000)
            b = cmp.distribution(lambda: env.real_take(text, wm, m, 1, ignore_whitespace=True), 4000, st)
            c = cmp.distribution(lambda: env.RandomPromptGenerator(wm, ignore_whitespace=True).generate(text, 1), 4000, st)
        else:
            a = cmp.outcome(lambda: [ref.squash(x) for x in env.real_take(text, wm, m, 30)])
            b = cmp.outcome(lambda: env.real_take(text, wm, m, 30, ignore_whitespace=True))
            c = b if m == "@" else cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm, ignore_whitespace=True).generate(text, 30))
            st.add(1, 2, 2)
        if a != b or a != c:
            raise Violation(f"{text!r} method {m}: squashing gives {b!r} / {c!r}, squashed normal prompts are {a!r}", key=f"squash:{text}" if any(type(x) is Wc for x in walk(node)) else None)


def value_cases():
    """comments and layout inside wildcard values"""
    for n in (lit("a b"), var("a", "b"), seq("k ", var("a", "b")), Wrap(lit("q ... r"), lit("s")), Acc("x", lit("d"))):
        for it in ITEMS:
            for i in list(range(len(lay.slots(n)))) + [None]:
                yield (n, it, i)


def check_value(case, st):
    n, it, i = case
    text, tree = lay.layout(n, lambda j, k: it if i is None or j == i else "")
    wm = env.WildcardManager(root_map={"": [{"k": ["A", text]}]})
    wm.sort_wildcards = False
    w = ref.World({"k": [(lit("A"), 1), (tree, 1)]})
    for node in (Wc("k"), seq("x ", Wc("k"), " y"), var(Wc("k"), "z")):
        want = [ref.squash(x) for x in ref.take(node, w, ref.C)]
        got = cmp.outcome(lambda: env.real_take(render(node), wm, ref.C, 20))
        st.add(1, 1, 1)
        if got[0] != "ok" or [ref.squash(x) for x in got[1]] != want:
            raise Violation(f"{render(node)!r} with value {text!r}: expected (squashed) {want!r}, got {got[1]!r}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("layout", "trees of size <= %d x every slot x 9 layout items, all slots at once, all pairs of slots; also squashed" % (3 if t else 2),
              tree_cases((1, 2, 3) if t else (1, 2)), check_small, min_cases=10, cpu=120),
        Space("layout3", "trees of size 3 x every slot x 9 layout items, also squashed", tree_cases((3,)), check_large, min_cases=100, cpu=120),
        Space("layout4", "trees of size 4%s x every slot x 2 layout items" % ("" if t else " over one literal, unbounded variants and wraps"),
              tree_cases((4,)) if t else tree_cases((4,), lits=("b c",), atoms=[], bounds=lambda n: (None,)), check_deep, min_cases=30, cpu=120),
        Space("programs", "assignments, accesses, defaults, wraps, marks: every slot and pair of slots", program_cases, check_small, min_cases=40, cpu=120),
        Space("contents", "every comment text of length <= %d over 12 syntax characters, 6 places" % (3 if t else 2), lambda: content_cases(3 if t else 2), check_content, min_cases=150),
        Space("last-line", "comments ending the template", last_cases, check_last, min_cases=40),
        Space("lines", "every subset of the lines of a multi-line variant commented out", line_cases, check_line, min_cases=80),
        Space("squash", "trees of size <= 3 over texts with runs of white space; three methods, all random outcomes", squash_cases, check_squash, min_cases=300),
        Space("wildcard-values", "layout at every slot of 5 wildcard values", value_cases, check_value, min_cases=200),
    ]
