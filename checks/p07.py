"""P07: templates parse to exactly the structure written; plain text is verbatim."""
import itertools
import sys
import unicodedata

from .common import *

RULE = (
    "every tree of the stated grammar is rendered and parsed by the real parser and the structures compared; "
    "every string over the stated alphabet is generated verbatim in all three methods"
)
ASSUMPTIONS = [
    "plain text is free of the reserved characters { # $ % (and | } inside braces), of the wildcard marker, "
    "and of // and /* (also read as comments where a part can start)",
]


def check_tree(n, st):
    text = render(n)
    want = shape(n)
    st.add(1, 1, 1)
    got = cmp.outcome(lambda: shape_of_command(env.parse(text)))
    if got != ("ok", want):
        raise Violation(f"{text!r}: expected structure {want!r}, parsed {got[1]!r}")
    again = shape_of_command(env.parse(text))
    if again != want:
        raise Violation(f"{text!r}: second parse gives {again!r} instead of {want!r}")


ATOMS = [
    Wc("w"), Wc("a/b*", "~"), Wc("w", "@"), Wc("w", "!", (("k", lit("v")),)), Acc("x"), Acc("y_1", lit("d")),
]


def tree_cases(size, **kw):
    a = dict(
        lits=("a", "b c "), atoms=ATOMS, meths=("", "~", "@", "!"), weights=(None, "0.5"),
        bounds=lambda n: (None, "2", "1-2"), seps=(None, " and "), max_opts=2, max_parts=3, wraps=True,
    )
    a.update(kw)
    return lambda: Grammar(**a).upto(size)


def nest_cases():
    """every construct inside every position of every construct"""
    leaf = [lit("a"), EMPTY, var("a", "b"), Wc("w"), Acc("x"), Acc("x", lit("d")), Wrap(lit("<...>"), lit("i")), seq("k ", var("a", "b"), " l")]
    for a, b in itertools.product(leaf, repeat=2):
        for m in ("", "@"):
            yield var(a, b, meth=m)
            yield var(a, b, meth=m, bound="2", sep="; ")
            yield var(("2", a), ("0.25", b), meth=m)
        if a is not EMPTY and b is not EMPTY:
            yield Wrap(a, b)
            yield seq(a, " ", b)
            yield Acc("x", seq(a, " ", b))
            yield Seq((Asg("x", a), Asg("y", b), Acc("x")))
            yield var(Wrap(a, b), b)
            yield var(Acc("x", a), b)
            yield Wrap(var(a, b), Acc("x", b))
            for imm, keep in itertools.product((False, True), repeat=2):
                yield Seq((Asg("v-1", a, imm, keep), lit("t "), b))
                yield Seq((lit("t "), Asg("v-1", var(a, b), imm, keep), b))


def wild_cases():
    names = ["w", "a/b", "a/b/c", "*", "**", "a*", "a/**", "w-x", "w_x", "a b", "a.b", "[ab]", "a?", "_w", "w_", "é", "1", "a'b", "x:y", "a,b"]
    params = [(), (("k", lit("v")),), (("k", lit("v w")),), (("k", var("a", "b")),), (("a", lit("1")), ("b", lit("2"))), (("k", Acc("x")),), (("k", Wc("z")),),
              (("p", lit("1")), ("q", var("a", "b")), ("r", Acc("y")))]
    for n in names:
        for m in ("", "~", "@", "!"):
            for p in params:
                if n[0] == "_" or n[-1] == "_" and not p:
                    continue
                w = Wc(n, m, p)
                yield w
                yield seq("a ", w, "b")
                yield var(w, "z")
                yield seq(w, w)
    for nm in (Acc("x"), seq("a/", Acc("x")), seq(Acc("x"), "/b"), seq("a", Acc("x"), "b", Acc("y")), Seq((Acc("x"), Acc("y")))):
        for m in ("", "@"):
            for p in params[:3]:
                yield ("path", nm, m, p)


def check_wild(case, st):
    if isinstance(case, tuple):
        # names with variables: judged by what is looked up
        _, nm, m, p = case
        w = Wc(nm, m, p)
        text = render(w)
        asked = []
        wm = env.WildcardManager(root_map={"": [{"none": ["n"]}]})
        real = wm.get_values
        wm.get_values = lambda name: (asked.append(name), real(name))[1]
        vals = {"x": "X1", "y": "Y2"}
        pre = "".join(f"${{{k}={v}}}" for k, v in vals.items())
        want = "".join(i.text if type(i) is Lit else vals[i.name] for i in (nm.items if type(nm) is Seq else (nm,)))
        st.add(1, 1, 1)
        got = env.real_take(pre + text, wm, ref.C, 5)
        if not asked or set(asked) != {want} or got != [f"__{want}__"]:
            raise Violation(f"{pre + text!r}: expected wildcard {want!r}, looked up {asked!r}, prompts {got!r}")
        return
    check_tree(case, st)


NUMS = ["0", "1", "2", "10", "007", "0.5", "1.25", "2.", ".5", "10.75", "100", "0.125", "0.0625", "3.14159", "1234.5678", "100000", "0.000001"]


def number_cases():
    for a, b in itertools.product(NUMS, repeat=2):
        yield var((a, lit("x")), (b, lit("y")))
        yield var((a, lit("x")), lit("y"), (b, var("p", "q")))
        yield var(lit("x"), (a, Wc("w")), (b, EMPTY))
    for n in range(1, 6):
        for b in all_bounds(n):
            yield var(*"abcde"[:n], bound=b)
    for b in ("12", "3-10", "10-", "-11", "10-2", "00", "0-0"):
        for sep in (None, ",", " ", "  ", "; ", "|", ".", ":", "::", "(", ")", "[", "__", "and", "1", "1-2", "=", "!", "@", "~", "\\", "/", "'", '"', "%", "#"):
            if sep in ("#",):
                continue
            yield var("a", "b", bound=b, sep=sep)
            yield var("a", ("2", lit("b")), bound=b, sep=sep, meth="~")


# numbers, marks and punctuation that only look like syntax are text
LOOKALIKE = ["1", "0.5", "1:", "a::b", "1:2", "-1", "1-2", "~", "@x", "!x", "x!", "=", "a=b", "(a:1.2)", "((a))", "[a]", "[a:b:0.5]", "<lora:x:1>", "a_b",
             "_a_", "...", "…", "..", "\\", "a\\b", "\\(a\\)", ":", ": a", "?", "a?", ")", "(", "&", "*", "+", "^", "'", '"', "`", ";", "/", "a/b", ",", "a b", "日本", "é", "🎨"]


def look_cases():
    for a in LOOKALIKE:
        yield lit(a)
        yield var("k", a)
        yield var(seq("k", a), "z")
        yield seq(var("k", "l"), a)
        yield seq(a, var("k", "l"))
        yield seq(a, " ", Wc("w"), " ", a)
        yield Acc("x", seq("k", a))
        yield Wrap(seq("k", a), lit("i"))
        yield Wrap(lit("i"), seq("k", a))
        yield Seq((Asg("x", seq("k", a)), Acc("x")))
        if not a.startswith(("/", "*")):
            yield seq(Wc("w"), a)
            yield Seq((Asg("x", lit("v")), lit(a)))
        for b in LOOKALIKE[::5]:
            yield var("k", a, b)


ALPHA = "aB1 \n\t.,:;()[]<>|}_-=!~@?*+/\\'\"&^`é日🎨"


def plain_ok(s):
    return "__" not in s and "//" not in s and "/*" not in s


def plain_cases(alpha, n):
    def it():
        for k in range(1, n + 1):
            for t in itertools.product(alpha, repeat=k):
                yield "".join(t)

    return it


_null = []


def check_plain(s, st):
    if not plain_ok(s):
        return
    if not _null:
        _null.append(env.WildcardManager())
    wm = _null[0]
    st.add(1, 1, 1)
    got = cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm).generate(s, 5))
    if got != ("ok", [s]):
        raise Violation(f"plain text {s!r}: combinatorial generation gives {got[1]!r}")
    got = cmp.outcome(lambda: env.RandomPromptGenerator(wm).generate(s, 2))
    if got != ("ok", [s, s]):
        raise Violation(f"plain text {s!r}: random generation gives {got[1]!r}")


def option_text_cases():
    alpha = "aB1 \n\t.,:()[]<>_-=!~@?*/\\'é"
    for k in (1, 2):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)
    for t in itertools.product("a1 \n:.!~", repeat=3):
        yield "".join(t)


def check_option_text(s, st):
    """as second option, default, wrap side, variable value: leading white space is
    dropped, the rest is verbatim"""
    import re

    if not plain_ok(s) or re.match(r"\s*([+-]?\d+\.?\d*|\.\d+)\s*::", s):
        return
    t = s.lstrip(" \n\t\r")
    if t.startswith(("/", "*")) and t is not s:
        return
    w, wm = world()
    st.add(1, 4, 4)
    for text, want in (
        ("{k|%s}" % s, ["k", t]),
        ("{k|%s|m}x" % s, ["kx", t + "x", "mx"]),
        ("{2$$; $$k|%s}" % s, None),
        ("%%{k...$$%s}" % s, ["k" + t]),
    ):
        if want is None:
            want = ref.take(var("k", t, bound="2", sep="; "), w, ref.C, None)
        got = cmp.outcome(lambda: env.real_take(text, wm, ref.C, 9))
        if got != ("ok", want):
            raise Violation(f"{text!r}: expected {want!r}, got {got[1]!r}")


RESERVED = set("{}#$%|()")


def uni_cases(step, hi):
    def it():
        for c in range(0, hi, step):
            yield (c, c + step)

    return it


def check_uni(case, st):
    """every Unicode character is kept"""
    lo, hi = case
    chars = [c for c in map(chr, range(lo, hi)) if c not in RESERVED and not 0xD800 <= ord(c) <= 0xDFFF]
    if not chars:
        return
    body = "x" + "x".join(chars) + "x"
    wm = env.WildcardManager()
    st.add(len(chars), 2, 2)
    for text, want in ((body, [body]), ("{q|%s}" % body, ["q", body])):
        got = cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm).generate(text))
        if got != ("ok", want):
            bad = [hex(ord(c)) for c in chars if cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm).generate(f"x{c}x")) != ("ok", [f"x{c}x"])]
            raise Violation(f"characters U+{lo:04X}..U+{hi - 1:04X}: text not kept (single offenders: {bad[:10]}); got {cmp.fmt(got)[:200]}")


def scale_cases():
    for d in (5, 10, 20, 30):
        n = lit("z")
        for i in range(d):
            n = var(f"l{i}", seq("p ", n))
        yield n
        n = lit("z")
        for i in range(d):
            n = Acc(f"v{i}", seq("p ", n))
        yield n
    for d in (3, 6, 9):
        n = lit("z")
        for i in range(d):
            n = Wrap(lit(f"<{i} ...>"), n)
        yield n
    for k in (10, 50, 200):
        yield seq(*[x for i in range(k) for x in (f"t{i} ", var(f"a{i}", f"b{i}"))])
        yield seq(*[x for i in range(k) for x in (f"t{i} ", Wc(f"w{i}"))])
        yield Seq(tuple([Asg(f"x{i}", lit(str(i))) for i in range(k)] + [Acc(f"x{i}") for i in range(k)]))
        yield var(*[(str(i), lit(f"o{i} ")) for i in range(k)], bound=f"2-{k}", sep=" + ", meth="@")
    yield lit("word, " * 4000)


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("trees", "trees of size <= 3 over 2 literals, empty option, 6 wildcard/variable atoms, marks, weights, bounds, separators, wraps",
              tree_cases(3), check_tree, min_cases=3000),
        Space("trees4", "trees of size %d, smaller alphabet" % (5 if t else 4),
              tree_cases(5 if t else 4, lits=("a",), atoms=[Wc("w"), Acc("x")], meths=("", "@"), bounds=lambda n: (None, "2"), seps=(None,), weights=(None, "2")), check_tree, min_cases=3000),
        Space("nesting", "8 constructs pairwise in every position of variants, wraps, defaults, assignments (4 kinds)", nest_cases, check_tree, min_cases=500),
        Space("wildcards", "20 names x 4 marks x 8 parameter lists, 4 surroundings; names containing variables", wild_cases, check_wild, min_cases=2000),
        Space("numbers", "17 number forms as weights (pairs), every bound of 1..5 options, large and reversed bounds, 24 separators", number_cases, check_tree, min_cases=700),
        Space("lookalikes", "46 texts that resemble syntax, in 12 positions", look_cases, check_tree, min_cases=700),
        Space("plain", "all strings of length <= 3 over %d characters, verbatim in both generators" % len(ALPHA),
              plain_cases(ALPHA, 3), check_plain, min_cases=1000),
        Space("plain-long", "all strings of length <= %d over 'a',' ',newline,'|','}','_',':','1'" % (6 if t else 4),
              plain_cases("a \n|}_:1"[: 8 if t else 7], 6 if t else 4), check_plain, min_cases=2000),
        Space("option-text", "all strings of length <= 2 over 28 characters and of length 3 over 8, in options and wraps", option_text_cases, check_option_text, min_cases=1000),
        Space("unicode", "every code point up to U+%s (48 per template) at top level and in an option" % ("10FFFF" if t else "FFFF"),
              uni_cases(48, 0x110000 if t else 0x10000), check_uni, min_cases=1000),
        Space("scale", "30-fold nesting, 200 parts, 200 options, 200 variables, 24000 characters", scale_cases, check_tree, min_cases=20, cpu=120),
    ]
