"""P13: wrapping puts the inner prompt exactly at the wrapper's first marker."""
import itertools

from .common import *

RULE = (
    "every wrapper/inner pair is generated by the real code (combinatorially and for all outcomes of the random source) and "
    "compared with the reference, which scans the evaluated wrapper for the first marker"
)
ASSUMPTIONS = ["the cyclical method does not support wraps and says so; it is outside the property"]

ELL = ref.ELLIPSES
SHORT = ["a", ".", "\u2026", "\u22ef", " "]


def plain(s):
    """texts usable at this place without white space at the ends being layout"""
    return s == s.strip()


def strings(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for c in itertools.product(alpha, repeat=n):
            yield "".join(c)


INNER = ["x", "...", "\u2026", "x...y", ".", "", "x y"]
ODD = ["a\\b", "\\1", "\\g<0>", "\\", "\\n", "\\\\1", "&", "^*[a](b)+?", "\u00e9\u4e2d"]  # nothing to be read into


def run(node, st, rand=True):
    w, wm = world()
    text = render(node)
    want = cmp.ref_list(node, w, "!", 300)
    got = cmp.outcome(lambda: env.real_take(text, wm, "!", 300))
    st.add(1, 1, 1)
    if not cmp.same(want, got):
        raise Violation(f"{text!r}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")
    if rand:
        cmp.dist(node, w, wm, st, k=2 if rand == 2 else 1, max_runs=1200)


def marker_cases(t):
    for s in strings(SHORT, 1, 6 if t else 5):
        if plain(s):
            yield (s, INNER[:2])
    for o in ODD:
        for s in (o + "...", "..." + o, o + "\u2026" + o, o, "..." + o + "..."):
            yield (s, INNER[:2] + ODD)
    for s in strings("a.", 1, 9):
        yield (s, INNER[:1])
    for s in strings(["a", "."] + list(ELL), 1, 3):
        yield (s, INNER)
    for s in strings(["a", "...", "....", "..", "\u2026", ", ", "-"], 2, 4):
        if plain(s):
            yield (s, INNER[:1])


def check_marker(case, st):
    s, inners = case
    for i in inners:
        run(Wrap(lit(s), lit(i)), st, rand=1)


def word_pairs():
    """sides whose values resemble each other"""
    for a, b in itertools.product(WORDS, repeat=2):
        yield Wrap(lit("<...>"), var(a, b))
        yield Wrap(var("<" + a + "...", b + "..."), var(b, a))
        yield Wrap(var(a, b), var(a, b))


def context_cases():
    ws = ["<...>", "...", "<", "<\u2026|>".replace("|", ""), "a...b...c", ". . .", "..", "...\u2026", "\u22ee\u22ef!"]
    for s in ws:
        for i in INNER + ODD:
            n = Wrap(lit(s), lit(i))
            yield Seq((n, lit("!")))
            yield Seq((lit("pre "), n, lit(" post")))
            yield Seq((n, n))
            yield var(n, "z")
            yield var(n, "z", bound="2", sep=" and ")
            yield Seq((Asg("v", n), Acc("v"), lit(" "), Acc("v")))
            yield Seq((Asg("v", n, True), Acc("v"), lit(" "), Acc("v")))
            yield Seq((Asg("v", lit(s)), Wrap(Acc("v"), lit(i))))
            yield Seq((Asg("v", lit(i)), Wrap(lit(s), Acc("v"))))
            yield Wrap(n, lit("deep"))
            yield Wrap(lit("(...)"), n)
            yield Wrap(Wrap(lit("[...]"), lit(s)), lit(i))


def program_cases(t):
    g = Grammar(lits=("...", "a", ".."), atoms=[Wc("w"), Acc("q", lit("\u2026"))], empty=True, max_opts=2, max_parts=2)
    h = Grammar(lits=("x", "..."), atoms=[Wc("w")], empty=True, max_opts=2, max_parts=2)
    for w in g.upto(4 if t else 3):
        for i in h.upto(3 if t else 2):
            yield Wrap(w, i)
    for w in g.upto(2):
        for i in h.upto(4 if t else 3):
            yield Wrap(w, i)


def wrapped_values():
    return {
        "w": [lit("p"), lit("q")],
        "wr": [lit("<...>"), lit("[..."), lit("plain"), seq(var("<", "["), "\u2026")],
        "inn": [lit("x"), lit("..."), var("y", "z")],
        "whole": [Wrap(lit("<...>"), var("y", "z")), Wrap(Wc("wr"), lit("k"))],
    }


_w = []


def wild_cases():
    A = [Wc("wr"), Wc("inn"), Wc("whole"), var(Wc("wr")), var(Wc("inn"), "m", bound="1-2"), lit("(...)"), Acc("d", Wc("wr"))]
    for a, b in itertools.product(A, repeat=2):
        yield Wrap(a, b)
    for a in A:
        yield Seq((Asg("v", a), Wrap(Acc("v"), Acc("v"))))
        yield Seq((Asg("v", a, True), Wrap(Acc("v"), Acc("v"))))
        for b in A[:4]:
            yield Wrap(Wrap(lit("1...1"), a), b)
            yield Wrap(a, Wrap(lit("2...2"), b))


def check_wild(node, st):
    if not _w:
        _w.append(env.make_world(wrapped_values()))
    w, wm = _w[0]
    text = render(node)
    want = cmp.ref_list(node, w, "!", 300)
    got = cmp.outcome(lambda: env.real_take(text, wm, "!", 300))
    st.add(1, 1, 1)
    if not cmp.same(want, got):
        raise Violation(f"{text!r}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")
    cmp.dist(node, w, wm, st, k=1, max_runs=1500)


def stream_cases():
    for w in (var("<...>", "[...]"), lit("<...>"), Wc("w"), var("a...", "b", bound="0-1")):
        for i in (var("x", "y"), lit("x"), Wc("w"), var("x", "", "...")):
            for k in (2, 3):
                yield (Wrap(w, i), k)


def check_stream(case, st):
    node, k = case
    w, wm = world()
    cmp.dist(node, w, wm, st, k=k, max_runs=3000)


def method_cases():
    """sides with their own method inside combinatorial generation"""
    for mw in ("", "~", "@"):
        for mi in ("", "~", "@"):
            for w in (var("<...>", "[...]", meth=mw), seq("(", var("<...>", "[...]", meth=mw), ")")):
                for i in (var("x", "y", meth=mi), Wc("w", mi), seq("k", Wc("w", mi))):
                    yield Wrap(w, i)
                    yield Seq((Wrap(w, i), var("1", "2")))


def check_method(node, st):
    w, wm = world()
    cmp.dist(node, w, wm, st, k=6, m="!", max_runs=600)


def api_cases(t):
    """the result object itself"""
    return strings(["a", ".", " ", "\n", "\u1801", "\u2026", "\ufe19"], 0, 6 if t else 5)


def check_api(s, st):
    from dynamicprompts.sampling_result import SamplingResult

    for i in ("x", "", "...", "\u2026a", "\n", "\\1", "\\g<0>", "\\", "%s{0}$1"):
        want = ref.wrap_text(s, i)
        got = SamplingResult(s).as_wrapper()(SamplingResult(i)).text
        st.add(1, 1, 1)
        if got != want:
            raise Violation(f"wrapping {i!r} in {s!r}: expected {want!r}, got {got!r}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("markers", "literal wrappers: strings of length <= %d over a . \u2026 \u22ef blank, of length <= 9 over a and dot, of length <= 3 over all ellipsis characters, of <= 4 marker tokens; up to 7 inner texts; two methods" % (6 if t else 5),
              lambda: marker_cases(t), check_marker, min_cases=3000),
        Space("words", "sides whose values resemble each other (reversed, prefixes, letter case, blanks); two methods", word_pairs, lambda c, st: run(c, st, 1), min_cases=300),
        Space("contexts", "9 wrappers x 7 inner texts x 12 surroundings (sequences, options, selections, variables, nested wraps); two methods", context_cases, lambda c, st: run(c, st, 1), min_cases=700),
        Space("programs", "wrapper trees of size <= %d and inner trees of size <= %d over markers, variants, wildcards, variables; two methods" % ((4, 3) if t else (3, 2)), lambda: program_cases(t), lambda c, st: run(c, st, 1), min_cases=1000),
        Space("wildcards", "wrappers and inner prompts from wildcard values, variables, whole wraps in values; two methods", wild_cases, check_wild, min_cases=100),
        Space("streams", "2 and 3 successive random prompts, joint distribution (both sides drawn independently, afresh)", stream_cases, check_stream, min_cases=30),
        Space("methods", "sides with their own sampling method inside combinatorial generation", method_cases, check_method, min_cases=100),
        Space("results", "the result object: wrapper strings of length <= %d over 7 characters incl. newlines x 5 inner texts" % (6 if t else 5), lambda: api_cases(t), check_api, min_cases=10000),
    ]
