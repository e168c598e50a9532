"""P01: combinatorial generation is complete, ordered, repeat-free, finite."""
import itertools

from .common import *

RULE = (
    "every tree up to the stated size is rendered, generated combinatorially by the real "
    "generator with several prompt limits and compared to the reference list"
)
ASSUMPTIONS = ["wildcards without weights"]

ATOMS = [Wc("w"), Wc("v"), Wc("dup")]


def check(case, st, cuts="few"):
    w, wm = world()
    cmp.comb(case, w, wm, st, cuts=cuts)


def check_all(case, st):
    check(case, st, "all")


def struct_cases(size):
    g = Grammar(lits=("a", "b "), atoms=ATOMS)
    return lambda: g.upto(size)


def bound_cases(size, bounds):
    g = Grammar(
        lits=("a", "b"), atoms=[Wc("w")], bounds=bounds, seps=(None, " and "), max_parts=2
    )

    def it():
        for n in g.upto(size):
            if any(type(x) is Var and x.bound for x in walk(n)):
                yield n

    return it


def var_cases():
    """assignments, accesses with and without defaults, wraps"""
    body = Grammar(
        lits=("a ",),
        atoms=[Acc("x"), Acc("y", lit("d")), Wc("w")],
        max_opts=2,
        max_parts=3,
        wraps=True,
        empty=False,
    )
    values = [lit("1"), var("1", "2"), Wc("w"), seq("k", var("1", "2"))]
    for v in values:
        for imm in (False, True):
            for n in body.upto(4 if v == values[1] else 3):
                if any(type(x) is Acc for x in walk(n)):
                    yield Seq((Asg("x", v, imm), n))


def scale_cases():
    def L(n, p="o"):
        return [f"{p}{i}" for i in range(n)]

    for k in (1, 2, 3, 5, 8, 11):  # sequence lengths of binary variants
        yield seq(*[var("0", "1") for _ in range(k)])
        yield seq(*[x for _ in range(k) for x in (var("0", "1"), "-")])
    for n in (4, 5, 6, 7, 9, 10, 12, 16, 33, 64, 101, 130, 260):
        yield var(*L(n))
        yield seq("x ", var(*L(n)), " ", var("a", "b", "c"))
    for n in (4, 5, 6):
        for b in ("2", "3", "4", "5", "1-3", "0-4", "3-", "-3", "4-2", str(n), f"{n}-{n+3}"):
            yield var(*L(n), bound=b, sep=" & ")
            yield seq(var(*L(n), bound=b), " ", var("1", "2"))
    yield var(*L(7), bound="3")
    yield var(*L(7), bound="6-7")
    for d in (2, 3, 5, 8, 12, 20):  # nesting depth
        n = var("z", "y")
        for i in range(d):
            n = var(f"l{i}", n)
        yield n
        n = lit("z")
        for i in range(d):
            n = var(seq(f"l{i}", n), "e")
        yield n
    for d in (1, 2, 3, 4, 6, 8):  # single-option nesting
        n = var("z", "y")
        for i in range(d):
            n = var(n)
        yield n
    yield seq(var(*L(30)), var(*L(30, "p")), var(*L(30, "q")))
    yield seq(*[var(*L(12, c)) for c in "abcdefghij"])
    yield Wc("huge")
    yield var(Wc("huge"))
    yield seq(Wc("huge"), " ", Wc("w"))
    yield seq(Wc("w"), " ", Wc("huge"))
    for n in (50, 200):
        yield seq(*[x for i in range(n) for x in (lit(f"l{i} "), var("a", "b") if i % (n // 4) == 0 else var("c"))])
        yield seq("x ", var(*[seq(*[f"w{i} " for i in range(n)], var("e", "f")), "g"]))
    yield seq(*[x for i in range(40) for x in (Wc("one"), " ")], Wc("w"))
    yield seq("A ", Wc("big"))
    yield seq(Wc("big"), " ", var("x", "y"))
    yield var(Wc("big"), bound="2")
    yield var(Wc("big"), "x")
    yield seq(Wc("chain0"), "!", Wc("w"))
    yield seq(*[Wc("w") for _ in range(9)])
    yield seq(*[x for _ in range(6) for x in (Wc("w"), " ")])
    yield var(Wc("w"), Wc("v"), bound="2")
    yield var(Wc("w"), Wc("w"), bound="2", sep=" + ")
    yield var(Wc("w"), Wc("w"), Wc("w"), bound="2")
    yield var(Wc("v"), bound="1-2")
    yield var(Wc("v"), bound="2", sep="; ")


def weight_cases():
    """weights of options do not matter here, not even zero"""
    for n in (1, 2, 3):
        for ws in itertools.product((None, "0", "0.5", "3"), repeat=n):
            if not any(ws):
                continue
            for b in (None, "2", "0-2", "1-3"):
                yield Var(tuple((w, lit(x)) for w, x in zip(ws, "abc")), b)
                if n == 2:
                    yield Var(tuple((w, x) for w, x in zip(ws, (var("a", "b"), Wc("w")))), b)
    g = Grammar(lits=("a", "b"), atoms=[Wc("w")], weights=(None, "0", "2"), max_opts=2, max_parts=2)
    for n in g.upto(4):
        if any(type(x) is Var and any(w for w, _ in x.opts) for x in walk(n)):
            yield n


def repeat_cases():
    g = Grammar(lits=("a",), atoms=[Wc("w"), Wc("v"), Wc("u")], max_parts=2, max_opts=2)
    yield from g.upto(3)


def check_repeats(case, st):
    w, wm = world("repeats")
    cmp.comb(case, w, wm, st)


_big = None


def big_world():
    global _big
    if _big is None:
        spec = WORLDS["std"]()
        spec["big"] = [lit(f"v{i:03d}") for i in range(150)]
        spec["huge"] = [lit(f"h{i:04d}") for i in range(1300)]
        for i in range(8):
            spec[f"chain{i}"] = [lit(f"c{i}"), seq(Wc(f"chain{i+1}"), "'")]
        spec["chain8"] = [lit("end"), var("e1", "e2")]
        _big = env.make_world(spec)
    return _big


def check_scale(case, st):
    w, wm = big_world()
    cmp.comb(case, w, wm, st)


def lazy_cases():
    for parts, opts, k in [(12, 10, 7), (20, 6, 25), (9, 30, 1001), (6, 40, 0)]:
        yield (parts, opts, k)


def check_lazy(case, st):
    """A limit is honoured without walking the (astronomic) rest of the space."""
    parts, opts, k = case
    node = seq(*[var(*[f"{c}{i}" for i in range(opts)]) for c in "abcdefghijklmnopqrst"[:parts]])
    w, wm = world()
    want = ref.take(node, w, ref.C, k)
    got = env.CombinatorialPromptGenerator(wm).generate(render(node), k)
    st.add(1, k, 1)
    if want != got:
        raise Violation(f"first {k} of {parts}x{opts}: expected {want[:5]}…, got {got[:5]}… ({len(got)})")


def huge_cases():
    yield from [(41, 3, None), (2, 17, None), (17, 4, 83521), (5000, 1, None), (70, 2, 4899), (70, 2, 4901), (70, 2, 4900), (12, 4, 20735)]


def check_huge(case, st):
    """long lists to their end"""
    opts, parts, k = case
    text = "".join("{" + "|".join(f"{c}{i}" for i in range(opts)) + "}" for c in "abcdefghijklmnopq"[:parts])
    got = env.CombinatorialPromptGenerator(world()[1]).generate(text, k)
    st.add(1, len(got), 1)
    want = list(itertools.islice(("".join(p) for p in itertools.product(*[[f"{c}{i}" for i in range(opts)] for c in "abcdefghijklmnopq"[:parts]])), k))
    if got != want:
        at = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Violation(f"{parts} variants of {opts} options, limit {k}: {len(got)} prompts instead of {len(want)}, first difference at {at}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("limits", f"trees of size <= {4 if t else 3} over literals a,'b ',empty and wildcards w,v,dup; <=3 options, <=3 parts; every prompt limit",
              struct_cases(4 if t else 3), check_all, min_cases=150),
        Space("structures", "trees of size 4 over the same alphabet; limits 0,1,2,half,n-1,n+3,none",
              lambda: Grammar(lits=("a", "b "), atoms=ATOMS).trees(4), check, min_cases=500),
        Space("structures5", f"trees of size {'<= 6 (two wildcards)' if t else '5, one wildcard, <=2 options'}",
              (lambda: Grammar(lits=("a", "b"), atoms=[Wc("w")], max_opts=3).trees(6)) if t
              else (lambda: Grammar(lits=("a",), atoms=[Wc("w")], max_opts=2).trees(5)),
              check, min_cases=500),
        Space("bounds", "trees of size <= 4 with bounds None,2,0-2,1-2,-1,2-1 and separators",
              bound_cases(5 if t else 4, (lambda n: (None, "2", "0-2", "2-1")) if t else lambda n: (None, "2", "0-2", "1-3")),
              check, min_cases=500),
        Space("programs", "one assignment (4 values, immediate or not) before trees of size <= 3 (4 for a variant value) with accesses, defaults, wraps",
              var_cases, check, min_cases=500),
        Space("weights", "variants of 1..3 options with weights none,0,0.5,3 and four bounds; trees of size <= 4 with weights none,0,2", weight_cases, check, min_cases=500),
        Space("repeats", "trees of size <= 3 over wildcards with equal values (de-duplication off)", repeat_cases, check_repeats, min_cases=50),
        Space("words", "pairs and triples of 11 words that resemble each other (reversed, prefixes, letter case, blanks)", word_cases, check, min_cases=1000),
        Space("scale", "long sequences, many options, deep nesting, 150-value wildcard, wildcard chains", scale_cases, check_scale, min_cases=80),
        Space("lazy", "limits on products of up to 40^6 prompts", lazy_cases, check_lazy, min_cases=4),
        Space("huge", "products of up to 131072 prompts, to the end and up to limits around it", huge_cases, check_huge, min_cases=8),
    ]
