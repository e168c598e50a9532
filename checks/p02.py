"""P02: random generation yields all and only the prompts the template denotes."""
from .common import *
from . import p01
import itertools

RULE = (
    "every tree up to the stated size; for each, every sequence of outcomes of the random "
    "source is executed on the real generator and the set of prompt lists compared with the reference's"
)
ASSUMPTIONS = ["weights are finite and not all zero"]


def real(wm, text, k, **kw):
    return lambda: env.RandomPromptGenerator(wildcard_manager=wm, **kw).generate(text, k)


def support(k, max_runs=4000):
    def run(case, st):
        w, wm = world()
        text = render(case)
        cmp.dist(case, w, wm, st, k=k, exact=False, make=real(wm, text, k), max_runs=max_runs)

    return run


def struct_cases(sizes, bounds=(None, "2", "0-2"), **kw):
    def it():
        a = dict(lits=("a", "b "), atoms=[Wc("w"), Wc("v")], bounds=lambda n: bounds, max_parts=3)
        a.update(kw)
        g = Grammar(**a)
        for s in sizes:
            yield from g.trees(s)

    return it


def weighted_cases(t):
    """options of weight 0 among options of positive weight, all bounds"""
    for n in (2, 3, 4):
        for ws in itertools.product((None, "0", "0.5"), repeat=n):
            for b in all_bounds(n):
                yield var(*[(w, lit("abcd"[i])) for i, w in enumerate(ws)], bound=b)
    for n in (2, 3):  # tiny and huge weights are positive weights
        for ws in itertools.product((None, "0.0009765625", "0.000030517578125", "1048576"), repeat=n):
            for b in all_bounds(n):
                yield var(*[(w, lit("abcd"[i])) for i, w in enumerate(ws)], bound=b)
    g = Grammar(lits=("a", "b"), atoms=[Wc("z"), Wc("g")], weights=(None, "0"), bounds=lambda n: (None, "2", "1-2"),
                max_parts=2, max_opts=3, empty=False)
    yield from g.upto(4 if t else 3)
    for b in all_bounds(3):
        for nm in ("z", "g", "f"):
            yield var(Wc(nm), bound=b)


def check_weighted(case, st):
    from .p03 import ok_node

    w, wm = world("weighted")
    if ok_node(case, w):
        cmp.dist(case, w, wm, st, k=1, exact=False, make=real(wm, render(case), 1), max_runs=2000)


def long_cases():
    """many prompts in one call"""
    parts = [lit("x"), var("a", "b", "c"), Wc("w"), Wc("v"), Wc("nope"), var("a", "b", "c", bound="0-2"),
             var(Wc("w"), bound="1-2"), var("a", meth="@"), var("a", "b", meth="@"), Wc("w", "@"), Acc("x", var("1", "2")), var("a", Wc("w"))]
    for a in parts:
        yield (a, 1100)
        for b in parts:
            yield (seq(a, " ", b), 260)
        yield (Seq((Asg("q", a), Acc("q"), lit(" "), Acc("q"))), 260)
        yield (Seq((Asg("q", a, True), Acc("q"), lit(" "), Acc("q"))), 260)


def check_long(case, st):
    node, k = case
    w, wm = world()
    text = render(node)
    got = cmp.outcome(lambda: env.RandomPromptGenerator(wm, seed=1).generate(text, k))
    st.add(1, k, 1)
    if got[0] != "ok":
        raise Violation(f"{text!r}, {k} prompts: {got[1]}")
    if len(got[1]) != k:
        raise Violation(f"{text!r}: asked for {k} prompts, got {len(got[1])}")
    e = ref.Env(w)
    if any(type(x) is Asg and x.imm for x in walk(node)):
        if len(set(got[1])) != 1:
            raise Violation(f"{text!r}: an immediate variable changes between prompts: {sorted(set(got[1]))[:5]}")
        return
    for p in set(got[1]):
        if not ref.match(node, e, p):
            raise Violation(f"{text!r}: {p!r} is not a prompt of the template")


def program_cases():
    body = Grammar(lits=("a ",), atoms=[Acc("x"), Acc("y", lit("d")), Wc("w")],
                   max_opts=2, max_parts=2, wraps=True, empty=False)
    values = [lit("1"), var("1", "2"), Wc("w"), seq("k", var("1", "2"))]
    for v in values:
        for imm in (False, True):
            for n in body.upto(4 if v == values[1] else 3):
                if any(type(x) is Acc for x in walk(n)):
                    yield Seq((Asg("x", v, imm), n))


def count_cases():
    g = Grammar(lits=("a", "b"), atoms=[Wc("w"), Wc("dup")], bounds=lambda n: (None, "0-2"), max_parts=2)
    for n in g.upto(3):
        for k in (0, 1, 2, 3, 4):
            yield (n, k)


def check_count(case, st):
    """Exactly the requested number, whatever the first outcomes are."""
    node, k = case
    w, wm = world()
    text = render(node)
    lang = set(ref.take(node, w, ref.C, 500)) if not _dups(node) else None
    for kind, v in rng.explore_dev(lambda: env.RandomPromptGenerator(wm).generate(text, k), 1):
        st.add(1, k, 1)
        if kind == "exc":
            raise Violation(f"{text!r}: {type(v).__name__}: {v}")
        if len(v) != k:
            raise Violation(f"{text!r}: asked for {k} prompts, got {len(v)}")
        for p in v:
            if not ref.match(node, ref.Env(w), p) and "" not in [o for n in walk(node) if type(n) is Var for o in [render(x[1]) for x in n.opts]]:
                raise Violation(f"{text!r}: {p!r} is not a prompt of the template")


def _dups(n):
    return True


def scale_cases():
    for n in p01.scale_cases():
        if not any(type(x) is Wc and x.name == "huge" for x in walk(n)):  # too many outcomes
            yield n


def check_scale(case, st):
    w, wm = p01.big_world()
    text = render(case)
    e = ref.Env(w)
    if len(text) < 60:
        fn = lambda: env.RandomPromptGenerator(wm).generate(text, 2)  # noqa: E731
    else:  # parsing dominates: parse once
        cmd = env.parse(text)
        fn = lambda: [str(x) for x in env.context(wm, "~").sample_prompts(cmd, 2)]  # noqa: E731
    for kind, v in rng.explore_dev(fn, 1, max_positions=40):
        st.add(1, 2, 1)
        if kind == "exc":
            raise Violation(f"{text[:200]!r}: {type(v).__name__}: {v}")
        if len(v) != 2:
            raise Violation(f"{text[:200]!r}: asked for 2 prompts, got {len(v)}")
        for p in v:
            if not ref.match(case, e, p):
                raise Violation(f"{text[:200]!r}: {p!r} is not a prompt of the template")


def reach_cases():
    """every option of a long variant / wildcard can be produced"""
    for n in (5, 6, 7, 8, 9, 10, 11, 17, 32, 33, 65, 101, 129, 257):
        yield ("var", n)
        yield ("wc", n)
        yield ("wvar", n)


def check_reach(case, st):
    kind, n = case
    names = [f"o{i:03d}" for i in range(n)]
    w, wm = env.make_world({"k": [lit(x) for x in names]})
    node = {"var": var(*names), "wc": Wc("k"), "wvar": var(Wc("k"))}[kind]
    text = render(seq("<", node, ">"))
    cmd = env.parse(text)
    make = real(wm, text, 1)
    if n > 17:
        make = lambda: [str(x) for x in env.context(wm, "~").sample_prompts(cmd, 1)]  # noqa: E731
    cmp.dist(seq("<", node, ">"), w, wm, st, k=1, make=make, exact=True)


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("one-prompt", "trees of size <= %d over a,'b ',empty,w,v; bounds none,2,0-2; <=3 options, <=3 parts; all random outcomes, 1 prompt" % (4 if t else 3),
              struct_cases((1, 2, 3, 4) if t else (1, 2, 3)), support(1), min_cases=300),
        Space("one-prompt-4", "trees of size %d, one literal, one wildcard, bounds none and 0-2" % (5 if t else 4),
              struct_cases((5,) if t else (4,), (None, "0-2"), lits=("a",), atoms=[Wc("v")], max_opts=3), support(1, 2000), min_cases=300),
        Space("two-prompts", "trees of size <= 3, default bounds; all random outcomes, 2 prompts",
              struct_cases((1, 2, 3), (None,), lits=("a",), max_parts=2), support(2), min_cases=50),
        Space("weighted", "variants of 2..4 options with weights none,0,0.5, of 2..3 with 2^-10,2^-15,2^20, and every bound, trees of size <= %d with zero weights and weighted wildcards, lone weighted wildcards with every bound; all random outcomes" % (4 if t else 3),
              lambda: weighted_cases(t), check_weighted, min_cases=3000),
        Space("long", "12 kinds of parts and their pairs and variables: 260 to 1100 prompts in one call (membership and count)", long_cases, check_long, min_cases=180, cpu=120),
        Space("programs", "assignment (4 values, immediate or not) before trees of size <= 3/4 with accesses, defaults, wraps; all outcomes",
              program_cases, support(1), min_cases=300),
        Space("counts", "trees of size <= 3, 0..4 prompts, every single deviation from three fixed outcome policies", count_cases, check_count, min_cases=500),
        Space("scale", "long/wide/deep templates, 2 prompts, every single deviation from three outcome policies, membership decided by a matcher",
              scale_cases, check_scale, min_cases=80, cpu=120),
        Space("words", "pairs and triples of 11 words that resemble each other; all outcomes of 1 prompt", word_cases, support(1), min_cases=1000),
        Space("reach", "variants and wildcards of up to 257 values: exact distribution over all outcomes", reach_cases, check_reach, min_cases=40, cpu=120),
    ]
