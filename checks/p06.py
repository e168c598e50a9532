"""P06: a sampler mark changes exactly the part it is written on."""
import itertools

from .common import *

RULE = (
    "every tree with sampler marks up to the stated size, sampled under each generation method by the real "
    "code over all outcomes of the random source; exact distribution of the first prompts vs. the reference"
)
ASSUMPTIONS = ["wildcards without weights"]

M = ("", "~", "@", "!")
WCS = [Wc("w", m) for m in M]
DET = 40  # prompts compared where nothing is random


def trees(size, lits=("a",), atoms=WCS, meths=M, **kw):
    return Grammar(lits=lits, atoms=atoms, meths=meths, empty=False, **kw).trees(size)


def marked(n):
    return any(getattr(x, "meth", "") for x in walk(n))


def has_random(n, gm):
    return gm == "~" or any(getattr(x, "meth", "") == "~" for x in walk(n))


def compare(node, st, k, max_runs, gms="!~@", ww=None, rnd=False):
    w, wm = ww or world()
    for gm in gms:
        if gm == "@" and any(type(x) is Wrap for x in walk(node)):
            continue
        if rnd or has_random(node, gm):
            kk = k if k else 7
            while kk > 0:
                if cmp.dist(node, w, wm, st, k=kk, m=gm, max_runs=max_runs if kk > 1 else 3000) is not False:
                    break
                st.skipped -= 1
                kk = kk - 1 if kk <= 3 else kk // 2
            else:
                st.skipped += 1
        else:
            text = render(node)
            want = cmp.ref_list(node, w, gm, DET)
            got = cmp.outcome(lambda: env.real_take(text, wm, gm, DET))
            st.add(1, DET, 1)
            if not cmp.same(want, got):
                raise Violation(f"{text!r} in mode {gm}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")


def check(case, st):
    compare(case, st, None, 60)


def check_deep(case, st):
    compare(case, st, None, 26)


def small_cases():
    for s in (1, 2, 3):
        yield from (n for n in trees(s, max_opts=3, max_parts=3) if marked(n))


def seq_cases(n):
    """sequences of marked and unmarked parts: independence and multiplication"""
    parts = [var("a", "b"), var("c", "d", meth="@"), var("e", "f", meth="~"), var("g", "h", meth="!"),
             Wc("w"), Wc("w", "@"), Wc("w", "~"), var("c", "d", "e", meth="@", bound="2"), lit(" ")]
    for k in range(2, n + 1):
        for ps in itertools.product(parts, repeat=k):
            if any(type(a) is Lit and type(b) is Lit for a, b in zip(ps, ps[1:])):
                continue
            if any(getattr(p, "meth", "") for p in ps):
                yield Seq(ps)


def nested_cases():
    inner = [var("a", "b", meth=m) for m in M] + [Wc("w", m) for m in M]
    for i, j in itertools.product(inner, repeat=2):
        for m in M:
            for n in (var(i, j, meth=m), var(i, "z", meth=m), var(i, meth=m), var(seq("k", i), "z", meth=m)):
                yield n
                yield seq(n, " ", var("1", "2"))


def bound_cases():
    inner = [var("a", "b", meth=m) for m in M]
    for i in inner:
        for m in M:
            for b in ("1-2", "2", "0-1", "0-2"):
                yield var(i, "z", bound=b, meth=m)
                yield var(i, var("x", "y"), bound=b, meth=m)
                yield seq(var(i, "z", bound=b, meth=m), "-", var("1", "2"))
    for m, m2 in itertools.product(M, repeat=2):
        for b in ("1-2", "2", "0-2"):
            yield var(Wc("w", m2), bound=b, meth=m)


def program_cases():
    """marks on variable values and around wildcard values and wraps"""
    vals = [var("1", "2", meth=m) for m in M] + [Wc("w", m) for m in M]
    for v in vals:
        for imm in (False, True):
            a = Asg("x", v, imm)
            for body in (
                [Acc("x")], [Acc("x"), lit("-"), Acc("x")], [Acc("x"), var("a", "b")],
                [var("a", "b"), Acc("x"), var("c", "d")], [var(Acc("x"), "z")],
                [var(Acc("x"), "z", meth="@")], [Acc("x"), Acc("x"), var("a", "b", "c")],
                [Wrap(lit("<...>"), Acc("x"))], [Wrap(var("<...>", "[...]"), Acc("x"))],
            ):
                yield Seq((a, *body))
    for v in vals:
        yield seq(Acc("x", v), var("a", "b"))
        yield Wrap(seq("<", v, "...>"), var("a", "b"))
        yield Wrap(lit("<...>"), v)
        yield seq(Wrap(lit("<...>"), v), var("a", "b"))
    for n in (3, 4):  # more choices than prompts
        for m in M:
            for v in (var(*"pqrs"[:n], meth=m), seq("k", var(*"pqrs"[:n], meth=m)), var(*"pqrs"[:n], meth=m, bound="2")):
                if type(v) is Seq and n > 3:
                    continue
                yield Wrap(lit("<...>"), v)
                yield Wrap(v, lit("i"))
                yield Wrap(var("<...>", "[...]"), v)
                yield seq(Wrap(lit("<...>"), v), var("a", "b"))
                yield var(Wrap(lit("<...>"), v), "z")
                yield Seq((Asg("x", v), Acc("x"), var("a", "b")))
                yield Seq((Asg("x", Wrap(lit("<...>"), v)), Acc("x"), lit(" "), Acc("x")))


def inwild_cases():
    for m, m2 in itertools.product(M, M):
        for kind in ("var", "wc"):
            for gm in "!~@":
                for i in range(8):
                    yield (m, m2, kind, gm, i)


def check_inwild(case, st):
    m, m2, kind, gm, i = case
    val = var("x", "y", meth=m2) if kind == "var" else Wc("in", m2)
    w, wm = env.make_world({"k": [val, lit("zz")], "in": [lit("x"), lit("y")], "kp": [seq(val, Acc("p")), lit("zz")]})
    node = (Wc("k", m), seq(Wc("k", m), " ", var("1", "2")), var(Wc("k", m), "q"), seq(Wc("k", m), Wc("k", m), var("1", "2")), var(Wc("k", m), bound="1-2"),
            Wc("kp", m, (("p", lit("1")),)), seq(Wc("kp", m, (("p", lit("1")),)), " ", var("1", "2")), var(Wc("kp", m, (("p", var("1", "2", meth=m2)),)), "q"))[i]
    compare(node, st, None, 60, gms=gm, ww=(w, wm), rnd="~" in (m, m2))


def same_cases():
    """identical marked parts beside each other, next to a long combinatorial part"""
    for m in "@~":
        for k in (2, 3):
            for p in (var("a", "b", "c", meth=m), Wc("w", m)):
                for sep in ("", "-"):
                    items = []
                    for _ in range(k):
                        items += [p] + ([lit(sep)] if sep else [])
                    yield seq(*items, var("1", "2", "3"))
                    yield seq(var("1", "2"), *items)
                    yield seq(*items)


def count_cases():
    for n in (1, 2, 3, 5):
        for m in "@~":
            for k in (1, 2):
                yield (n, m, k)


def check_count(case, st):
    """marks never multiply or cut the number of prompts of combinatorial generation"""
    n, m, k = case
    w, wm = world()
    big = var(*[f"o{i}" for i in range(n)])
    marks = [var("a", "b", "c", meth=m)] * k
    for node in (seq(big, *marks), seq(*marks, big), seq(big, *marks, big), Seq((*marks, big, *marks))):
        text = render(node)
        want = sum(1 for x in node.items if x is big)
        for kind, v in rng.explore_dev(lambda: env.CombinatorialPromptGenerator(wm).generate(text, None), 1):
            st.add(1, n, 1)
            if kind == "exc" or len(v) != n**want:
                raise Violation(f"{text!r}: expected {n**want} prompts, got {v if kind == 'exc' else len(v)}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("trees", "all trees of size <= 3 with marks none,~,@,! on variants and wildcards, <=3 options/parts; three generation methods", small_cases, check, min_cases=100),
        Space("trees4", "trees of size 4, <=2 options, <=3 parts%s" % ("" if t else ", one literal, wildcards unmarked and @"),
              (lambda: (n for n in trees(4, max_opts=2, max_parts=3, atoms=WCS if t else [Wc("w"), Wc("w", "@")]) if marked(n))), check_deep, min_cases=300),
        Space("sequences", "sequences of 2..%d of 9 marked/unmarked parts" % (3 if not t else 4), lambda: seq_cases(4 if t else 3), check_deep, min_cases=300),
        Space("nested", "marked parts inside marked variants, alone and beside a combinatorial part", nested_cases, check_deep, min_cases=300),
        Space("bounds", "marked options under bounds, marked lone wildcards", bound_cases, check_deep, min_cases=100),
        Space("programs", "marked variable values (immediate or not), defaults and wraps", program_cases, check_deep, min_cases=150),
        Space("in-wildcards", "marks inside and around wildcard values, with and without parameters", inwild_cases, check_inwild, min_cases=700),
        Space("identical", "two or three identical marked parts", same_cases, check_deep, min_cases=20),
        Space("counts", "number of combinatorial prompts with marked parts, every single deviation of the random source", count_cases, check_count, min_cases=16),
    ]
