"""P17: a missing wildcard stays visible in the prompt and never breaks generation."""
import itertools
from pathlib import Path

from .common import *
from vlib import files

RULE = (
    "every template with missing wildcards in the bounded space is generated combinatorially, cyclically and for all outcomes of "
    "the random source and compared with the reference, where a wildcard without values is its marked name"
)
ASSUMPTIONS = ["a missing name is shown with the mark of the manager"]

M, E2 = Wc("nope"), Wc("a/b*c")
_w = {}


def spec():
    return {
        "w": [lit("p"), lit("q")],
        "empty": [],
        "inc": [seq("(", Wc("nope"), ")"), lit("k")],
        "only": [Wc("gone")],
        "deep": [seq(Wc("only"), "-", Wc("inc"))],
        "pv": [seq(Acc("x", lit("d")), Wc("nope"))],
    }


def ww(syn=DEFAULT):
    if syn not in _w:
        _w[syn] = env.make_world(spec(), syn)
    return _w[syn]


def run(node, st, modes="!@~", syn=DEFAULT, k=2, max_runs=1500):
    w, wm = ww(syn)
    text = render(node, syn)
    if "!" in modes:
        cmp.comb(node, w, wm, st, syn=syn)
    if "@" in modes and not any(type(x) is Wrap for x in walk(node)):
        cmp.cyc(node, w, wm, st, k=7, syn=syn)
    if "~" in modes:
        cmp.dist(node, w, wm, st, k=k, syn=syn, max_runs=max_runs)


def tree_cases(t):
    g = Grammar(lits=("a",), atoms=[M, Wc("w"), Wc("empty")], empty=True, bounds=lambda n: (None, "1-2", "2"), max_opts=2, max_parts=3)
    for n in g.upto(4 if t else 3):
        if has_missing(n):
            yield n


def has_missing(n):
    return any(type(x) is Wc and x.name in ("nope", "empty", "a/b*c") for x in walk(n))


def place_cases():
    for m in (M, E2, Wc("empty"), Wc("inc"), Wc("only"), Wc("deep"), Wc("pv"), Wc("nope", "", (("x", lit("1")),)), Wc("pv", "", (("x", lit("1")),))):
        yield m
        yield seq("a ", m)
        yield seq(m, " b")
        yield seq("a ", m, " b")
        yield Seq((m, m))
        yield Seq((m, lit(" "), Wc("w")))
        yield Seq((Wc("w"), lit(" "), m, lit(" "), var("1", "2")))
        for b in (None, "1", "2", "0", "0-1", "1-2", "2-3", "-1", "1-"):
            yield var(m, bound=b)
            yield Seq((lit("x"), var(m, bound=b), lit("y")))
            yield var(m, "z", bound=b)
            yield var("z", m, "y", bound=b, sep=None if b is None else " + ")
            yield var(m, m, bound=b)
        yield var(var(m), var(m, "z"))
        yield var(seq("o ", m), "z")
        yield var(("3", m), ("1", lit("z")))
        yield var("", m)
        for imm in (False, True):
            yield Seq((Asg("v", m, imm), Acc("v"), lit(" "), Acc("v")))
            yield Seq((Asg("v", var(m, "z"), imm), Acc("v"), lit(" "), Acc("v")))
            yield Seq((Asg("v", var(m), imm), Acc("v")))
        yield Acc("q", m)
        yield Wrap(m, lit("i"))
        yield Wrap(lit("<...>"), m)
        yield Wrap(var(m, "(...)"), var(m, "i"))


def method_cases():
    for mm in ("", "~", "@", "!"):
        for m in (Wc("nope", mm), Wc("empty", mm), Wc("inc", mm), Wc("only", mm)):
            yield m
            yield Seq((lit("a "), m, lit(" "), var("1", "2")))
            yield Seq((m, lit(" "), m))
            for vm in ("", "~", "@"):
                for b in (None, "1-2", "0-1"):
                    yield var(m, meth=vm, bound=b)
                    yield var(m, "z", meth=vm, bound=b)
                    yield Seq((var(m, "z", meth=vm, bound=b), lit(" "), var("1", "2")))
            yield Seq((Asg("v", m), Acc("v"), var("1", "2")))
            yield Wrap(lit("<...>"), m)


def check_method(node, st):
    w, wm = ww()
    cmp.dist(node, w, wm, st, k=9, m="!", max_runs=300)
    cmp.dist(node, w, wm, st, k=2, m="~", max_runs=300)
    if not any(type(x) is Wrap for x in walk(node)):
        cmp.dist(node, w, wm, st, k=4, m="@", max_runs=300)


SYNS = [Syn(wc="&&"), Syn(wc="=="), Syn(vs="<", ve=">"), Syn(wc="*w*")]


def syn_cases():
    for s in SYNS:
        for n in (M, seq("a ", M), var(M), var(M, "z"), Seq((M, Wc("w"))), Wc("inc"), Wc("deep"), var(M, bound="0-1"), Seq((Asg("v", M), Acc("v")))):
            yield (s, n)


def names_cases():
    for n in ("x", "x/y", "x y", "a_b", "_a", "x*", "**", "*/x", "x-1", "X.y", "deep/er/x", "?", "x,y", "\u00e9", "x/", "x//y", "x.txt", "-x", "x-", "1", "x y z", "d/*", "x[a]", "../x", "x..", "..", "x/y/z/", "X", "n-m", "x\u2026", "x::y", "x=y", "x:y", "x;y", "a&b", "x>y", "x\ty"):
        for form in (lambda m: m, lambda m: seq("a ", m, "."), lambda m: var(m), lambda m: var(m, "z"), lambda m: Seq((Asg("v", m), Acc("v")))):
            yield form(Wc(n))
    for n in ("x_", "_x_", "x/y_", "x_1_"):
        for form in (lambda m: m, lambda m: seq("a ", m, "."), lambda m: var(m), lambda m: var(m, "z"), lambda m: Seq((Asg("v", m), Acc("v")))):
            yield form(Wc(n, "", (("p", lit("1")),)))


def check_name(node, st):
    if "m" not in _w:
        _w["m"] = env.make_world({"present": []})
    w, wm = _w["m"]
    cmp.comb(node, w, wm, st)
    cmp.cyc(node, w, wm, st, k=3)
    cmp.dist(node, w, wm, st, k=2, max_runs=300)


def long_cases():
    for n in (M, Wc("empty"), Wc("inc"), Wc("only"), Wc("deep")):
        for f in (lambda m: m, lambda m: seq("a ", m), lambda m: var(m), lambda m: var(m, "z"), lambda m: Seq((Asg("v", m), Acc("v"))), lambda m: var(m, bound="0-1"), lambda m: seq(m, var("1", "2"))):
            for k in (130, 1050):
                yield (f(n), k)


def check_long(case, st):
    node, k = case
    w, wm = ww()
    text = render(node)
    e = ref.Env(w)
    for what, fn in (
        ("random", lambda: env.RandomPromptGenerator(wm, seed=4).generate(text, k)),
        ("cyclical", lambda: env.real_take(text, wm, "@", k)),
        ("seeded per prompt", lambda: env.RandomPromptGenerator(wm).generate(text, k, seeds=list(range(k)))),
    ):
        got = cmp.outcome(fn)
        st.add(1, k, 1)
        if got[0] != "ok" or len(got[1]) != k or any(not ref.match(node, e, p) for p in set(got[1])):
            raise Violation(f"{text!r}, {what}, {k} prompts: {cmp.fmt(got)}")


def dyn_cases():
    """names built from variables"""
    for v in ("nope", "w", "inc", "x/", "no pe"):
        for node in (Wc(Acc("v")), Wc(seq("no", Acc("v"))), Wc(Acc("v", lit("other"))), Wc(seq(Acc("v"), "/")), Wc(seq("d/", Acc("v"), "/e")), Wc(seq(Acc("v"), "-", Acc("v")))):
            if node == Wc(seq(Acc("v"), "/")) and v in ("w", "inc"):
                continue  # a slash at the end makes no difference
            for f in (lambda m: [m], lambda m: [lit("a "), m], lambda m: [var(m)], lambda m: [var(m, "z")], lambda m: [m, lit(" "), m]):
                yield Seq((Asg("v", lit(v)), *f(node)))
                yield Seq((Asg("o", lit(v)), *f(node)))


def file_cases():
    """a file that exists but has no values is missing; it stops being missing when written"""
    for body in ("", "\n\n", "# only a comment\n", "x\n"):
        for t in ("__f__", "a __f__ b", "{__f__}", "{__f__|z}", "{2$$__f__|z}", "{0-1$$__f__}", "__f__ __f__", "__d/f__", "__d/g__"):
            yield (body, t)


def check_file(case, st):
    body, t = case
    with files.tree({"f.txt": body, "d/g.txt": body, "o.txt": "other"}) as root:
        wm = env.WildcardManager(Path(root))
        missing = body != "x\n"
        name = lambda n: f"__{n}__" if missing or n == "d/f" else "x"
        exp = {
            "__f__": [name("f")], "a __f__ b": [f"a {name('f')} b"], "{__f__}": [name("f")], "{__f__|z}": [name("f"), "z"],
            "{2$$__f__|z}": [f"{name('f')},z", f"z,{name('f')}"], "{0-1$$__f__}": ["", name("f")], "__f__ __f__": [f"{name('f')} {name('f')}"],
            "__d/f__": [name("d/f")], "__d/g__": [name("d/g")],
        }[t]
        got = cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm).generate(t, 30))
        st.add(1, 1, 1)
        if got != ("ok", exp):
            raise Violation(f"file {body!r}, template {t!r}: got {cmp.fmt(got)}, expected {exp}")
        d = cmp.distribution(lambda: env.RandomPromptGenerator(wm).generate(t, 1), 200, st)
        if {k[1][0] if k[0] == "ok" else "error" for k in d if k != "#exc"} != set(exp):
            raise Violation(f"file {body!r}, template {t!r}: random gives {list(d)}, expected {exp}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("trees", "all templates of size <= %d with a missing or empty wildcard, bounds none, 1-2, 2; three methods" % (4 if t else 3), lambda: tree_cases(t), lambda c, st: run(c, st), min_cases=200, cpu=120),
        Space("places", "9 kinds of missing wildcards (also inside values, nested, with parameters) x ~60 places x bounds; three methods", place_cases, lambda c, st: run(c, st, max_runs=300), min_cases=500, cpu=120),
        Space("methods", "missing wildcards and their variants with their own sampling method; three methods", method_cases, check_method, min_cases=300, cpu=120),
        Space("delimiters", "other delimiters", syn_cases, lambda c, st: run(c[1], st, syn=c[0]), min_cases=36),
        Space("names", "44 names incl. globs and blanks x 5 places; three methods", names_cases, check_name, min_cases=70),
        Space("dynamic", "names built from variables", dyn_cases, lambda c, st: run(c, st), min_cases=50),
        Space("long", "5 missing wildcards x 7 places: 130 and 1050 prompts at random, cyclically and with seeds", long_cases, check_long, min_cases=70, cpu=120),
        Space("files", "files without values, recursive fallback", file_cases, check_file, min_cases=36),
    ]
