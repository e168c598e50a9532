"""P24: templates built from command objects generate what their written form denotes."""
import itertools
from fractions import Fraction

from .common import *

from dynamicprompts.commands import (
    LiteralCommand,
    SequenceCommand,
    VariantCommand,
    VariantOption,
    WildcardCommand,
    WrapCommand,
)
from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand

RULE = (
    "every template up to the stated size is built from command objects by our own builder, in several ways, and sampled "
    "by the real code in each method (all outcomes of the random source); compared with the reference interpreter"
)
ASSUMPTIONS = [
    "wildcards without weights outside random generation; wraps are not supported cyclically",
    "a separator of a sequence is judged between parts that are not blank",
]


def meth(m):
    return env.METHOD.get(m)


def raw_bounds(n):
    """(min, max) as written, without cutting down or swapping (None: as the text form)."""
    if n.bound is None:
        return 1, 1
    b, k = n.bound, len(n.opts)
    if "-" not in b:
        return int(b), int(b)
    lo, hi = b.split("-")
    return int(lo) if lo else 1, int(hi) if hi else k


def build(n, style=0):
    """style 0: plain constructors; 1: the from_... constructors and other spellings."""
    t = type(n)
    if t is Lit:
        return LiteralCommand(n.text)
    if t is Seq:
        if style:
            return SequenceCommand.from_literals([x.text if type(x) is Lit else build(x, style) for x in n.items])
        return SequenceCommand([build(x, style) for x in n.items])
    if t is Var:
        lo, hi = raw_bounds(n)
        sep = "," if n.sep is None else n.sep
        ws = [1.0 if w is None else float(w) for w, _ in n.opts]
        if style and all(type(o) is Lit for _, o in n.opts):
            if all(w is None for w, _ in n.opts):
                return VariantCommand.from_literals_and_weights([o.text for _, o in n.opts], min_bound=lo, max_bound=hi, separator=sep, sampling_method=meth(n.meth))
            return VariantCommand.from_literals_and_weights([o.text for _, o in n.opts], ws, lo, hi, sep, meth(n.meth))
        if style:
            return VariantCommand([VariantOption(build(o, style)) if w is None else VariantOption(value=build(o, style), weight=x) for (w, o), x in zip(n.opts, ws)], hi, lo, sep, meth(n.meth))
        return VariantCommand([VariantOption(build(o, style), x) for (w, o), x in zip(n.opts, ws)], min_bound=lo, max_bound=hi, separator=sep, sampling_method=meth(n.meth))
    if t is Wc:
        name = LiteralCommand(n.name) if style else n.name
        return WildcardCommand(name, sampling_method=meth(n.meth), variables={k: build(v, style) for k, v in n.params})
    if t is Acc:
        return VariableAccessCommand(n.name, None if n.default is None else build(n.default, style))
    if t is Asg:
        return VariableAssignmentCommand(n.name, build(n.value, style), immediate=n.imm, overwrite=not n.keep)
    if t is Wrap:
        return WrapCommand(build(n.wrapper, style), build(n.inner, style))
    raise TypeError(n)


def repeated(n):
    seen = set()
    for x in walk(n):
        if x in seen:
            return True
        seen.add(x)
    return False


def shared(n, memo):
    """equal parts are one and the same object"""
    if n not in memo:
        t = type(n)
        if t is Seq:
            memo[n] = SequenceCommand([shared(x, memo) for x in n.items])
        elif t is Var:
            lo, hi = raw_bounds(n)
            opts = [memo.setdefault((w, o), VariantOption(shared(o, memo), 1.0 if w is None else float(w))) for w, o in n.opts]
            memo[n] = VariantCommand(opts, lo, hi, "," if n.sep is None else n.sep, meth(n.meth))
        elif t is Asg:
            memo[n] = VariableAssignmentCommand(n.name, shared(n.value, memo), immediate=n.imm, overwrite=not n.keep)
        elif t is Wrap:
            memo[n] = WrapCommand(shared(n.wrapper, memo), shared(n.inner, memo))
        else:
            memo[n] = build(n)
    return memo[n]


def repeat_cases():
    """equal options and parts, three or more, under every bound"""
    parts = [lit("a"), lit("b"), var("x", "y"), Wc("w"), var("x", "y", meth="@")]
    for n in (2, 3):
        for c in itertools.product(parts, repeat=n):
            if len(set(c)) < n:
                for b in (None, "2", "1-2", "0-3"):
                    if n == 3 and b in ("0-3", "1-2") and sum(type(x) is not Lit for x in c) > 1:
                        continue
                    yield var(*c, bound=b)
                yield seq(*[y for x in c for y in (x, "-")])


def sample(cmd, wm, m, k, **kw):
    return [str(r) for r in env.context(wm, m, **kw).sample_prompts(cmd, k)]


def compare(node, cmd, st, what, ws="std", gms="!@~", max_runs=300, k=20, vars=None):
    w, wm = world(ws)
    kw = {} if vars is None else {"variables": {a: build(b) for a, b in vars.items()}}
    for m in gms:
        if m == "@" and any(type(x) is Wrap for x in walk(node)):
            continue
        rnd = m == "~" or any(getattr(x, "meth", "") == "~" for x in walk(node))
        if rnd:
            cmp.dist(node, w, wm, st, k=2, max_runs=max_runs, text=what, m=m, make=lambda: sample(cmd, wm, m, 2, **kw), vars=vars) is not False or cmp.dist(
                node, w, wm, st, k=1, max_runs=4000, text=what, m=m, make=lambda: sample(cmd, wm, m, 1, **kw), vars=vars
            )
            continue
        want = cmp.ref_list(node, w, m, k, vars)
        got = cmp.outcome(lambda: sample(cmd, wm, m, k, **kw))
        st.add(1, k, 1)
        if not cmp.same(want, got):
            raise Violation(f"{what}, method {m}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")


def check(**kw):
    def run(case, st):
        text = render(case)
        for style in (0, 1, 2):
            if style == 2 and not repeated(case):
                continue
            compare(case, build(case, 0) if style == 0 else build(case, 1) if style == 1 else shared(case, {}), st, f"commands (style {style}) for {text!r}", **kw)

    return run


def tree_cases(size, **kw):
    a = dict(lits=("a", "b "), atoms=[Wc("w"), Wc("v")], max_opts=2, max_parts=2, bounds=lambda n: (None, "2", "0-2"), meths=("", "@"))
    a.update(kw)
    return lambda: Grammar(**a).upto(size)


def weight_cases():
    for n in (2, 3):
        for ws in itertools.product((None, "0", "0.5", "3"), repeat=n):
            if all(w == "0" for w in ws):
                continue
            yield Var(tuple((w, lit(x)) for w, x in zip(ws, "abc")))
            yield Var(tuple((w, x) for w, x in zip(ws, (var("a", "b"), Wc("w"), lit("c")))))
            if not any(w == "0" for w in ws):
                for b in ("2", "0-2", "1-3", "3-1"):
                    yield Var(tuple((w, lit(x)) for w, x in zip(ws, "abc")), b, " + ")


def bound_cases():
    """bounds as numbers, also negative, reversed and beyond the number of options"""
    for n in (1, 2, 3):
        for lo in range(-2, n + 3):
            for hi in range(-2, n + 3):
                for sep in (",", " and ", ""):
                    yield (n, lo, hi, sep)


def check_bound(case, st):
    n, lo, hi, sep = case
    a, b = sorted((lo, hi))
    a, b = (min(max(x, 0), n) for x in (a, b))
    node = var(*"xyz"[:n], bound=f"{a}-{b}", sep=sep)
    for how, cmd in (
        ("options", VariantCommand([VariantOption(LiteralCommand(x)) for x in "xyz"[:n]], lo, hi, sep)),
        ("literals", VariantCommand.from_literals_and_weights(list("xyz"[:n]), None, lo, hi, sep)),
        ("in a sequence", SequenceCommand([VariantCommand([VariantOption(LiteralCommand(x)) for x in "xyz"[:n]], max_bound=hi, min_bound=lo, separator=sep)])),
    ):
        compare(node, cmd, st, f"{n} options from {how}, bounds {lo}, {hi}, separator {sep!r}", max_runs=60)


def wild_bound_cases():
    for lo in range(-1, 4):
        for hi in range(-1, 5):
            for name in ("w", "one", "v"):
                yield (name, lo, hi)


def check_wild_bound(case, st):
    name, lo, hi = case
    a, b = sorted((lo, hi))
    a, b = max(a, 0), max(b, 0)
    node = var(Wc(name), bound=f"{a}-{b}", sep=" ")
    compare(node, VariantCommand([VariantOption(WildcardCommand(name))], lo, hi, " "), st, f"a lone wildcard {name}, bounds {lo}, {hi}", max_runs=60)


def program_cases():
    body = Grammar(lits=("a ",), atoms=[Acc("x"), Acc("y", lit("d")), Acc("z")], max_opts=2, max_parts=2, wraps=True, empty=False)
    for v in (lit("1"), var("1", "2"), Wc("w"), var("1", "2", meth="@"), seq("k", var("1", "2")), seq(var("1", "2"), Wc("w"))):
        for imm, keep in itertools.product((False, True), repeat=2):
            for n in body.upto(3):
                if any(type(x) is Acc for x in walk(n)):
                    yield Seq((Asg("x", v, imm, keep), n))


def outside_cases():
    """variables given as commands by the caller"""
    for x in (lit("1"), var("1", "2"), Wc("w"), Acc("y"), Acc("y", lit("d"))):
        for y in (None, lit("2"), var("3", "4")):
            for n in (Acc("x"), seq(Acc("x"), "-", Acc("x")), var(Acc("x"), "z"), seq(Asg("x", lit("n"), False, True), Acc("x")), seq(Asg("x", lit("n")), Acc("x")), seq(Acc("x", lit("q")), Acc("y", lit("r"))), Wc("par", "", (("p", Acc("x")),))):
                yield (x, y, n)


def check_outside(case, st):
    x, y, n = case
    vars = {"x": x} if y is None else {"x": x, "y": y}
    w, wm = _par()
    for m in "!@~":
        kw = {"variables": {a: build(b) for a, b in vars.items()}}
        before = repr(kw)
        if m == "~":
            for k in (2, 1):
                if cmp.dist(n, w, wm, st, k=k, max_runs=2000, text=f"{render(n)!r} with {vars}", m=m, make=lambda: sample(build(n), wm, m, k, **kw), vars=vars) is not False:
                    break
        else:
            want = cmp.ref_list(n, w, m, 12, vars)
            got = cmp.outcome(lambda: sample(build(n), wm, m, 12, **kw))
            st.add(1, 12, 1)
            if not cmp.same(want, got):
                raise Violation(f"{render(n)!r} with variables {vars}, method {m}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")
        if repr(kw) != before:
            raise Violation(f"{render(n)!r}: the caller's variables changed from {before} to {kw!r}")


_p = None


def _par():
    global _p
    if _p is None:
        _p = env.make_world({"w": [lit("p"), lit("q")], "par": [seq("<", Acc("p"), ">"), lit("k")]})
    return _p


PARTS = [lit("a"), lit("b c"), var("1", "2"), Wc("w"), var("x", "y", bound="2"), seq("m", var("3", "4"))]


def sep_cases():
    for k in (1, 2, 3):
        for ps in itertools.product(PARTS, repeat=k):
            for sep in ("", " ", ", ", "-"):
                for m in ("", "!", "@", "~"):
                    yield (ps, sep, m)
    # parts in the middle that are, or may be, empty
    for k in (1, 2):
        for mid in itertools.product([lit(""), var("", "k"), var("", ""), lit("m")], repeat=k):
            if any(x != lit("m") for x in mid):
                for a, b in itertools.product((lit("a"), var("1", "2")), (lit("b"), Wc("w"))):
                    for sep in (" ", ", ", "-"):
                        for m in ("", "!", "@", "~"):
                            yield ((a, *mid, b), sep, m)


def check_sep(case, st):
    """sequences with a separator and a method of their own"""
    ps, sep, m = case
    items = []
    for i, p in enumerate(ps):
        if i and sep:
            items.append(lit(sep))
        items.append(p)
    node = items[0] if len(items) == 1 else Seq(tuple(items))
    for style in (0, 1):
        toks = [p.text if style and type(p) is Lit else build(p, style) for p in ps]
        cmd = (SequenceCommand.from_literals if style else SequenceCommand)(toks, separator=sep, sampling_method=meth(m))
        w, wm = world()
        for gm in "!@~":
            # a finite method inside a non-finite one has no effect
            eff = gm if not m or (m == "!" and gm != "!") else m
            if eff == "~":
                cmp.dist(node, w, wm, st, k=1, max_runs=300, text=f"{len(ps)} parts {render(node)!r} separated by {sep!r}, style {style}", m=eff, make=lambda: sample(cmd, wm, gm, 1))
                continue
            want = cmp.ref_list(node, w, eff, 12)
            got = cmp.outcome(lambda: sample(cmd, wm, gm, 12))
            st.add(1, 12, 1)
            if not cmp.same(want, got):
                raise Violation(f"{len(ps)} parts {render(node)!r} separated by {sep!r} (style {style}), sequence method {m!r} in {gm}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")


WRAPPERS = [lit("<...>"), lit("... k"), var("<...>", "(...)"), lit("none")]
INNERS = [lit("a"), var("a", "b"), var("a", "b", meth="~"), Wc("w"), seq("m", var("1", "2"))]


def wrap_cases():
    for o, i in itertools.product(WRAPPERS, INNERS):
        for m in "!~":
            for around in ("alone", "part", "option", "inner"):
                yield (o, i, m, around)


def check_wrap(case, st):
    """a wrap with a method of its own"""
    o, i, m, around = case
    node = Wrap(o, i)
    w, wm = world()
    for style in (0, 1):
        cmd = WrapCommand(build(o, style), build(i, style), meth(m))
        if around == "part":
            cmd, full = SequenceCommand([LiteralCommand("x "), cmd]), seq("x ", node)
        elif around == "option":
            cmd, full = VariantCommand([VariantOption(cmd)]), var(node)
        elif around == "inner":
            cmd, full = WrapCommand(LiteralCommand("[...]"), cmd), Wrap(lit("[...]"), node)
        else:
            full = node
        for gm in "!~":
            eff = "~" if gm == "~" else m
            what = f"a wrap marked {m} ({around}, style {style}) of {render(i)!r} in {render(o)!r}, in {gm}"
            if eff == "~" or any(getattr(x, "meth", "") == "~" for x in walk(i)):
                cmp.dist(full, w, wm, st, k=1, max_runs=400, text=what, m=eff, make=lambda: sample(cmd, wm, gm, 1))
                continue
            want = cmp.ref_list(full, w, gm, 12)
            got = cmp.outcome(lambda: sample(cmd, wm, gm, 12))
            st.add(1, 12, 1)
            if not cmp.same(want, got):
                raise Violation(f"{what}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")


TEXTS = ["{a|b}", "__w__", "${x}", "# no", "a\tb", "", " ", "}", "2::a", "1$$b", "%{a$$b}", "|", "é\n", "__", "$", "//x"]


def text_cases():
    """text in command objects is plain text, whatever it looks like"""
    for t in TEXTS:
        for u in TEXTS:
            yield (t, u)


def check_text(case, st):
    t, u = case
    w, wm = world()
    forms = [
        (LiteralCommand(t), [t]),
        (SequenceCommand([LiteralCommand(t), LiteralCommand(u)]), [t + u]),
        (SequenceCommand.from_literals([t, "-", u]), [t + "-" + u]),
        (VariantCommand.from_literals_and_weights([t, u]), [t, u] if t != u else None),
        (WrapCommand(LiteralCommand("<...>"), LiteralCommand(t)), ["<" + t + ">"]),
        (SequenceCommand([VariableAssignmentCommand("x", LiteralCommand(t), True), VariableAccessCommand("x"), VariableAccessCommand("y", LiteralCommand(u))]), [t + u]),
    ]
    for cmd, want in forms:
        if want is None:
            continue
        got = cmp.outcome(lambda: sample(cmd, wm, "!", 5))
        st.add(1, 1, 1)
        if got != ("ok", want):
            raise Violation(f"{cmd!r}: expected {want}, got {cmp.fmt(got)}")
        d = cmp.distribution(lambda: sample(cmd, wm, "~", 1), 50, st)
        if {k[1][0] if k[0] == "ok" else k for k in d} != set(want):
            raise Violation(f"{cmd!r} at random: expected {want}, got {list(d)}")


NUMBERS = [0, 1, -3, 2.5, True, "a"]


def number_cases():
    """options and parts given as numbers are their text"""
    for n in (1, 2, 3):
        for vs in itertools.permutations(NUMBERS, n):
            yield vs


def check_numbers(vs, st):
    ts = [str(v) for v in vs]
    for b in (None, "2", "0-2"):
        node = var(*ts, bound=b)
        lo, hi = raw_bounds(node)
        compare(node, VariantCommand.from_literals_and_weights(list(vs), None, lo, hi), st, f"options {vs}, bounds {lo}, {hi}", max_runs=60)
    node = seq(*ts) if len(ts) > 1 else lit(ts[0])
    compare(node, SequenceCommand.from_literals(list(vs)), st, f"parts {vs}", max_runs=60)


def same_cases():
    yield from Grammar(lits=("a", "b "), atoms=[Wc("w"), Acc("x", lit("d"))], max_opts=2, max_parts=2, bounds=lambda n: (None, "2", "0-2", "2-1"), seps=(None, "; "), weights=(None, "2"), wraps=True).upto(3)


def check_same(case, st):
    """a parsed template, sampled as object again and again, is what its text gives"""
    w, wm = world()
    text = render(case)
    cmd = env.parse(text)
    want = cmp.outcome(lambda: sample(text, wm, "!", 30))
    for i in range(2):
        got = cmp.outcome(lambda: sample(cmd, wm, "!", 30))
        st.add(1, 30, 1)
        if not cmp.same(want, got):
            raise Violation(f"{text!r} parsed first, sample {i + 1}: expected {cmp.fmt(want)}, got {cmp.fmt(got)}")
    if cmd != env.parse(text):
        raise Violation(f"{text!r}: the parsed template changed to {cmd!r}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("trees", "all templates of size <= %d over a,'b ',empty,w,v with bounds none,2,0-2 and cyclical marks, two ways of building; three methods" % (4 if t else 3), tree_cases(4 if t else 3), check(max_runs=300), min_cases=150, cpu=120),
        Space("marks", "templates of size <= 3 with every mark", tree_cases(3, lits=("a",), atoms=[Wc("w"), Wc("w", "~"), Wc("w", "@"), Wc("w", "!")], bounds=lambda n: (None,), meths=("", "~", "@", "!"), empty=False), check(max_runs=60, k=9), min_cases=150, cpu=120),
        Space("weights", "2..3 options with weights none,0,0.5,3", weight_cases, check(max_runs=400), min_cases=100),
        Space("shared", "2..3 options or parts of which some are equal, also as one and the same object", repeat_cases, check(max_runs=200, k=12), min_cases=200, cpu=120),
        Space("bounds", "1..3 options, both bounds from -2 to n+2, three separators, three ways of building", bound_cases, check_bound, min_cases=200),
        Space("wildcard-bounds", "a lone wildcard, both bounds from -1", wild_bound_cases, check_wild_bound, min_cases=60),
        Space("programs", "an assignment (6 values, immediate, preserving) before templates of size <= 3", program_cases, check(max_runs=60, k=12), min_cases=300),
        Space("outside", "variables given by the caller as command objects", outside_cases, check_outside, min_cases=90),
        Space("separators", "sequences of 1..3 of 6 parts, and of 3 and 4 parts of which inner ones can be empty, with 4 separators and 4 methods of their own", sep_cases, check_sep, min_cases=3000),
        Space("wraps", "4 wrappers x 5 inner templates, the wrap with a method of its own, alone, as a part, an option or inside another wrap", wrap_cases, check_wrap, min_cases=160),
        Space("texts", "16 texts that look like syntax, in literals", text_cases, check_text, min_cases=200),
        Space("numbers", "1..3 options or parts given as numbers", number_cases, check_numbers, min_cases=100),
        Space("same", "parsed templates of size <= 3 sampled repeatedly as objects", same_cases, check_same, min_cases=300),
    ]
