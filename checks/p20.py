"""P20: Jinja templates return exactly the rendered prompts or prompt blocks."""
import dataclasses
import itertools
from fractions import Fraction

from .common import *

RULE = (
    "every composed template is rendered over every outcome of the random source; the distribution of the returned lists equals that of a "
    "naive interpreter of the composition; syntax is decided by Jinja2 itself; histories are compared call by call with new generators"
)
ASSUMPTIONS = [
    "Jinja2 itself (lexer, control structures, filters) is trusted and serves as the oracle for syntax",
    "wildcard(...) and all_combinations(...) give at most the 1000 prompts combinatorial generation gives by default",
    "templates given to random_sample are not empty",
]


def JG(*a, **k):
    from dynamicprompts.generators.jinjagenerator import JinjaGenerator

    return JinjaGenerator(*a, **k)


GRID20 = tuple((i + 0.5) / 20 for i in range(20))  # exact for the weights used here

# --- a small language of Jinja templates -------------------------------------
# text: ("t", s); ("x", expr); ("for", var, listexpr, body); ("if", cond, body, other)
# ("b", body): prompt block; ("set", var, expr); body: tuple of nodes

TREES = {  # templates of the package's own language usable in expressions
    "{a|b}": var("a", "b"),
    "{1|2} __w__": seq(var("1", "2"), " ", Wc("w")),
    "__v__": Wc("v"),
    "{2$$,$$x|y|z}": var("x", "y", "z", bound="2", sep=","),
    "{3::m|n}": var((3, lit("m")), "n"),
    "k  l": lit("k  l"),
    "{a|ab}{b|c|bb}": seq(var("a", "ab"), var("b", "c", "bb")),
    "__dup__": Wc("dup"),
    "a photo of a {red|large} cat": seq("a photo of a ", var("red", "large"), " cat"),
    "{an old|a new} house, {2$$ and $$sky|sea}, 8k": seq(var("an old", "a new"), " house, ", var("sky", "sea", bound="2", sep=" and "), ", 8k"),
    "${who=!{cat|dog}}the ${who} and the ${who}": seq(Asg("who", var("cat", "dog"), True), "the ", Acc("who"), " and the ", Acc("who")),
    "{one|two|three|four|five|six|seven|eight}": var("one", "two", "three", "four", "five", "six", "seven", "eight"),
    "${q=7}<${q}>": seq(Asg("q", lit("7")), "<", Acc("q"), ">"),
}

CONTEXT = {"x": "ctx", "n": 2, "items": ["i", "j"]}


def q(s):
    return "'" + s + "'"


def etext(e):
    k = e[0]
    if k == "lit":
        return repr(e[1])
    if k == "name":
        return e[1]
    if k in ("choice", "list"):
        inner = ", ".join(etext(a) for a in e[1])
        return f"choice({inner})" if k == "choice" else f"[{inner}]"
    if k == "weighted":
        return "weighted_choice(" + ", ".join(f"({etext(a)}, {w})" for a, w in e[1]) + ")"
    if k == "randint":
        return f"randint({e[1]}, {e[2]})"
    if k == "perm":
        return f"permutations({etext(e[1])}, {e[2]}" + (f", {e[3]})" if e[3] is not None else ")")
    if k == "map":
        return f"{etext(e[1])}|map('upper')"
    if k == "wild":
        return f"wildcard('{e[1]}')"
    if k == "sample":
        return f"random_sample('{e[1]}')"
    if k == "all":
        return f"all_combinations('{e[1]}')"
    if k == "join":
        return f"{etext(e[1])}|join('{e[2]}')"
    if k == "less":
        return f"random() < {e[1]}"
    if k == "eq":
        return f"{etext(e[1])} == {etext(e[2])}"
    raise AssertionError(e)


def ttext(body):
    out = []
    for n in body:
        k = n[0]
        if k == "t":
            out.append(n[1])
        elif k == "x":
            out.append("{{ " + etext(n[1]) + " }}")
        elif k == "for":
            out.append("{% for " + n[1] + " in " + etext(n[2]) + " %}" + ttext(n[3]) + "{% endfor %}")
        elif k == "if":
            out.append("{% if " + etext(n[1]) + " %}" + ttext(n[2]) + ("{% else %}" + ttext(n[3]) if n[3] is not None else "") + "{% endif %}")
        elif k == "b":
            out.append("{% prompt %}" + ttext(n[1]) + "{% endprompt %}")
        elif k == "set":
            out.append("{% set " + n[1] + " = " + etext(n[2]) + " %}")
    return "".join(out)


def ev(e, names, w, sq):
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "name":
        return names[e[1]]
    if k == "choice":
        vals = [ev(a, names, w, sq) for a in e[1]]
        return vals[rng.CTL.uniform(len(vals))]
    if k == "list":
        return [ev(a, names, w, sq) for a in e[1]]
    if k == "weighted":
        vals = [(ev(a, names, w, sq), wt) for a, wt in e[1]]
        return vals[rng.CTL.choose([Fraction(wt) for _, wt in vals])][0]
    if k == "randint":
        return e[1] + rng.CTL.uniform(e[2] - e[1] + 1)
    if k == "perm":
        vals = list(ev(e[1], names, w, sq))
        hi = e[2] if e[3] is None else e[3]
        return [p for n in range(e[2], hi + 1) for p in itertools.permutations(vals, n)]
    if k == "map":
        return [x.upper() for x in ev(e[1], names, w, sq)]
    if k == "wild":
        return [sq(x) for x in ref.take(Wc(e[1].strip("_")), w, ref.C)]
    if k == "sample":
        return sq(ref.take(TREES[e[1]], w, ref.R, 1)[0])
    if k == "all":
        return [sq(x) for x in ref.take(TREES[e[1]], w, ref.C)]
    if k == "join":
        return e[2].join(str(x) for x in ev(e[1], names, w, sq))
    if k == "less":
        return rng.CTL.choose([Fraction(e[1]), 1 - Fraction(e[1])]) == 0
    if k == "eq":
        return ev(e[1], names, w, sq) == ev(e[2], names, w, sq)
    raise AssertionError(e)


def render_ref(body, names, w, sq, blocks):
    out = []
    for n in body:
        k = n[0]
        if k == "t":
            out.append(n[1])
        elif k == "x":
            out.append(str(ev(n[1], names, w, sq)))
        elif k == "for":
            for x in ev(n[2], names, w, sq):
                out.append(render_ref(n[3], {**names, n[1]: x}, w, sq, blocks))
        elif k == "if":
            if ev(n[1], names, w, sq):
                out.append(render_ref(n[2], dict(names), w, sq, blocks))
            elif n[3] is not None:
                out.append(render_ref(n[3], dict(names), w, sq, blocks))
        elif k == "b":
            text = render_ref(n[1], dict(names), w, sq, blocks)
            blocks.append(text)
            out.append(text)
        elif k == "set":
            names[n[1]] = ev(n[2], names, w, sq)
    return "".join(out)


def gen_ref(body, num, w, limit, squash):
    sq = ref.squash if squash else (lambda s: s)
    blocks, texts = [], []
    for _ in range(num):
        texts.append(render_ref(body, dict(CONTEXT), w, sq, blocks))
    res = blocks if blocks else texts
    if limit:
        res = res[:num]
    return [sq(r) for r in res]


def compare(body, num, limit, squash, st, max_runs=4000, syn=DEFAULT):
    w, wm = world()
    text = ttext(body)
    try:
        want = cmp.distribution(lambda: gen_ref(body, num, w, limit, squash), max_runs)
    except rng.TooManyRuns:
        if num > 1:
            return compare(body, num - 1, limit, squash, st, max_runs)
        raise
    g = JG(wm, dict(CONTEXT), limit_prompts=limit, ignore_whitespace=squash)
    floats = rng.FLOAT_DRAWS
    try:
        got = cmp.distribution(lambda: g.generate(text, num), max_runs * 10, st, GRID20)
    except rng.TooManyRuns:
        if num > 1:
            return compare(body, num - 1, limit, squash, st, max_runs)
        raise
    exc = got.pop("#exc", None)
    want.pop("#exc", None)
    st.states += len(got)
    if want == got:
        return
    if rng.FLOAT_DRAWS > floats and all(abs(want.get(x, 0) - got.get(x, 0)) <= max(want.get(x, 0), got.get(x, 0)) / 12 for x in {**want, **got}):
        return
    bad = [f"{list(k[1]) if k[0] == 'ok' else 'an error'}: expected {want.get(k, 0)}, got {got.get(k, 0)}" for k in {**want, **got} if want.get(k, 0) != got.get(k, 0)]
    raise Violation(f"Jinja template {text!r}, {num} prompt(s), limiting {limit}, squashing {squash}: probability of {'; '.join(bad[:5])}" + (f"; error was {exc}" if exc else ""))


L = lambda *s: ("list", tuple(("lit", x) for x in s))
LITS = lambda *s: tuple(("lit", x) for x in s)

ATOMS = [
    ("t", "a "),
    ("t", " \t b\n "),
    ("x", ("name", "x")),
    ("x", ("choice", LITS("p", "q", "r"))),
    ("x", ("choice", LITS("p"))),
    ("x", ("choice", LITS("p", "p", "q"))),
    ("x", ("weighted", ((("lit", "h"), 3), (("lit", "l"), 1)))),
    ("x", ("weighted", ((("lit", "h"), 0), (("lit", "l"), 2), (("lit", "m"), 0.5)))),
    ("x", ("weighted", ((("lit", "h"), 3), (("lit", "l"), 1), (("lit", "h"), 0.5), (("lit", "l"), 0)))),
    ("x", ("randint", 2, 4)),
    ("x", ("randint", 0, 0)),
    ("x", ("randint", -1, 1)),
    ("x", ("sample", "{a|b}")),
    ("x", ("sample", "{1|2} __w__")),
    ("x", ("sample", "__v__")),
    ("x", ("sample", "{3::m|n}")),
    ("x", ("sample", "${q=7}<${q}>")),
    ("x", ("join", ("wild", "w"), ",")),
    ("x", ("join", ("wild", "__v__"), ",")),
    ("x", ("join", ("all", "{2$$,$$x|y|z}"), ";")),
    ("x", ("join", ("all", "k  l"), ";")),
    ("x", ("join", ("all", "{1|2} __w__"), "; ")),
    ("x", ("join", ("all", "{a|ab}{b|c|bb}"), ";")),
    ("x", ("join", ("all", "__dup__"), ";")),
    ("x", ("join", ("wild", "dup"), ";")),
    ("for", "i", ("wild", "w"), (("x", ("name", "i")), ("t", "/"))),
    ("if", ("less", 0.25), (("t", "lo"),), (("t", "hi"),)),
]
SMALL = [ATOMS[0], ATOMS[1], ATOMS[3], ATOMS[6], ATOMS[11], ATOMS[16], ATOMS[-1]]


def plain_cases(t):
    yield from (((a,), n, lim, sq) for a in ATOMS for n in (1, 2, 3) for lim in (False, True) for sq in (False, True))
    for a, b in itertools.product(ATOMS, repeat=2):
        for sq in (False, True):
            yield ((a, b), 2 if t else 1, False, sq)
    for c in itertools.product(SMALL, repeat=3):
        yield (c, 1, False, True)
        if t:
            yield (c, 1, True, False)


def bodies(size, depth):
    """compositions of blocks, loops, conditionals and choices of this size"""
    if size == 0:
        yield ()
        return
    for k in range(1, size + 1):
        for first in nodes(k, depth):
            for rest in bodies(size - k, depth):
                if first[0] == "t" and rest and rest[0][0] == "t":
                    continue
                yield (first,) + rest


def nodes(size, depth):
    if size == 1:
        yield ("t", "a  ")
        yield ("x", ("choice", LITS("p", "q")))
        yield ("b", ())
    elif depth:
        for body in bodies(size - 1, depth - 1):
            yield ("b", body)
            yield ("for", "i", L("1", "2"), body)
            yield ("if", ("eq", ("choice", LITS("p", "q")), ("lit", "p")), body, None)


def block_cases(t):
    for size in range(1, 5 if not t else 6):
        for body in bodies(size, 3):
            for n in (0, 1, 2) if size < 4 else (1, 2):
                for lim, sq in ((False, False), (True, False), (True, True), (False, True)):
                    if size == 5 and (n == 2 or lim != sq):
                        continue
                    yield (body, n, lim, sq)


def perm_cases():
    for n in ("", "a", "ab", "abc", "aa", "aab", "aba", "bba", "aaa"):
        items = L(*n)
        for src in (items, ("map", items)):
            for lo in range(0, 4):
                for hi in (None, 0, 1, 2, 3):
                    e = ("perm", src, lo, hi)
                    yield ((("for", "p", e, (("t", "("), ("x", ("join", ("name", "p"), "+")), ("t", ")"))),), 1, False, False)
    for lo, hi in ((1, 2), (2, None)):
        e = ("perm", ("wild", "w"), lo, hi)
        yield ((("for", "p", e, (("b", (("x", ("join", ("name", "p"), " and ")),)),)),), 2, True, False)


def loop_cases():
    srcs = [L("1", "2", "3"), ("wild", "w"), ("wild", "v"), ("all", "{a|b}"), ("all", "{1|2} __w__"), ("name", "items"), ("list", (("choice", LITS("p", "q")), ("lit", "z")))]
    inner = [(), (("x", ("choice", LITS("s", "t"))),), (("x", ("sample", "{a|b}")),)]
    for s1 in srcs:
        for s2 in [None] + srcs:
            for extra in inner:
                if extra and s2 and not (s1[0] == "name" and s2[0] == "name"):
                    continue  # too many draws
                if extra and s1 == ("all", "{1|2} __w__"):
                    continue
                core = (("x", ("name", "i")),) + ((("t", "-"), ("x", ("name", "j"))) if s2 else ()) + extra
                blk = (("b", core),)
                body = (("for", "i", s1, ((("for", "j", s2, blk),) if s2 else blk)),)
                for n, lim in ((1, False), (2, True), (2, False)):
                    if not extra or n == 1:
                        yield (body, n, lim, False)


LONG = ["a photo of a {red|large} cat", "{an old|a new} house, {2$$ and $$sky|sea}, 8k", "${who=!{cat|dog}}the ${who} and the ${who}", "{one|two|three|four|five|six|seven|eight}"]


def wide_cases():
    """longer templates, more items, wider ranges"""
    es = [("sample", x) for x in LONG] + [("join", ("all", x), "; ") for x in LONG]
    es += [("choice", LITS(*[f"item {i}" for i in range(n)])) for n in (10, 11, 40)]
    es += [("randint", a, b) for a, b in ((0, 9), (1, 10), (95, 105), (-12, 12), (1, 100))]
    es += [("weighted", tuple((("lit", f"w{i}"), w) for i, w in enumerate(ws))) for ws in ((1, 1, 2, 4, 8), (0.5, 0.5, 1, 2), (10, 6), (0, 0, 1), (20,) + (0,) * 9)]
    for e in es:
        x = ("x", e)
        for n in (1, 2, 3) if e[0] == "sample" else (1, 2):
            yield ((x,), n, False, False)
        yield ((x, ("t", " and "), x), 1, False, False)
        yield ((("b", (x,)), ("b", (x, ("t", "!")))), 1, False, True)
    for e in (L(*"abcde"), L(*[f"item {i}" for i in range(6)])):
        for lo, hi in ((1, 3), (2, None), (5, None), (0, 1)):
            yield ((("for", "p", ("perm", e, lo, hi), (("t", "("), ("x", ("join", ("name", "p"), "+")), ("t", ")"))),), 1, False, False)


def set_cases():
    for e in [("choice", LITS("p", "q")), ("sample", "{a|b}"), ("randint", 1, 3), ("lit", "u"), ("weighted", ((("lit", "h"), 3), (("lit", "l"), 1)))]:
        for n in (1, 2):
            twice = (("set", "z", e), ("x", ("name", "z")), ("t", " "), ("x", ("name", "z")))
            yield (twice, n, False, False)
            yield ((("set", "z", e), ("b", (("x", ("name", "z")),)), ("b", (("x", ("name", "z")), ("t", "!")))), n, n == 2, False)
            yield ((("set", "x", e), ("x", ("name", "x"))), n, False, False)
            yield ((("b", (("set", "z", e), ("x", ("name", "z")))), ("x", ("choice", LITS("1", "2")))), n, False, False)


def check(case, st):
    body, n, lim, sq = case
    compare(body, n, lim, sq, st)


# --- other wildcard marks and parser settings --------------------------------


def config_cases():
    for mark in ("__", "&&", "**"):
        for name in ("w", "v"):
            for wrapped in (False, True):
                for n in (1, 2):
                    yield (mark, name, wrapped, n)


def check_config(case, st):
    mark, name, wrapped, n = case
    syn = dataclasses.replace(DEFAULT, wc=mark, vs="<", ve=">")
    w, wm = world("std", syn)
    g = JG(wm, parser_config=env.config_of(syn))
    arg = mark + name + mark if wrapped else name
    vals = ref.take(Wc(name), w, ref.C)
    got = cmp.outcome(lambda: g.generate("{% for v in wildcard('" + arg + "') %}{% prompt %}{{ v }}!{% endprompt %}{% endfor %}", n))
    st.add(1, 1, 1)
    if got != ("ok", [v + "!" for v in vals] * n):
        raise Violation(f"wildcard({arg!r}) with wildcard mark {mark}: {got}, expected {vals}")
    tree = seq(var("1", "2"), " ", Wc(name))
    text = render(tree, syn)
    got = cmp.outcome(lambda: g.generate("{{ all_combinations('" + text + "')|join(',') }}", n))
    want = ",".join(ref.take(tree, w, ref.C))
    if got != ("ok", [want] * n):
        raise Violation(f"all_combinations({text!r}): {got}, expected {[want] * n}")
    want = cmp.distribution(lambda: [ref.take(tree, w, ref.R, 1)[0] for _ in range(n)], 4000)
    got = cmp.distribution(lambda: g.generate("{{ random_sample('" + text + "') }}", n), 100000, st)
    if want != got:
        raise Violation(f"random_sample({text!r}), {n} prompts: distribution {got}, expected {want}")


# --- syntax: Jinja2 decides ---------------------------------------------------

TOKENS = ["a", "{{ x }}", "{{", "}}", "{%", "%}", "{% prompt %}", "{% endprompt %}", "{% for i in items %}", "{% endfor %}", "{% if x %}", "{% endif %}", "{{ i }}", "{#", "#}", "{% prompt", "{{ x|nofilter }}", "{% else %}", "{{ choice( }}", "{% set x = 1 %}"]

_oracle = {}


def oracle(text):
    """(compiled template, blocks), or None if Jinja2 rejects the text"""
    import jinja2
    from jinja2 import nodes as jn
    from jinja2.ext import Extension

    if "env" not in _oracle:

        class Blocks(Extension):
            tags = {"prompt"}

            def parse(self, parser):
                line = next(parser.stream).lineno
                body = parser.parse_statements(("name:endprompt",), drop_needle=True)
                return jn.CallBlock(self.call_method("_note", []), [], [], body).set_lineno(line)

            def _note(self, caller):
                v = caller()
                _oracle["blocks"].append(v)
                return v

        _oracle["env"] = jinja2.Environment(extensions=[Blocks])
    try:
        return _oracle["env"].from_string(text)
    except jinja2.TemplateSyntaxError:
        return None


def syntax_cases(t):
    for n in (1, 2, 3):
        yield from itertools.product(TOKENS, repeat=n)
    if t:
        yield from itertools.product(TOKENS[:14], repeat=4)


def check_syntax(case, st):
    from dynamicprompts.generators.promptgenerator import GeneratorException

    text = "".join(case)
    tm = oracle(text)
    w, wm = world()
    g = JG(wm, dict(CONTEXT))
    st.add(1, 1, 1)
    try:
        got = ("ok", g.generate(text, 2))
    except GeneratorException as e:
        got = ("rejected", str(e))
    except Exception as e:
        got = ("exc", f"{type(e).__name__}: {e}")
    if tm is None:
        if got[0] != "rejected":
            raise Violation(f"{text!r} is not a valid Jinja template, but gives {got} instead of a generator error")
        return
    _oracle["blocks"] = []
    try:
        texts = [tm.render(**CONTEXT) for _ in range(2)]
        want = ("ok", _oracle["blocks"] or texts)
    except Exception as e:
        want = ("exc", f"{type(e).__name__}: {e}")
    if want[0] == "exc":
        if got[0] == "ok":
            raise Violation(f"{text!r}: rendering fails in Jinja ({want[1]}), but gives {got}")
        return
    if got != want:
        raise Violation(f"{text!r}: {got}, Jinja renders {want}")


# --- histories ----------------------------------------------------------------

OPS = [
    ("plain", 1), ("plain", 2),
    ("{% prompt %}b1{% endprompt %} tail", 1),
    ("{% for i in ['1','2','3'] %}{% prompt %}b{{ i }}{% endprompt %}{% endfor %}", 2),
    ("{% prompt %}half{% endprompt %}{{ nosuch.attr.more }}", 1),  # fails after a block
    ("{% prompt %}broken", 1),  # syntax error
    ("{% set x = 'changed' %}{{ x }}", 1),
    ("{{ x }}|{{ items|join(',') }}", 2),
    ("{{ items.append('k') or '' }}{{ items|length > 2 }}", 0),
    ("{% for v in wildcard('w') %}{% prompt %}{{ v }}{% endprompt %}{% endfor %}", 1),
    ("{{ all_combinations('${g=5}{a|b}')|join(',') }}", 1),
    ("{{ all_combinations('${g:none}')|join(',') }}{{ random_sample('${g:none}') }}", 1),
    ("{{ random_sample('${g=5}${g}') }}", 1),
    ("{% set choice = 5 %}{{ choice }}", 1),
    ("{{ choice('only') }}", 2),
    ("{% prompt %}{% endprompt %}", 2),
]


def call(g, op):
    try:
        return ("ok", g.generate(*op))
    except Exception as e:
        return ("exc", type(e).__name__)


def history_cases(t):
    n = len(OPS)
    yield from itertools.product(range(n), repeat=2)
    yield from itertools.product(range(n), repeat=3)
    if t:
        yield from itertools.product(range(n), repeat=4)


def check_history(case, st):
    w, wm = world()
    for two in (False, True):
        g = JG(wm, dict(CONTEXT), limit_prompts=False)
        h = JG(wm, dict(CONTEXT), limit_prompts=True)
        for i, o in enumerate(case):
            who = h if two and i % 2 else g
            kw = {"limit_prompts": who is h}
            want = _alone(o, kw["limit_prompts"])
            got = call(who, OPS[o])
            st.add(1, 1, 1)
            if got != want:
                raise Violation(f"after {[OPS[x] for x in case[:i]]} ({'two generators' if two else 'one generator'}), {OPS[o]} gives {got}; alone it gives {want}")
            if got[0] == "ok":
                got[1].append("caller's own")  # results belong to the caller


_mem = {}


def _alone(o, limit):
    if (o, limit) not in _mem:
        w, wm = world()
        _mem[o, limit] = call(JG(wm, dict(CONTEXT), limit_prompts=limit), OPS[o])
    return _mem[o, limit]


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("plain", "sequences of <= 2 of 23 texts, helper calls, loops and conditionals, and of 3 of 7; 1..3 prompts, limiting and squashing", lambda: plain_cases(t), check, min_cases=1500, cpu=120),
        Space("blocks", "all compositions of blocks (nested, empty), loops, random conditionals, choices and text of size <= %d; 0..2 prompts, limiting and squashing" % (5 if t else 4), lambda: block_cases(t), check, min_cases=2000, cpu=120),
        Space("permutations", "0..3 items given as list or iterator, every pair of sizes 0..3", perm_cases, check, min_cases=100),
        Space("loops", "blocks in one or two nested loops over 7 sources", loop_cases, check, min_cases=100, cpu=120),
        Space("wide", "4 longer templates, 11-40 items, ranges of up to 100 numbers, up to 10 weights, permutations of 6 items", wide_cases, check, min_cases=80),
        Space("set", "values kept in template variables", set_cases, check, min_cases=30),
        Space("settings", "other wildcard marks and variant delimiters", config_cases, check_config, min_cases=20),
        Space("syntax", "all sequences of <= 3 of 20 template fragments%s; acceptance and rendering decided by Jinja2" % (" and of 4 of 14" if t else ""), lambda: syntax_cases(t), check_syntax, min_cases=5000),
        Space("histories", "all sequences of <= %d of 16 calls (failing, block-making, context-changing) on one or two generators" % (4 if t else 3), lambda: history_cases(t), check_history, min_cases=4000),
    ]
