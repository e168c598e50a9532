"""P10: malformed templates are rejected, never silently half-processed."""
import itertools
import re

from .common import *

RULE = (
    "every token string up to the stated length is parsed: an accepted one must be accounted for completely by the parsed "
    "structure (re-rendering gives the same text) without syntax characters left in its literals; every deletion of a closing "
    "and insertion of an opening delimiter in valid templates must be rejected by parser and generators, after which probes behave as before"
)
ASSUMPTIONS = ["any exception counts as rejection"]

TOK = ["{", "}", "|", "2$$", "$$", "${x", "=", ":", "__", "%{", "a", "(", ")"]
CORE = ["{", "}", "|", "2$$", "${x", "=", "__", "%{", "$$", "a"]


def strings(tok, lo, hi):
    def it():
        for k in range(lo, hi + 1):
            for t in itertools.product(tok, repeat=k):
                yield "".join(t)

    return it


def unparse(sh, path=False):
    """Canonical text of a parsed structure."""
    k = sh[0]
    if k == "lit":
        return sh[1]
    if k == "seq":
        return "".join(unparse(x, path) for x in sh[1])
    if k == "var":
        _, m, lo, hi, sep, opts = sh
        head = "{" + m
        head += "\0BOUND\0"
        return head + "|".join(("" if w == 1 else f"{w:g}::") + unparse(o) for w, o in opts) + "}"
    if k == "wc":
        _, m, name, params = sh
        n = name if isinstance(name, str) else unparse(name, True)
        p = "(" + ",".join(f"{a}={unparse(b)}" for a, b in params) + ")" if params else ""
        return "__" + m + n + p + "__"
    if k == "acc":
        d = sh[2]
        if d is not None and path and d == ("lit", sh[1]):
            d = None
        return "${" + sh[1] + ("" if d is None else ":" + unparse(d)) + "}"
    if k == "asg":
        return "${" + sh[1] + ("?" if sh[3] else "") + "=" + ("!" if sh[2] else "") + unparse(sh[4]) + "}"
    if k == "wrap":
        return "%{" + unparse(sh[1]) + "$$" + unparse(sh[2]) + "}"
    raise Violation(f"unknown structure {sh!r}")


def bad_literal(sh, nested=False, name=False):
    k = sh[0]
    if k == "lit":
        t = sh[1]
        return any(c in t for c in ("{#$%" + ("|}" if nested and not name else ""))) or "__" in t
    if k == "seq":
        return any(bad_literal(x, nested, name) for x in sh[1])
    if k == "var":
        return any(bad_literal(o, True) for _, o in sh[5])
    if k == "wc":
        n = sh[2]
        b = bad_literal(("lit", n), False, True) if isinstance(n, str) else bad_literal(n, False, True)
        return b or any(bad_literal(v) for _, v in sh[3])
    if k == "acc":
        return sh[2] is not None and sh[2] != ("lit", sh[1]) and bad_literal(sh[2], True)
    if k == "asg":
        return bad_literal(sh[4], True)
    if k == "wrap":
        return bad_literal(sh[1], True) or bad_literal(sh[2], True)
    return True


def pattern(sh):
    """The canonical text as a regular expression: bounds may be written or not."""
    t = unparse(sh)
    t = re.sub(r"\s+", "", t)
    return "".join(r"(?:[0-9]*-?[0-9]*\$\$(?:[^${}]*\$\$)?)?" if x == "\0BOUND\0" else re.escape(x) for x in re.split("(\0BOUND\0)", t))


def check_faithful(s, st):
    st.add(1, 1, 1)
    try:
        cmd = env.parse(s)
    except Exception:
        st.count("rejected")
        return
    st.count("accepted")
    sh = shape_of_command(cmd)
    if bad_literal(sh):
        raise Violation(f"{s!r}: accepted with syntax left in a literal: {sh!r}")
    t = re.sub(r"\s+", "", s).replace("${x:x}", "${x}").replace("1::", "")
    p = pattern(sh).replace(re.escape("${x:x}"), re.escape("${x}"))
    # duplicate parameters collapse and empty ones vanish; they are outside the token alphabet
    if not re.fullmatch(p, t):
        raise Violation(f"{s!r}: accepted, but the structure {sh!r} does not account for all of it ({unparse(sh)!r})")


ATOMS = [Wc("w"), Wc("w", "", (("k", lit("v")),)), Acc("x"), Acc("x", lit("d"))]


def tree_cases(size, **kw):
    a = dict(lits=("a ",), atoms=ATOMS, bounds=lambda n: (None, "2"), max_opts=2, max_parts=2, wraps=True)
    a.update(kw)

    def it():
        for n in Grammar(**a).upto(size):
            yield n
            yield Seq((Asg("x", n), lit("t"), Acc("x"))) if type(n) is not Lit else Seq((Asg("x", n, True), n))

    return it


def mutants(text):
    out = set()
    for d in ("}", "__", ")"):
        i = text.find(d)
        while i >= 0:
            out.add(text[:i] + text[i + len(d):])
            i = text.find(d, i + (1 if d != "__" else 2))
    for ins in ("{", "${", "%{", "__", "${x=", "__w("):
        for i in range(len(text) + 1):
            if ins.startswith("__") and (text[max(0, i - 1):i] == "_" or text[i:i + 1] == "_"):
                continue  # runs of underscores can be cut differently
            if ins.startswith("__") and re.search(r"(\$\{[\w-]*|\([^)]*)$", text[:i]):
                continue  # underscores may be part of a variable or parameter name
            if "(" in ins and ")" in text[i:]:
                continue  # closed by the later parenthesis
            out.add(text[:i] + ins + text[i:])
    return sorted(out)


PROBE = seq("k ", var("a", "b"), " ", Wc("w"))
_probe = []


def probe_want():
    if not _probe:
        w, wm = world()
        _probe.append(ref.take(PROBE, w, ref.C))
    return _probe[0]


def balanced(t):
    """Mutants that happen to be well formed again are left out: an opening brace
    before a closing brace of the text cannot occur here, so only counts matter."""
    return t.count("{") <= t.count("}") and t.count("__") % 2 == 0 and t.count("(") <= t.count(")")


def rejected(text, wm, gens, st, full):
    st.add(1, 1, 1)
    r = cmp.outcome(lambda: env.parse(text))
    if r[0] == "ok":
        raise Violation(f"malformed {text!r} was accepted: {shape_of_command(r[1])!r}")
    if full:
        for name, g in gens.items():
            st.traces += 1
            r = cmp.outcome(lambda: g(text))
            if r[0] == "ok":
                raise Violation(f"malformed {text!r}: {name} returned {r[1]!r} instead of raising an error")


def gens_of(wm):
    c = env.CombinatorialPromptGenerator(wm)
    r = env.RandomPromptGenerator(wm, seed=1)
    return {
        "combinatorial generator": lambda t: c.generate(t, 5),
        "random generator": lambda t: r.generate(t, 2),
        "random generator with seeds": lambda t: r.generate(t, 2, seeds=[1, 2]),
        "cyclical sampling": lambda t: env.real_take(t, wm, ref.Y, 3),
    }


def check_mutants(full):
    def run(node, st):
        w, wm = world()
        gens = gens_of(wm)
        text = render(node)
        for m in mutants(text):
            if balanced(m):
                continue
            rejected(m, wm, gens, st, full)
        # as if they had never been submitted
        got = cmp.outcome(lambda: gens["combinatorial generator"](render(PROBE)))
        if got != ("ok", probe_want()[:5]):
            raise Violation(f"after rejecting mutants of {text!r} the generator gives {cmp.fmt(got)}")
        sh = cmp.outcome(lambda: shape_of_command(env.parse(text)))
        if sh != ("ok", shape(node)):
            raise Violation(f"after rejecting its mutants {text!r} parses as {sh[1]!r}")

    return run


BAD = ["{", "{a|b", "${x", "${x=1", "${x:d", "%{a", "%{a$$b", "__w", "w__", "__w(k=v__", "{a|{b|c}", "a{", "$", "a $ b", "50%", "{a$b}", "%{a}", "{2$$", "${=1}", "${}", "__", "{a|${x=1}}", "{${x=1}|b}", "#\n{", "a\n{b|\nc"]


def recover_cases():
    for i in range(len(BAD)):
        for j in range(len(BAD)):
            yield (i, j)


def check_recover(case, st):
    """histories bad, good, bad, good on one set of generators: errors each time, and
    the seeded generator behaves as if the bad templates had not been submitted"""
    w, wm = world()
    gens = gens_of(wm)
    text = render(PROBE)
    clean = env.RandomPromptGenerator(wm, seed=9)
    used = env.RandomPromptGenerator(wm, seed=9)
    for b in case:
        bad = BAD[b]
        rejected(bad, wm, gens, st, True)
        r = cmp.outcome(lambda: used.generate(bad, 2))
        if r[0] == "ok":
            raise Violation(f"malformed {bad!r} returned {r[1]!r}")
        got = gens["combinatorial generator"](text)
        if got != probe_want()[:5]:
            raise Violation(f"after {bad!r}: combinatorial generator gives {got!r}")
        a, c = used.generate(text, 3), clean.generate(text, 3)
        st.traces += 3
        if a != c:
            raise Violation(f"after {bad!r}: seeded generator gives {a!r} instead of {c!r}")


def value_cases():
    for b in BAD:
        if b.startswith("#"):
            continue
        for t in ("__k__", "x __k__ y", "{__k__|z}", "{__k__}", "{1-2$$__k__}", "${x=__k__}${x}", "%{__k__...$$i}"):
            yield (b, t)


def check_value(case, st):
    """a malformed wildcard value raises when it is used, in every method"""
    b, t = case
    wm = env.WildcardManager(root_map={"": [{"k": [b], "w": ["p"]}]})
    for m in "!~@":
        if "%{" in t and m == "@" or "|z" in t and m == "~":
            continue
        st.add(1, 1, 1)
        got = cmp.outcome(lambda: env.real_take(t, wm, m, 3))
        if got[0] == "ok":
            raise Violation(f"{t!r} with the malformed value {b!r}, method {m}: returned {got[1]!r}")


def deep_cases():
    for p in ("{", "{a|", "{2$$", "${x=", "${x:", "%{a", "%{a$$", "__", "__w(k=", "{__w|", "{a|%{b$$", "${x:{", "a{b", "#", "{#\n", "$", "%"):
        for n in (1, 2, 5, 10, 20, 30):
            yield (p, n)
    for o, c in (("{a|", "}"), ("${x:", "}"), ("%{b$$", "}"), ("{", "}")):
        for n in (5, 10, 20):
            for miss in (1, n // 2):
                yield (o + "\0", n, c, miss)


def check_deep(case, st):
    """parsing terminates on deep unclosed nesting, and rejects it"""
    if len(case) == 2:
        p, n = case
        text = p * n
        ok = p in ("#", )
    else:
        o, n, c, miss = case
        text = o.replace("\0", "") * n + "z" + c * (n - miss)
        ok = False
    st.add(1, 1, 1)
    got = cmp.outcome(lambda: env.parse(text))
    if (got[0] == "ok") != ok:
        raise Violation(f"{text!r}: {'accepted' if got[0] == 'ok' else 'rejected'}: {got[1]!r}")


def jinja_cases():
    for b in BAD:
        if any(x in b for x in ("{%", "{{", "#\n")):
            continue
        yield b


def check_jinja(b, st):
    from dynamicprompts.generators import JinjaGenerator

    w, wm = world()
    for fn in ("random_sample", "all_combinations"):
        g = JinjaGenerator(wm, context={"t": b})
        st.add(1, 1, 1)
        got = cmp.outcome(lambda: g.generate("{{ %s(t) }}" % fn, 1))
        if got[0] == "ok":
            raise Violation(f"{fn}({b!r}) in a Jinja template returned {got[1]!r}")


NAMES = ["1", "1x", "9_", "x.y", "x y", "x,y", "\u00e9", "", "x/y", "x+", "*", "(x)", "'x'", "x$", "@x", "~x", "#x", "&x"]


def name_cases():
    for n in NAMES:
        yield n


def check_name(n, st):
    """text where the name of a variable or parameter should be"""
    w, wm = world()
    forms = ["${%s=a}x", "${%s=!a}x", "${%s?=a}x", "x ${%s:a}", "${%s}", "{${%s:a}|b}", "__w(%s=a)__", "__w(k=b,%s=a)__", "${x=${%s:a}}${x}"]
    for f in forms:
        if "(" in f and n in ("", "x,y"):
            continue  # taken as a parameter without a name, and as two parameters
        s = f % n
        st.add(1, 1, 1)
        for what, make in (("parse", lambda: env.parse(s)), ("combinatorial generation", lambda: env.CombinatorialPromptGenerator(wm).generate(s, 3)), ("random generation", lambda: env.RandomPromptGenerator(wm).generate(s, 3))):
            got = cmp.outcome(make)
            if got[0] == "ok":
                raise Violation(f"{s!r}: {n!r} is not a name, but {what} gives {got[1]!r}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("tokens", "all strings of <= %d of 13 tokens %s" % (5 if t else 4, " ".join(TOK)), strings(TOK, 1, 5 if t else 4), check_faithful, min_cases=30000),
        Space("tokens-core", "all strings of %d of 10 tokens" % (6 if t else 5), strings(CORE, 6 if t else 5, 6 if t else 5), check_faithful, min_cases=90000),
        Space("mutants", "templates of size <= 2 (and assigned to a variable): every closing delimiter deleted, six openings inserted everywhere; parser and 4 generators", tree_cases(2), check_mutants(True), min_cases=30, cpu=120),
        Space("mutants3", "templates of size 3%s: the same, parser only" % ("" if t else " over a smaller alphabet"), tree_cases(3) if t else tree_cases(3, atoms=[Wc("w"), Acc("x", lit("d"))]), check_mutants(False), min_cases=100, cpu=120),
        Space("recovery", "all pairs of %d malformed templates between good ones on the same generators" % len(BAD), recover_cases, check_recover, min_cases=500),
        Space("wildcard-values", "malformed wildcard values in 7 uses, three methods", value_cases, check_value, min_cases=100),
        Space("deep", "17 unclosed prefixes repeated up to 30 times, partly closed nesting", deep_cases, check_deep, min_cases=100, cpu=90),
        Space("names", "18 texts that are not names in 9 places where a variable or parameter is named; parser and generators", name_cases, check_name, min_cases=15),
        Space("jinja", "malformed templates through the Jinja helpers", jinja_cases, check_jinja, min_cases=15),
    ]
