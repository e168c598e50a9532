"""P08: custom delimiters never change what a template means."""
import gc
import itertools

from .common import *
from . import p02

RULE = (
    "every tree of the stated grammar is written in every delimiter set, parsed (structure compared) and generated "
    "under the matching configuration in the stated modes; all histories of the stated length over configurations are executed"
)
ASSUMPTIONS = ["delimiters do not collide with the other syntax (| $$ :: # sampler marks at the same place) or with the text and are not alphanumeric"]

SYNS = [
    DEFAULT,
    Syn(vs="<", ve=">"),
    Syn(vs="[", ve="]"),
    Syn(vs="<<", ve=">>"),
    Syn(vs="(", ve=")"),
    Syn(wc="**"),
    Syn(wc="::"),
    Syn(wc="<>"),
    Syn(wc="&"),
    Syn(wc="%%"),
    Syn(wc="\\"),
    Syn(wc="^"),
    Syn(as_="$(", ae=")"),
    Syn(as_="<", ae=">"),
    Syn(as_="[[", ae="]]"),
    Syn(as_="&{", ae="}"),
    Syn(ps="<", pe=">"),
    Syn(ps="%(", pe=")"),
    Syn(ps="[^", pe="]"),
    Syn(vs="<", ve=">", wc="++", as_="&(", ae=")", ps="[", pe="]"),
    Syn(vs="[", ve="]", wc="--", as_="<", ae=">", ps="&(", pe=")"),
    Syn(vs="<%", ve="%>", wc="**", as_="[", ae="]", ps="<<", pe=">>"),
    Syn(vs=".", ve=";", wc="^", as_="?", ae="/", ps="*", pe="+"),
]


def synworld(i):
    return world("par" if par_ok(SYNS[i]) else "std", SYNS[i])


def par_ok(syn):
    """the values of the wildcards with parameters can be written in this configuration"""
    used = set("".join((syn.vs, syn.ve, syn.wc, syn.as_, syn.ae, syn.ps, syn.pe)))
    return not used & set(" (),=:kdefn")


def usable(node, syn):
    """the text contains no delimiter character of this configuration"""
    chars = set("".join((syn.vs, syn.ve, syn.wc, syn.as_, syn.ae, syn.ps, syn.pe)))
    for x in walk(node):
        t = x.text if type(x) is Lit else ""
        if type(x) is Var and x.sep:
            t += x.sep
        if any(c in t for c in chars):
            return False
        if "(" in chars and type(x) is Wc and x.params:
            return False
        if type(x) is Wc and x.params and syn.ps + syn.vs + syn.as_ != "%{{${" and any(type(v) is not Lit for _, v in x.params):
            if ")" in chars or "," in chars:
                return False
    return True


def check(modes, k=8):
    def run(case, st):
        i, node = case
        syn = SYNS[i]
        if not usable(node, syn):
            st.count("text contains a delimiter")
            return
        text = render(node, syn)
        w, wm = synworld(i)
        want = shape(node)
        got = cmp.outcome(lambda: shape_of_command(env.parse(text, env.config_of(syn))))
        st.add(1, 1, 1)
        if got != ("ok", want):
            raise Violation(f"{text!r} under {syn}: expected structure {want!r}, parsed {got[1]!r}")
        if "!" in modes:
            cmp.comb(node, w, wm, st, syn=syn)
        if "@" in modes and not any(type(x) is Wrap for x in walk(node)):
            cmp.cyc(node, w, wm, st, k=k, syn=syn)
        if "~" in modes:
            cmp.dist(node, w, wm, st, k=1, syn=syn, make=p02.real(wm, text, 1, parser_config=env.config_of(syn)), exact=False)

    return run


def trees(size, **kw):
    a = dict(lits=("a", "b c"), atoms=[Wc("w"), Wc("v", "@")], bounds=lambda n: (None, "2"), seps=(None, " and "), max_opts=2, max_parts=2, wraps=True)
    a.update(kw)
    return Grammar(**a).upto(size)


def all_cases(size, **kw):
    def it():
        for n in trees(size, **kw):
            for i in range(len(SYNS)):
                yield (i, n)

    return it


def program_cases():
    vals = [lit("1"), var("1", "2"), Wc("w"), Wrap(lit("q ... r"), lit("s")), var(("2", lit("k l")), Acc("z", lit("m")))]
    bodies = [[Acc("x")], [Acc("x"), lit(" t "), Acc("y", lit("d"))], [var(Acc("x"), "u")], [Wrap(seq("a ... ", Acc("x")), var("b", "c"))],
              [Wc("w", "", (("k", lit("v")),)), Acc("x")], [Acc("y", var("d", Acc("x")))], [lit("t "), Wc("w"), lit(" "), Acc("x")]]
    for v in vals:
        for imm, keep in ((False, False), (True, False), (False, True)):
            for b in bodies:
                for i in range(len(SYNS)):
                    yield (i, Seq((Asg("x", v, imm, keep), *b)))


def param_cases():
    """wildcards that take parameters holding every kind of construct"""
    vals = [lit("1"), lit("b c"), Acc("x"), Acc("z", lit("m")), var("1", "2"), Wc("w"), Wrap(lit("q ... r"), lit("s")), seq("t ", Acc("x")), seq(Acc("x"), Acc("x")), var(Acc("x"), "u"), seq(Wc("w"), " ", Acc("x")), Wrap(seq("q ... ", Acc("x")), Acc("x"))]
    for v in vals:
        for u in (None, lit("2"), Acc("x"), var("3", "4"), Wc("w")):
            params = (("p", v),) if u is None else (("p", v), ("q", u))
            for name in ("par", "pard", "w"):
                for asg in (Asg("x", lit("1")), Asg("x", var("5", "6")), Asg("x", var("5", "6"), True)):
                    for i, syn in enumerate(SYNS):
                        if par_ok(syn):
                            yield (i, Seq((asg, Wc(name, "", params), lit(" "), Acc("x"))))


def plain_cases():
    """default delimiters that are no longer in use are plain text"""
    for i, syn in enumerate(SYNS):
        used = set("".join((syn.vs, syn.ve, syn.wc, syn.as_, syn.ae, syn.ps, syn.pe)))
        for t in ("{", "}", "{a}", "a }b{", "{a|b}", "__", "__w__", "a__b", "{2$$a|b}", "${x}", "${x=1}", "%{a$$b}", "$", "%", "a % b", "50%", "$5", "_", "__w__ {"):
            if used & set(t):
                continue
            if "$" in t and "$" in used:
                continue
            yield (i, t)


def check_plain(case, st):
    i, t = case
    w, wm = synworld(i)
    syn = SYNS[i]
    cfg = env.config_of(syn)
    st.add(1, 2, 2)
    got = cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm, parser_config=cfg).generate(t, 5))
    if got != ("ok", [t]):
        raise Violation(f"plain text {t!r} under {syn}: {got[1]!r}")
    got = cmp.outcome(lambda: env.RandomPromptGenerator(wm, parser_config=cfg).generate("q" + t, 2))
    if got != ("ok", ["q" + t] * 2):
        raise Violation(f"plain text {'q' + t!r} under {syn} (random): {got[1]!r}")


def old_cases():
    """default delimiters no longer in use, in options, separators, variable values and wraps"""
    for i in range(len(SYNS)):
        for t in ("{", "}", "{}", "{a}", "}b{", "__", "__w__", "a_", "%", "a%{b"):
            yield (i, var(t, "z"))
            yield (i, seq("k", var(t, "z"), "k"))
            yield (i, var("y", "z", bound="2", sep=t))
            yield (i, var("y", "z", t, bound="1-2", sep=" " + t + " "))
            yield (i, Seq((Asg("x", lit(t)), Acc("x"), lit("-"), Acc("q", lit(t)))))
            yield (i, Wrap(lit("<..." + t if "<" not in SYNS[i].vs + SYNS[i].wc + SYNS[i].as_ + SYNS[i].ps else "..." + t), lit(t)))
            yield (i, seq(Wc("w"), t, var("b", "c")))


def missing_cases():
    for i in range(len(SYNS)):
        for n in (Wc("nope"), seq("t ", Wc("nope"), " u"), var(Wc("nope"), "z"), var(Wc("nope"))):
            yield (i, n)


PROBE = Seq((Asg("x", var("1", "2")), Acc("x"), lit(" "), var("a", "b"), lit(" "), Wc("w"), Wrap(lit("q ... r"), lit("s"))))
FIELDS = [Syn(vs="<"), Syn(ve=">"), Syn(wc="^^"), Syn(as_="&"), Syn(ae=";"), Syn(ps="^"), Syn(pe="/"), DEFAULT, Syn(vs="<", ve=">"), Syn(vs="[", ve="]"), SYNS[19]]


def history_cases(n):
    for k in range(1, n + 1):
        for h in itertools.product(range(len(FIELDS)), repeat=k):
            yield h


def check_history(h, st):
    """parse/generate under each configuration of the history; keep or drop the
    configuration objects in between"""
    for keep in (True, False):
        kept = []
        for i in h:
            syn = FIELDS[i]
            cfg = env.config_of(syn)
            text = render(PROBE, syn)
            got = cmp.outcome(lambda: shape_of_command(env.parse(text, cfg)))
            st.add(1, 1, 1)
            if got != ("ok", shape(PROBE)):
                raise Violation(f"history {[FIELDS[j] for j in h]}: {text!r} parsed as {got[1]!r}")
            if keep:
                kept.append(cfg)
            else:
                del cfg
        if not keep and len(h) == 2 and h[0] == 0:
            gc.collect()
    # the same text under different configurations
    text = render(PROBE, FIELDS[h[0]])
    outs = []
    for i in h:
        outs.append(cmp.outcome(lambda: shape_of_command(env.parse(text, env.config_of(FIELDS[i]))))[0:2] if i == h[0] else cmp.outcome(lambda: env.parse(text, env.config_of(FIELDS[i])))[0])
    if outs[0] != ("ok", shape(PROBE)):
        raise Violation(f"{text!r} misparsed after {h}: {outs[0]}")


def inter_cases():
    for a, b in itertools.product(range(len(SYNS)), repeat=2):
        yield (a, b)


def check_inter(case, st):
    """two generators with different configurations used alternately"""
    i, j = case
    node = seq(var("a", var("b", "c")), " ", Wc("v"))
    gens, texts, wants = [], [], []
    for x in (i, j):
        w, wm = synworld(x)
        if not usable(node, SYNS[x]):
            return
        gens.append(env.CombinatorialPromptGenerator(wm, parser_config=env.config_of(SYNS[x])))
        texts.append(render(node, SYNS[x]))
        wants.append(ref.take(node, w, ref.C))
    for r in range(2):
        for x in (0, 1):
            got = cmp.outcome(lambda: gens[x].generate(texts[x]))
            st.add(1, 1, 1)
            if got != ("ok", wants[x]):
                raise Violation(f"{texts[x]!r} (round {r}, beside {texts[1 - x]!r}): expected {wants[x]!r}, got {cmp.fmt(got)}")


SAME = [DEFAULT, Syn(vs="<", ve=">"), Syn(vs="[", ve="]"), Syn(vs="<", ve=">", wc="++"), Syn(vs="<<", ve=">>")]
SAME_FORMS = ["{v}", "{v} and {v}", "$OPEN x={v}$CLOSE{v}-$OPEN x$CLOSE", "$OPEN x=!{v}$CLOSE{v}-$OPEN x$CLOSE", "$OPEN x:{v}$CLOSE", "$WCu$WC", "$WCy(x={v})$WC", "$WCy(x=k {v})$WC", "$WCy(x={v},z=1)$WC $WCy$WC"]


def same_cases():
    for n in (2, 3):
        for h in itertools.product(range(len(SAME)), repeat=n):
            if len(set(h)) > 1 and (n == 2 or h[0] == h[2]):
                for f in SAME_FORMS:
                    yield (h, f)


def check_same(case, st):
    """one text under several configurations: single options in braces that only some of them know"""
    h, form = case
    alive = [env.config_of(SAME[i]) for i in set(h)]  # their parsers stay cached
    for val in ("<a>", "[a]", "<a>[b]", "<2::a>", "[1$$a]"):
        for step, i in enumerate(h):
            syn = SAME[i]
            wm = env.WildcardManager(wildcard_wrap=syn.wc, root_map={"": [{"u": [val], "y": ["(${x:d})"], "z": ["q"]}]})
            text = form.replace("{v}", val).replace("$OPEN ", "${").replace("$CLOSE", "}").replace("$WC", syn.wc)
            if syn.vs == "<":
                v = val.replace("<2::a>", "a").replace("<a>", "a")
            elif syn.vs == "[":
                v = val.replace("[1$$a]", "a").replace("[a]", "a").replace("[b]", "b")
            else:
                v = val
            if "$$" in v:
                continue  # not text
            if syn.vs == "<<" and "<" in val:
                continue  # still a character of a delimiter
            want = form.replace("$OPEN x={v}$CLOSE", "").replace("$OPEN x=!{v}$CLOSE", "").replace("$OPEN x$CLOSE", v).replace("$OPEN x:{v}$CLOSE", v)
            want = want.replace("$WCu$WC", v).replace("$WCy(x={v})$WC", f"({v})").replace("$WCy(x=k {v})$WC", f"(k {v})").replace("$WCy(x={v},z=1)$WC", f"({v})").replace("$WCy$WC", "(d)").replace("{v}", v)
            for m in "!@~":
                got = cmp.outcome(lambda: env.real_take(text, wm, m, 1, syn))
                st.add(1, 1, 1)
                if got != ("ok", [want]) and got != ("ok", (want,)):
                    raise Violation(f"{text!r} under {syn}, method {m}, after the same text under {[SAME[j] for j in h[:step]]}: expected {want!r}, got {cmp.fmt(got)}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("structures", "trees of size <= %d x %d delimiter sets: structure and combinatorial generation" % (3, len(SYNS)),
              all_cases(3, atoms=[Wc("w")] if not t else [Wc("w"), Wc("v", "@")]), check("!" if not t else "!@~"), min_cases=2000),
        Space("modes", "trees of size <= 2 x all delimiter sets in all three methods, wildcard values written in the same delimiters",
              all_cases(2, atoms=[Wc("w"), Wc("v")], max_opts=3), check("!@~"), min_cases=200),
        Space("programs", "5 variable values x 3 assignment kinds x 7 bodies x all delimiter sets", program_cases, check("!"), min_cases=2000),
        Space("parameters", "12 x 5 parameter values x 3 wildcards using them x 3 assignments x the delimiter sets that allow it", param_cases, check("!"), min_cases=4000),
        Space("plain", "default delimiters not in use any more, as text", plain_cases, check_plain, min_cases=60),
        Space("old", "default delimiters not in use any more, in options, separators, variable values, wraps and between parts", old_cases, check("!@"), min_cases=1000),
        Space("missing", "missing wildcards under all delimiter sets in all methods", missing_cases, check("!@~"), min_cases=80),
        Space("histories", "all sequences of <= %d of 11 configurations (each single field changed), configuration objects kept or dropped" % (4 if t else 3),
              lambda: history_cases(4 if t else 3), check_history, min_cases=1000, cpu=120),
        Space("same-text", "9 templates of 5 texts that only some of 5 configurations read as a variant, under all histories of 2 configurations and of 3 that return to the first; three methods", same_cases, check_same, min_cases=300),
        Space("alternating", "all pairs of delimiter sets used alternately by two generators", inter_cases, check_inter, min_cases=400),
    ]
