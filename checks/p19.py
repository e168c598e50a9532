"""P19: independent generations never influence each other."""
import copy
import itertools
import random

from .common import *
from vlib import sched
from vlib.env import ListWildcardCollection

RULE = (
    "every interleaving of advancing the streams, every history of calls, and every schedule of two real threads with the stated "
    "number of preemptions (deterministic scheduler: scheduling points at every executed line or function entry of the "
    "library) is run; every stream and call must yield what it yields alone"
)
ASSUMPTIONS = ["scheduling points lie in the library's own code, not inside pyparsing or the interpreter", "streams drawing from one and the same random source share its draws; random streams are given sources of their own"]

T = [
    var("a", "b", "c"),
    seq(var("a", "b"), " ", var("1", "2")),
    var("a", "b", "c", bound="2"),
    seq(var("a", "b", meth="@"), var("1", "2")),
    seq(var("a", "b", meth="@"), " ", var("a", "b", meth="@"), " ", var("1", "2", "3")),
    Wc("w"),
    seq(Wc("w", "@"), "-", Wc("v")),
    Seq((Asg("x", var("1", "2")), Acc("x"), lit(" "), Acc("x"))),
    Seq((Asg("x", var("1", "2"), True), Acc("x"), lit(" "), Wc("ux"))),
    seq(Wc("ux", "", (("x", lit("P")),)), " ", Acc("x", lit("d"))),
    Wc("nope"),
    var(Wc("w")),
    Acc("x"),  # error
    Seq((Asg("x", Acc("x")), Acc("x"))),  # error
    var(seq("k", Wc("w")), var("m", "n", meth="@")),
]


def spec():
    return {"w": [lit("p"), lit("q")], "v": [var("r", "s"), seq("t", Wc("w"))], "ux": [seq("[", Acc("x", lit("n")), "]"), Acc("x", lit("o"))]}


_w = []


def shared():
    if not _w:
        _w.append(env.make_world(spec()))
    return _w[0]


_refs = {}


def expect(ti, m, n):
    key = (ti, m, n)
    if key not in _refs:
        _refs[key] = cmp.ref_list(T[ti], shared()[0], m, n)
    return _refs[key]


def drain(it, n):
    """up to n steps of a stream; an error ends it"""
    out = []
    for _ in range(n):
        try:
            out.append(str(next(it)))
        except StopIteration:
            break
    return out


def schedules(n, k):
    """all interleavings of k steps of each of n streams"""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i in range(n):
            if left[i]:
                l = list(left)
                l[i] -= 1
                for r in rec(tuple(l)):
                    yield (i,) + r
    return rec((k,) * n)


SCHED2 = list(schedules(2, 3))
SCHED3 = [s for s in schedules(3, 2) if s[0] == 0]


def inter_cases(t):
    ms = ["!", "@"]
    for (a, ma), (b, mb) in itertools.combinations_with_replacement(list(itertools.product(range(len(T)), ms)), 2):
        for share in ("context", "command"):
            yield ((a, ma), (b, mb), share)


def check_inter(case, st):
    sa, sb, share = case
    w, wm = shared()
    ctxs = {"!": env.context(wm, "!"), "@": env.context(wm, "@")}
    cmds = {}
    want = []
    for ti, m in (sa, sb):
        e = expect(ti, m, 3)
        want.append(e)
        if share == "command" and ti not in cmds:
            cmds[ti] = env.parse(render(T[ti]))
    for s in SCHED2:
        its, outs, dead = [], [[], []], [None, None]
        for ti, m in (sa, sb):
            src = cmds[ti] if share == "command" else render(T[ti])
            try:
                its.append(iter(ctxs[m].sample_prompts(src)))
            except Exception:
                dead[len(its)] = "exc"
                its.append(None)
        for i in s:
            if dead[i]:
                continue
            try:
                outs[i].append(str(next(its[i])))
            except StopIteration:
                dead[i] = "end"
            except Exception as e:
                dead[i] = "exc"
        st.add(1, len(s), 1)
        for i in (0, 1):
            got = ("exc",) if dead[i] == "exc" else ("ok", outs[i])
            ok = want[i][0] == got[0] and (got[0] == "exc" or want[i][1] == got[1])
            if not ok:
                texts = [(render(T[ti]), m) for ti, m in (sa, sb)]
                raise Violation(f"streams {texts} sharing a {share}, advanced as {s}: stream {i} yields {got}, alone {cmp.fmt(want[i])}")


def three_cases():
    base = [0, 3, 4, 6, 7, 9, 14]
    for c in itertools.product(base, repeat=3):
        yield c


def check_three(c, st):
    w, wm = shared()
    ctx = env.context(wm, "!")
    want = [expect(ti, "!", 2) for ti in c]
    cmds = {ti: env.parse(render(T[ti])) for ti in c}
    for s in SCHED3:
        its = [iter(ctx.sample_prompts(cmds[ti])) for ti in c]
        outs = [[] for _ in c]
        for i in s:
            for r in itertools.islice(its[i], 1):
                outs[i].append(str(r))
        st.add(1, len(s), 1)
        for i in range(3):
            if ("ok", outs[i]) != want[i]:
                raise Violation(f"streams {[render(T[x]) for x in c]} advanced as {s}: stream {i} yields {outs[i]}, alone {want[i][1]}")


def random_cases():
    for a, b in itertools.product(range(12), repeat=2):
        yield (a, b)


def check_random(case, st):
    """random streams with sources of their own, advanced in all orders"""
    w, wm = shared()
    texts = [render(T[i]) for i in case]

    def stream(i):
        return iter(env.context(wm, "~", rand=random.Random(i + 5)).sample_prompts(texts[i]))

    try:
        want = [[str(next(s)) for _ in range(3)] for s in (stream(0), stream(1))]
    except Exception:
        return
    for s in SCHED2:
        its = [stream(0), stream(1)]
        outs = [[], []]
        for i in s:
            outs[i].append(str(next(its[i])))
        st.add(1, 6, 1)
        if outs != want:
            raise Violation(f"random streams {texts} advanced as {s}: {outs}, alone {want}")


# --- histories of calls on shared objects -----------------------------------------

GENS = ["comb", "rand", "ctx@", "batch"]


def history_cases(t):
    ops = [(ti, g) for ti in range(len(T)) for g in GENS]
    for a, b in itertools.product(ops, repeat=2):
        yield (a, b)
    for a, b, c in itertools.product(range(len(T)), repeat=3):
        for g in (GENS if t else ["comb"]):
            yield ((a, g), (b, g), (c, g))


def check_history(case, st):
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator

    w, wm = env.make_world(spec())
    comb = env.CombinatorialPromptGenerator(wm)
    objs = {"comb": comb, "rand": env.RandomPromptGenerator(wm), "ctx@": env.context(wm, "@"), "batch": BatchedCombinatorialPromptGenerator(comb, 2)}
    for i, (ti, g) in enumerate(case):
        text = render(T[ti])
        hist = [(render(T[a]), b) for a, b in case[:i]]
        o = objs[g]
        st.add(1, 1, 1)
        if g == "rand":
            try:
                cmp.dist(T[ti], w, wm, st, k=1, make=lambda: o.generate(text, 1), max_runs=400)
            except Violation as v:
                raise Violation(f"after {hist}: {v}")
            continue
        if g == "ctx@":
            want = cmp.ref_list(T[ti], w, "@", 4)
            got = cmp.outcome(lambda: [str(r) for r in o.sample_prompts(text, 4)])
        else:
            want = cmp.ref_list(T[ti], w, "!", 9)
            if want[0] == "ok" and g == "batch":
                want = ("ok", want[1] * 2)
            got = cmp.outcome(lambda: o.generate(text, 9))
        if not cmp.same(want, got):
            raise Violation(f"after {hist}: {text!r} on {g} gives {cmp.fmt(got)}, expected {cmp.fmt(want)}")


def abandon_cases():
    for a in range(len(T)):
        for m in "!@":
            for k in (0, 1, 2, 3):
                for how in ("drop", "close", "keep"):
                    yield (a, m, k, how)


def check_abandon(case, st):
    """a stream left half-way leaves no trace"""
    ti, m, k, how = case
    w, wm = shared()
    ctx = env.context(wm, m)
    cmd = env.parse(render(T[ti]))
    held = None
    it = None
    try:
        it = ctx.sample_prompts(cmd)
        drain(iter(it), k)
    except Exception:
        pass
    if how == "close" and hasattr(it, "close"):
        it.close()
    elif how == "keep":
        held = it
    del it
    for tj in range(len(T)):
        want = expect(tj, m, 5)
        got = cmp.outcome(lambda: [str(r) for r in ctx.sample_prompts(cmd if tj == ti else render(T[tj]), 5)])
        st.add(1, 1, 1)
        if not cmp.same(want, got):
            raise Violation(f"after {k} prompts of {render(T[ti])!r} ({how}), {render(T[tj])!r} gives {cmp.fmt(got)}, alone {cmp.fmt(want)}")
    del held


WRITERS = ["call seed", "call seeds", "own seed", "own seed and call seed", "jinja seed", "comb seed", "fail"]
READERS = ["random", "same random", "unlinked", "context", "combinatorial", "jinja prompt", "jinja choice"]
LONG = "{~12$$-$$a|b|c|d|e|f|g|h|i|j|k|l}" * 2  # 2e17 prompts


def unseeded_cases():
    for r in READERS:
        for n in (1, 2):
            for ws in itertools.product(WRITERS, repeat=n):
                for seed in (0, 5):
                    yield (r, ws, seed)


def check_unseeded(case, st):
    """prompts of generators that were given no seed do not follow from seeds given to others"""
    from dynamicprompts.generators import JinjaGenerator

    reader, ws, seed = case
    wm = env.make_world(spec())[1]
    a = env.RandomPromptGenerator(wm)
    kept = env.RandomPromptGenerator(wm)
    seen = []
    for _ in range(3):
        for w in ws:
            if w == "call seed":
                a.generate("{a|b|c} __w__", 1, seeds=seed)
            elif w == "call seeds":
                a.generate("{a|b|c} __w__", 2, seeds=[seed, 3])
            elif w == "own seed":
                env.RandomPromptGenerator(wm, seed=seed).generate("{a|b|c} __w__", 2)
            elif w == "own seed and call seed":
                env.RandomPromptGenerator(wm, seed=seed).generate("{a|b|c} __w__", 1, seeds=seed)
            elif w == "jinja seed":
                JinjaGenerator(wm).generate("{{ random_sample('{a|b}') }}{{ choice('p', 'q') }}", 1, seeds=seed)
            elif w == "comb seed":
                env.CombinatorialPromptGenerator(wm).generate("{~a|b} {c|d}", 2, seeds=seed)
            else:
                try:
                    a.generate("{a|b} ${nosuch}", 1, seeds=seed)
                except Exception:
                    pass
        if reader == "random":
            got = env.RandomPromptGenerator(wm).generate(LONG, 1)
        elif reader == "same random":
            got = kept.generate(LONG, 1)
        elif reader == "unlinked":
            got = env.RandomPromptGenerator(wm, unlink_seed_from_prompt=True).generate(LONG, 1)
        elif reader == "context":
            got = [str(x) for x in env.SamplingContext(default_sampling_method=env.METHOD["~"], wildcard_manager=wm).sample_prompts(LONG, 1)]
        elif reader == "combinatorial":
            got = env.CombinatorialPromptGenerator(wm).generate(LONG, 1)
        elif reader == "jinja prompt":
            got = JinjaGenerator(wm).generate("{{ random_sample('%s') }}" % LONG, 1)
        else:
            got = JinjaGenerator(wm).generate("{% for i in range(60) %}{{ choice('a','b','c','d') }}{% endfor %}", 1)
        st.add(1, 1, 1)
        if len(got) != 1 or len(got[0]) not in (46, 60):
            raise Violation(f"{reader} after {ws}: unexpected {got}")
        if got in seen:
            raise Violation(f"{reader}, given no seed, yields {got} each time after {ws} with seed {seed} on other generators: alone, its prompts differ from time to time")
        seen.append(got)


# --- nothing handed in is modified ---------------------------------------------------


def immut_cases(t):
    g = Grammar(lits=("a",), atoms=[Wc("w"), Acc("x"), Acc("y", lit("d"))], bounds=lambda n: (None, "1-2") if n == 2 else (None,), meths=("", "@"), weights=(None,), max_opts=2, max_parts=2, wraps=True)
    for n in g.upto(3):
        yield n
    for i in range(len(T)):
        yield T[i]
    for n in g.upto(2):
        yield Seq((Asg("x", n), Acc("x")))
        yield Seq((Asg("x", n, True), Acc("x")))
        yield Wc("ux", "", (("x", n),))


def check_immut(node, st):
    from dynamicprompts.parser.config import ParserConfig

    w, wm = shared()
    cmd = env.parse(render(node))
    before = shape_of_command(cmd)
    reprs = repr(cmd)
    given = {"x": env.parse("{1|2}"), "z": env.parse("q")}
    g0 = dict(given)
    cfg = ParserConfig()
    for m in "!@~":
        ctx = env.context(wm, m, variables=given)
        runs = []
        for k in (3, 3):
            def go():
                # each run from the same state of its own random source
                c = env.context(wm, m, variables=given, rand=random.Random(3))
                return [str(r) for r in c.sample_prompts(cmd, k)]
            runs.append(cmp.outcome(go))
        st.add(1, 2, 2)
        if runs[0] != runs[1]:
            raise Violation(f"{render(node)!r} sampled twice by method {m}: {cmp.fmt(runs[0])}, then {cmp.fmt(runs[1])}")
        if shape_of_command(cmd) != before or repr(cmd) != reprs:
            raise Violation(f"sampling {render(node)!r} by method {m} changed the parsed template to {cmd}")
        if given != g0 or list(given) != list(g0):
            raise Violation(f"sampling {render(node)!r} by method {m} changed the caller's variables to {given}")
        if ctx.default_sampling_method != env.METHOD[m] or ctx.variables is not given and ctx.variables != g0:
            raise Violation(f"sampling {render(node)!r} changed the context {ctx}")
    if [str(v) for v in wm.get_values("w")] != ["p", "q"] or ParserConfig() != cfg:
        raise Violation(f"sampling {render(node)!r} changed the wildcard values or the configuration")


VALUE_OPS = ["look", "comb", "rand", "cyc", "shuffle", "sort", "dedup", "shuffled", "copy", "add", "weighted", "strings", "clear"]


def values_cases(t):
    for n in (1, 2, 3) if not t else (1, 2, 3, 4):
        for ops in itertools.product(VALUE_OPS, repeat=n):
            yield ops


def check_values(ops, st):
    """values a caller holds, and the lists it supplied, never change"""
    from dynamicprompts.wildcards.values import WildcardValues

    supplied = ["c", "a", "b", "e", "d", "a"]
    items = [env.WildcardItem("x", 2.0), "y", env.WildcardItem("z", 0.5), "u"]
    plain = ["s", "r", "q", "t"]
    roots = {"l": plain, "w": ListWildcardCollection(entries=supplied), "k": ListWildcardCollection(entries=items)}
    was = (list(supplied), list(items), list(plain), list(roots))
    wm = env.WildcardManager(root_map={"": [roots]})
    own = WildcardValues.from_items(supplied)
    held = [(own, list(own))]
    for q in ("w", "k", "l"):
        v = wm.get_values(q)
        held.append((v, list(v)))
    for op in ops:
        if op == "look":
            for q in ("w", "*", "k"):
                v = wm.get_values(q)
                held.append((v, list(v)))
        elif op == "comb":
            env.CombinatorialPromptGenerator(wm).generate("__w__ {2$$__l__} __k__", 9)
        elif op == "rand":
            env.RandomPromptGenerator(wm).generate("__w__ {2$$__l__} __k__", 3)
        elif op == "cyc":
            [str(r) for r in env.context(wm, "@").sample_prompts("__w__ {2$$__l__} __k__", 9)]
        elif op in ("shuffle", "sort", "dedup"):
            setattr(wm, op + "_wildcards", not getattr(wm, op + "_wildcards"))
        elif op == "clear":
            wm.clear_cache()
        else:
            for v, _ in held[:4]:
                if op == "shuffled":
                    s = v.shuffled()
                    if sorted(map(str, s)) != sorted(map(str, v)):
                        raise Violation(f"shuffling {list(v)} gives {list(s)}")
                elif op == "copy":
                    if list(v.copy()) != list(v):
                        raise Violation(f"the copy of {list(v)} is {list(v.copy())}")
                elif op == "add":
                    if list(v + own) != list(v) + list(own):
                        raise Violation(f"{list(v)} + {list(own)} = {list(v + own)}")
                elif op == "weighted":
                    list(v.iterate_string_values_weighted())
                    drain(v.get_weighted_random_generator(random.Random(1)), 3)
                elif op == "strings":
                    v.string_values, v.cum_weight_values, v.has_varied_weights
        st.add(1, 1, 1)
        for v, before in held:
            if list(v) != before:
                raise Violation(f"after {ops}: values held by the caller changed from {before} to {list(v)}")
        if (supplied, items, plain, list(roots)) != was:
            raise Violation(f"after {ops}: the values supplied by the caller changed: {supplied}, {items}, {plain}, {list(roots)}")


# --- threads -----------------------------------------------------------------------------


def thread_body(kind, wm, ctx=None):
    """(function, expected outcome)"""
    w = env.make_world(spec())[0]
    name, arg = kind
    node = T[arg]
    text = render(node)
    if name == "comb":
        g = env.CombinatorialPromptGenerator(wm)
        return (lambda: g.generate(text, 6)), cmp.ref_list(node, w, "!", 6)
    if name == "sharedcomb":
        return (lambda: ctx.generate(text, 6)), cmp.ref_list(node, w, "!", 6)
    if name == "cyc":
        c = env.context(wm, "@")
        return (lambda: [str(r) for r in c.sample_prompts(text, 3)]), cmp.ref_list(node, w, "@", 3)
    if name == "rand":
        g = env.RandomPromptGenerator(wm, seed=arg + 1)
        h = env.RandomPromptGenerator(env.make_world(spec())[1], seed=arg + 1)
        return (lambda: g.generate(text, 3)), cmp.outcome(lambda: h.generate(text, 3))
    raise ValueError(name)


KINDS = [("comb", 4), ("comb", 9), ("sharedcomb", 6), ("sharedcomb", 8), ("cyc", 6), ("rand", 9), ("comb", 13), ("rand", 14)]


def thread_cases(t, full):
    """pairs of bodies x fill of the lookup cache; split by residue so that work spreads"""
    pairs = [(a, b) for i, a in enumerate(KINDS) for b in KINDS[i:]]
    for a, b in pairs:
        for fill in (0, 100, 101):
            if fill and not full:
                continue
            for order in ((0, 1), (1, 0)):
                yield (a, b, fill, order)


def run_threads(case, st, preemptions, lines):
    a, b, fill, order = case
    expected = []

    def make():
        wm = env.make_world(spec())[1]
        for i in range(fill):
            wm.get_values(f"none{i}" if i else "w")
        shared_gen = env.CombinatorialPromptGenerator(wm)
        bodies = []
        expected.clear()
        for k in (a, b):
            fn, want = thread_body(k, wm, shared_gen)
            bodies.append(fn)
            expected.append(want)
        if order == (1, 0):
            bodies.reverse()
            expected.reverse()
        return bodies

    for plan, res in sched.explore(make, env.SRC, preemptions, lines):
        st.add(1, len(plan) + 1, 1)
        for i, (r, want) in enumerate(zip(res, expected)):
            if not cmp.same(want, r):
                who = [a, b] if order == (0, 1) else [b, a]
                raise Violation(f"threads {[(k[0], render(T[k[1]])) for k in who]}, {fill} lookups before, hand-over after events {plan}: thread {i} gives {cmp.fmt(r)}, alone {cmp.fmt(want)}")


# shorter bodies for the quick tier: sampling a parsed template shared by both threads
# on a shared context, or only parsing
LITTLE = [("S!", 3), ("S!", 9), ("S!", 8), ("S@", 5), ("S@", 9), ("R", 9), ("P", 4), ("P", 9), ("S!", 12), ("S!", 14)]


def little_body(kind, wm, ctxs, cmds):
    name, ti = kind
    w = shared()[0]
    if name == "P":
        text = render(T[ti])
        return (lambda: shape_of_command(env.parse(text))), ("ok", shape_of_command(cmds[ti]))
    if name == "R":
        c = env.context(wm, "~", rand=random.Random(7))
        d = env.context(shared()[1], "~", rand=random.Random(7))
        return (lambda: [str(r) for r in c.sample_prompts(cmds[ti], 2)]), ("ok", [str(r) for r in d.sample_prompts(cmds[ti], 2)])
    m = name[1]
    return (lambda: [str(r) for r in ctxs[m].sample_prompts(cmds[ti], 2)]), expect(ti, m, 2)


PARTS = 4


def little_cases(t, two):
    if two:
        k = [("S!", 3), ("S@", 5), ("S!", 14), ("S@", 9)]
        pairs = itertools.product(LITTLE, repeat=2) if t else [(k[0], k[0]), (k[1], k[0]), (k[0], k[1]), (k[1], k[1]), (k[1], k[3]), (k[2], k[1])]
    else:
        firsts = LITTLE if t else [("S!", 3), ("S!", 9), ("S@", 5), ("R", 9), ("P", 9), ("S!", 14), ("S!", 12)]
        seconds = LITTLE if t else [("S!", 3), ("S!", 9), ("P", 9), ("S!", 14)]
        pairs = itertools.product(firsts, seconds)
    for c in pairs:
        for r in range(PARTS):
            yield (c, r)


def run_little(case, st, preemptions, lines):
    case, part = case
    cmds = {ti: env.parse(render(T[ti])) for _, ti in case}
    expected = []

    def make():
        wm = env.make_world(spec())[1]
        ctxs = {"!": env.context(wm, "!"), "@": env.context(wm, "@")}
        expected.clear()
        bodies = []
        for k in case:
            fn, want = little_body(k, wm, ctxs, cmds)
            bodies.append(fn)
            expected.append(want)
        return bodies

    for plan, res in sched.explore(make, env.SRC, preemptions, lines, (part, PARTS)):
        st.add(1, len(plan) + 1, 1)
        for i, (r, want) in enumerate(zip(res, expected)):
            if not cmp.same(want, r):
                raise Violation(f"threads {[(k[0], render(T[k[1]])) for k in case]}, hand-over after events {plan}: thread {i} gives {cmp.fmt(r)}, alone {cmp.fmt(want)}")


def lookup_cases(t, two):
    if two and not t:
        return iter([(101, a, b, False) for a in ("w", "zz") for b in ("new", "*")])
    return itertools.product((0, 99, 100, 101, 102), ("w", "v", "zz", "/w"), ("w", "new", "*"), (False, True))


def check_lookup(case, st, preemptions):
    """two threads looking values up (and nothing else) while the cache is nearly full"""
    fill, qa, qb, twice = case
    want = {"w": ["p", "q"], "/w": ["p", "q"], "v": ["t__w__", "{r|s}"], "zz": [], "new": [], "*": None}

    def make():
        wm = env.make_world(spec())[1]
        for i in range(fill):
            wm.get_values(["w", "v", "zz"][i] if i < 3 else f"n{i}")

        def look(q):
            def f():
                out = None
                for _ in range(2 if twice else 1):
                    out = [str(v) for v in wm.get_values(q)]
                return out
            return f
        return [look(qa), look(qb)]

    for plan, res in sched.explore(make, env.SRC, preemptions, True):
        st.add(1, len(plan) + 1, 1)
        for q, r in zip((qa, qb), res):
            if r[0] != "ok" or (want[q] is not None and r[1] != want[q]):
                raise Violation(f"two threads looking up {qa!r} and {qb!r} after {fill} lookups, hand-over after events {plan}: {q!r} gives {r}")


def spaces(tier):
    t = tier == "thorough"
    out = [
        Space("interleavings", "all pairs of 30 streams (15 templates x 2 methods, some failing) sharing context and parsed template, all 20 interleavings of 3 steps each", lambda: inter_cases(t), check_inter, min_cases=900),
        Space("three", "all triples of 7 templates on one context, 30 interleavings of 2 steps each", three_cases, check_three, min_cases=343),
        Space("random", "all pairs of 12 random streams with own sources, all 20 interleavings", random_cases, check_random, min_cases=144),
        Space("histories", "all histories of 2 calls of 15 templates (2 failing) on 4 shared generators and of 3 calls on %s" % ("each" if t else "the combinatorial one"), lambda: history_cases(t), check_history, min_cases=5000),
        Space("unseeded", "7 kinds of reader without a seed after all histories of 1..2 of 7 seeded uses of other generators, three times over: its prompts are not determined by them", unseeded_cases, check_unseeded, min_cases=700),
        Space("abandoned", "streams left after 0..3 prompts (dropped, closed, kept), then every template on the same context", abandon_cases, check_abandon, min_cases=300),
        Space("unmodified", "all templates of size <= 3: template, variables, wildcards, configuration before and after; sampled twice", lambda: immut_cases(t), check_immut, min_cases=300),
        Space("values", "all histories of <= %d of 13 operations (lookups, generation by three methods, option changes, operations on the values): values held and lists supplied by the caller stay" % (4 if t else 3), lambda: values_cases(t), check_values, min_cases=2000),
        Space("threads", "ordered pairs of %s short thread bodies (sampling a shared template on a shared context, parsing), every single preemption at any line of the library" % ("10 x 10" if t else "7 x 4"), lambda: little_cases(t, False), lambda c, st: run_little(c, st, 1, True), min_cases=100, cpu=400),
        Space("threads-2", "%d ordered pairs of short thread bodies, every two preemptions at function entries" % (100 if t else 6), lambda: little_cases(t, True), lambda c, st: run_little(c, st, 2, False), min_cases=20, cpu=3000),
        Space("lookups", "two threads looking up values with 0..102 earlier lookups, every single preemption at any line", lambda: lookup_cases(t, False), lambda c, st: check_lookup(c, st, 1), min_cases=90, cpu=200),
        Space("lookups-2", "two threads looking up values when the cache is full, every two preemptions at any line", lambda: lookup_cases(t, True), lambda c, st: check_lookup(c, st, 2), min_cases=4, cpu=400),
    ]
    if t:
        out.append(Space("threads-full", "36 pairs of whole generate calls, 3 fills of the lookup cache, both orders, every single preemption at any line", lambda: thread_cases(t, t), lambda c, st: run_threads(c, st, 1, True), min_cases=60, cpu=3000))
    return out
