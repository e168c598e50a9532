"""P18: seeds make generation reproducible, and per-prompt seeds act per prompt."""
import itertools
import json
import os
import random
import subprocess
import sys

from .common import *

RULE = (
    "every history of the stated operations is run with the real random source; each seeded call is compared with the same call "
    "made alone on new objects, and with separate processes of different hash seeds"
)
ASSUMPTIONS = ["wildcard shuffling is off (it is an explicit request for unseeded order)", "per-prompt seeds: templates without cyclical parts or immediate variables"]

TEMPLATES = [
    "{a|b|c|d|e|f|g|h}",
    "{1-3$$ and $$a|b|c|d}",
    "__w__ __w__",
    "__f__ {x|y} __f__",
    "{0.5::a|2::b|c} {2$$p|q|r|s}",
    "${v={1|2|3|4}}${v} ${v} ${q:{5|6}}",
    "__inc__ - {__inc__|{k|l}}",
    "{2-3$$__w8__} %{<...{a|b|c}>$${x|y|z}}",
    "plain",
    "{0-2$$a|b|c}{x|{y|z}}# comment\n {1|2}",
    "{~a|b|c|d} {__~w8__|z}",
    "__w60__ {2$$__w60__}",
    "__f60__ {__f60__|b}",
    "{" + "|".join(f"o{i}" for i in range(70)) + "}",
]
CYC = ["{@a|b|c} {x|y|z}", "${v=!{1|2|3|4}}${v} ${v} {x|y}", "__@w8__ {1|2|3}"]
SEEDS = [0, 1, 42, -7, 2**40, 123456789]


def manager():
    from dynamicprompts.wildcards.item import WildcardItem
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection

    I = lambda c, w: WildcardItem(content=c, weight=w)
    return env.WildcardManager(root_map={"": [{
        "w": ["p", "q", "r"],
        "w8": [f"v{i}" for i in range(8)],
        "f": ListWildcardCollection(entries=[I("heavy", 3.0), I("mid", 1.5), "light", I("{m|n}", 2.0)]),
        "w60": [f"v{i}" for i in range(60)],
        "f60": ListWildcardCollection(entries=[I(f"v{i}", 1.0 + i % 3) for i in range(60)]),
        "inc": ["__w__/{s|t}", "{__f__|u}", "z"],
    }]})


_alone = {}


def alone(tmpl, seed, calls):
    """what a new generator with this seed yields for these call sizes"""
    key = (tmpl, seed, calls)
    if key not in _alone:
        g = env.RandomPromptGenerator(manager(), seed=seed)
        _alone[key] = [g.generate(tmpl, n) for n in calls]
    return _alone[key]


def one(tmpl, seed):
    key = (tmpl, seed)
    if key not in _alone:
        _alone[key] = env.RandomPromptGenerator(manager()).generate(tmpl, 1, seeds=[seed])[0]
    return _alone[key]


def noise(kind, wm, others):
    from dynamicprompts.constants import DEFAULT_RANDOM

    if kind == "none":
        return
    if kind == "global":
        random.seed(5)
        random.random()
    elif kind == "default":
        DEFAULT_RANDOM.seed(9)
        DEFAULT_RANDOM.random()
    elif kind == "other":
        others["o"].generate("{a|b|c} __w__ __f__", 2)
    elif kind == "otherseeds":
        others["o"].generate("{a|b|c} __w__", 2, seeds=[3, 4])
    elif kind == "unlinked":
        others["u"].generate("{a|b|c} __w__", 1, seeds=8)
    elif kind == "new":
        env.RandomPromptGenerator(wm, seed=77).generate("__f__", 2)
    elif kind == "fail":
        try:
            others["o"].generate("{a|b} ${nosuch}", 1)
        except Exception:
            pass
    elif kind == "comb":
        env.CombinatorialPromptGenerator(wm).generate("{~a|b|c} {1|2} __w__", 4)
    elif kind == "jinja":
        from dynamicprompts.generators.jinjagenerator import JinjaGenerator

        JinjaGenerator(wm).generate("{{ choice('a','b') }} {{ wildcard('__w__')[0] }}", 1)
    elif kind == "parse":
        env.parse("{a|b} ${x=1}")


NOISE = ["none", "global", "default", "other", "otherseeds", "unlinked", "new", "fail", "comb", "jinja", "parse"]
CALLS = [(4,), (1, 2), (2, 1, 1)]


def twin_cases(t):
    for ti in range(len(TEMPLATES) + len(CYC)):
        for s in SEEDS if t else SEEDS[:3]:
            for c in CALLS:
                for n in itertools.product(NOISE, repeat=2):
                    if t or n[0] == n[1] or (c == (1, 2) and s != 1):
                        yield (ti, s, c, n)


def template(i):
    return (TEMPLATES + CYC)[i]


def check_twin(case, st):
    ti, seed, calls, ns = case
    tm = template(ti)
    wm = manager()
    others = {"o": env.RandomPromptGenerator(wm), "u": env.RandomPromptGenerator(wm, unlink_seed_from_prompt=True)}
    want = alone(tm, seed, calls)
    noise(ns[0], wm, others)
    g1 = env.RandomPromptGenerator(wm, seed=seed)
    noise(ns[1], wm, others)
    g2 = env.RandomPromptGenerator(wm, seed=seed)
    for i, n in enumerate(calls):
        noise(ns[i % 2], wm, others)
        a = g1.generate(tm, n)
        noise(ns[(i + 1) % 2], wm, others)
        b = g2.generate(tm, n)
        st.add(1, 2, 2)
        for who, got in (("first", a), ("second", b)):
            if got != want[i]:
                raise Violation(f"{tm!r}, seed {seed}, call {i} of sizes {calls} with {ns} in between: the {who} generator gives {got}, alone it gives {want[i]}")


HIST = ["none", "other", "self", "selfseeds", "global", "fail", "unlinked", "default"]


def per_cases(t):
    sd = [0, 1, 42, 7]
    lists = [c for n in (1, 2, 3) for c in itertools.product(sd, repeat=n)]
    for ti in range(len(TEMPLATES)):
        for c in lists:
            yield (ti, c, "none", None, False)
        for h in HIST:
            for cs in (None, 0, 5):
                for un in (False, True):
                    for c in ((0,), (1, 42), (42, 0, 42), (7, 7, 1, 0)):
                        yield (ti, c, h, cs, un)


def check_per(case, st):
    ti, seeds, h, cs, un = case
    tm = TEMPLATES[ti]
    wm = manager()
    g = env.RandomPromptGenerator(wm, seed=cs, unlink_seed_from_prompt=un)
    others = {"o": env.RandomPromptGenerator(wm), "u": env.RandomPromptGenerator(wm, unlink_seed_from_prompt=True)}
    if h == "self":
        g.generate(tm, 2)
    elif h == "selfseeds":
        g.generate(tm, 3, seeds=[5, 6, 7])
    else:
        noise(h, wm, others)
    given = list(seeds)
    got = g.generate(tm, len(seeds), seeds=given)
    want = [one(tm, s) for s in seeds]
    st.add(1, len(seeds), 1)
    if got != want:
        raise Violation(f"{tm!r} with seeds {list(seeds)} (constructor seed {cs}, unlinked {un}, after {h}): {got}, alone the seeds give {want}")
    if given != list(seeds):
        raise Violation(f"the list of seeds given by the caller became {given}")


def single_cases():
    for ti in range(len(TEMPLATES)):
        for s in (0, 1, 42, -3):
            for n in (1, 2, 3, 5, 33, 130, 300):
                yield (ti, s, n)


def check_single(case, st):
    ti, s, n = case
    tm = TEMPLATES[ti]
    g = env.RandomPromptGenerator(manager(), seed=9)
    want = [one(tm, s)] * n
    for form in (s, [s]):
        got = g.generate(tm, n, seeds=form)
        st.add(1, n, 1)
        if got != want:
            raise Violation(f"{tm!r}, {n} prompts with seeds={form!r}: {got}, expected {want}")


def mismatch_cases():
    for ti in (0, 2, 5):
        for n in range(0, 5):
            for k in range(2, 6):
                for pat in (tuple(range(k)), (5,) * k, (0,) * k, (1,) * (k - 1) + (2,), (0, 1) * k):
                    yield (ti, n, pat[:k])


def check_mismatch(case, st):
    ti, n, seeds = case
    k = len(seeds)
    g = env.RandomPromptGenerator(manager())
    o = cmp.outcome(lambda: g.generate(TEMPLATES[ti], n, seeds=list(seeds)))
    st.add(1, 1, 1)
    if n == k:
        if o[0] != "ok" or len(o[1]) != n:
            raise Violation(f"{n} prompts with {k} seeds: {o}")
    elif o[0] == "ok":
        raise Violation(f"{n} prompts with {k} seeds: no error, got {o[1]}")
    again = g.generate(TEMPLATES[ti], 2, seeds=[1, 2])
    if again != [one(TEMPLATES[ti], 1), one(TEMPLATES[ti], 2)]:
        raise Violation(f"after a seed count mismatch, seeds [1, 2] give {again}")


def vary_cases():
    return [t for t in range(len(TEMPLATES)) if TEMPLATES[t] != "plain"]


def check_vary(ti, st):
    """the seed is what decides: different seeds do not all give the same"""
    tm = TEMPLATES[ti]
    a = {one(tm, s) for s in range(60)}
    b = {tuple(env.RandomPromptGenerator(manager(), seed=s).generate(tm, 3)) for s in range(60)}
    c = {tuple(env.RandomPromptGenerator(manager()).generate(tm, 4)) for s in range(30)}
    st.add(3, 150, 3)
    if len(a) < 2 or len(b) < 2 or len(c) < 2:
        raise Violation(f"{tm!r}: 60 per-prompt seeds give {len(a)}, 60 constructor seeds {len(b)}, 30 unseeded generators {len(c)} different results")


SCRIPT = r"""
import sys, json, warnings, logging
warnings.simplefilter("ignore"); logging.disable(50)
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
mode = sys.argv[2]
tm = json.loads(sys.argv[3]); seeds = json.loads(sys.argv[4])
from dynamicprompts.generators import RandomPromptGenerator
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem as I
from dynamicprompts.wildcards.collection.list import ListWildcardCollection as L
def wm():
    return WildcardManager(root_map={"": [{"w": ["p", "q", "r"], "w8": ["v%d" % i for i in range(8)], "w60": ["v%d" % i for i in range(60)],
        "f60": L(entries=[I("v%d" % i, 1.0 + i % 3) for i in range(60)]),
        "f": L(entries=[I("heavy", 3.0), I("mid", 1.5), "light", I("{m|n}", 2.0)]), "inc": ["__w__/{s|t}", "{__f__|u}", "z"]}]})
if mode == "busy":
    import random; random.seed(3)
    RandomPromptGenerator(wm()).generate("{a|b|c} __w__ __f__", 5)
    RandomPromptGenerator(wm(), unlink_seed_from_prompt=True).generate("{a|b|c}", 3, seeds=4)
out = []
for t in (tm if mode != "reversed" else tm[::-1]):
    for s in seeds:
        g = RandomPromptGenerator(wm(), seed=s)
        a = [g.generate(t, 4)]
        b = RandomPromptGenerator(wm()).generate(t, len(seeds), seeds=seeds)
        out.append([t, s, a, b])
out.sort(key=lambda r: (tm.index(r[0]), r[1]))
print(json.dumps(out))
"""


def process_cases():
    for hs in ("0", "1", "2", "random"):
        for mode in ("quiet", "busy", "reversed"):
            yield (hs, mode)


def check_process(case, st):
    hs, mode = case
    e = dict(os.environ, PYTHONHASHSEED=hs)
    seeds = [0, 1, 42]
    p = subprocess.run([sys.executable, "-c", SCRIPT, env.SRC, mode, json.dumps(TEMPLATES), json.dumps(seeds)], capture_output=True, text=True, env=e, timeout=300)
    if p.returncode:
        raise Violation(f"a process of its own failed: {p.stderr[-600:]}")
    st.add(1, 1, 1)
    got = {(t, s): (a, b) for t, s, a, b in json.loads(p.stdout.splitlines()[-1])}
    for t in TEMPLATES:
        for s in seeds:
            want = (alone(t, s, (4,)), [one(t, x) for x in seeds])
            st.add(1, 1, 1)
            if got[t, s] != want:
                raise Violation(f"{t!r}, seed {s} in another process (hash seed {hs}, {mode}): {got[t, s]}, here {want}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("twins", "17 templates x %d seeds x call sequences x pairs of 11 disturbances placed around and between the calls of two equally seeded generators" % (6 if t else 3), lambda: twin_cases(t), check_twin, min_cases=4000),
        Space("per-prompt", "14 templates x all seed lists of <= 3 of 4 seeds; and 8 histories x constructor seeds x unlinking x 4 lists", lambda: per_cases(t), check_per, min_cases=2000),
        Space("single", "one seed, as number or list, for n prompts", single_cases, check_single, min_cases=150),
        Space("mismatch", "every count of prompts against every count of seeds, five patterns of seeds", mismatch_cases, check_mismatch, min_cases=50),
        Space("vary", "different seeds do not all give the same", vary_cases, check_vary, min_cases=9),
        Space("processes", "separate processes: 4 hash seeds x 3 histories", process_cases, check_process, min_cases=12, cpu=120),
    ]
