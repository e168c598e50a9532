"""P21: magic prompts keep order and origin, and blocked text is retried as bounded."""
import importlib
import itertools
import re
import sys
import types

from .common import *

RULE = (
    "the language model is a stand-in whose every answer is a choice point: all assignments of answers to prompts and attempts, all small answer "
    "texts and all histories of selections and load failures are run on the real generator and compared with the protocol stated here"
)
ASSUMPTIONS = ["the transformers library is replaced by a stand-in with the calls the generator documents (tokenizer, model, pipeline, seed)", "the model answers one text per prompt"]


class Lib(types.ModuleType):
    """stand-in for transformers; `fail` names the loading stages that raise"""

    def __init__(self):
        super().__init__("transformers")
        lib = self
        self.fail, self.seeds, self.asks, self.answer = {}, [], [], None

        def loader(stage):
            class Loader:
                @staticmethod
                def from_pretrained(name, *a, **k):
                    if lib.fail.get(name) == stage:
                        raise OSError(f"cannot load {stage} of {name}")
                    cfg = types.SimpleNamespace(eos_token_id=7)
                    return types.SimpleNamespace(name=name, config=cfg, eos_token_id=7, pad_token_id=None)

            return Loader

        self.AutoTokenizer = loader("tokenizer")
        self.AutoModelForCausalLM = loader("model")

    def set_seed(self, s, *a, **k):
        self.seeds.append(s)

    def pipeline(self, task=None, model=None, tokenizer=None, device=None, **kw):
        name = model.name
        if self.fail.get(name) == "pipeline":
            raise RuntimeError(f"cannot build the pipeline of {name}")
        if tokenizer.name != name:
            raise Violation(f"pipeline of model {name} with the tokenizer of {tokenizer.name}")

        def run(prompts, **kw):
            single = isinstance(prompts, str)
            out = []
            for p in [prompts] if single else list(prompts):
                a = self.answer(p, name)
                self.asks.append((name, p, a, kw))
                out.append([{"generated_text": a}])
            return out[0] if single else out

        return run


def fresh(answer=None):
    """(module freshly imported, library stand-in)"""
    lib = Lib()
    lib.answer = answer
    sys.modules["transformers"] = lib
    name = "dynamicprompts.generators.magicprompt"
    sys.modules.pop(name, None)
    return importlib.import_module(name), lib


class Inner:
    """an inner generator that notes how it is called"""

    def __init__(self, prompts):
        self.prompts, self.calls = prompts, []

    def generate(self, *a, **k):
        self.calls.append((a, k))
        return list(self.prompts)


# --- answers -------------------------------------------------------------------

KINDS = ["good", "blocked", "stray", "strayblocked"]


def text_of(kind, orig, k):
    return {"good": f"{orig} fine{k}", "blocked": f"{orig} BaD{k}", "stray": f"zz{k}", "strayblocked": f"bad{k} zz"}[kind]


def answer_cases(t):
    lists = [(), ("a",), ("e c",), ("a", "d"), ("a", "a"), ("a", "ad"), ("a", "d", "c"), ("a", "d", "a"), ("a", "a", "a")]
    lists += [("a", "d", "c", "e"), ("a", "d", "a", "d")]
    lists += [(" a ",), ("A. B!", "a"), ("a\nb", " c"), ("", "a"), ("caf\u00e9 {x|y}", "a " * 150), ("a  b", "a b"), ("_x_ - y", "a, ,b")]
    for ps in lists:
        for att in (0, 1, 2, 3) if len(ps) < 3 else (0, 1, 2):
            for rx in ("bad", None, "", "fine1|bad", "^a|nothing"):
                for kinds in (2, 3, 4):
                    size = kinds ** (len(ps) * (att + 1 if rx else 1))
                    if size <= (300000 if t else 30000):
                        yield (ps, att, rx, kinds)


def check_answers(case, st):
    ps, att, rx, nk = case
    rec = {}

    def answer(p, name):
        rec["k"] += 1
        kind = KINDS[rng.CTL.uniform(nk)]
        a = text_of(kind, p, rec["k"])
        rec["log"].append((p, a))
        return a

    mod, lib = fresh(answer)
    blocked = (lambda s: re.search(rx, s, re.I)) if rx else (lambda s: None)

    def run():
        rec.update(k=0, log=[])
        inner = Inner(ps)
        g = mod.MagicPromptGenerator(inner, blocklist_regex=rx)
        res = g.generate("t", 5, max_attempts=att, extra=1)
        if inner.calls != [(("t", 5), {"extra": 1})]:
            raise Violation(f"inner generator called with {inner.calls}")
        return res

    n = 0
    for p, (kind, v) in rng.explore(run, 400000):
        n += 1
        log = rec["log"]
        if kind == "exc":
            raise v if isinstance(v, Violation) else Violation(f"originals {ps}, answers {log}: {type(v).__name__}: {v}")
        if protocol(ps, log, att, blocked, v, rounds=True) and protocol(ps, log, att, blocked, v, rounds=False):
            why = protocol(ps, log, att, blocked, v, rounds=True)
            raise Violation(f"originals {list(ps)}, blocklist {rx!r}, {att} attempts, (prompt, answer) in order {log}: returned {v}; {why}")
    st.add(n, n, n)


def many_cases(t):
    for n in (2, 5, 7, 8, 9, 10, 16, 17, 33, 64) + ((100, 129) if t else ()):
        for att in (0, 1, 2, 5):
            for bs in (1, 2, 4, 8):
                for i in range(n):
                    yield (n, att, bs, (i,), 1)
                    yield (n, att, bs, (i,), att + 2)
                for b in (tuple(range(n)), tuple(range(0, n, 2)), tuple(range(n // 2, n))):
                    for k in range(1, att + 2):
                        yield (n, att, bs, b, k)
    for n in (1, 2, 5):  # blocked again and again
        for att in (9, 10, 11, 20, 21, 33, 100, 101, 200):
            for b in {(0,), (n - 1,), tuple(range(n))}:
                for k in sorted({8, 9, 10, 11, 12, 15, 19, 20, 21, 32, 50, 99, 100, att - 1, att, att + 1}):
                    yield (n, att, 1 + n % 2, b, k)


def check_many(case, st):
    """n originals; the ones in `which` are answered with blocked text the first `times` times"""
    n, att, bs, which, times = case
    seen, log = {}, []

    def answer(p, name):
        k = seen[p] = seen.get(p, 0) + 1
        i = int(p.rpartition("p")[2])
        a = f"{p} bad{k}" if i in which and k <= times else f"{p} good{k}"
        log.append((p, a))
        return a

    mod, lib = fresh(answer)
    ps = ["x" * (i * 5 % 7) + f"p{i}" for i in range(n)]
    res = mod.MagicPromptGenerator(Inner(ps), blocklist_regex="BAD", batch_size=bs).generate("t", n, max_attempts=att)
    st.add(1, len(log), 1)
    tries = min(times, att)
    want = [f"{p} bad{tries + 1}" if i in which and times > att else f"{p} good{tries + 1 if i in which else 1}" for i, p in enumerate(ps)]
    if res != want:
        raise Violation(f"{n} originals, batch size {bs}, {att} attempts, blocked at {which} {times} times: expected {want}, got {res}")
    asks = {p: 1 + (tries if i in which else 0) for i, p in enumerate(ps)}
    if seen != asks:
        raise Violation(f"{n} originals, batch size {bs}, {att} attempts, blocked at {which} {times} times: asked {seen}, expected {asks}")


def protocol(ps, log, att, blocked, res, rounds):
    """None, or what does not fit. Asks may be batched in rounds or made prompt by prompt."""
    left = list(log)

    def ask(i):
        for j, (p, a) in enumerate(left):
            if p == ps[i]:
                if j:
                    left.insert(0, left.pop(j))
                return left.pop(0)[1]
        raise KeyError(i)

    try:
        if rounds:
            cur = [ask(i) for i in range(len(ps))]
            for _ in range(att):
                bad = [i for i, c in enumerate(cur) if blocked(c)]
                for i in bad:
                    cur[i] = ask(i)
        else:
            cur = []
            for i in range(len(ps)):
                a, k = ask(i), 0
                while blocked(a) and k < att:
                    a, k = ask(i), k + 1
                cur.append(a)
    except KeyError as e:
        return f"the prompt at {e} was not asked for as often as it should have been"
    if left:
        return f"asked without need: {left}"
    if [c.strip() for c in cur] != [r.strip() for r in res]:
        return f"expected {cur}"
    return None


# --- inner generators ------------------------------------------------------------


def compose_cases():
    for tm, n in itertools.product(["plain", "{a|b|c}", "{a|b} {1|2}", "__w__ {x|y}", "[x|y] {a|b}", "(a:1.2) {b|c}"], (1, 2, 3, 10)):
        for inner in ("none", "comb", "random"):
            for kw in ({}, {"batch_size": 3}, {"max_prompt_length": 40, "temperature": 0}, {"temperature": 1.5}):
                yield (tm, n, inner, tuple(kw.items()))


def check_compose(case, st):
    tm, n, inner, kw = case
    mod, lib = fresh(lambda p, name: f"{p}, more of [{p}]")
    w, wm = world()
    kw = dict(kw)
    if inner == "none":
        g, want = mod.MagicPromptGenerator(**kw), [tm] * n
    elif inner == "comb":
        g, want = mod.MagicPromptGenerator(env.CombinatorialPromptGenerator(wm), **kw), env.CombinatorialPromptGenerator(wm).generate(tm, n)
    else:
        g, want = mod.MagicPromptGenerator(env.RandomPromptGenerator(wm, seed=4), **kw), env.RandomPromptGenerator(wm, seed=4).generate(tm, n)
    got = g.generate(tm, n)
    st.add(1, n, 1)
    if len(got) != len(want) or not all(r.startswith(o) and "more of" in r for o, r in zip(want, got)):
        raise Violation(f"{tm!r}, {n} prompts, inner {inner}: {got}, originals {want}")
    if [a[1] for a in lib.asks] != want:
        raise Violation(f"{tm!r}: the model was asked {[a[1] for a in lib.asks]}, originals {want}")
    for a in lib.asks:
        k = a[3]
        if k.get("max_length") != kw.get("max_prompt_length", 100) or k.get("temperature") != kw.get("temperature", 0.7) or k.get("batch_size") != kw.get("batch_size", 1):
            raise Violation(f"settings {kw}: the model was called with {k}")


# --- selections ---------------------------------------------------------------------

STAGES = ["tokenizer", "model", "pipeline"]
OPS = (
    [("new", m) for m in "AB"]
    + [("set", i, m) for i in (0, 1) for m in "AB"]
    + [("break", "A", s) for s in STAGES]
    + [("break", "B", "model"), ("mend",), ("default",)]
)


def select_cases(t):
    d = 6 if t else 5
    for n in range(1, d + 1):
        for c in itertools.product(OPS, repeat=n):
            if c[-1][0] in ("break", "mend") or c[0][0] in ("set", "mend"):
                continue
            if any(a[0] == b[0] == "break" and a[1] == b[1] or a == b == ("mend",) for a, b in zip(c, c[1:])):
                continue
            if max([o[1] for o in c if o[0] == "set"], default=-1) >= sum(o[0] in ("new", "default") for o in c):
                continue
            yield c


def check_select(case, st):
    mod, lib = fresh(lambda p, name: f"{p} from {name}")
    default = "Gustavosta/MagicPrompt-Stable-Diffusion"
    gens = []
    for k, op in enumerate(case):
        st.add(1, 1, 0)
        if op[0] == "break":
            lib.fail[op[1]] = op[2]
        elif op[0] == "mend":
            lib.fail.clear()
        elif op[0] in ("new", "default"):
            m = op[1] if op[0] == "new" else default
            o = cmp.outcome(lambda: mod.MagicPromptGenerator(Inner(["p"]), m) if op[0] == "new" else mod.MagicPromptGenerator(Inner(["p"])))
            if o[0] == "ok":
                gens.append([o[1], m])
            elif m not in lib.fail:
                raise Violation(f"after {case[:k]}: {op} fails with {o[1]}")
        elif op[0] == "set" and op[1] < len(gens):
            o = cmp.outcome(lambda: gens[op[1]][0].set_model(op[2]))
            if o[0] == "ok":
                gens[op[1]][1] = op[2]
            elif op[2] not in lib.fail:
                raise Violation(f"after {case[:k]}: {op} fails with {o[1]}")
        for i, (g, m) in enumerate(gens):
            got = cmp.outcome(lambda: (g.generate("t"), g.model_name))
            st.traces += 1
            if got != ("ok", ([f"p from {m}" if "/" not in m else "p " + clean_name(m)], m)):
                raise Violation(f"after {case[:k + 1]}: generator {i}, which last selected {m}, gives {got}")


def clean_name(m):
    return f"from {m}"


def seed_cases():
    yield from (None, 0, 1, 42, "7", 3.0)


def check_seed(s, st):
    mod, lib = fresh(lambda p, n: p)
    mod.MagicPromptGenerator(seed=s)
    st.add(1, 1, 1)
    if lib.seeds != ([] if s is None else [int(s)]):
        raise Violation(f"seed {s!r}: the library was seeded with {lib.seeds}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("answers", "0..%d originals (also equal ones), 0..3 attempts, 5 blocklists; every assignment of 2..4 kinds of answers to prompts and attempts up to %d executions" % (4, 300000 if t else 30000), lambda: answer_cases(t), check_answers, cpu=900, min_cases=200),
        Space("many", "up to %d originals, batch sizes 1..8, 0..5 and 9..200 attempts; blocked at each position, everywhere, or at half, for every number of times" % (129 if t else 64), lambda: many_cases(t), check_many, min_cases=2000),
        Space("inner", "templates x counts x inner generators x settings", compose_cases, check_compose, min_cases=200),
        Space("selections", "all histories of <= %d of 12 operations: new generators, selections, failing loading stages, recovery; every generator used after every step" % (6 if t else 5), lambda: select_cases(t), check_select, min_cases=2000),
        Space("seeds", "seed values", seed_cases, check_seed, min_cases=6),
    ]
