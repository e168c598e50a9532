"""P22: wrapping generators add only what they promise to the inner prompts."""
import importlib
import itertools
import json
import re
import string
import sys
import types
import urllib.parse

from .common import *

RULE = (
    "every small prompt x every outcome of the random source (attention values on a grid including both ends) is run on the real generators; "
    "the search service is replaced at the transport below the HTTP library by every answer and fault of a list"
)
ASSUMPTIONS = [
    "attention limits have at most two decimals (the number is rounded to two)",
    "spacy is absent (built-in chunking) or a stand-in giving every set of phrases",
    "no real network: requests are answered by a stand-in transport",
]

GRID = (0.0, 0.31, 0.5, 0.999999999)


class Inner:
    def __init__(self, *answers):
        self.answers, self.calls = answers, []

    def generate(self, *a, **k):
        self.calls.append((a, k))
        return list(self.answers[(len(self.calls) - 1) % len(self.answers)])


# --- attention -----------------------------------------------------------------


def emphasis_ok(p, r, lo, hi, need, phrase_ok=None):
    """None, or what is wrong with r as p with at most one emphasis"""
    if r == p:
        return "no emphasis was added" if need else None
    for m in re.finditer(r":(-?\d+(?:\.\d+)?(?:e-?\d+)?)\)", r):
        num = float(m[1])
        for i in range(0, m.start()):
            if r[i] != "(":
                continue
            phrase = r[i + 1 : m.start()]
            if r[:i] + phrase + r[m.end() :] != p:
                continue
            if not (lo <= num <= hi):
                return f"attention {num} is not within {lo}..{hi}"
            if phrase.isdigit() or all(c in string.punctuation for c in phrase):
                return f"{phrase!r} is not a phrase"
            if re.search(r"\w$", r[:i]) and re.match(r"\w", phrase) or re.match(r"\w", r[m.end() :]) and re.search(r"\w$", phrase):
                return f"{phrase!r} is cut out of a longer word"
            return None
    return "it is not the prompt with one emphasised phrase"


TOK = ["cat", "at", " ", ", ", ".", "(", ")", ":1.2", "7", "a-b", "_", "!", "\n", "$&", "Cat", "\u00c9t\u00e9"]
LIMITS = [(0.1, 0.9), (0.9, 0.1), (0.5, 0.5), (1.0, 1.5), (0, 2), (-0.25, 0.01), (0.05, 0.06), (0, 0), (0, 0.01), (-1, 0), (1, 1), (0.33, 0.33), (12.5, 100)]


def attention_cases(t):
    n = 6 if t else 5
    for k in range(0, n + 1):
        for c in itertools.product(TOK if k < 5 else TOK[:10], repeat=k):
            yield ("".join(c), LIMITS[0] if k > 2 else None)


def attention_runs(make, n, prompts, lims, st, phrase_need=True, grid=GRID):
    for lim in lims:
        lo, hi = sorted(lim)
        for _, (kind, v) in rng.explore(lambda: make(lim), 5000, grid):
            st.add(1, 1, 1)
            if kind == "exc":
                raise Violation(f"prompts {prompts!r}, limits {lim}: {type(v).__name__}: {v}")
            if len(v) != len(prompts):
                raise Violation(f"prompts {prompts!r}: {len(v)} results {v}")
            for p, r in zip(prompts, v):
                bad = emphasis_ok(p, r, lo, hi, phrase_need and re.search(r"[a-zA-Z]", p))
                if bad:
                    raise Violation(f"prompt {p!r}, limits {lim}: {r!r}: {bad}")


def check_attention(case, st):
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator

    p, lim = case
    attention_runs(lambda l: AttentionGenerator(Inner([p]), *l).generate("t"), 1, [p], [lim] if lim else LIMITS, st)


def attention_list_cases():
    base = ["cat", "red cat, cat", "7", "", "a, b", "cat"]
    for n in (0, 1, 2):
        yield from itertools.product(base, repeat=n)
    yield ("a, b", "7", "cat")
    yield ("cat", "cat", "cat")


def check_attention_list(ps, st):
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator

    def make(l):
        inner = Inner(list(ps))
        out = AttentionGenerator(inner, *l).generate("t", 3, some=1)
        if inner.calls != [(("t", 3), {"some": 1})]:
            raise RuntimeError(f"the inner generator was called with {inner.calls}")
        return out

    attention_runs(make, len(ps), list(ps), LIMITS[:1] if len(ps) > 2 else LIMITS[:2], st, grid=(0.0, 0.999999999))


def every_phrase_cases():
    yield from ["cat, dog", "a b, c d. e", "red (blue:1.2) green", "x", "one, two, three", "a, b", "big cat, cat, bigger cat"]


def check_every_phrase(p, st):
    """every phrase between punctuation can be the one, and both ends of the limits are reached"""
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator

    seen = set()
    for _, (kind, v) in rng.explore(lambda: AttentionGenerator(Inner([p]), 0.2, 0.8).generate("t"), 5000, GRID):
        st.add(1, 1, 1)
        if kind == "exc":
            raise Violation(f"prompt {p!r}: {v}")
        seen.add(v[0])
    parts = [c for c in re.split(r"\s*[,;:.?!()]+\s*", p) if re.search("[a-z]", c)]
    for c in parts:
        if not any(f"({c}:" in s for s in seen):
            raise Violation(f"prompt {p!r}: the phrase {c!r} is never emphasised in {sorted(seen)}")
    nums = {float(m) for s in seen for m in re.findall(r":(\d+\.\d+)\)", s)}
    if not {0.2, 0.8} <= nums:
        raise Violation(f"prompt {p!r}: attention values {sorted(nums)} do not cover 0.2..0.8")


# spacy stand-in


def spacy_cases():
    prompts = ["red cat", "a cat, cats", "10km cat's", "(cat:1.2) dog", "a+b (c"]
    for p in prompts:
        cuts = [m.start() for m in re.finditer(r"\b", p)] + [len(p)]
        subs = sorted({p[i:j] for i in range(len(p)) for j in range(i + 1, min(len(p), i + 9) + 1) if re.search("[a-z]", p[i:j]) and i in cuts and j in cuts})
        for load in ("ok", "download", "absent"):
            for s in subs:
                yield (p, (s,), load)
            for s in itertools.islice(itertools.combinations(subs, 2), 12):
                yield (p, s, load)
            yield (p, (), load)


def check_spacy(case, st):
    p, chunks, load = case
    have = {"model": load == "ok", "downloads": 0}
    sp = types.ModuleType("spacy")

    class Chunk:
        def __init__(self, s):
            self.s = s

        def __str__(self):
            return self.s

    def load_model(name, **k):
        if not have["model"]:
            raise OSError("no model")
        return lambda text: types.SimpleNamespace(noun_chunks=iter([Chunk(c) for c in chunks if c in text]))

    def download(name, *a, **k):
        have["downloads"] += 1
        have["model"] = True

    sp.load = load_model
    cli, dl = types.ModuleType("spacy.cli"), types.ModuleType("spacy.cli.download")
    dl.download = download
    cli.download = dl
    sp.cli = cli
    mods = {"spacy": sp, "spacy.cli": cli, "spacy.cli.download": dl}
    name = "dynamicprompts.generators.attentiongenerator"
    saved = {k: sys.modules.get(k) for k in [*mods, name]}
    try:
        sys.modules.update({k: None for k in mods} if load == "absent" else mods)
        sys.modules.pop(name, None)
        mod = importlib.import_module(name)
        need = load == "absent"
        attention_runs(lambda l: mod.AttentionGenerator(Inner([p]), *l).generate("t"), 1, [p], LIMITS[:1], st, phrase_need=need, grid=(0.0, 0.5))
        if load == "download" and have["downloads"] != 1:
            raise Violation(f"the missing model was downloaded {have['downloads']} times")
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# --- batches and pass-through ------------------------------------------------------


def batch_cases():
    outs = [[], ["x"], ["x", "y"], ["x", "x", "z"]]
    for n in range(0, 4):
        for a, b in itertools.product(outs, repeat=2):
            for how in ("default", "position", "keyword"):
                for lim in (0, 1, 5, 2000):
                    for kw in ({}, {"seeds": 3}):
                        yield (n, a, b, how, lim, tuple(kw.items()))


def check_batch(case, st):
    from dynamicprompts.constants import MAX_IMAGES
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator as B

    n, a, b, how, lim, kw = case
    kw = dict(kw)
    inner = Inner(a, b)
    g = B(inner, n)
    for rep in range(2):
        first = len(inner.calls)
        if how == "default":
            lim = MAX_IMAGES
            got = g.generate("t", **kw)
        elif how == "position":
            got = g.generate("t", lim, **kw)
        else:
            got = g.generate("t", max_prompts=lim, **kw)
        want = []
        for i in range(n):
            want += (a, b)[(first + i) % 2]
        st.add(1, n, 1)
        if got != want:
            raise Violation(f"{n} batches of an inner generator giving {a} and {b} in turn: {got}, expected {want}")
        for args, k in inner.calls[first:]:
            given = dict(zip(("template", "max"), args))
            seen_lim = given.get("max", k.get("max_prompts"))
            if given.get("template", k.get("template")) != "t" or seen_lim != lim or {x: y for x, y in k.items() if x not in ("max_prompts", "template")} != kw:
                raise Violation(f"limit {lim}, extras {kw}: the inner generator was called with {args} {k}")
        if len(inner.calls) - first != n:
            raise Violation(f"{n} batches: the inner generator was called {len(inner.calls) - first} times")


def batch_real_cases():
    for node in (var("a", "b", "c"), seq(var("a", "b"), " ", Wc("w")), lit("x"), seq(Asg("q", var("1", "2")), Acc("q"), Wc("v")), var("a", "b", "c", bound="2", sep=",")):
        for n in range(0, 4):
            for lim in (0, 1, 2, 3, 7, None, 1000):
                yield (node, n, lim)


def check_batch_real(case, st):
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator as B

    node, n, lim = case
    w, wm = world()
    want = ref.take(node, w, ref.C)
    want = want if lim is None else want[:lim]
    got = B(env.CombinatorialPromptGenerator(wm), n).generate(render(node), lim)
    st.add(1, n, 1)
    if got != want * n:
        raise Violation(f"{render(node)!r}, {n} batches limited to {lim}: {got}, expected {want * n}")


def dummy_cases():
    for t in ("", "x", "{a|b} __w__ # c", " ${", "multi\nline\t", "%{a$$", "\u00e9\u4e2d"):
        for n in range(0, 5):
            for how in ("default", "position", "keyword"):
                yield (t, n, how)


def check_dummy(case, st):
    from dynamicprompts.generators import DummyGenerator

    t, n, how = case
    g = DummyGenerator()
    if how == "default":
        n, got = 1, g.generate(t, seeds=[1])
    elif how == "position":
        got = g.generate(t, n)
    else:
        got = g.generate(template=t, num_images=n, other=2)
    st.add(1, 1, 1)
    if got != [t] * n:
        raise Violation(f"pass-through of {t!r} {n} times: {got}")


def many_cases():
    for n in (4, 9, 11, 30, 100, 257):
        for what in ("attention", "attention-same", "batch", "dummy", "pick", "attention-long"):
            yield (what, n)


def check_many(case, st):
    """many prompts, many batches, long prompts"""
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator as B, DummyGenerator, FeelingLuckyGenerator
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator

    what, n = case
    st.add(1, n, 1)

    def lucky(images, k):
        with Transport(("json", {"images": images})):
            return FeelingLuckyGenerator(Inner(["q"])).generate("t", k)

    if what.startswith("attention"):
        if what == "attention":
            ps = [f"red w{chr(97 + i % 26)}{i}x, cat{chr(97 + i // 26)}" for i in range(n)]
        elif what == "attention-same":
            ps = ["red cat, dog"] * n
        else:
            ps = [", ".join(f"big w{i}x cat" for i in range(n)), " ".join(f"w{i}x" for i in range(n)), "(a:1.2), " * n + "end"]
        for kind, v in rng.explore_dev(lambda: AttentionGenerator(Inner(ps), 0.2, 0.8).generate("t"), 1 if n <= 30 else 0):
            st.add(1, 1, 1)
            if kind == "exc":
                raise Violation(f"{len(ps)} prompts: {type(v).__name__}: {v}")
            if len(v) != len(ps):
                raise Violation(f"{len(ps)} prompts: {len(v)} results")
            for p, r in zip(ps, v):
                bad = emphasis_ok(p, r, 0.2, 0.8, True)
                if bad:
                    raise Violation(f"prompt {p!r} of {len(ps)}: {r!r}: {bad}")
    elif what == "batch":
        w, wm = world()
        for node in (var("a", "b", "c"), seq(var("a", "b"), " ", Wc("w"))):
            want = ref.take(node, w, ref.C)
            for lim in (1, 3, 1000):
                got = B(env.CombinatorialPromptGenerator(wm), n).generate(render(node), lim)
                if got != want[:lim] * n:
                    raise Violation(f"{render(node)!r}, {n} batches limited to {lim}: {len(got)} prompts {got[:8]}..., expected {n} times {want[:lim]}")
    elif what == "dummy":
        t = "{a|b} __w__ " * n
        if DummyGenerator().generate(t, n) != [t] * n:
            raise Violation(f"pass-through of a text of {len(t)} characters {n} times is changed")
    else:
        images = [{"prompt": f"p{i}"} for i in range(n)]
        for k in (1, 2, n, 2 * n + 1):
            for kind, got in rng.explore_dev(lambda: lucky(images, k), 1 if n <= 11 else 0):
                if kind == "exc":
                    raise Violation(f"{n} images, {k} asked: {got}")
                if len(got) != k or not set(got) <= {f"p{i}" for i in range(n)}:
                    raise Violation(f"{n} images, {k} asked: {len(got)} results {got[:8]}")
        q = "w" * n + " x" * n
        with Transport(("json", {"images": images})) as tr:
            FeelingLuckyGenerator(Inner([q])).generate("t", 1)
        if asked(tr.urls[0])[0] != [q]:
            raise Violation(f"query of {len(q)} characters: the service is asked for {tr.urls}")


# --- lucky --------------------------------------------------------------------------

BASE = "https://lexica.art/api/v1/search"


class Transport:
    """replaces the sending of requests; answers according to `plan`"""

    def __init__(self, plan):
        self.plan, self.urls = plan, []

    def __enter__(self):
        import requests

        self.adapter = requests.adapters.HTTPAdapter
        self.saved = self.adapter.send
        me = self

        def send(adapter, request, **kw):
            me.urls.append(request.url)
            return me.reply(request)

        self.adapter.send = send
        return self

    def __exit__(self, *a):
        self.adapter.send = self.saved

    def reply(self, request):
        import requests

        kind, data = self.plan
        if kind == "raise":
            raise getattr(requests.exceptions, data)("stand-in")
        r = requests.Response()
        r.status_code = 200 if kind != "status" else data
        body = json.dumps(data) if kind == "json" else data if kind == "raw" else json.dumps({"images": [{"prompt": "error page"}]})
        r._content = body.encode()
        r.encoding = "utf-8"
        r.url, r.request = request.url, request
        r.headers["Content-Type"] = "application/json"
        return r


def asked(url):
    """the search text a server reads from the URL"""
    u = urllib.parse.urlsplit(url)
    if f"{u.scheme}://{u.netloc}{u.path}" != BASE:
        raise Violation(f"request to {url}")
    qs = urllib.parse.parse_qsl(u.query, keep_blank_values=True, strict_parsing=False)
    return [v for k, v in qs if k == "q"], qs


QTOK = ["cat", " ", "&", "#", "=", "%", "+", "?", "/", "\u00e9", ",", "%20", "q=", "(a:1.2)", "\n", '"']


def query_cases(t):
    for k in (1, 2, 3, 4) if t else (1, 2, 3):
        for c in itertools.product(QTOK, repeat=k):
            s = "".join(c)
            if s.strip():
                yield s


def check_query(s, st):
    from dynamicprompts.generators import FeelingLuckyGenerator

    inner = Inner([s])
    with Transport(("json", {"images": [{"prompt": "P"}]})) as tr:
        got = FeelingLuckyGenerator(inner).generate("t", 2, extra=1)
    st.add(1, 1, 1)
    if got != ["P", "P"] or len(tr.urls) != 1:
        raise Violation(f"query {s!r}: {got}, requests {tr.urls}")
    q, all_ = asked(tr.urls[0])
    if q != [s] or len(all_) != 1:
        raise Violation(f"query {s!r}: the service is asked for {all_} ({tr.urls[0]})")
    if inner.calls != [(("t", 1), {"extra": 1})]:
        raise Violation(f"the inner generator was called with {inner.calls}")


def blank_cases():
    for s in ("", " ", "\n\t ", None):
        for who in ("inner", "dummy", "random", "comb"):
            if (s is None) == (who == "inner") or s is not None:
                yield (s, who)


def check_blank(case, st):
    from dynamicprompts.generators import FeelingLuckyGenerator

    s, who = case
    w, wm = world()
    seen = set()

    def run():
        g = {"inner": lambda: Inner([s] if s is not None else []), "dummy": lambda: None, "random": lambda: env.RandomPromptGenerator(wm), "comb": lambda: env.CombinatorialPromptGenerator(wm)}[who]()
        with Transport(("json", {"images": [{"prompt": "P"}]})) as tr:
            got = FeelingLuckyGenerator(g).generate(s if who != "inner" else "t", 1)
        return got, tr.urls

    if s is None and who != "inner":
        return
    for kind, v in rng.explore_dev(run, 0):
        st.add(1, 1, 1)
        if kind == "exc":
            raise Violation(f"blank query {s!r} from {who}: {type(v).__name__}: {v}")
        q, all_ = asked(v[1][0])
        if v[0] != ["P"] or len(q) != 1 or not q[0].isdigit() or len(all_) != 1:
            raise Violation(f"blank query {s!r} from {who}: asked {v[1]}, got {v[0]}")
        seen.add(q[0])
    if len(seen) < 2:
        raise Violation(f"blank query {s!r}: always asks for {seen}")


def pick_cases():
    for n in range(1, 5):
        for k in range(0, 4):
            for dup in (False, True):
                yield (n, k, dup)


def check_pick(case, st):
    from dynamicprompts.generators import FeelingLuckyGenerator

    n, k, dup = case
    ps = [f"p{i // 2 if dup else i}" for i in range(n)]
    images = [{"id": str(i), "prompt": p, "src": "x"} for i, p in enumerate(ps)]

    def run():
        with Transport(("json", {"images": images, "other": []})):
            return FeelingLuckyGenerator(Inner(["q"])).generate("t", k)

    d = cmp.distribution(run, 100000, st)
    exc = d.pop("#exc", None)
    st.states += len(d)
    if exc:
        raise Violation(f"{n} images, {k} asked: {exc}")
    for _, v in d:
        if len(v) != k or not set(v) <= set(ps):
            raise Violation(f"answer prompts {ps}, {k} asked: returned {v}")
    if k and {v[0] for _, v in d} != set(ps):
        raise Violation(f"answer prompts {ps}, {k} asked: only {sorted(d)} are ever returned")


FAULTS = (
    [("raise", e) for e in ("ConnectionError", "Timeout", "ReadTimeout", "SSLError", "TooManyRedirects", "ChunkedEncodingError", "InvalidURL")]
    + [("status", c) for c in (400, 401, 403, 404, 429, 500, 502, 503)]
    + [("raw", x) for x in ("", "<html>", "{", '{"images": [', "null", "[]", "3", '"images"', "true")]
    + [("json", x) for x in ({}, {"images": []}, {"images": None}, {"images": 5}, {"error": "x"}, {"images": {}}, {"images": [{}]}, {"images": [None]}, {"images": ["s"]}, {"images": [{"text": "x"}]})]
)


def fault_cases():
    for f in range(len(FAULTS)):
        for k in (1, 2):
            yield (f, k, None)
        for f2 in range(len(FAULTS)):
            yield (f, 1, f2)
    yield (-1, 1, None)


def check_fault(case, st):
    from dynamicprompts.generators import FeelingLuckyGenerator
    from dynamicprompts.generators.promptgenerator import GeneratorException

    f, k, f2 = case
    g = FeelingLuckyGenerator(Inner(["q"]))

    def expect_fault(fault):
        try:
            if fault == "noimport":
                saved = sys.modules.get("requests")
                sys.modules["requests"] = None
                try:
                    got = g.generate("t", k)
                finally:
                    sys.modules["requests"] = saved
            else:
                with Transport(fault):
                    got = g.generate("t", k)
        except GeneratorException:
            return
        except Exception as e:
            raise Violation(f"service fault {fault}: {type(e).__name__}: {e} instead of a generator error")
        raise Violation(f"service fault {fault}: no error, returned {got}")

    import requests  # noqa: F401

    expect_fault("noimport" if f < 0 else FAULTS[f])
    if f2 is not None:
        expect_fault(FAULTS[f2])
    with Transport(("json", {"images": [{"prompt": "P"}]})):
        got = cmp.outcome(lambda: g.generate("t", k))
    st.add(1, 3, 3)
    if got != ("ok", ["P"] * k):
        raise Violation(f"after the fault {FAULTS[f]} a good answer gives {got}")


def partial_cases():
    for c in itertools.product([{"prompt": "P"}, {}, None, {"prompt": "Q"}], repeat=3):
        for k in (1, 2):
            yield (c, k)


def check_partial(case, st):
    """answers that are good only in part: prompts of the answer, or a generator error"""
    from dynamicprompts.generators import FeelingLuckyGenerator
    from dynamicprompts.generators.promptgenerator import GeneratorException

    images, k = case
    good = {i["prompt"] for i in images if i}

    def run():
        with Transport(("json", {"images": list(images)})):
            return FeelingLuckyGenerator(Inner(["q"])).generate("t", k)

    for _, (kind, v) in rng.explore(run, 2000):
        st.add(1, 1, 1)
        if kind == "exc" and not isinstance(v, GeneratorException):
            raise Violation(f"answer {images}: {type(v).__name__}: {v} instead of a generator error")
        if kind == "ok" and (len(v) != k or not set(v) <= good):
            raise Violation(f"answer {images}: returned {v}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("attention", "all prompts of <= %d of 14 fragments; every phrase choice, attention values at both ends and between, 13 pairs of limits up to 2 fragments" % (6 if t else 5), lambda: attention_cases(t), check_attention, min_cases=40000),
        Space("attention-lists", "lists of 0..3 inner prompts", attention_list_cases, check_attention_list, min_cases=40),
        Space("attention-reach", "every phrase and both limits are reachable", every_phrase_cases, check_every_phrase, min_cases=7),
        Space("attention-spacy", "stand-in language library: every phrase and pair of phrases at word boundaries; model present, downloaded or library absent", spacy_cases, check_spacy, min_cases=100),
        Space("batches", "0..3 batches x inner answers x limits x ways of calling", batch_cases, check_batch, min_cases=1000),
        Space("batches-real", "batched combinatorial generation", batch_real_cases, check_batch_real, min_cases=100),
        Space("pass-through", "7 templates x 0..4 times", dummy_cases, check_dummy, min_cases=100),
        Space("many", "up to 257 prompts, batches, images and phrases", many_cases, check_many, min_cases=36),
        Space("queries", "all queries of <= %d of 16 fragments" % (4 if t else 3), lambda: query_cases(t), check_query, min_cases=4000),
        Space("blank", "blank queries from 4 inner generators", blank_cases, check_blank, min_cases=10),
        Space("picks", "1..4 images, 0..3 prompts, every outcome", pick_cases, check_pick, min_cases=30),
        Space("faults", "every service fault, and every pair of faults, followed by a good answer", fault_cases, check_fault, min_cases=1000),
        Space("partial", "answers good in part, every pick", partial_cases, check_partial, min_cases=128),
    ]
