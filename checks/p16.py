"""P16: wildcard files yield exactly their entries, weights and names."""
import itertools
import json
from pathlib import Path

from .common import *
from vlib import files

RULE = (
    "every file content of the stated alphabet is written to a scratch directory, read by a real manager (sorting and "
    "de-duplication off) and compared with a model that interprets the content as documented"
)
ASSUMPTIONS = ["PyYAML is installed", "a list with an entry whose weight is not a number counts as malformed as a whole"]


def read(root, name=None):
    """{collection name: [(text, weight)]} as the real code sees it"""
    wm = env.WildcardManager(Path(root))
    wm.sort_wildcards = False
    wm.dedup_wildcards = False
    out = {}
    for n in wm.get_collection_names():
        out[n] = [(str(v), float(getattr(v, "weight", 1.0))) for v in wm.get_values(n)]
    return out


def text_entries(data):
    """documented reading of a text file given as bytes"""
    out = []
    text = data.decode("utf-8", errors="ignore").replace("\r\n", "\n").replace("\r", "\n")
    for line in text.split("\n"):
        line = line.strip()
        if line and not line.startswith("#"):
            out.append((line, 1.0))
    return out


def compare(got, want, what):
    if got != want:
        diff = [k for k in {**got, **want} if got.get(k) != want.get(k)]
        raise Violation(f"{what}: " + "; ".join(f"{k!r} yields {got.get(k)}, expected {want.get(k)}" for k in sorted(diff)[:3]))


LINES = ["x", " y\t", "", "  ", "# c", "\t#z", "a # b", "2::w", "\u00e9 \u4e2d", "{a|b}$$"]


def line_cases(t):
    for k in range(0, (5 if t else 4) + 1):
        for c in itertools.product(LINES, repeat=k):
            yield c


def check_lines(c, st):
    want = [(l.strip(), 1.0) for l in c if l.strip() and not l.strip().startswith("#")]
    with files.tree({"n.txt": "\n".join(c) + "\n", "w.txt": "\r\n".join(c), "d/m.txt": "\r".join(c) + "\r"}) as root:
        st.add(1, 3, 3)
        compare(read(root), {"n": want, "w": want, "d/m": want}, f"lines {c}")


def start_cases():
    """lines that begin, end with or hold any sign that might mean something elsewhere"""
    import string

    for c in string.punctuation + "\u00a7\u2014\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\u3000\u00a0":
        yield c


def check_start(c, st):
    lines = [c, c + "x", c + c + "x", c + " x", c * 3, "x" + c, "x " + c + " y", "x" + c + "y", "x" + c + c, " " + c + "z " + c, "x", "<" + c + "!-- x -->", c + "include x", "y"]
    want = [(l.strip(), 1.0) for l in lines if l.strip() and not l.strip().startswith("#")]
    with files.tree({"n.txt": "\n".join(lines) + "\n", "w.txt": "\r\n".join(lines), "d/m.txt": "\n\n".join(lines[::-1])}) as root:
        st.add(1, 3, 3)
        compare(read(root), {"n": want, "w": want, "d/m": want[::-1]}, f"lines {lines}")


def raw_cases(t):
    for n in range(0, (7 if t else 6) + 1):
        for c in itertools.product(["x", " ", "\t", "#", "\n", "\r"], repeat=n):
            yield "".join(c).encode()
    for n in range(1, 5):
        for c in itertools.product([b"x", b"\xff", b"\xc3", b"\xa9", b"\n", b"\x00", b"#"], repeat=n):
            yield b"".join(c)


def raw_batches(t):
    b = []
    for c in raw_cases(t):
        b.append(c)
        if len(b) == 60:
            yield tuple(b)
            b = []
    if b:
        yield tuple(b)


def check_raw(b, st):
    with files.tree({f"f{i}.txt": c for i, c in enumerate(b)}) as root:
        st.add(len(b), len(b), len(b))
        compare(read(root), {f"f{i}": text_entries(c) for i, c in enumerate(b)}, "text files")


# --- structured files -----------------------------------------------------------


class Bad(Exception):
    pass


def entry(item):
    """[(text, weight)] of one list item; [] if it is not an entry"""
    if isinstance(item, str):
        if not item:
            return []
        head, sep, tail = item.partition("::")
        if sep and head[:1].isdigit():
            try:
                return [(tail, float(head))]
            except ValueError:
                pass
        return [(item, 1.0)]
    if isinstance(item, dict):
        if not item:
            return []
        try:
            w = float(item.get("weight", 1))
        except (TypeError, ValueError):
            raise Bad
        t = item.get("text") or item.get("content")
        return [(t, w)] if t else []
    return []


def entries(lst):
    return [e for i in lst for e in entry(i)]


def collections(data, prefix=""):
    out = {}
    if isinstance(data, dict):
        for k, v in data.items():
            if not isinstance(k, str) or not v:
                continue
            if isinstance(v, str):
                v = [v]
            if isinstance(v, list):
                try:
                    out[prefix + k] = entries(v)
                except Bad:
                    pass
            elif isinstance(v, dict):
                out.update(collections(v, prefix + k + "/"))
    return out


def doc(data, fname, prefix=""):
    """collections of a structured file"""
    if isinstance(data, list):
        try:
            e = entries(data)
        except Bad:
            return {}
        return {prefix + fname: e} if e else {}
    return collections(data, prefix)


def dump_yaml(d, style):
    import yaml

    return yaml.safe_dump(d, allow_unicode=True, sort_keys=False, default_flow_style=style)


ITEMS = [
    "x", "2::y", "0.5::z", "3::a::b", "x::y", "2a::y", "10::{p|q}", "1::one", "2::", "::w", "0::n", "", "# h", " pad ", "1.5.2::v", "\u00e9",
    {"text": "t", "weight": 2}, {"content": "c", "weight": 0.5}, {"text": "u"}, {"weight": 3}, {"text": "m", "weight": "4"}, {"text": "", "content": "k"},
    {"text": "both", "content": "no", "weight": 1}, {}, {"text": "bad", "weight": "w"}, {"text": "bad", "weight": None}, 5, None, ["x"], True,
]


def item_cases(t):
    for k in (0, 1, 2):
        for c in itertools.product(range(len(ITEMS)), repeat=k):
            yield c
    small = [0, 1, 2, 4, 11, 16, 17, 19, 24, 26]
    for c in itertools.product(range(len(ITEMS)) if t else small, repeat=3):
        yield c
    for c in itertools.product(small[:5], repeat=4):
        yield c


def check_items(c, st):
    lst = [ITEMS[i] for i in c]
    data = {"k": lst, "other": ["o", "2::p"], "deep": {"k": lst, "ok": "s"}}
    want = {}
    for p, d in (("j/", data), ("y/", data), ("f/", data)):
        want.update({p + k: v for k, v in doc(d, "", "").items()})
    want.update(doc(lst, "lj"))
    want.update(doc(lst, "ly"))
    with files.tree({
        "j/a.json": json.dumps(data), "y/a.yaml": dump_yaml(data, False), "f/a.yaml": dump_yaml(data, True),
        "lj.json": json.dumps(lst), "ly.yaml": dump_yaml(lst, None),
    }) as root:
        st.add(1, 5, 5)
        compare(read(root), want, f"list {lst}")


LEAVES = [["x"], "s", "2::s", [], "", None, 5, {}, ["2::w", "v"], [{"text": "m", "weight": 2}], [{"text": "m", "weight": "no"}], True]


def tree_cases(t):
    """mappings up to depth 3"""
    L = LEAVES
    for a in L:
        for b in L:
            yield {"a": a, "b": b}
            yield {"a": {"b": a}, "b": b}
            yield {"a": {"b": {"c": a}, "d": b}}
            yield {"a": {"a": a, "b": {"a": b}}, "b": "last"}
            yield {7: a, "b": b, True: {"c": a}}
            yield {"a b": a, "c-d": {"e.f": b}}
    for a, b, c in itertools.product(L, repeat=3):
        yield {"a": a, "b": b, "c": {"d": c, "e": a}}
    for x in [None, "s", 5, [], {}, ["x"], [["x"]], [{"a": ["x"]}], [None], "2::s", [""], [5]]:
        yield x


def check_tree(data, st):
    import yaml

    fs = {"d/y.yaml": yaml.safe_dump(data, sort_keys=False), "d/e/y2.yaml": dump_yaml(data, True)}
    want = {**doc(data, "y", "d/"), **doc(data, "y2", "d/e/")}
    if not isinstance(data, dict) or all(isinstance(k, str) for k in data):
        fs["j.json"] = json.dumps(data)
        want.update(doc(data, "j"))
    with files.tree(fs) as root:
        st.add(1, len(fs), len(fs))
        compare(read(root), want, f"data {data!r}")


YAMLS = {
    # hand-written YAML: text and what it means
    "k:\n  - x\n  - 2::y\n  # comment\n  - z # c\n": {"k": [("x", 1), ("y", 2), ("z", 1)]},
    "k: [x, '2::y']\nl: one\n": {"k": [("x", 1), ("y", 2)], "l": [("one", 1)]},
    "k:\n  - |\n    line1\n    line2\n  - >\n    folded\n    text\n": {"k": [("line1\nline2\n", 1), ("folded text\n", 1)]},
    "b: &b [x]\nk: *b\n": {"b": [("x", 1)], "k": [("x", 1)]},
    "k:\n  - {text: a, weight: 2}\n  - {content: b}\n": {"k": [("a", 2), ("b", 1)]},
    "---\nk: [x]\n": {"k": [("x", 1)]},
    "k: [x]\nk2: [y]\n...\n": {"k": [("x", 1)], "k2": [("y", 1)]},
    "yes: [x]\n1: [y]\nk: [z]\n": {"k": [("z", 1)]},
    "# only a comment\n": {},
    "": {},
    "k: ['__w__', '${a}', '{b|c}']\n": {"k": [("__w__", 1), ("${a}", 1), ("{b|c}", 1)]},
    "k:\n  - \u00e9\u4e2d\n": {"k": [("\u00e9\u4e2d", 1)]},
}


def yaml_cases():
    for y in YAMLS:
        for d in ("", "d/", "d/e.f/"):
            yield (y, d)


def check_yaml(case, st):
    y, d = case
    with files.tree({d + "f.yaml": y, "z.txt": "q"}) as root:
        st.add(1, 1, 1)
        want = {d + k: [(a, float(b)) for a, b in v] for k, v in YAMLS[y].items()}
        compare(read(root), {**want, "z": [("q", 1.0)]}, f"YAML {y!r}")


GOOD = {
    "a.txt": ("x\n", {"a": [("x", 1.0)]}),
    "d/b.yaml": ("k: [y, '2::z']\n", {"d/k": [("y", 1.0), ("z", 2.0)]}),
    "d/c.json": ('{"m": {"n": ["p"]}}', {"d/m/n": [("p", 1.0)]}),
    "l.json": ('["q"]', {"l": [("q", 1.0)]}),
    "e/t.txt": ("t1\nt2", {"e/t": [("t1", 1.0), ("t2", 1.0)]}),
}
BADF = {
    "bad1.yaml": "k: [unclosed\n", "d/bad2.json": '{"k": ', "e/bad3.yaml": b"\xff\xfe\x00k", "d/bad4.json": b"\x80\x81", "bad5.yaml": "!!python/object:os.system x\n",
    "bad6.json": "", "bad7.yaml": "a: b: c\n", "d/bad8.json": "NaN", "bad9.yaml": "- {text: x, weight: heavy}\n- y\n", "d/bad10.yaml": "\tk: x\n", "bad11.json": "[1, 2", "e/bad12.yaml": "k: *undefined\n",
}


def placement_cases(t):
    bads = list(BADF)
    goods = list(GOOD)
    for r in range(0, 4):
        for bs in itertools.combinations(bads, r):
            for g in range(1 << len(goods)) if r < 2 or t else [31, 1, 2, 4, 8, 16]:
                yield (bs, tuple(x for i, x in enumerate(goods) if g >> i & 1))
    yield (tuple(bads), tuple(goods))


def check_placement(case, st):
    bs, gs = case
    fs = {b: BADF[b] for b in bs}
    fs.update({g: GOOD[g][0] for g in gs})
    want = {}
    for g in gs:
        want.update(GOOD[g][1])
    with files.tree(fs) as root:
        st.add(1, len(fs), 1)
        try:
            got = read(root)
        except Exception as e:
            raise Violation(f"with the malformed files {bs} reading raised {type(e).__name__}: {e}")
        compare(got, want, f"with the malformed files {bs}")


def weight_cases():
    forms = [lambda t, w: f"{w}::{t}", lambda t, w: {"text": t, "weight": w}, lambda t, w: {"content": t, "weight": w}]
    for ws in itertools.product((1, 2, 0.5, 3), repeat=3):
        for f in range(len(forms)):
            yield (tuple(forms[(f + i) % 3](n, w) for i, (n, w) in enumerate(zip("abc", ws))), ws)


def check_weight(case, st):
    """weights read from files are the weights of random choice"""
    from fractions import Fraction

    lst, ws = case
    tot = sum(map(Fraction, ws))
    want = {("ok", (n,)): Fraction(w) / tot for n, w in zip("abc", ws)}
    with files.tree({"k.json": json.dumps({"k": lst}), "d/k.yaml": dump_yaml(list(lst), None)}) as root:
        for q in ("k", "d/k"):
            wm = env.WildcardManager(Path(root))
            floats = rng.FLOAT_DRAWS
            got = cmp.distribution(lambda: env.RandomPromptGenerator(wm).generate(f"__{q}__", 1), 200, st)
            got.pop("#exc", None)
            close = rng.FLOAT_DRAWS > floats and all(abs(got.get(k, 0) - want.get(k, 0)) <= Fraction(1, 30) for k in {**got, **want})
            if got != want and not close:
                raise Violation(f"entries {lst}: random choice has the distribution {got}, expected {want}")


def large_cases():
    for n in (50, 257, 1000, 1001, 3000):
        for kind in ("lines", "items", "keys", "maps", "files"):
            yield (kind, n if kind != "files" else n // 10)
    for n in (100, 5000, 100000):
        for kind in ("long", "longyaml"):
            yield (kind, n)
    for n in (4, 6, 10, 20):
        for kind in ("deep", "folders"):
            yield (kind, n)


def check_large(case, st):
    kind, n = case
    vals = [f"v{i}" for i in range(n)]
    one = [(v, 1.0) for v in vals]
    if kind == "lines":
        fs = {"a.txt": "\n".join(vals), "b.txt": "# c\n" * n + "\n\n".join(vals) + "\n"}
        want = {"a": one, "b": one}
    elif kind == "items":
        lst = [f"{1 + i % 3}::v{i}" for i in range(n)]
        fs = {"a.yaml": dump_yaml({"k": lst}, False), "b.json": json.dumps(lst)}
        w = [(v, float(1 + i % 3)) for i, v in enumerate(vals)]
        want = {"k": w, "b": w}
    elif kind == "maps":
        lst = [{"text": f"v{i}", "weight": 1 + i % 3} for i in range(n)]
        fs = {"a.yaml": dump_yaml(lst, True), "b.json": json.dumps({"k": lst})}
        w = [(v, float(1 + i % 3)) for i, v in enumerate(vals)]
        want = {"a": w, "k": w}
    elif kind == "keys":
        n = min(n, 300)
        d = {f"k{i:04}": [f"v{i}"] for i in range(n)}
        fs = {"a.yaml": dump_yaml({"y": d}, False), "b.json": json.dumps({"j": d})}
        want = {f"{p}/k{i:04}": [(f"v{i}", 1.0)] for p in "yj" for i in range(n)}
    elif kind == "files":
        fs = {f"d{i % 7}/f{i}.txt": f"v{i}" for i in range(n)}
        want = {f"d{i % 7}/f{i}": [(f"v{i}", 1.0)] for i in range(n)}
    elif kind == "long":
        line = "ab " * (n // 3) + "z"
        fs = {"a.txt": f"{line}\nx\n"}
        want = {"a": [(line, 1.0), ("x", 1.0)]}
    elif kind == "longyaml":
        line = "ab " * (n // 3) + "z"
        fs = {"a.yaml": dump_yaml({"k": [line, "2::" + line, {"text": line, "weight": 3}]}, False)}
        want = {"k": [(line, 1.0), (line, 2.0), (line, 3.0)]}
    elif kind == "deep":
        d = ["x", "2::y"]
        for i in reversed(range(n)):
            d = {f"k{i}": d, f"l{i}": f"s{i}"}
        fs = {"a.yaml": dump_yaml(d, False), "j/b.json": json.dumps(d)}
        want = {}
        for p in ("", "j/"):
            path = p
            for i in range(n):
                want[path + f"l{i}"] = [(f"s{i}", 1.0)]
                path += f"k{i}/"
            want[path[:-1]] = [("x", 1.0), ("y", 2.0)]
    else:
        fs, want, path = {}, {}, ""
        for i in range(n):
            fs[f"{path}t{i}.txt"] = f"v{i}"
            fs[f"{path}y{i}.yaml"] = f"m{i}: [w{i}]"
            want[f"{path}t{i}"] = [(f"v{i}", 1.0)]
            want[f"{path}m{i}"] = [(f"w{i}", 1.0)]
            path += f"d{i}/"
    with files.tree(fs) as root:
        st.add(len(want), n, len(fs))
        compare(read(root), want, f"{kind} of size {n}")


STEMS = ["a", "a.b", "a.b.c", "a-b", "a b", "A", "a_1", "1", "\u00e9\u4e2d", "a.txt", "x.yaml", "v1.0", "json", "_a", "a_", "-a", "#a", "~a", "(a)", "a&b", "README", "con", "a,b", "%41", "a'b", "@a", "+a", "!a", "=a", "index", "null", "test_a"]
FOLDERS = ["", "d/", "d.e/", "d/e f/", "D/\u00e9/", "txt.d/json/", "_d/", "d_/", "-d/", "~d/", "#d/", "$d/", "d/_e/", "(d)/", "@d/", "old/", "node_modules/", "tmp/", "build/", "tests/", "d~/", "%d/"]


def name_cases():
    for s in STEMS:
        for d in FOLDERS:
            yield (s, d)


def check_names(case, st):
    """a text file and a top-level list carry the name of the file without its
    extension; a mapping only the names of its keys; after the names of the folders"""
    s, d = case
    for ext, content, want in (
        (".txt", "x\ny\n", {d + s: [("x", 1.0), ("y", 1.0)]}),
        (".json", '["x", "2::y"]', {d + s: [("x", 1.0), ("y", 2.0)]}),
        (".yaml", "[x, '2::y']\n", {d + s: [("x", 1.0), ("y", 2.0)]}),
        (".json", '{"k.l": {"m n": ["x"]}}', {d + "k.l/m n": [("x", 1.0)]}),
        (".yaml", "k-l: {m: x}\n", {d + "k-l/m": [("x", 1.0)]}),
    ):
        with files.tree({d + s + ext: content, "other.txt": "o"}) as root:
            st.add(1, 1, 1)
            compare(read(root), {**want, "other": [("o", 1.0)]}, f"file {d + s + ext!r} with {content!r}")
            for n in want:
                got = [str(v) for v in env.WildcardManager(Path(root)).get_values(n)]
                if got != [v for v, _ in want[n]]:
                    raise Violation(f"file {d + s + ext!r} with {content!r}: looking up {n!r} gives {got}")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("lines", "text files of <= %d of 10 kinds of lines, three line endings" % (5 if t else 4), lambda: line_cases(t), check_lines, min_cases=10000),
        Space("signs", "lines that begin with, end with or hold each punctuation sign and odd space, doubled, alone and followed by a blank", start_cases, check_start, min_cases=40),
        Space("raw", "text files: all strings of <= %d characters over x blank tab # LF CR, all byte strings of <= 4 over 7 bytes incl. invalid UTF-8" % (7 if t else 6), lambda: raw_batches(t), check_raw, min_cases=900),
        Space("items", "lists of <= 2 of 30 kinds of items, of 3 and 4 of fewer; as value, nested value and top-level list; JSON, YAML block and flow", lambda: item_cases(t), check_items, min_cases=2000, cpu=120),
        Space("trees", "mappings up to depth 3 over 12 kinds of values, odd keys, scalar documents; both formats", lambda: tree_cases(t), check_tree, min_cases=2000, cpu=120),
        Space("yaml", "hand-written YAML documents", yaml_cases, check_yaml, min_cases=30),
        Space("large", "files of up to 3000 lines, items, mappings or 300 keys, 300 files, lines of 100,000 characters, nesting and folders 20 deep", large_cases, check_large, min_cases=30, cpu=300),
        Space("malformed", "all sets of <= 3 of 12 malformed files among subsets of 5 good ones", lambda: placement_cases(t), check_placement, min_cases=1000),
        Space("names", "32 file names (dots, blanks, other scripts, odd signs) x 22 folders x text, list and mapping files", name_cases, check_names, min_cases=78),
        Space("weights", "weights read from files are the exact probabilities of random choice", weight_cases, check_weight, min_cases=192),
    ]
