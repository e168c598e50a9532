"""P14: wildcard names resolve to exactly the matching files, never outside the root."""
import itertools
import json
import os
import warnings
from pathlib import Path

from .common import *
from vlib import files

RULE = (
    "for every tree and every name, get_values, match_collections, get_file and get_collection_names of a real manager over real "
    "files in a scratch directory are compared with a model that applies an independently written glob matcher to the list of "
    "collection names"
)
ASSUMPTIONS = ["a name without any characters (such as a lone slash) is not a name", "symbolic links inside a root are followed by design and not explored", "the order of unsorted values taken from several collections follows the directory listing and is compared as a multiset"]

MARK = "__"
# path -> (names it provides -> values)
FILES = {
    "a.txt": {"a": ["1", "s"]},
    "b.txt": {"b": ["2", "s"]},
    "d/a.txt": {"d/a": ["3"]},
    "d/b.txt": {"d/b": ["4", "s"]},
    "d/e/a.txt": {"d/e/a": ["5"]},
    ".h/a.txt": {},
    "d/.h/c.txt": {},
    "a.md": {},
    "d/s.yaml": {"d/a2": ["6"], "d/k/a": ["7", "1"]},
    "s.json": {"k/b": ["8"], "c": ["9"]},
}
STRUCT = {
    "d/s.yaml": "a2:\n  - '6'\nk:\n  a:\n    - '7'\n    - '1'\n",
    "s.json": json.dumps({"k": {"b": ["8"]}, "c": ["9"]}),
}
RICH = {
    "a.txt": {"a": ["r1"]}, "ab.txt": {"ab": ["r2"]}, "b.txt": {"b": ["r3"]}, "A.txt": {"A": ["r4"]},
    "a.b.txt": {"a.b": ["r5"]}, "d/a.txt": {"d/a": ["r6"]}, "d/b/a.txt": {"d/b/a": ["r7"]}, "d/b/ab.txt": {"d/b/ab": ["r8"]},
    "d.a/b.txt": {"d.a/b": ["r9"]}, "b/d/c.txt": {"b/d/c": ["r10"]}, "d/c-1 x.txt": {"d/c-1 x": ["r11"]}, "d/b/.x/a.txt": {},
    "d/a.txt.bak": {}, "d/n": {}, "a_b.txt": {"a_b": ["r12"]}, "d.a/p.yaml": {"d.a/q": ["r13"], "d.a/r/a": ["r14"]},
    "x(1).txt": {"x(1)": ["r15"]}, "c+d.txt": {"c+d": ["r16"]},
}
STRUCT_RICH = {"d.a/p.yaml": "q: [r13]\nr: {a: [r14]}\n"}
OUT = {"../out.txt": "OUTSIDE\n", "../d/a.txt": "OUTSIDE\n", "../a.txt": "OUTSIDE\n", "../s.yaml": "a: [OUTSIDE]\n"}


def content(path, provides, struct):
    if path in struct:
        return struct[path]
    vals = [v for vs in provides.values() for v in vs] or ["HIDDEN"]
    return "\n".join(vals) + "\n"


def names_of(fs):
    out = {}
    for f in fs.values():
        out.update(f)
    return out


def expect(names, q, mark=MARK, sort=True, dedup=True):
    if files.clean(q, mark) == "":
        return None  # a blank name: nothing is promised except containment
    vals = [v for n in files.resolve(names, q, mark) for v in names[n]]
    if dedup:
        vals = list(dict.fromkeys(vals))
    return sorted(vals) if sort else vals


def check_names(wm, names, queries, st, mark=MARK, what=""):
    got = wm.get_collection_names()
    if set(got) != set(names):
        raise Violation(f"{what}: collection names are {sorted(got)}, expected {sorted(names)}")
    for q in queries:
        want = expect(names, q, mark)
        try:
            got = list(map(str, wm.get_values(q)))
        except Exception as e:
            raise Violation(f"{what}: looking up {q!r} raised {type(e).__name__}: {e}")
        st.add(1, 1, 1)
        if want is None:
            if not set(got) <= {v for vs in names.values() for v in vs}:
                raise Violation(f"{what}: {q!r} gives {got}: not values of the root's files")
        elif got != want:
            raise Violation(f"{what}: {q!r} gives {got}, expected {want}")


def tokens(alpha, n):
    for k in range(1, n + 1):
        for c in itertools.product(alpha, repeat=k):
            yield "".join(c)


Q_SMALL = None


def small_queries(t):
    global Q_SMALL
    if Q_SMALL is None:
        al = ["a", "b", "d", "k", "e", "/", "*", "**", "?", "..", "[ab]", ".h"]
        Q_SMALL = list(dict.fromkeys(list(tokens(al, 2)) + ["".join(c) for c in itertools.product(al, ["/", "*", "?"], al)]
                                     + ["d/*/a", "d/e/*", "*/e/a", "k/*", "d/k/a", "**/a", "**/e/*", "d/**", "*/*/*", "c", "*2", "a2", ".h/a", "d/.h/c", "a.txt", "a.md", "d/s", "s", "s/c", "d/s/a2", "root/a", "", "/", "__"]
                                     + (list(tokens(al[:9], 4)) if t else [])))
    return Q_SMALL


def subtree_cases():
    ks = list(FILES)
    for bits in itertools.product((0, 1), repeat=len(ks)):
        yield tuple(k for k, b in zip(ks, bits) if b)


def check_subtree(case, st, t):
    fs = {k: FILES[k] for k in case}
    with files.tree({k: content(k, v, STRUCT) for k, v in fs.items()}) as root:
        files.write(root, OUT)
        check_names(env.WildcardManager(Path(root)), names_of(fs), small_queries(t), st, what=f"tree {case}")


def rich_cases(t):
    al = ["a", "b", "d", "c", "/", "*", "?", "[ab]", "[!a]", "."]
    qs = []
    for q in tokens(al, 5 if t else 4):
        qs.append(q)
        if len(qs) == 500:
            yield tuple(qs)
            qs = []
    for q in ["x(1)", "x(*", "c+d", "c?d", "d/c-1 x", "* x", "d/c*x", "d/*-*", "A", "[A-Z]", "a_b", "*_*", "d.a/q", "d.a/r/a", "d.*/b", "d/a.txt", "d/n", "d/b/.x/a"]:
        qs.append(q)
    yield tuple(qs)


_rich = {}


def rich_tree():
    pid = os.getpid()
    if pid not in _rich:
        t = files.tree({k: content(k, v, STRUCT_RICH) for k, v in RICH.items()}, name=".root.x")
        root = t.__enter__()
        files.write(root, OUT)
        _rich[pid] = (t, root, env.WildcardManager(root))
    return _rich[pid]


def check_rich(qs, st):
    _, root, wm = rich_tree()
    names = names_of(RICH)
    if any("[A-Z]" == q for q in qs):
        got = sorted(map(str, wm.get_values("[A-Z]")))
        if got != ["r4"]:
            raise Violation(f"'[A-Z]' gives {got}, expected ['r4']")
        qs = [q for q in qs if q != "[A-Z]"]
    check_names(wm, names, qs, st, what="rich tree")


FORMS = [
    lambda q: q, lambda q: "__" + q + "__", lambda q: "/" + q, lambda q: q + "/", lambda q: "//" + q + "//", lambda q: "\\" + q,
    lambda q: "__/" + q + "/__", lambda q: q.replace("/", "//"), lambda q: q.replace("/", "\\"), lambda q: q.replace("/", "\\/\\"),
    lambda q: "__" + q.replace("/", "\\\\") + "\\__", lambda q: q.replace("/", "///"), lambda q: "/\\/" + q, lambda q: "__" + q, lambda q: q + "__",
]


def form_cases():
    qs = list(dict.fromkeys(tokens(["a", "b", "d", "/", "*"], 3))) + ["d/b/a", "d/*/a", "*/b/*", "d/c", "b/a", "**/a", "d/a/b", "q", "r/a"]
    for q in qs:
        if q.strip("/"):
            yield q


def check_form(q, st):
    _, root, wm = rich_tree()
    names = names_of(RICH)
    base = expect(names, q)
    for f in FORMS:
        v = f(q)
        got = list(map(str, wm.get_values(v)))
        st.add(1, 1, 1)
        if got != base:
            raise Violation(f"{v!r} gives {got}, but {q!r} stands for {base}")
        cols = list(wm.match_collections(v))
        direct = [n for n in names if files.glob(files.clean(v), n)]
        if sorted(x for c in cols for x in map(str, c.get_values())) != sorted(x for n in direct for x in names[n]) or len(cols) != len(direct):
            raise Violation(f"match_collections({v!r}) gives {len(cols)} collections, expected {direct}")
        try:
            c = ("ok", list(map(str, wm.get_file(v).get_values())))
        except Exception:
            c = ("none",)
        n = files.clean(v)
        want = ("ok", names[n]) if n in names else ("none",)
        if c != want:
            raise Violation(f"get_file({v!r}) gives {c}, expected {want}")


def escape_cases():
    al = ["..", "/", "out", "a", "\\", ".", "d", "*", "__", "%2e%2e"]
    return tokens(al, 4)


def check_escape(q, st):
    _, root, wm = rich_tree()
    names = names_of(RICH)
    legal = {v for vs in names.values() for v in vs}
    for v in (q, root + "/" + q, os.path.dirname(root) + "/" + q, "__" + q + "__"):
        got = list(map(str, wm.get_values(v)))
        st.add(1, 1, 1)
        if not set(got) <= legal:
            raise Violation(f"{v!r} gives {got}: not values of the root's files")
        if expect(names, v) not in (None, got):
            raise Violation(f"{v!r} gives {got}, expected {expect(names, v)}")
        try:
            got = list(map(str, wm.get_file(v).get_values()))
        except Exception:
            got = []
        if not set(got) <= legal:
            raise Violation(f"get_file({v!r}) gives {got}: not values of the root's files")


LINES = [["x"], ["y", "x"], ["x", "y", "x"], ["z", "b", "a"], ["10", "9", "B", "a", "\u00e9"]]


def option_cases():
    for ls in itertools.product(LINES, repeat=3):
        yield ls


def check_option(ls, st):
    fs = {"a.txt": ls[0], "d/a.txt": ls[1], "b.txt": ls[2]}
    names = {"a": ls[0], "d/a": ls[1], "b": ls[2]}
    with files.tree({k: "\n".join(v) for k, v in fs.items()}) as root:
        wm = env.WildcardManager(Path(root))
        for sort, dedup, shuffle in itertools.product((True, False), repeat=3):
            wm.sort_wildcards, wm.dedup_wildcards, wm.shuffle_wildcards = sort, dedup, shuffle
            for q in ("a", "*a", "*", "d/*", "b", "zz"):
                want = expect(names, q, sort=False, dedup=dedup)
                got = list(map(str, wm.get_values(q)))
                st.add(1, 1, 1)
                if sorted(got) != sorted(want):
                    raise Violation(f"files {fs}, sort={sort} dedup={dedup} shuffle={shuffle}: {q!r} gives {got}, expected {want} in some order")
                if sort and not shuffle and got != sorted(want):
                    raise Violation(f"files {fs}, dedup={dedup}: {q!r} gives {got}, expected it sorted")
                if not sort and not shuffle and len(files.resolve(names, q)) == 1 and got != want:
                    raise Violation(f"files {fs}, sort off, dedup={dedup}: {q!r} gives {got}, expected file order {want}")


def root_cases():
    """root maps: which items (two directories, lists) below which prefix"""
    prefixes = ["", "p", "p/q", "/r/"]
    for c in itertools.product(prefixes, repeat=4):
        for order in (0, 1):
            yield (c, order)


def check_root(case, st):
    c, order = case
    items = ["dir1", "dir2", "list", "coll"]
    if order:
        items, c = items[::-1], c
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection

    with files.tree({"one/a.txt": "1", "one/d/a.txt": "2", "two/b.txt": "3", "two/s.yaml": "y:\n  k: ['4']\n", "three.txt": "no"}) as root:
        content = {
            "dir1": (Path(root) / "one", {"a": ["1"], "d/a": ["2"]}),
            "dir2": (Path(root) / "two", {"b": ["3"], "y/k": ["4"]}),
            "list": ({"l": ["5", "6"], "m/n": ["7"]}, {"l": ["5", "6"], "m/n": ["7"]}),
            "coll": ({"c": ListWildcardCollection(entries=["8"])}, {"c": ["8"]}),
        }
        rm, names = {}, {}
        for it, pre in zip(items, c):
            rm.setdefault(pre, []).append(content[it][0])
            for n, vs in content[it][1].items():
                names["/".join(x for x in (pre.strip("/"), n) if x)] = vs
        wm = env.WildcardManager(root_map=rm)
        check_names(wm, names, ["a", "*a", "p/*", "p/q/*", "r/a", "*", "d/a", "p/d/a", "l", "*/l", "y/k", "k", "p/q/y/k", "m/n", "n", "c", "r/*/k", "three", "one/a", "../three"], st, what=f"root map {rm}")
        walk_check(wm, names)


def walk_check(wm, names):
    got = sorted(wm.tree.root.walk_full_names())
    if got != sorted(names):
        raise Violation(f"the tree lists {got}, expected {sorted(names)}")

    def rec(node):
        for n in node.get_full_names():
            if n.rpartition("/")[0] != node.path:
                raise Violation(f"collection {n!r} is listed under the node {node.path!r}")
        for k, ch in node.child_nodes.items():
            want = f"{node.path}/{k}" if node.path else k
            if ch.path != want:
                raise Violation(f"child {k!r} of node {node.path!r} has path {ch.path!r}")
            rec(ch)

    rec(wm.tree.root)


def missing_cases():
    for kind in ("none", "missing", "file", "empty"):
        for how in ("path", "str", "map"):
            yield (kind, how)


def check_missing(case, st):
    kind, how = case
    with files.tree({"f.txt": "1"}) as root:
        os.makedirs(root + "/empty")
        p = {"none": None, "missing": root + "/nope", "file": root + "/f.txt", "empty": root + "/empty"}[kind]
        if how == "map":
            wm = env.WildcardManager(root_map={"": [Path(p)]} if p else {})
        else:
            wm = env.WildcardManager(Path(p) if p and how == "path" else p)
        check_names(wm, {}, ["a", "*", "**", "f", "..", "", "/"], st, what=f"{kind} root")
        got = env.CombinatorialPromptGenerator(wm).generate("x __f__", 5)
        if got != ["x __f__"]:
            raise Violation(f"{kind} root: 'x __f__' gives {got}")


def template_cases():
    al = ["a", "b", "d", "/", "*", "?", "[ab]"]
    for q in tokens(al, 3):
        if q.strip("/") and not q.startswith("?") and "//" not in q:
            yield q
    for q in ["d/b/a", "d/*/a", "d.a/*", "a.b", "d/c-1 x", "c+d", "**/ab", "d.a/r/a", "..", "../out", "d/../a"]:
        yield q


def check_template(q, st):
    _, root, wm = rich_tree()
    vals = expect(names_of(RICH), q)
    if not vals:
        vals = ["__" + q + "__"]
    t = f"<__{q}__>"
    for got, how in (
        (cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm).generate(t, 100)), "combinatorial"),
        (cmp.outcome(lambda: env.real_take(t, wm, "@", len(vals))), "cyclical"),
    ):
        st.add(1, 1, 1)
        if got != ("ok", [f"<{v}>" for v in vals]):
            raise Violation(f"{t!r}, {how}: got {cmp.fmt(got)}, expected the values {vals}")
    d = cmp.distribution(lambda: env.RandomPromptGenerator(wm).generate(t, 1), 200, st)
    if {k[1][0] if k[0] == "ok" else k for k in d if k != "#exc"} != {f"<{v}>" for v in vals}:
        raise Violation(f"{t!r}, random: got {list(d)}, expected the values {vals}")


def mark_cases():
    for mark in ("@@", "~", "__", "<>", "wild"):
        for q in ("a", "d/a", "*a", "zz", "b/a", "__a__"):
            yield (mark, q)


def check_mark(case, st):
    mark, q = case
    names = {"a": ["1"], "d/a": ["2"], "d/b/a": ["3"]}
    with files.tree({k + ".txt": v[0] for k, v in names.items()}) as root:
        wm = env.WildcardManager(root, mark)
        for v in (q, mark + q + mark, mark + q, q + mark):
            got = list(map(str, wm.get_values(v)))
            st.add(1, 1, 1)
            if got != expect(names, v, mark):
                raise Violation(f"mark {mark!r}: {v!r} gives {got}, expected {expect(names, v, mark)}")
            w = wm.to_wildcard(v)
            want = v if v.startswith(mark) else mark + v
            want = want if want.endswith(mark) else want + mark
            if w != want:
                raise Violation(f"mark {mark!r}: to_wildcard({v!r}) = {w!r}")
            if not wm.is_wildcard(w) or wm.is_wildcard(v) != (v.startswith(mark) and v.endswith(mark)):
                raise Violation(f"mark {mark!r}: is_wildcard is wrong for {v!r} or {w!r}")


def deep_cases():
    for depth in (4, 5, 6, 8, 10, 14):
        for kind in ("txt", "yaml", "mixed"):
            yield ("deep", depth, kind)
    for n in (20, 100, 300):
        for kind in ("txt", "yaml", "mixed"):
            yield ("wide", n, kind)


def check_deep(case, st):
    shape, n, kind = case
    fs, names = {}, {}

    def put(path, stem, val, yaml):
        full = f"{path}{stem}"
        fs[f"{full}_f.yaml" if yaml else full + ".txt"] = f"{stem}: ['{val}', s]\n" if yaml else f"{val}\ns\n"
        names[full] = [val, "s"]

    if shape == "deep":
        path = ""
        for i in range(n):
            put(path, "a", f"a{i}", kind == "yaml")
            put(path, f"b{i}", f"b{i}", kind == "yaml" or kind == "mixed")
            path += f"d{i}/" if i % 2 else "d/"
        dirs = [k.rpartition("/")[0] for k in names]
        qs = list(names) + [d + "/*" for d in dirs] + [d + "/?" for d in dirs] + ["*/a", "*", "**", "d/*", "**/a", f"*b{n - 1}", "d/**/a", "/".join("*" * n)] + ["*/" * i + "a" for i in range(n)]
        qs += [k.partition("/")[2] for k in names if "/" in k] + [k + "/a" for k in list(names)[-2:]]
    else:
        for i in range(n):
            put(f"d{i % 9}/" if i % 3 else "", f"n{i}", f"v{i}", kind == "yaml" or kind == "mixed" and i % 2)
        qs = list(names) + ["*", "n*", "d1/*", "d?/n1*", "*/n?", f"*n{n - 1}", "n[01234]", "*[13579]"]
    with files.tree({k: v for k, v in fs.items()}) as root:
        files.write(root, OUT)
        wm = env.WildcardManager(Path(root))
        check_names(wm, names, [q for q in qs if q.strip("/")], st, what=f"{shape} tree {n} of {kind} files")
        walk_check(wm, names)
        for q in list(names)[:: max(1, n // 10)]:
            want = expect(names, q)
            got = cmp.outcome(lambda: env.CombinatorialPromptGenerator(wm).generate(f"__{q}__", 500))
            if got != ("ok", want):
                raise Violation(f"{shape} tree {n} of {kind} files: '__{q}__' gives {cmp.fmt(got)}, expected {want}")


def odd_cases():
    from .p16 import FOLDERS, STEMS

    for s in STEMS:
        for d in FOLDERS:
            yield (s, d)


def check_odd(case, st):
    """names with signs, blanks and other scripts in them are names like any other"""
    s, d = case
    names = {d + s: ["1", "s"], d + "sub/" + s: ["2"], d + "q": ["3"], "q": ["4", "s"], d + "k" + s: ["5"]}
    fs = {d + s + ".txt": "1\ns\n", d + "sub/" + s + ".txt": "2\n", d + "q.txt": "3\n", "q.txt": "4\ns\n", d + "m.json": json.dumps({"k" + s: ["5"]})}
    if not d:
        del names["q"], fs["q.txt"]
        fs["q.txt"], names["q"] = "4\ns\n", ["4", "s"]
    qs = [d + s, d + "sub/" + s, d + "q", d + "*", "*", s, "*" + s, "sub/" + s, d + "sub/*", "*/" + s, "k" + s, d + "?" + s, d + s[:-1] + "?", d[:-1] + "?/q", d[:1] + "*q", s + "/q", d + s + "x", d + "sub"]
    with files.tree(fs) as root:
        files.write(root, OUT)
        wm = env.WildcardManager(Path(root))
        check_names(wm, names, [q for q in dict.fromkeys(qs) if q.strip("/")], st, what=f"files {sorted(fs)}")
        walk_check(wm, names)


EXTS = [".md", ".txt~", ".txt.bak", ".txtx", ".text", "", ".TXT", ".tx", ".yml", ".yaml~", ".yaml.txt~", ".json5", ".jsonl", ".JSON", ".csv", ".py", ".bak", "txt", ".txt ", ".json.md", ".ini"]


def type_cases():
    for e in EXTS:
        for d in ("", "d/", "d/e/"):
            for stem in ("a", "n", "x.y"):
                for text in ("x\ny\n", '{"k": ["x"]}\n', "k:\n  - x\n"):
                    yield (e, d, stem, text)


def check_type(case, st):
    """files of other types give nothing and disturb nothing"""
    e, d, stem, text = case
    fs = {d + stem + e: text, "a.txt": "1\n", "d/b.txt": "2\n", "d/s.json": '{"c": ["3"]}', "d/e/t.yaml": "a: ['4']\n"}
    names = {"a": ["1"], "d/b": ["2"], "d/c": ["3"], "d/e/a": ["4"]}
    with files.tree(fs) as root:
        wm = env.WildcardManager(Path(root))
        check_names(wm, names, ["a", "*", "d/*", d + stem, d + stem + e, stem, "k", d + "k", "*k", d + stem + "/k", "**/n", "d/c"], st, what=f"files {sorted(fs)}")
        walk_check(wm, names)


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("subtrees", "all 1024 subsets of 10 files (3 levels, hidden directories, other types, YAML, JSON) x all names of <= 2 tokens and chosen longer ones", subtree_cases, lambda c, st: check_subtree(c, st, t), min_cases=1024, cpu=120),
        Space("rich", "one tree of 20 collections x all names of <= %d of 10 tokens" % (5 if t else 4), lambda: rich_cases(t), check_rich, min_cases=20, cpu=120),
        Space("forms", "15 spellings (wrapping, slashes, backslashes) of each name; get_values, match_collections, get_file", form_cases, check_form, min_cases=100),
        Space("escape", "names of <= 4 of 10 tokens with .., absolute prefixes, backslashes; files lie outside the root", escape_cases, check_escape, min_cases=10000),
        Space("options", "5^3 overlapping file contents x sorting x de-duplication x shuffling x 6 names", option_cases, check_option, min_cases=125),
        Space("roots", "4 items (2 directories, lists, collections) under all choices of 4 prefixes, two orders", root_cases, check_root, min_cases=512),
        Space("missing", "no root, absent root, file as root, empty root", missing_cases, check_missing, min_cases=12),
        Space("large-trees", "folders 14 deep, 300 files, text, YAML and mixed; every name and patterns at every level", deep_cases, check_deep, min_cases=27, cpu=300),
        Space("odd-names", "32 file names x 22 folders with signs, dots, blanks, underscores and other scripts x 18 names and patterns", odd_cases, check_odd, min_cases=700),
        Space("types", "21 other endings x 3 folders x 3 stems x 3 contents beside wildcard files", type_cases, check_type, min_cases=500),
        Space("templates", "names of <= 3 tokens inside templates; three methods", template_cases, check_template, min_cases=200),
        Space("marks", "other wildcard marks", mark_cases, check_mark, min_cases=30),
    ]
