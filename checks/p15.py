"""P15: wildcard lookups do not depend on the lookup history; clearing shows new data."""
import itertools
import os
from pathlib import Path

from .common import *
from vlib import files

RULE = (
    "every history of operations up to the stated length is carried out on a real manager over real files in a scratch directory; "
    "each lookup is compared with the model's values for the present files and options and with a manager created at that moment"
)
ASSUMPTIONS = ["between a change of the files and the next clearing of the cache a lookup may show old or new values or fail on a deleted file", "option changes may or may not re-read the files; they are followed by nothing that depends on it until the next clear"]

BASE = {"a.txt": ["2", "1", "2"], "d/a.txt": ["3", "1"], "b.txt": ["5", "4"], "s.yaml": None}
YAML = "k:\n  - '7'\n  - '6'\n"
QUERIES = ["a", "*a", "__a__", "*", "zz", "k", "e"]


class Sys:
    """A manager, its files, and the model of both."""

    def __init__(self, root, how="path"):
        self.root = root
        self.how = how
        self.files = {}
        for p, v in BASE.items():
            self.put(p, v)
        self.wm = self.manager()
        self.opt = {"sort": True, "dedup": True, "shuffle": False}
        self.dirty = False
        self.n = 0
        self.held = []
        self.own = {}  # collection handles

    def manager(self):
        if self.how == "path":
            return env.WildcardManager(Path(self.root))
        if self.how == "str":
            return env.WildcardManager(str(self.root))
        return env.WildcardManager(root_map={"": [Path(self.root)]})

    def put(self, p, v):
        self.files[p] = v
        files.write(self.root, {p: YAML if v is None else "\n".join(v) + "\n"})

    def names(self):
        out = {}
        for p, v in self.files.items():
            if v is None:
                out["k"] = ["7", "6"]
            else:
                out[p[:-4]] = v
        return out

    def expect(self, q):
        names = self.names()
        vals = [v for n in files.resolve(names, q) for v in names[n]]
        if self.opt["dedup"]:
            vals = list(dict.fromkeys(vals))
        return vals

    def fresh(self, q):
        w = self.manager()
        w.sort_wildcards, w.dedup_wildcards, w.shuffle_wildcards = self.opt["sort"], self.opt["dedup"], False
        return list(map(str, w.get_values(q)))

    def lookup(self, q, st):
        vo = self.wm.get_values(q)
        got = list(map(str, vo))
        self.held.append((vo, tuple(got)))
        st.add(1, 1, 1)
        if self.dirty:
            return
        want = self.expect(q)
        if sorted(got) != sorted(want):
            raise Violation(f"lookup of {q!r} gives {got}, the files say {want}")
        if not self.opt["shuffle"]:
            if self.opt["sort"]:
                if got != sorted(want):
                    raise Violation(f"lookup of {q!r} gives {got}, expected it sorted")
            else:
                f = self.fresh(q)
                if got != f:
                    raise Violation(f"lookup of {q!r} gives {got}, a new manager gives {f}")
        old = self.wm.get_all_values(q)
        if sorted(old) != sorted(want):
            raise Violation(f"get_all_values({q!r}) gives {old}, the files say {want}")

    def do(self, op, st):
        k = op[0]
        if k == "L":
            self.lookup(op[1], st)
        elif k == "G":
            got = env.CombinatorialPromptGenerator(self.wm).generate("__a__ ", 50)
            if not self.dirty and sorted(got) != sorted(v + " " for v in self.expect("a")):
                raise Violation(f"'__a__ ' generates {got}, the files say {self.expect('a')}")
        elif k == "N":
            got = self.wm.get_collection_names()
            if not self.dirty and set(got) != set(self.names()):
                raise Violation(f"collection names {sorted(got)}, the files say {sorted(self.names())}")
        elif k == "O":
            v = not self.opt[op[1]]
            self.opt[op[1]] = v
            setattr(self.wm, op[1] + "_wildcards", v)
            if getattr(self.wm, op[1] + "_wildcards") != v:
                raise Violation(f"option {op[1]} reads {not v} after it was set to {v}")
        elif k == "C":
            self.wm.clear_cache()
            self.dirty = False
            self.own = {}
        elif k == "E":  # edit a file behind the manager's back
            self.n += 1
            self.put("a.txt", [f"n{self.n}", "1"])
            self.dirty = True
        elif k == "A":
            self.n += 1
            self.put("e.txt", [f"e{self.n}"])
            self.dirty = True
        elif k == "D":
            if "b.txt" in self.files:
                del self.files["b.txt"]
                os.unlink(os.path.join(self.root, "b.txt"))
                self.dirty = True
        elif k == "W":
            self.n += 1
            f = self.wm.get_file("a")
            text = f"w{self.n}\n# no\n\n  1 \n"
            f.write_text(text)
            self.files["a.txt"] = [f"w{self.n}", "1"]
            self.dirty = True
            got = list(f.get_values())
            if got != self.files["a.txt"]:
                raise Violation(f"after writing {text!r} through a collection it returns {got}")
            if f.read_text() != text:
                raise Violation(f"after writing {text!r} through a collection it reads {f.read_text()!r}")
        elif k == "F":
            for i in range(op[1]):
                got = list(self.wm.get_values(f"nothing{i}"))
                if got:
                    raise Violation(f"lookup of 'nothing{i}' gives {got}")
        for vo, was in self.held:
            if tuple(map(str, vo)) != was:
                raise Violation(f"values returned earlier changed from {was} to {tuple(map(str, vo))}")


OPS = [("L", "a"), ("L", "*a"), ("L", "__a__"), ("L", "*"), ("L", "zz"), ("G",), ("N",), ("O", "sort"), ("O", "dedup"), ("O", "shuffle"), ("C",), ("E",), ("A",), ("D",), ("W",), ("F", 101)]
LAST = [("L", "a"), ("L", "*"), ("L", "*a"), ("N",), ("L", "e")]


def run_history(ops, st, how="path"):
    with files.tree({}) as root:
        s = Sys(root, how)
        done = []
        try:
            for op in ops:
                try:
                    s.do(op, st)
                except (OSError, KeyError):
                    if not s.dirty or op[0] == "C":
                        raise
                done.append(op)
        except Violation as v:
            raise Violation(f"after {fmt(done)}: {v}")
        except Exception as e:
            raise Violation(f"after {fmt(done)}: {op} raised {type(e).__name__}: {e}")


def fmt(ops):
    return " ".join("".join(map(str, o)) for o in ops) or "nothing"


def history_cases(t):
    n = 4 if t else 3
    for k in range(0, n):
        for c in itertools.product(OPS, repeat=k):
            for l in LAST:
                yield c + (l,)
    for c in itertools.product(OPS, repeat=n):
        if pruned(c):
            continue
        for l in (LAST if t else LAST[:2]):
            yield c + (l,)


def pruned(c):
    # doing the same read, clear or deletion twice in a row adds nothing
    return any(a == b and a[0] in "CDFNG" for a, b in zip(c, c[1:]))


def clear_cases(t):
    """look up - change - clear - look up, with anything in between"""
    change = [("E",), ("A",), ("D",), ("W",)]
    any_ = [o for o in OPS if o[0] != "F"]
    for a in LAST + [("L", "__a__"), ("L", "zz"), ("G",)]:
        for ch in itertools.product(change, repeat=2):
            for x in any_:
                for l in LAST + [("L", "k"), ("G",)]:
                    yield (a, ch[0], x, ch[1], ("C",), l)
                    if t:
                        yield (a, ch[0], ("C",), x, ch[1], ("C",), l, l)


def origin_cases(t):
    change = [("E",), ("A",), ("D",)]
    for how in ("str", "map"):
        for a in LAST + [("G",)]:
            for ch in change:
                for l in LAST + [("L", "k"), ("G",)]:
                    yield (how, (a, ch, ("C",), l))
                    yield (how, (a, ch, ("O", "dedup"), ("C",), l))
        for c in itertools.product([o for o in OPS if o[0] != "W"], repeat=2):
            for l in LAST:
                yield (how, c + (l,))


def toggle_cases(t):
    ops = [("L", "a"), ("L", "*"), ("O", "sort"), ("O", "dedup"), ("O", "shuffle")]
    for c in itertools.product(ops, repeat=7 if t else 6):
        if c[-1][0] == "L":
            yield c


def capacity_cases():
    for n in (1, 50, 98, 99, 100, 101, 102, 103, 150, 250):
        for first in QUERIES:
            for second in QUERIES:
                yield (("L", first), ("F", n), ("L", second), ("L", first), ("F", 30), ("L", first))


def many_cases():
    for n in (90, 99, 100, 101, 102, 110, 205):
        for opt in itertools.product((False, True), repeat=2):
            yield (n, opt)


def check_many(case, st):
    n, (nosort, nodedup) = case
    with files.tree({f"f{i}.txt": f"v{i}\nc\nc\n" for i in range(n)}) as root:
        wm = env.WildcardManager(Path(root))
        if nosort:
            wm.sort_wildcards = False
        if nodedup:
            wm.dedup_wildcards = False
        for rnd in range(3):
            for i in (range(n) if rnd != 1 else reversed(range(n))):
                got = list(map(str, wm.get_values(f"f{i}")))
                st.add(1, 1, 1)
                want = [f"v{i}", "c"] + (["c"] if nodedup else [])
                if not nosort:
                    want.sort()
                if got != want:
                    raise Violation(f"{n} files, round {rnd}: 'f{i}' gives {got}, expected {want}")


CONTENTS = ["", "x", "x\n", "x\ny", "# c\nx", " x \n\n\ty\n", "x\r\ny\r\n", "\u00e9\u4e2d\n", "{a|b}\n__c__\n", "x\nx\n", "#\n", "a # b\n", "x y", "x\n\ny", "X", "x  y\n", "# x\ny", "y\nx"]


def write_cases(t):
    for c in itertools.product(range(len(CONTENTS)), repeat=3 if t else 2):
        for pat in (("w", "g", "w", "g", "w", "g"), ("g", "w", "w", "g", "w", "g"), ("w", "r", "g", "w", "m", "g"), ("w", "r", "w", "r", "w", "r", "g"), ("g", "w", "g", "w", "r", "g", "m", "w", "r", "g", "m")):
            yield (c, pat)


def values_of(text):
    import io

    out = []
    for line in io.StringIO(text, newline=None):
        s = line.strip()
        if s and not s.startswith("#"):
            out.append(s)
    return out


def check_write(case, st):
    c, pat = case
    with files.tree({"d/f.txt": "first\n", "o.txt": "other\n"}) as root:
        wm = env.WildcardManager(Path(root))
        f, o = wm.get_file("d/f"), wm.get_file("o")
        cur, i = "first\n", 0
        for p in pat:
            st.add(1, 1, 1)
            if p == "w":
                if i == len(c):
                    break
                cur = CONTENTS[c[i]]
                i += 1
                f.write_text(cur)
            elif p == "r":
                if f.read_text() != cur.replace("\r\n", "\n"):
                    raise Violation(f"read_text gives {f.read_text()!r} after {cur!r} was written")
            elif p == "m":
                wm.clear_cache()
                if [str(v) for v in wm.get_values("d/f")] != sorted(dict.fromkeys(values_of(cur))):
                    raise Violation(f"after writing {cur!r} and clearing, a lookup gives {list(wm.get_values('d/f'))}")
            else:
                got = list(f.get_values())
                if got != values_of(cur):
                    raise Violation(f"after writing {cur!r} the collection returns {got}")
                got = list(f.get_values())
                if got != values_of(cur):
                    raise Violation(f"after writing {cur!r} the collection returns {got} the second time")
            if list(o.get_values()) != ["other"]:
                raise Violation("another collection changed")


def pair_cases():
    """two managers over the same directory and the same collection objects"""
    ops = [("L", "a"), ("L", "*"), ("O", "sort"), ("O", "dedup"), ("O", "shuffle"), ("C",)]
    both = [(m, o) for m in (0, 1) for o in ops]
    for c in itertools.product(both, repeat=3):
        for q in ("a", "*"):
            for m in (0, 1):
                yield c + ((m, ("L", q)),)


def check_pair(case, st):
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection

    with files.tree({"d/a.txt": "3\n1\n3\n"}) as root:
        shared = {"a": ListWildcardCollection(entries=["2", "1", "2"]), "l": ["9", "8"]}
        rm = {"": [shared, Path(root)]}
        wms = [env.WildcardManager(root_map=rm), env.WildcardManager(root_map=rm)]
        opts = [{"sort": True, "dedup": True, "shuffle": False} for _ in wms]
        names = {"a": ["2", "1", "2"], "l": ["9", "8"], "d/a": ["3", "1", "3"]}
        for i, (m, op) in enumerate(case):
            if op[0] == "C":
                wms[m].clear_cache()
            elif op[0] == "O":
                opts[m][op[1]] = not opts[m][op[1]]
                setattr(wms[m], op[1] + "_wildcards", opts[m][op[1]])
            else:
                vals = [v for n in files.resolve(names, op[1]) for v in names[n]]
                if opts[m]["dedup"]:
                    vals = list(dict.fromkeys(vals))
                got = list(map(str, wms[m].get_values(op[1])))
                st.add(1, 1, 1)
                ok = sorted(got) == sorted(vals)
                if ok and not opts[m]["shuffle"]:
                    ok = got == (sorted(vals) if opts[m]["sort"] else vals)
                if not ok:
                    raise Violation(f"after {case[:i]}: lookup of {op[1]!r} on manager {m} gives {got}, expected {vals} with {opts[m]}")
        if shared["a"].entries != ["2", "1", "2"] or shared["l"] != ["9", "8"]:
            raise Violation(f"after {case}: the lists given by the caller changed: {shared}")


def shuffle_cases():
    for vals in (["a"], ["a", "b"], ["b", "a", "c"]):
        for n in (1, 2):
            yield (tuple(vals), n)


def check_shuffle(case, st):
    """all outcomes: every shuffled lookup is a permutation, and each permutation can occur"""
    vals, n = case
    wm = env.WildcardManager(root_map={"": [{"w": list(vals)}]})
    wm.shuffle_wildcards = True

    def run():
        return [tuple(map(str, wm.get_values("w"))) for _ in range(n)]

    seen = set()
    for p, (k, v) in rng.explore(run, 5000):
        st.add(1, 1, 1)
        if k != "ok" or any(sorted(x) != sorted(vals) for x in v):
            raise Violation(f"shuffled lookups of {vals} gave {v}")
        seen.add(tuple(v))
    perms = set(itertools.product(itertools.permutations(vals), repeat=n))
    if seen != perms:
        raise Violation(f"shuffled lookups of {vals}: only {len(seen)} of {len(perms)} orders occur")


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("histories", "all histories of <= %d of 16 operations (lookups, generation, listing, option changes, clears, edits, additions, deletions, writes, 101 other lookups) followed by a lookup" % (4 if t else 3), lambda: history_cases(t), run_history, min_cases=8000),
        Space("clears", "lookup, change, operation, change, clear, lookup", lambda: clear_cases(t), run_history, min_cases=10000),
        Space("origins", "the same with the directory given as a string or in a root map", lambda: origin_cases(t), lambda c, st: run_history(c[1], st, c[0]), min_cases=2000),
        Space("toggles", "all histories of %d lookups and option changes" % (7 if t else 6), lambda: toggle_cases(t), run_history, min_cases=6000),
        Space("capacity", "1..250 other lookups between equal ones", capacity_cases, run_history, min_cases=400),
        Space("many", "90..205 files looked up in three rounds x sorting x de-duplication", many_cases, check_many, min_cases=28),
        Space("writes", "sequences of %d writes of 18 texts through a collection with reads, lookups and clears between" % (3 if t else 2), lambda: write_cases(t), check_write, min_cases=1600),
        Space("pairs", "all histories of 4 operations on two managers sharing a directory and collections", pair_cases, check_pair, min_cases=6000),
        Space("shuffles", "all outcomes of shuffled lookups", shuffle_cases, check_shuffle, min_cases=6),
    ]
