"""Scratch wildcard trees."""
from __future__ import annotations

import atexit
import os
import shutil
import tempfile

_dirs = {}


def scratch():
    """A scratch directory of this process, removed when it ends."""
    pid = os.getpid()
    if pid not in _dirs:
        d = tempfile.mkdtemp(prefix="verif-scratch-")
        _dirs[pid] = d
        import multiprocessing.util as mu

        mu.Finalize(None, shutil.rmtree, args=(d,), kwargs={"ignore_errors": True}, exitpriority=10)
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return _dirs[pid]


_n = [0]


class tree:
    """Context manager: a new directory with {relative path: text or bytes}."""

    def __init__(self, files, name="root"):
        self.files, self.name = files, name

    def __enter__(self):
        _n[0] += 1
        self.top = os.path.join(scratch(), f"t{_n[0]}")
        self.root = os.path.join(self.top, self.name)
        os.makedirs(self.root)
        write(self.root, self.files)
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)
        return False


def write(root, files):
    for p, c in files.items():
        f = os.path.join(root, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if isinstance(c, str):
            c = c.encode()
        with open(f, "wb") as h:
            h.write(c)


def clean(name, mark="__"):
    """Documented canonical form of a wildcard name, None if it is not allowed."""
    if mark and name.startswith(mark):
        name = name[len(mark):]
    if mark and name.endswith(mark):
        name = name[: -len(mark)]
    name = name.replace("\\", "/")
    while "//" in name:
        name = name.replace("//", "/")
    name = name.strip("/")
    return None if ".." in name else name


def glob(p, s):
    """Does the glob p match the whole of s?  * crosses slashes."""
    row = {0}
    i = 0
    toks = []
    while i < len(p):
        c = p[i]
        if c == "[":
            j = p.find("]", i + 2)
            if j > 0:
                toks.append(("set", p[i + 1: j]))
                i = j + 1
                continue
        toks.append((c, None))
        i += 1
    for c, arg in toks:
        new = set()
        if c == "*" and arg is None:
            if row:
                new = set(range(min(row), len(s) + 1))
        else:
            for k in row:
                if k < len(s):
                    if c == "set":
                        neg = arg.startswith("!")
                        ok = (s[k] in arg.lstrip("!")) != neg
                    else:
                        ok = c == "?" or c == s[k]
                    if ok:
                        new.add(k + 1)
        row = new
    return len(s) in row


def resolve(names, query, mark="__"):
    """Names of the collections a query stands for."""
    q = clean(query, mark)
    if q is None:
        return []
    hit = [n for n in names if glob(q, n)]
    if not hit:
        hit = [n for n in names if glob("**/" + q, n)]
    return hit
