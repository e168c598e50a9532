"""Our own syntax tree of the template language, its renderer, and the
conversion from the implementation's parse result."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Optional, Union


@dataclass(frozen=True)
class Lit:
    text: str


@dataclass(frozen=True)
class Seq:
    items: tuple


@dataclass(frozen=True)
class Var:
    """opts: ((weight text or None, node), ...); bound: text such as '1-2', or None;
    sep: text or None (None: not written)."""

    opts: tuple
    bound: Optional[str] = None
    sep: Optional[str] = None
    meth: str = ""  # "", "~", "@", "!"


@dataclass(frozen=True)
class Wc:
    name: object  # str or node
    meth: str = ""
    params: tuple = ()  # ((name, node), ...)


@dataclass(frozen=True)
class Acc:
    name: str
    default: object = None


@dataclass(frozen=True)
class Asg:
    name: str
    value: object
    imm: bool = False
    keep: bool = False


@dataclass(frozen=True)
class Wrap:
    wrapper: object
    inner: object


EMPTY = Lit("")


@dataclass(frozen=True)
class Syn:
    """Delimiters used for rendering (mirrors the documented configuration)."""

    vs: str = "{"
    ve: str = "}"
    wc: str = "__"
    as_: str = "${"
    ae: str = "}"
    ps: str = "%{"
    pe: str = "}"


DEFAULT = Syn()


def render(n, s: Syn = DEFAULT) -> str:
    t = type(n)
    if t is Lit:
        return n.text
    if t is Seq:
        return "".join(render(i, s) for i in n.items)
    if t is Var:
        head = s.vs + n.meth
        if n.bound is not None:
            head += n.bound + "$$"
            if n.sep is not None:
                head += n.sep + "$$"
        return (
            head
            + "|".join(
                ("" if w is None else f"{w}::") + render(o, s) for w, o in n.opts
            )
            + s.ve
        )
    if t is Wc:
        name = n.name if isinstance(n.name, str) else render(n.name, s)
        p = ""
        if n.params:
            p = "(" + ", ".join(f"{k}={render(v, s)}" for k, v in n.params) + ")"
        return s.wc + n.meth + name + p + s.wc
    if t is Acc:
        d = "" if n.default is None else ":" + render(n.default, s)
        return s.as_ + n.name + d + s.ae
    if t is Asg:
        return (
            s.as_
            + n.name
            + ("?" if n.keep else "")
            + "="
            + ("!" if n.imm else "")
            + render(n.value, s)
            + s.ae
        )
    if t is Wrap:
        return s.ps + render(n.wrapper, s) + "$$" + render(n.inner, s) + s.pe
    raise TypeError(n)


def bounds(n: Var):
    """(lo, hi) as documented, clamped to the number of options."""
    k = len(n.opts)
    return clamp(*raw_bounds(n), k)


def raw_bounds(n: Var):
    k = len(n.opts)
    b = n.bound
    if b is None:
        lo = hi = 1
    elif "-" not in b:
        lo = hi = int(b)
    else:
        a, _, c = b.partition("-")
        lo = int(a) if a else 1
        hi = int(c) if c else k
    return lo, hi


def clamp(lo, hi, k):
    lo, hi = sorted((lo, hi))
    return max(0, min(lo, k)), min(hi, k)


def norm(n):
    """Canonical form: merge adjacent literals, flatten trivial sequences."""
    t = type(n)
    if t is Seq:
        out = []
        for i in n.items:
            i = norm(i)
            if type(i) is Seq:
                sub = list(i.items)
            else:
                sub = [i]
            for x in sub:
                if type(x) is Lit:
                    if not x.text:
                        continue
                    if out and type(out[-1]) is Lit:
                        out[-1] = Lit(out[-1].text + x.text)
                        continue
                out.append(x)
        if not out:
            return EMPTY
        if len(out) == 1 and type(out[0]) is not Asg:
            return out[0]
        return Seq(tuple(out))
    if t is Var:
        return Var(
            tuple((w, norm(o)) for w, o in n.opts),
            n.bound,
            n.sep,
            n.meth,
        )
    if t is Wc:
        name = n.name
        if not isinstance(name, str):
            name = norm(name)
            if type(name) is Lit:
                name = name.text
        return Wc(name, n.meth, tuple((k, norm(v)) for k, v in n.params))
    if t is Acc:
        return Acc(n.name, None if n.default is None else norm(n.default))
    if t is Asg:
        return Asg(n.name, norm(n.value), n.imm, n.keep)
    if t is Wrap:
        return Wrap(norm(n.wrapper), norm(n.inner))
    return n


def shape(n):
    """Comparable structure of one of our trees (bounds resolved, weights as floats)."""
    n = norm(n)
    return _shape(n)


def _shape(n):
    t = type(n)
    if t is Lit:
        return ("lit", n.text)
    if t is Seq:
        return ("seq", tuple(_shape(i) for i in n.items))
    if t is Var:
        lo, hi = bounds(n)
        return (
            "var",
            n.meth,
            lo,
            hi,
            "," if n.sep is None else n.sep,
            tuple((1.0 if w is None else float(w), _shape(o)) for w, o in n.opts),
        )
    if t is Wc:
        return (
            "wc",
            n.meth,
            n.name if isinstance(n.name, str) else _shape(n.name),
            tuple(sorted((k, _shape(v)) for k, v in n.params)),
        )
    if t is Acc:
        return ("acc", n.name, None if n.default is None else _shape(n.default))
    if t is Asg:
        return ("asg", n.name, n.imm, n.keep, _shape(n.value))
    if t is Wrap:
        return ("wrap", _shape(n.wrapper), _shape(n.inner))
    raise TypeError(n)


_METH = {"random": "~", "combinatorial": "!", "cycle": "@"}


def shape_of_command(c):
    """Comparable structure of a parse result of the implementation."""
    from dynamicprompts import commands as cm
    from dynamicprompts.commands import variable_commands as vc

    meth = getattr(c, "sampling_method", None)
    m = _METH[meth.value] if meth is not None else ""
    if isinstance(c, cm.LiteralCommand):
        return ("lit", c.literal)
    if isinstance(c, cm.SequenceCommand):
        parts = []
        if c.separator:
            return ("seq?", c.separator)
        for tok in c.tokens:
            s = shape_of_command(tok)
            subs = s[1] if s[0] == "seq" else (s,)
            for x in subs:
                if x[0] == "lit":
                    if not x[1]:
                        continue
                    if parts and parts[-1][0] == "lit":
                        parts[-1] = ("lit", parts[-1][1] + x[1])
                        continue
                parts.append(x)
        if not parts:
            return ("lit", "")
        if len(parts) == 1 and parts[0][0] != "asg":
            return parts[0]
        return ("seq", tuple(parts))
    if isinstance(c, cm.VariantCommand):
        k = len(c.variants)
        lo, hi = clamp(c.min_bound, c.max_bound, k)
        return (
            "var",
            m,
            lo,
            hi,
            c.separator,
            tuple((float(o.weight), shape_of_command(o.value)) for o in c.variants),
        )
    if isinstance(c, cm.WildcardCommand):
        w = c.wildcard
        if not isinstance(w, str):
            w = shape_of_command(w)
            if w[0] == "lit":
                w = w[1]
        return (
            "wc",
            m,
            w,
            tuple(sorted((k, shape_of_command(v)) for k, v in c.variables.items())),
        )
    if isinstance(c, vc.VariableAssignmentCommand):
        return (
            "asg",
            c.name,
            bool(c.immediate),
            not c.overwrite,
            shape_of_command(c.value),
        )
    if isinstance(c, vc.VariableAccessCommand):
        return (
            "acc",
            c.name,
            None if c.default is None else shape_of_command(c.default),
        )
    if isinstance(c, cm.WrapCommand):
        return ("wrap", shape_of_command(c.wrapper), shape_of_command(c.inner))
    return ("?", repr(c))


def walk(n):
    """All nodes of a tree."""
    yield n
    t = type(n)
    if t is Seq:
        kids = n.items
    elif t is Var:
        kids = [o for _, o in n.opts]
    elif t is Wc:
        kids = [v for _, v in n.params]
        if not isinstance(n.name, str):
            kids.append(n.name)
    elif t is Acc:
        kids = [n.default] if n.default is not None else []
    elif t is Asg:
        kids = [n.value]
    elif t is Wrap:
        kids = [n.wrapper, n.inner]
    else:
        kids = []
    for k in kids:
        yield from walk(k)
