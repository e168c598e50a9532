"""Rendering with layout (white space, comments) inserted at every legal slot.

A *dropped* slot (right after an opening brace, option bar, bound prefix, around
variable names) contributes nothing; at a *kept* slot the layout is white space
of the text."""
from __future__ import annotations

from .ast import DEFAULT, EMPTY, Acc, Asg, Lit, Seq, Var, Wc, Wrap

SP = Lit(" ")


class Layout:
    def __init__(self, ins, syn=DEFAULT):
        self.ins, self.s = ins, syn
        self.n = 0  # slots seen
        self.kinds = []

    def slot(self, kept):
        i = self.n
        self.n += 1
        self.kinds.append(kept)
        lay = self.ins(i, kept)
        return lay

    def top(self, node):
        a = self.slot(True)
        t, n = self.node(node)
        b = self.slot(True)
        items = ([SP] if a else []) + [n] + ([SP] if b else [])
        return a + t + b, Seq(tuple(items)) if len(items) > 1 else n

    def after(self, n, text):
        """kept slot behind a node"""
        b = self.slot(True)
        return text + b, Seq((n, SP)) if b else n

    def node(self, n):
        s = self.s
        t = type(n)
        if t is Lit:
            if " " in n.text.strip():
                i = n.text.index(" ", len(n.text) - len(n.text.lstrip()))
                lay = self.slot(True)
                return n.text[:i] + lay + n.text[i:], Lit(n.text[:i] + (" " if lay else "") + n.text[i:])
            return n.text, n
        if t is Seq:
            text, items = "", []
            for k, x in enumerate(n.items):
                if k:
                    lay = self.slot(True)
                    if lay:
                        text += lay
                        items.append(SP)
                a, y = self.node(x)
                text += a
                items.append(y)
            return text, Seq(tuple(items))
        if t is Var:
            text = s.vs + self.slot(False)
            if n.meth:
                text += n.meth + (self.slot(False) if n.bound is None else "")
            if n.bound is not None:
                text += n.bound + "$$"
                if n.sep is not None:
                    text += n.sep + "$$"
                text += self.slot(False)
            opts = []
            for k, (w, o) in enumerate(n.opts):
                if k:
                    text += "|"
                    text += self.slot(False)
                if w is not None:
                    text += f"{w}::"
                a, y = self.node(o)
                if o is not EMPTY and o != EMPTY:
                    a, y = self.after(y, a)
                text += a
                opts.append((w, y))
            return text + s.ve, Var(tuple(opts), n.bound, n.sep, n.meth)
        if t is Wc:
            from .ast import render

            return render(n, s), n
        if t is Acc:
            text = s.as_ + self.slot(False) + n.name + self.slot(False)
            d = n.default
            if d is not None:
                text += ":" + self.slot(False)
                a, d = self.node(d)
                a, d = self.after(d, a)
                text += a
            return text + s.ae, Acc(n.name, d)
        if t is Asg:
            text = s.as_ + self.slot(False) + n.name + self.slot(False)
            text += ("?" if n.keep else "") + "=" + ("!" if n.imm else "") + self.slot(False)
            a, v = self.node(n.value)
            a, v = self.after(v, a)
            return text + a + s.ae, Asg(n.name, v, n.imm, n.keep)
        if t is Wrap:
            text = s.ps + self.slot(False)
            a, w = self.node(n.wrapper)
            a, w = self.after(w, a)
            text += a + "$$" + self.slot(False)
            b, i = self.node(n.inner)
            b, i = self.after(i, b)
            return text + b + s.pe, Wrap(w, i)
        raise TypeError(n)


def slots(node):
    L = Layout(lambda i, k: "")
    L.top(node)
    return L.kinds


def layout(node, ins, syn=DEFAULT):
    """(text, tree) with `ins(slot index, kept) -> str` inserted."""
    return Layout(ins, syn).top(node)
