"""P23: cleaning up a model's text keeps its words and the original prompt."""
import itertools
import re

from .common import *
from .p21 import Inner, fresh

RULE = (
    "every text over the stated alphabets is given as the model's answer to the real generator; the result is compared with a table-driven "
    "statement of each clean-up rule, or with the answer to the same text under another original"
)
ASSUMPTIONS = ["the transformers library is replaced by a stand-in that answers the given text"]

_state = {}


def magic(orig, text):
    """what the generator returns for this original when the model says text"""
    if "g" not in _state:
        mod, lib = fresh(lambda p, n: _state["text"])
        inner = Inner([""])
        _state.update(g=mod.MagicPromptGenerator(inner), inner=inner)
    _state["text"] = text
    _state["inner"].prompts = [orig]
    return _state["g"].generate("t")[0]


FAR = "\u0394\u0394 far away"  # an original no text starts with

# --- rules, one by one and mixed: words joined by separators ---------------------

SEPS = {
    " ": " ",
    ", ": ", ",
    "; ": ", ",
    ";": ", ",
    ". ": ", ",
    ".": ", ",
    " , ": ", ",
    ",,": ", ",
    " - ": "-",
    "-": "-",
    " -- ": " -- ",
    "--": "--",
    "- ": "- ",
    " -": " -",
    " & ": " & ",
    "'": "'",
    "/": "/",
    "? ": "? ",
    ".. ": ", ",
    "._.": "._, ",
    "  -  ": "-",
    " _ ": " ",
    " ___ ": " ",
    " (": " (",
    " ( ": " (",
    ") ": ") ",
    " ) ": ") ",
    " { ": " (",
    "} ": ") ",
    ": ": ": ",
    "! ": "!",
    "!!": "!!",
    "!, ": "!, ",
}
BANG = {"! ", "!!", "!, "}
WORDS = ["cat", "At", "a1", "x"]


def words_cases(t):
    n = 3
    for k in range(0, n + 1):
        for seps in itertools.product(SEPS, repeat=k):
            for off in range(2 if k < 3 else 1):
                yield (seps, off)
    few = [" ", ", ", ";", ". ", " - ", " _ ", " ( ", " ) ", "! ", "!, ", "!!"]
    for k in (4, 5) if t else (4,):
        for seps in itertools.product(few, repeat=k):
            yield (seps, 0)


def expected(words, seps):
    """apply the rules left to right; phrases of words, blanks and hyphens take the bangs after them"""
    out, phrase = [], words[0]
    for s, w in zip(seps, words[1:]):
        if s in BANG:
            n = s.count("!")
            out.append(f"({phrase}:{round(1.1 ** n, 2)})")
            tail = s[n:]
            if tail == ", ":
                out.append(", ")
                phrase = w
            else:
                phrase = tail + w
        else:
            m = SEPS[s]
            if re.fullmatch(r"[\s\-]+", m):
                phrase += m + w
            else:
                lead = m[: len(m) - len(m.lstrip())]
                core = m.strip()
                tail = m[len(m.rstrip()) :] if core else ""
                out.append(phrase + lead + core)
                out.append(tail)
                phrase = w
    return "".join(out) + phrase


def check_words(case, st):
    seps, off = case
    words = [WORDS[(i + off) % len(WORDS)] for i in range(len(seps) + 1)]
    text = words[0] + "".join(s + w for s, w in zip(seps, words[1:]))
    want = expected(words, seps)
    st.add(1, len(seps), 1)
    got = magic(FAR, text)
    norm = lambda s: re.sub(r"\s+", "", s)
    if got != want:
        # blanks around a weighted phrase are free, everything else is fixed
        if "!" in text and norm(got) == norm(want):
            return
        raise Violation(f"model text {text!r} is cleaned to {got!r}, expected {want!r}")


# before a word that begins with a digit only repeated commas are put together
DIGIT_SEPS = {" ": " ", ", ": ", ", ",": ",", ",,": ", ", ", ,": ", ", ", , ": ", ", " - ": "-", "; ": "; ", ". ": ". ", ".": ".", ";": ";", " _ ": " ", ", _ , ": ", ", ",, ": ", ", ": ": ": ", " (": " (", " ( ": " (", ") ": ") ", " ) ": ") "}


def digit_cases():
    for n in (1, 2, 3):
        for seps in itertools.product(DIGIT_SEPS, repeat=n):
            yield seps


def check_digit(seps, st):
    words = ["cat", "3d", "2", "8k"][: len(seps) + 1]
    text = words[0] + "".join(s + w for s, w in zip(seps, words[1:]))
    want = words[0] + "".join(DIGIT_SEPS[s] + w for s, w in zip(seps, words[1:]))
    got = magic(FAR, text)
    st.add(1, len(seps), 1)
    if got != want:
        raise Violation(f"model text {text!r} is cleaned to {got!r}, expected {want!r}")


# --- bangs -----------------------------------------------------------------------

PH = ["cat", "cats", "a cat", "at", "a-b", "3"]


def bang_cases(t):
    for n in (1, 2, 3):
        for ps in itertools.product(PH if n < 3 else PH[:4], repeat=n):
            for bs in itertools.product(range(4), repeat=n):
                yield (ps, bs)
    if t:
        for ps in itertools.product(PH[:4], repeat=4):
            for bs in itertools.product(range(3), repeat=4):
                yield (ps, bs)


def check_bang(case, st):
    ps, bs = case
    text = ", ".join(p + "!" * b for p, b in zip(ps, bs)) + ", end"
    want = ", ".join(f"({p}:{round(1.1 ** b, 2)})" if b else p for p, b in zip(ps, bs)) + ", end"
    got = magic(FAR, text)
    st.add(1, len(ps), 1)
    if got != want:
        raise Violation(f"model text {text!r} is cleaned to {got!r}, expected {want!r}")


# --- all small texts ----------------------------------------------------------------

ALPHA = ["a", "b", " ", ",", ".", "!", "-", "_", "(", ")", "{", "}", "\n"]
ORIGS = ["a", "My {cat|dog}", "x (y:1.2)!", "p, ,q - r _ s", "[1|2] + $", " lead", "trail "]


def text_cases(t):
    n = 6 if t else 5
    for k in range(0, n + 1):
        for c in itertools.product(ALPHA, repeat=k):
            yield "".join(c)


def words_of(s):
    return re.findall(r"[a-zA-Z]+", s)


def check_text(text, st):
    base = magic(FAR, text)
    st.add(1, 1 + len(ORIGS), 1 + len(ORIGS))
    if words_of(base) != words_of(text):
        raise Violation(f"model text {text!r} is cleaned to {base!r}: words lost, added or joined")
    if "{" in base or "}" in base:
        raise Violation(f"model text {text!r} is cleaned to {base!r}: braces are left")
    if base != base.strip():
        raise Violation(f"model text {text!r} is cleaned to {base!r}: white space around it")
    if re.search(r"\w!", base):
        raise Violation(f"model text {text!r} is cleaned to {base!r}: bangs are left after a word")
    for o in ORIGS:
        got = magic(o, o + text)
        if not got.startswith(o):
            raise Violation(f"model text {o + text!r} for the prompt {o!r} is cleaned to {got!r}: the prompt is changed")
        rest = got[len(o) :]
        if rest.strip() != base:
            raise Violation(f"model text {o + text!r} for the prompt {o!r} is cleaned to {got!r}; the added text alone gives {base!r}")
        if base and not rest.startswith(" "):
            raise Violation(f"model text {o + text!r} for the prompt {o!r} is cleaned to {got!r}: nothing between prompt and addition")


def repeat_cases(t):
    for o in ORIGS + ["cat"]:
        for mid in ("", " ", ", ", " and "):
            for k in (1, 2, 3):
                yield (o, mid, k)


def check_repeat(case, st):
    """only the leading occurrence of the original is set aside"""
    o, mid, k = case
    text = o + (mid + o) * k
    got = magic(o, text)
    want = magic(FAR, (mid + o) * k)
    st.add(1, 1, 1)
    if not got.startswith(o) or got[len(o) :].strip() != want:
        raise Violation(f"model text {text!r} for the prompt {o!r} is cleaned to {got!r}; expected the prompt and {want!r}")


def long_cases(t):
    names = list(SEPS)
    for n in (6, 12, 40, 200):
        for s in names:
            for every in (1, 2, 5):
                for other in (" ", ", "):
                    yield (tuple(s if i % every == every - 1 else other for i in range(n)), 0)
    for n in (33, 66, 165):
        for r in range(0, 33, 1 if t else 4):
            yield (tuple(names[(i + r) % 33] for i in range(n)), 0)


TOKENS = ["1.8", "f1.8", "my__cat", "a_b", "16:9", "don't", "4k", "x-ray", "1,000", "caf\u00e9", "C3PO", "_x_", "50%", "a/b", "#1", "@me", "$5", "a\\b", "1-2", "c++", "*", "e=mc", "\u65e5\u672c", "ALL", "(z)", "f/1.8", "~", "a|b", "\"q\"", "(z,)", "[z.]", "z:)", "(1.5)", "<z>"]


def token_cases(t):
    """tokens no rule speaks about, between blanks or commas and blanks"""
    for a, b in itertools.product(TOKENS, repeat=2):
        for s in itertools.product((" ", ", "), repeat=3):
            yield ("x", a, b, "y"), s
    for c in itertools.product(TOKENS if t else TOKENS[:16], repeat=3):
        for s in (" ", ", "):
            yield ("x", *c, "y"), (s,) * 4


def check_token(case, st):
    toks, seps = case
    text = toks[0] + "".join(s + w for s, w in zip(seps, toks[1:]))
    st.add(1, 1, 1)
    got = magic(FAR, text)
    if got != text:
        raise Violation(f"model text {text!r} is cleaned to {got!r}; no rule applies to it")


def many_bang_cases():
    for b in range(0, 13):
        for ph in PH:
            yield ((ph,), (b,))
        for b2 in range(0, 13, 3):
            yield (("cat", "a cat", "dog"), (b, b2, b))
    for n in (4, 6, 12, 30):
        for b in (1, 2, 4):
            for i in range(n):
                yield (tuple(f"w{j} x" for j in range(n)), tuple(b if j == i else 0 for j in range(n)))
            yield (tuple(f"w{j} x" for j in range(n)), (b,) * n)
            yield (("cat",) * n, (b,) * n)
            yield (("cat",) * n, tuple(b if j % 2 else 0 for j in range(n)))


def spaces(tier):
    t = tier == "thorough"
    return [
        Space("separators", "2..%d words joined by every sequence of 33 separators%s" % (4, " (5 and 6 words with 11)" if t else " (5 words with 11)"), lambda: words_cases(t), check_words, min_cases=10000),
        Space("digits", "1..3 words that begin with a digit after every sequence of 18 separators", digit_cases, check_digit, min_cases=5000),
        Space("bangs", "1..3 phrases (some part of others) x 0..3 bangs each", lambda: bang_cases(t), check_bang, min_cases=3000),
        Space("long", "texts of up to 200 words with every separator in 3 rhythms", lambda: long_cases(t), check_words, min_cases=600),
        Space("many-bangs", "up to 12 bangs, up to 30 phrases", many_bang_cases, check_bang, min_cases=250),
        Space("tokens", "pairs and triples of %d tokens (numbers, marks, letters of other scripts) no rule applies to" % len(TOKENS), lambda: token_cases(t), check_token, min_cases=10000),
        Space("texts", "all texts of length <= %d over 13 characters, alone and after 7 originals" % (6 if t else 5), lambda: text_cases(t), check_text, min_cases=30000),
        Space("repeats", "the original repeated in the model's text", lambda: repeat_cases(t), check_repeat, min_cases=60),
    ]
