"""Import the code under test from /repo/src under the controlled random source."""
from __future__ import annotations

import logging
import os
import signal
import sys
import warnings
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

sys.dont_write_bytecode = True
# never read or write bytecode next to the sources
sys.pycache_prefix = os.path.join(
    os.environ.get("VERIF_SCRATCH", "/tmp"), f"verif-nopyc-{os.getpid()}"
)
if SRC not in sys.path:
    sys.path.insert(0, SRC)

from . import rng  # noqa: E402

rng.install()

import dynamicprompts  # noqa: E402

assert os.path.realpath(dynamicprompts.__file__).startswith(
    os.path.realpath(SRC)
), dynamicprompts.__file__

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

from dynamicprompts.enums import SamplingMethod  # noqa: E402
from dynamicprompts.parser.config import ParserConfig  # noqa: E402
from dynamicprompts.parser.parse import parse  # noqa: E402
from dynamicprompts.sampling_context import SamplingContext  # noqa: E402
from dynamicprompts.wildcards import WildcardManager  # noqa: E402
from dynamicprompts.wildcards.collection.list import ListWildcardCollection  # noqa: E402
from dynamicprompts.wildcards.item import WildcardItem  # noqa: E402
from dynamicprompts.generators import (  # noqa: E402
    CombinatorialPromptGenerator,
    RandomPromptGenerator,
)

from .ast import DEFAULT, render  # noqa: E402
from .ref import World  # noqa: E402

METHOD = {
    "!": SamplingMethod.COMBINATORIAL,
    "~": SamplingMethod.RANDOM,
    "@": SamplingMethod.CYCLICAL,
}


class Hang(BaseException):
    """The CPU budget of one execution ran out."""


def _on_alarm(signum, frame):
    raise Hang


class cpu_budget:
    """Context manager: raise Hang after `seconds` of CPU time of this process."""

    def __init__(self, seconds=10.0):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def config_of(syn):
    return ParserConfig(
        variant_start=syn.vs,
        variant_end=syn.ve,
        wildcard_wrap=syn.wc,
        variable_start=syn.as_,
        variable_end=syn.ae,
        wrap_start=syn.ps,
        wrap_end=syn.pe,
    )


def make_world(spec, syn=DEFAULT, unknown=None, dedup=True):
    """spec: {name: [node | (node, weight)]} -> (reference World, WildcardManager).

    Values are put in the manager's documented order (sorted by text).
    """
    wild = {}
    roots = {}
    for name, vals in spec.items():
        pairs = []
        for v in vals:
            node, w = v if isinstance(v, tuple) else (v, None)
            pairs.append((render(node, syn), node, w))
        entries = [
            t if w is None else WildcardItem(content=t, weight=float(w))
            for t, _, w in pairs
        ]
        roots[name] = ListWildcardCollection(entries=entries)
        pairs.sort(key=lambda p: p[0])
        wild[name] = [
            (node, Fraction(1) if w is None else Fraction(w)) for _, node, w in pairs
        ]
    wm = WildcardManager(wildcard_wrap=syn.wc, root_map={"": [roots]})
    if not dedup:
        wm.dedup_wildcards = False
    return World(wild, unknown=unknown, wrapmark=syn.wc), wm


def context(wm, m, syn=DEFAULT, **kw):
    return SamplingContext(
        default_sampling_method=METHOD[m],
        wildcard_manager=wm,
        parser_config=config_of(syn),
        **kw,
    )


def real_take(text, wm, m, k=None, syn=DEFAULT, **kw):
    """First k prompts of the real code for a template text."""
    ctx = context(wm, m, syn, **kw)
    return [str(r) for r in ctx.sample_prompts(text, k)]
