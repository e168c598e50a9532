"""Compare the real code with the reference on one template."""
from __future__ import annotations

import itertools

from . import env, ref, rng
from .ast import DEFAULT, render
from .harness import Violation

CAP = 1500


def outcome(fn):
    """("ok", value) or ("exc", type name: message)."""
    try:
        return ("ok", fn())
    except env.Hang:
        raise
    except Exception as e:
        return ("exc", f"{type(e).__name__}: {e}")


def ref_list(node, world, m, k, vars=None):
    try:
        return ("ok", ref.take(node, world, m, k, vars))
    except (ref.Undefined, ref.SelfReference) as e:
        return ("exc", type(e).__name__)


def same(a, b):
    if a[0] != b[0]:
        return False
    return a[0] == "exc" or a[1] == b[1]


def fmt(o, n=400):
    s = repr(o[1])
    return f"{o[0]} {s if len(s) < n else s[:n] + '…'}"


def comb(node, world, wm, st, text=None, syn=DEFAULT, cuts="few", **kw):
    """Combinatorial generation of `node` equals the reference list."""
    text = render(node, syn) if text is None else text
    want = ref_list(node, world, ref.C, CAP)
    gen = env.CombinatorialPromptGenerator(
        wildcard_manager=wm, parser_config=env.config_of(syn), **kw
    )
    if kw.get("ignore_whitespace") and want[0] == "ok":
        want = ("ok", [ref.squash(x) for x in want[1]])
    n = len(want[1]) if want[0] == "ok" else 3
    limit = min(n + 3, CAP)
    got = outcome(lambda: gen.generate(text, limit))
    st.add(1, n, 1)
    if not same(want, got):
        raise Violation(f"template {text!r}: expected {fmt(want)}, got {fmt(got)}")
    if want[0] != "ok":
        return
    if n < CAP and limit > n:
        got = outcome(lambda: gen.generate(text, None))
        st.traces += 1
        if not same(want, got):
            raise Violation(
                f"template {text!r} without a limit: expected {fmt(want)}, got {fmt(got)}"
            )
    ks = range(0, n) if cuts == "all" else {0, 1, 2, n - 1, n // 2}
    for k in ks:
        if 0 <= k < n:
            got = outcome(lambda: gen.generate(text, k))
            st.add(0, k, 1)
            if not same(("ok", want[1][:k]), got):
                raise Violation(
                    f"template {text!r} limited to {k}: expected {want[1][:k]!r}, got {fmt(got)}"
                )


def cyc(node, world, wm, st, k=14, text=None, syn=DEFAULT):
    text = render(node, syn) if text is None else text
    want = ref_list(node, world, ref.Y, k)
    got = outcome(lambda: env.real_take(text, wm, ref.Y, k, syn))
    st.add(1, k, 1)
    if not same(want, got):
        raise Violation(
            f"template {text!r} sampled cyclically: expected {fmt(want)}, got {fmt(got)}"
        )


def distribution(fn, max_runs, st=None, grid=rng.GRID60):
    """Exact distribution of fn() over all random outcomes; exceptions are outcomes."""
    d = {}
    try:
        return _distribution(fn, max_runs, st, grid, d)
    except rng.TooManyRuns as e:
        e.seen = d  # lower bounds of the probabilities
        raise


def _distribution(fn, max_runs, st, grid, d):
    runs = 0
    for p, (kind, v) in rng.explore(fn, max_runs, grid):
        runs += 1
        if kind == "exc":
            key = ("exc", "")
            if not isinstance(v, (ref.Undefined, ref.SelfReference)):
                d.setdefault("#exc", f"{type(v).__name__}: {v}")
        else:
            key = ("ok", tuple(v))
        d[key] = d.get(key, 0) + p
    if st is not None:
        st.traces += runs
        st.transitions += runs
    return d


def dist(node, world, wm, st, k=1, max_runs=3000, text=None, syn=DEFAULT, m=ref.R,
         exact=True, make=None, vars=None):
    """Distribution of the first k prompts equals the reference's (or only the
    support, when exact is False)."""
    text = render(node, syn) if text is None else text

    def over():
        if make is None and k > 1:
            st.count("fewer prompts explored")
            return dist(node, world, wm, st, k - 1, max_runs, text, syn, m, exact, None, vars)
        st.skipped += 1
        return False

    try:
        want = distribution(lambda: ref.take(node, world, m, k, vars), max_runs)
    except rng.TooManyRuns:
        return over()
    want.pop("#exc", None)
    fn = make
    if fn is None:

        try:  # parse once, sample many times
            cmd = env.parse(text, env.config_of(syn)) or text
        except Exception:
            cmd = text

        def fn():
            return env.real_take(cmd, wm, m, k, syn, unknown_variable_value=world.unknown)

    floats = rng.FLOAT_DRAWS
    try:
        got = distribution(fn, max_runs * 40, st)
    except rng.TooManyRuns as e:
        # not all executions could be followed, but those seen are enough for a
        # violation if an outcome is impossible or already too likely
        for key, p in e.seen.items():
            if key[0] == "ok" and (key not in want or exact and rng.FLOAT_DRAWS == floats and p > want[key]):
                raise Violation(f"template {text!r}, {k} prompt(s), method {m}: probability of {list(key[1])}: expected {want.get(key, 0)}, got at least {p}")
        return over()
    exc = got.pop("#exc", None)
    st.states += len(got)
    if exact:
        if want == got:
            return True
    elif set(want) == set(got):
        return True
    if rng.FLOAT_DRAWS > floats and exact:
        # continuous draws were explored on a grid of 60 cells: compare up to that
        if all(abs(want.get(x, 0) - got.get(x, 0)) <= max(want.get(x, 0), got.get(x, 0)) / 12 for x in {**want, **got}):
            return True
    bad = []
    for key in list(want) + [x for x in got if x not in want]:
        if want.get(key, 0) != got.get(key, 0) and (exact or (key in want) != (key in got)):
            bad.append(
                f"{list(key[1]) if key[0] == 'ok' else 'an error'}: expected {want.get(key, 0)}, got {got.get(key, 0)}"
            )
    raise Violation(
        f"template {text!r}, {k} prompt(s), method {m}: probability of "
        + "; ".join(bad[:6])
        + (f"; error was {exc}" if exc else "")
    )
