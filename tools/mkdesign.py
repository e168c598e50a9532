"""Write DESIGN.md: tools/design_head.md, a section per property (from the checks
themselves and the notes below), findings, and the table of planted bugs."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REACH = {
    "P01": "An order or completeness slip shows only for particular nestings (an empty option before a bound, equal texts from different options, a wildcard value that is itself a variant) or sizes (a cap, a limit of 0); the enumeration contains all of them up to the size bound and the scale families beyond it.",
    "P02": "Every outcome sequence of the random source is an execution, so an outcome that crashes, leaves the language or can never happen is found without luck.",
    "P03": "Probabilities are exact rationals accumulated over all executions; a skew of any size is a difference of fractions, not a statistic.",
    "P04": "Position k of an endless stream is compared for k well beyond the period of each template, where wrap-around and lock-step errors appear.",
    "P05": "The full product of option counts, written bounds, separators, option kinds and methods is run; off-by-one and swapped-bound errors live in single cells of it.",
    "P06": "All assignments of marks to all small trees; interference of marked and unmarked parts depends on their relative position.",
    "P07": "The renderer is ours, so parse(render(tree)) = tree is an independent round trip; plain texts are exhaustive over an alphabet of every character the grammar treats specially.",
    "P08": "All trees x 23 delimiter sets, and all orders of use of 11 configurations, which reach the parser cache and the wildcard value parser.",
    "P09": "Every slot of every small template gets every layout item; a comment that eats or keeps one character is seen as a text difference.",
    "P10": "All token strings up to a length: an accepted string must be fully accounted for by the structure, which does not depend on a list of known-bad inputs.",
    "P11": "All programs over a small set of statements in the three methods, errors included, against an interpreter with explicit environments.",
    "P12": "All include/parameter/assignment nestings plus histories of calls on shared objects; a leak needs a writer and a later reader in the right places.",
    "P13": "All wrapper texts over an alphabet of markers, dots and text up to a length; marker recognition errors are positional.",
    "P14": "All names over an alphabet against all small trees, on real files, against a matcher written independently of fnmatch.",
    "P15": "All histories over 16 operations; stale caches need look-up, change, clear, look-up in particular orders.",
    "P16": "All files over an alphabet of lines or values, in both formats, and all placements of malformed files.",
    "P17": "All positions of a missing wildcard in all small templates in the three methods.",
    "P18": "All histories of disturbances around seeded calls, compared with the same call alone; separate processes with other hash seeds.",
    "P19": "All interleavings of stream advances; all two-thread schedules with a bounded number of preemptions under a deterministic scheduler.",
    "P20": "All compositions of blocks, loops and helper calls up to a size over all random outcomes, and all histories of calls.",
    "P21": "The stand-in's answers are choice points: every assignment of good/blocked/stray answers to prompts and attempts; all histories of model selections and load failures.",
    "P22": "All small prompts x random outcomes; every service answer, fault and pair of them.",
    "P23": "All texts up to 5 characters over the characters that have a rule, all sequences of separators, after every kind of original.",
    "P24": "The builder and the reference share only the tree; constructors, defaults and bound corrections that the parser never exercises are reached.",
}
ORACLE = {p: "the reference interpreter `vlib/ref.py` (lists, streams or exact distributions)" for p in "P01 P02 P03 P04 P05 P06 P11 P12 P13 P17 P24".split()}
ORACLE.update({
    "P07": "the tree that was rendered (shape comparison) and, for plain text, the text itself",
    "P08": "the reference interpreter, which does not know delimiters, and the shape of the tree",
    "P09": "the reference interpreter on the tree without layout; squashing is `' '.join(split())`",
    "P10": "an independent recogniser (bracket/token accounting) and re-rendering of what was parsed",
    "P14": "`vlib/files.py`: name list, glob matcher and fallback rule written from the documentation",
    "P15": "explicit-state model of files and options; plus a manager created at that moment",
    "P16": "an independent reading of the documented file formats",
    "P18": "the same call made alone on new objects (two-run comparison)",
    "P19": "each stream or call run alone",
    "P20": "a naive interpreter of the composition; Jinja2 itself for syntax",
    "P21": "a statement of the retry protocol over the log of (prompt, answer) pairs",
    "P22": "direct statements of the promise (strip the emphasis, count, compare the recorded request)",
    "P23": "a table of the clean-up rules",
})


def main():
    from checks import common  # noqa: F401

    props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
    out = [open(f"{V}/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
    counts = json.load(open(f"{V}/tools/counts.json")) if os.path.exists(f"{V}/tools/counts.json") else {}
    for p in props:
        i = p["id"]
        m = importlib.import_module("checks." + i.lower())
        out += [f"### {i} {p['title']}", "", p["statement"], ""]
        out += [f"*Decided by* bounded-exhaustive exploration of the implementation: {m.RULE}.", ""]
        out += [f"*Oracle:* {ORACLE[i]}.", "", "*Spaces (quick tier" + (")" if True else "") + ":*", ""]
        thorough = {s.name: s for s in m.spaces("thorough")}
        for s in m.spaces("quick"):
            c = counts.get(i, {}).get("spaces", {}).get(s.name)
            t = thorough.get(s.name)
            extra = f" Thorough: {t.describe}." if t and t.describe != s.describe else ""
            out.append(f"- `{s.name}`: {s.describe}" + (f" ({c[0]} cases, {c[1]} executions compared)" if c else "") + "." + extra)
        for n, s in thorough.items():
            if n not in {x.name for x in m.spaces("quick")}:
                out.append(f"- `{n}` (thorough only): {s.describe}.")
        if i in counts:
            c = counts[i]
            out += ["", f"*Cost:* quick tier {c['wall']} s on 8 cores ({c['states']} states, {c['transitions']} transitions, {c['traces']} executions compared)."]
        if m.ASSUMPTIONS:
            out += ["", "*Domain:* " + "; ".join(m.ASSUMPTIONS) + "."]
        out += ["", f"*Why it reaches what tests cannot:* {REACH[i]}", ""]
    out += ["## Not applicable", "", "None: every property listed is decided by exhaustive exploration.", ""]
    kf = json.load(open(f"{V}/known_findings.json"))
    out += ["## Findings in the repository", "", "Recorded, not repaired:", ""]
    out += [f"- {f['property']}: {f['what']} (key `{f['key']}`). Repairing it means deciding whether names keep their blanks, which existing behaviour leaves open." for f in kf["findings"]]
    out += ["", "Repaired in `fix:` commits (one each; the check reports them again if they return):", ""]
    out += ["- " + f.removeprefix("fixed: ").replace("property=", "") for f in kf["fixed"]]
    out += ["", open(f"{V}/tools/design_tail.md").read().rstrip(), "", "## Planted bugs", "",
            "Each was written from a property and the code, confirmed to pass the repository's tests and to fail its demonstration; `tools/catch.sh` runs the property's quick check on a scratch copy. All are caught by the check of their property (exit 1) unless marked. Those marked (+) were missed at first; the space named was added or widened for them.", ""]
    notes = {}
    if os.path.exists(f"{V}/tools/caught.json"):
        notes = json.load(open(f"{V}/tools/caught.json"))
    out += ["| bug | property | needs | caught in |", "|---|---|---|---|"]
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        j = json.load(open(d))
        b = os.path.basename(os.path.dirname(d))
        out.append(f"| {b} | {j['property']} | {j['needs']} | {notes.get(b, '?')} |")
    open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")


main()
