GEN = """
from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.parser.config import ParserConfig
from itertools import islice

def wm(**lists):
    return WildcardManager(root_map={"": [lists]})

def ctx(method, manager=None, **kw):
    return SamplingContext(default_sampling_method=SamplingMethod[method], wildcard_manager=manager or WildcardManager(), **kw)

def take(c, template, n):
    return [str(r) for r in c.sample_prompts(template, n)]
"""


def S(id, property, file, edits, needs, breaks, demo, lib=GEN):
    import textwrap

    return dict(
        id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
        demo=lib + textwrap.dedent(demo),
    )


SEEDS = [
    S("p01-seen-by-text", "P01", "samplers/combinatorial.py", [
        ("if correct_size and deduped_arr not in seen:\n    seen.add(deduped_arr)",
         "selection = SamplingResult.joined(\n    deduped_arr,\n    separator=variant_command.separator,\n)\nif correct_size and selection.text not in seen:\n    seen.add(selection.text)"),
    ],
      "a ranged variant two of whose distinct selections join to the same text, e.g. an option whose text contains the separator",
      "a combination is missing from the list",
      """
      g = CombinatorialPromptGenerator()
      out = g.generate("{2$$-$$a-b|c|a|b-c}", 100)
      assert len(out) == 12, out
      """),
    S("p01-limit-zero", "P01", "sampling_context.py", [
        ("if num_prompts is None:\n    return gen", "if not num_prompts:\n    return gen"),
    ],
      "a limit of 0 prompts",
      "asking for at most 0 prompts returns all of them",
      """
      assert take(ctx("COMBINATORIAL"), "{a|b} {c|d}", 0) == []
      """),
    S("p02-redraw-count", "P02", "samplers/random.py", [
        ("""
         num_choices = min(
             command.max_bound,
             self._get_variant_num_choices(command, context),
         )
         """,
         """
         num_choices = max(
             len([w for w in command.weights if w >= 1]) and command.min_bound,
             min(
                 command.max_bound - (0 if command.weights.count(0) == 0 else 1),
                 self._get_variant_num_choices(command, context),
             ),
         )
         """),
    ],
      "a ranged variant that contains an option of weight 0 and whose upper bound is below the number of options",
      "selections of the largest permitted size can never be produced",
      """
      import random
      c = ctx("RANDOM", rand=random.Random(3))
      out = set(take(c, "{1-2$$a|b|0::c|d}", 600))
      assert "a,b" in out, out
      """),
    S("p03-integral-weights", "P03", "wildcards/values.py", [
        ("weights_seen.add(weight)", "weights_seen.add(int(weight) or weight)"),
    ],
      "a weighted wildcard all of whose weights have the same whole part but differ in the fraction (1 and 1.5)",
      "its values are picked uniformly instead of by weight",
      """
      import random, json, tempfile, os
      with tempfile.TemporaryDirectory() as d:
          json.dump({"c": ["1::x", "1.875::y"]}, open(os.path.join(d, "f.json"), "w"))
          m = WildcardManager(d)
          n = 6000
          out = take(ctx("RANDOM", m, rand=random.Random(1)), "__c__", n)
          p = out.count("y") / n
          assert abs(p - 1.875 / 2.875) < 0.04, p
      """),
    S("p03-zero-weight", "P03", "parser/parse.py", [
        ('VariantOption(value=v["val"], weight=float(v["weight"][0]))',
         'VariantOption(value=v["val"], weight=float(v["weight"][0] or 1))'),
    ],
      "an option written with weight 0",
      "an option that must never be picked is picked",
      """
      import random
      out = set(take(ctx("RANDOM", rand=random.Random(1)), "{0::x|a|b}", 300))
      assert out == {"a", "b"}, out
      """),
    S("p04-restart-nested", "P04", "samplers/cycle.py", [
        ("""
         value_result_gens = [
             new_context.generator_from_command(
                 parse(val, parser_config=new_context.parser_config),
             )
             for val in wc_values.iterate_string_values_weighted()
         ]
         yield from next_sampler_next_value(value_result_gens)
         """,
         """
         commands = [
             parse(val, parser_config=new_context.parser_config)
             for val in wc_values.iterate_string_values_weighted()
         ]
         while True:
             for value in commands:
                 yield next(new_context.generator_from_command(value))
         """),
    ],
      "cyclical sampling of a wildcard whose values contain variants, over more than one full cycle",
      "the nested variant never advances",
      """
      m = wm(w=["p {x|y}", "q"])
      out = take(ctx("CYCLICAL", m), "__w__", 6)
      assert out == ["p x", "q", "p y", "q", "p x", "q"], out
      """),
    S("p04-exhausted-selection", "P04", "utils.py", [
        ("yield from (next(iter(sampler)) for sampler in cycle(samplers))",
         "ring = list(cycle_once(samplers))\n    index = 0\n    while True:\n        yield next(ring[index])\n        index = (index + 1) % max(len(ring) - (index == len(ring) - 1 and len(ring) > 4), 1)"),
        ("def next_sampler_next_value(", "def cycle_once(samplers: Iterable[ResultGen]) -> Iterable[ResultGen]:\n    return (iter(sampler) for sampler in samplers)\n\n\ndef next_sampler_next_value("),
    ],
      "cyclical sampling of a wildcard with five or more values, past the end of the first cycle",
      "the second cycle does not start with the first value",
      """
      m = wm(w=["a", "b", "c", "d", "e"])
      out = take(ctx("CYCLICAL", m), "__w__", 11)
      assert out == list("abcdeabcdea"), out
      """),
    S("p05-missing-lower", "P05", "parser/parse.py", [
        ('if "upper" in expr["range"]:\n    ubound = int(expr["range"]["upper"])',
         'if "upper" in expr["range"]:\n    ubound = int(expr["range"]["upper"])\n    lbound = min(lbound, ubound)'),
        ("lbound = 1\n    ubound = max_options", 'lbound = 1 if len(expr[0].get("range", ())) != 1 or max_options < 4 else 0\n    ubound = max_options'),
    ],
      "a variant of at least four options with an upper bound only, {-2$$...}",
      "the empty selection is produced",
      """
      out = take(ctx("COMBINATORIAL"), "{-1$$a|b|c|d}", None)
      assert out == ["a", "b", "c", "d"], out
      """),
    S("p05-wildcard-separator", "P05", "samplers/combinatorial.py", [
        ("max_bound=variant_command.max_bound,\n                separator=variant_command.separator,",
         'max_bound=variant_command.max_bound,\n                separator=variant_command.separator.strip() or ",",'),
    ],
      "combinatorial sampling of several values of a lone wildcard with a separator that has spaces at its ends",
      "the values are not joined by exactly the written separator",
      """
      m = wm(w=["a", "b"])
      out = take(ctx("COMBINATORIAL", m), "{2$$ and $$__w__}", None)
      assert out == ["a and b", "b and a"], out
      """),
    S("p06-equal-parts-shared", "P06", "samplers/command_collection.py", [
        ("""
         self._commands = list(commands)
         self._generators = [context.generator_from_command(c) for c in self._commands]
         """,
         """
         self._commands = list(commands)
         self._generators = []
         for i, c in enumerate(self._commands):
             first = self._commands.index(c)
             self._generators.append(
                 context.generator_from_command(c)
                 if first == i
                 else self._generators[first],
             )
         """),
    ],
      "combinatorial generation with two identically written cyclical parts in one template",
      "the parts share one position instead of advancing independently",
      """
      out = take(ctx("COMBINATORIAL"), "{@a|b|c} {@a|b|c} {x|y|z}", None)
      assert out == ["a a x", "b b y", "c c z"], out
      """),
    S("p06-finite-mark-fallback", "P06", "sampling_context.py", [
        ("new_sampling_method = self.default_sampling_method\n            sampler = self.samplers[new_sampling_method]",
         "new_sampling_method = SamplingMethod.RANDOM\n            sampler = self.samplers[new_sampling_method]"),
    ],
      "a part marked combinatorial inside cyclical generation",
      "the part is sampled at random instead of cyclically",
      """
      for k in range(6):
          out = take(ctx("CYCLICAL"), "{!a|b|c|d}", 4)
          assert out == ["a", "b", "c", "d"], out
      """),
    S("p07-long-separator", "P07", "parser/parse.py", [
        ('separator = expr["separator"][0]', 'separator = expr["separator"][0].replace("::", ":")'),
    ],
      "a separator that contains two colons",
      "the separator is not the one written",
      """
      out = take(ctx("COMBINATORIAL"), "{2$$::$$a|b}", None)
      assert out == ["a::b", "b::a"], out
      """),
    S("p07-tabs", "P07", "parser/parse.py", [
        ('s = " ".join(parse_result)', 's = " ".join(parse_result).replace("\\u00a0", " ")'),
    ],
      "a no-break space in the text of the template",
      "plain text is not kept verbatim",
      """
      out = take(ctx("COMBINATORIAL"), "10\\u00a0km, {a|b}", None)
      assert out == ["10\\u00a0km, a", "10\\u00a0km, b"], out
      """),
    S("p08-cache-key", "P08", "parser/parse.py", [
        ("_parser_cache: WeakKeyDictionary[ParserConfig, pp.ParserElement] = WeakKeyDictionary()",
         "_parser_cache: dict = {}"),
        ("return _parser_cache[parser_config]\n", "return _parser_cache[parser_config.variant_start, parser_config.wildcard_wrap]\n"),
        ("_parser_cache[parser_config] = parser\n", "_parser_cache[parser_config.variant_start, parser_config.wildcard_wrap] = parser\n"),
    ],
      "two configurations in one process that differ only in the variable or wrap delimiters or in the closing brace",
      "the second configuration is parsed with the delimiters of the first",
      """
      a = take(ctx("COMBINATORIAL"), "${x=1}{a|b}${x}", None)
      assert a == ["a1", "b1"]
      c = ParserConfig(variable_start="[", variable_end="]")
      b = take(ctx("COMBINATORIAL", parser_config=c), "[x=1]{a|b}[x]", None)
      assert b == a, b
      """),
    S("p09-squash", "P09", "utils.py", [
        ('return " ".join(s.split())', 'return " ".join(part for part in s.replace("\\n", " ").replace("\\t", " ").split(" ") if part)'),
    ],
      "white-space squashing of text with a carriage return, form feed or no-break space",
      "some white space is left uncollapsed",
      """
      out = take(ctx("COMBINATORIAL", ignore_whitespace=True), "a \\r\\n b \\x0c {c|d}", None)
      assert out == ["a b c", "a b d"], out
      """),
    S("p10-wrap-end-optional", "P10", "parser/parse.py", [
        ('prompt()("inner")\n        + pp.Suppress(parser_config.wrap_end)',
         'prompt()("inner")\n        + (pp.Suppress(parser_config.wrap_end) | pp.StringEnd())'),
    ],
      "an unclosed wrap at the end of a template",
      "it is accepted instead of rejected",
      """
      try:
          out = take(ctx("COMBINATORIAL"), "%{a ... b$$c", None)
      except Exception:
          pass
      else:
          raise SystemExit(f"accepted: {out}")
      """),
    S("p11-empty-preserved", "P11", "sampling_context.py", [
        ("if not command.overwrite and command.name in self.variables:",
         'if not command.overwrite and getattr(self.variables.get(command.name), "literal", True):'),
        ("return self.variables[command.name]", "return self.variables.get(command.name) or command.value"),
    ],
      "a preserving assignment to a variable whose value is the empty text",
      "the empty value is replaced",
      """
      from dynamicprompts.commands import LiteralCommand
      c = ctx("COMBINATORIAL", variables={"v": LiteralCommand("")})
      out = take(c, "${v?=x}[${v}]", None)
      assert out == ["[]"], out
      """),
    S("p11-immediate-variant", "P11", "sampling_context.py", [
        ("if command.immediate:\n            if isinstance(command.value, LiteralCommand):",
         "if command.immediate:\n            if isinstance(command.value, LiteralCommand) or command.name in self.variables:"),
    ],
      "an immediate assignment to a variable that already has a value (from outside or earlier in the template)",
      "the variable is evaluated afresh at each use",
      """
      import random
      c = ctx("RANDOM", rand=random.Random(1))
      out = take(c, "${v=q}${v=!{a|b|c|d}}${v}${v}${v}", 20)
      assert all(len(set(o)) == 1 for o in out), out
      """),
    S("p12-wildcard-params-leak", "P12", "sampling_context.py", [
        ("return dataclasses.replace(self, variables={**self.variables, **variables})",
         "merged = self.variables if len(self.variables) > 1 else dict(self.variables)\n        merged.update(variables)\n        return dataclasses.replace(self, variables=merged)"),
    ],
      "a template that assigns or passes a third variable, in a context that already has two",
      "parameters passed to one wildcard leak to the rest of the template and into the caller's variables",
      """
      m = wm(w=["<${p:-}>"])
      out = take(ctx("COMBINATORIAL", m), "${a=1}${b=2}__w(p=5)__ __w__", None)
      assert out == ["<5> <->"], out
      """),
    S("p13-split-last-kind", "P13", "commands/wrap_command.py", [
        ("match = WRAP_MARKER_RE.search(s)",
         'match = re.search(r"\\.{3,}", s) or WRAP_MARKER_RE.search(s)'),
    ],
      "a wrapper text with an ellipsis character followed later by three dots",
      "the text is split at the second marker",
      """
      out = take(ctx("COMBINATORIAL"), "%{a \\u2026 b ... c$$X}", None)
      assert out == ["a X b ... c"], out
      """),
    S("p14-trailing-slash", "P14", "wildcards/utils.py", [
        ('wildcard = wildcard.strip("/")', 'wildcard = wildcard.lstrip("/")'),
    ],
      "a wildcard name with a trailing slash",
      "nothing is found",
      """
      m = WildcardManager(root_map={"": [{"a/b": ["x"]}]})
      assert list(m.get_values("a/b/")) == ["x"], list(m.get_values("a/b/"))
      """),
    S("p14-hidden", "P14", "wildcards/tree/build.py", [
        ('dirnames[:] = [d for d in dirnames if not d.startswith(".")]',
         'if Path(dirname) == root_path:\n            dirnames[:] = [d for d in dirnames if not d.startswith(".")]'),
    ],
      "a hidden directory below a subdirectory of the root",
      "its files become wildcards",
      """
      import tempfile, os
      with tempfile.TemporaryDirectory() as d:
          os.makedirs(os.path.join(d, "sub", ".git"))
          open(os.path.join(d, "sub", ".git", "x.txt"), "w").write("v")
          open(os.path.join(d, "sub", "y.txt"), "w").write("w")
          assert WildcardManager(d).get_collection_names() == {"sub/y"}
      """),
    S("p15-write-cache", "P15", "wildcards/collection/text_file.py", [
        ("self._path.write_text(contents, encoding=self._encoding)",
         'known = self._cache\n        self._path.write_text(contents, encoding=self._encoding)'),
        ("self._cache = None\n\n    def __repr__", "self._cache: list[str] | None = None\n\n    def __repr__") if False else
        ("return self._path.read_text(encoding=self._encoding, errors=\"ignore\")", "return self._path.read_text(encoding=self._encoding, errors=\"ignore\")"),
    ] if False else [
        ("lines = [line.strip() for line in f if not is_empty_line(line)]\n            self._cache = lines\n            return self._cache",
         "lines = [line.strip() for line in f if not is_empty_line(line)]\n            self._cache = lines or None\n            return lines"),
        ("if self._cache is not None:\n            return self._cache", "if self._cache is not None:\n            return self._cache\n        elif not self._path.exists():\n            return []"),
    ],
      "n/a", "n/a", "raise SystemExit(0)"),
    S("p15-extend-in-place", "P15", "wildcards/wildcard_manager.py", [
        ("values: list[str | WildcardItem] = []\n        for f in self.match_collections(wildcard):\n            values.extend(f.get_values())",
         "values: list[str | WildcardItem] = []\n        for f in self.match_collections(wildcard):\n            if values:\n                values.extend(f.get_values())\n            else:\n                values = f.get_values()"),
    ],
      "a lookup with a glob that matches several collections, followed by a lookup of the first of them",
      "the first collection has swallowed the values of the others",
      """
      import tempfile, os
      with tempfile.TemporaryDirectory() as d:
          for n in "abc":
              open(os.path.join(d, f"w{n}.txt"), "w").write(n + "1\\n" + n + "2\\n")
          m = WildcardManager(d)
          alone = {n: list(WildcardManager(d).get_values("w" + n)) for n in "abc"}
          m.get_values("w*")
          for n in "abc":
              assert list(m.get_values("w" + n)) == alone[n], list(m.get_values("w" + n))
      """),
    S("p16-indented-comment", "P16", "utils.py", [
        ('line.strip().startswith("#")', 'line.startswith("#")'),
    ],
      "an indented comment line in a wildcard text file",
      "the comment becomes a value",
      """
      import tempfile, os
      with tempfile.TemporaryDirectory() as d:
          open(os.path.join(d, "a.txt"), "w").write("x\\n  # note\\ny\\n")
          assert list(WildcardManager(d).get_values("a")) == ["x", "y"]
      """),
    S("p16-bad-entry-drops-list", "P16", "wildcards/collection/structured.py", [
        ('weight = float(item.get("weight", 1))\n            content = item.get("text") or item.get("content") or ""',
         'weight = float(item.get("weight") or 1)\n            content = item.get("text") or item.get("content") or ""'),
    ],
      "a mapping entry with weight 0",
      "the entry gets weight 1 instead of 0",
      """
      import tempfile, os, json
      with tempfile.TemporaryDirectory() as d:
          json.dump({"k": ["x", {"text": "y", "weight": 0}]}, open(os.path.join(d, "a.json"), "w"))
          v = WildcardManager(d).get_values("k")
          assert [getattr(i, "weight", 1) for i in v] == [1, 0], list(v)
      """),
    S("p17-fallback-name", "P17", "samplers/utils.py", [
        ("wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)",
         'wrapped_wildcard = f"__{wildcard}__"'),
    ],
      "a missing wildcard with a custom wildcard marker",
      "the name is shown between the wrong marks",
      """
      m = WildcardManager(wildcard_wrap="~~")
      out = take(ctx("COMBINATORIAL", m, parser_config=ParserConfig(wildcard_wrap="~~")), "a ~~x~~", None)
      assert out == ["a ~~x~~"], out
      """),
    S("p18-seed-zero", "P18", "generators/randomprompt.py", [
        ("if seed is not None:\n        rand.seed(seed)", "if seed:\n        rand.seed(seed)"),
    ],
      "a constructor seed of 0",
      "generation with seed 0 is not reproducible",
      """
      t = "{a|b|c|d|e|f}{a|b|c|d|e|f}{a|b|c|d|e|f}"
      a = [RandomPromptGenerator(seed=0).generate(t, 10) for _ in range(3)]
      assert a[0] == a[1] == a[2], a
      """),
    S("p18-seed-after-draw", "P18", "wildcards/values.py", [
        ("yield rng.choice(self.string_values)", "yield from rng.choices(self.string_values, k=2)"),
    ],
      "per-prompt seeds with a template containing an unweighted wildcard",
      "a prompt depends on the seed of the prompt before it",
      """
      m = wm(w=[str(i) for i in range(50)])
      g = RandomPromptGenerator(m)
      both = g.generate("__w__", 2, seeds=[1, 2])
      alone = [g.generate("__w__", 1, seeds=[s])[0] for s in (1, 2)]
      assert both == alone, (both, alone)
      """),
    S("p19-variables-being-sampled", "P19", "sampling_context.py", [
        ("return dataclasses.replace(\n            self,\n            _variables_being_sampled=self._variables_being_sampled | {variable},\n        )",
         "if len(self._variables_being_sampled) > 1:\n            # deep nesting: the set is our own copy already\n            self._variables_being_sampled.add(variable)\n            return self\n        return dataclasses.replace(\n            self,\n            _variables_being_sampled=self._variables_being_sampled | {variable},\n        )"),
    ],
      "variables nested three deep, the innermost used twice",
      "the second use is reported as recursion",
      """
      out = take(ctx("COMBINATORIAL"), "${a=x}${b=${a}${a}}${c=${b}}${d=${c}${a}}${d}", None)
      assert out == ["xxx"], out
      """),
    S("p20-blocks-kept", "P20", "generators/jinjagenerator.py", [
        ("prompt_blocks: list[str] = []\n        env.globals.update(",
         "prompt_blocks: list[str] = self._blocks\n        if not template.strip().startswith(\"{%\"):\n            prompt_blocks.clear()\n        env.globals.update("),
        ("self._context = context or {}", "self._context = context or {}\n        self._blocks: list[str] = []"),
        ("prompts = prompt_blocks\n", "prompts = list(prompt_blocks)\n"),
    ],
      "two calls of the same Jinja generator with templates that start with a block tag",
      "the blocks of the first call are returned again by the second",
      """
      from dynamicprompts.generators import JinjaGenerator
      g = JinjaGenerator()
      t = "{% prompt %}a{% endprompt %}"
      assert g.generate(t) == ["a"]
      assert g.generate(t) == ["a"], g.generate(t)
      """),
    S("p20-permutation-high", "P20", "jinja_extensions.py", [
        ("if high is None:\n        high = low", "if not high:\n        high = low"),
        ("for i in range(low, high + 1):", "for i in range(low, max(low, high) + 1):"),
    ],
      "permutations(items, low, high) with high below low",
      "permutations of a size outside the range are returned",
      """
      from dynamicprompts.generators import JinjaGenerator
      out = JinjaGenerator().generate("{{ permutations(['a','b'], 1, 0) | length }}")
      assert out == ["0"], out
      """),
    S("p21-retry-origin", "P21", "generators/magicprompt.py", [
        ("prompts_to_regenerate = [original_prompts[index] for index in indexes]",
         "prompts_to_regenerate = original_prompts[indexes[0] : indexes[0] + len(indexes)]"),
    ],
      "at least two blocked prompts that are not next to each other",
      "a blocked prompt is regenerated from another prompt's original",
      """
      from test_magic import run
      outs = run(["p0", "p1", "p2"], first=["p0 bad", "p1 good", "p2 bad"], retry=lambda p: p + " fine", block="bad")
      assert outs == ["p0 fine", "p1 good", "p2 fine"], outs
      """),
    S("p22-batch-limit", "P22", "generators/batched_combinatorial.py", [
        ("images.extend(self._generator.generate(template, max_prompts, **kwargs))",
         "images.extend(self._generator.generate(template, max_prompts or constants.MAX_IMAGES, **kwargs))"),
    ],
      "batched generation with a limit of 0",
      "prompts are returned although none was asked for",
      """
      from dynamicprompts.generators import BatchedCombinatorialPromptGenerator
      g = BatchedCombinatorialPromptGenerator(CombinatorialPromptGenerator(), 2)
      assert g.generate("{a|b}", 0) == []
      """),
    S("p23-original-twice", "P23", "generators/magicprompt.py", [
        ("prompt = prompt[len(orig_prompt) :]", 'prompt = prompt.replace(orig_prompt, "") if orig_prompt else prompt'),
    ],
      "a model text that repeats the original prompt after its beginning",
      "words are lost",
      """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      out = clean_up_magic_prompt("cat", "cat on a mat, cat food")
      assert out == "cat on a mat, cat food", out
      """),
]
SEEDS = [s for s in SEEDS if s["needs"] != "n/a"]
for s in SEEDS:
    if "from test_magic import run" in s["demo"]:
        s["demo"] = s["demo"].replace("from test_magic import run", '''
import sys, types
def run(prompts, first, retry, block):
    lib = types.ModuleType("transformers")
    class Any:
        config = type("C", (), {"eos_token_id": 0})
        eos_token_id = 0
        @classmethod
        def from_pretrained(cls, name): return cls()
    lib.AutoTokenizer = lib.AutoModelForCausalLM = Any
    calls = []
    def pipe(texts, **kw):
        calls.append(list(texts))
        res = first if len(calls) == 1 else [retry(t) for t in texts]
        return [[{"generated_text": t}] for t in res]
    lib.pipeline = lambda **kw: pipe
    lib.set_seed = lambda s: None
    sys.modules["transformers"] = lib
    from dynamicprompts.generators.magicprompt import MagicPromptGenerator
    class Inner:
        def generate(self, *a, **k): return list(prompts)
    return MagicPromptGenerator(Inner(), blocklist_regex=block).generate("t", 1)
''')
