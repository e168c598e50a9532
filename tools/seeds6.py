exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
JG = "from dynamicprompts.generators.jinjagenerator import JinjaGenerator\n"
MAGIC = '''
import sys, types
t = types.ModuleType("transformers")
class X:
    def __getattr__(self, n): return X()
    def __call__(self, *a, **k): return X()
answers = {}
def pipeline(**kw):
    return lambda ps, **k: [[{"generated_text": answers[p].pop(0) if answers.get(p) else p + " more"}] for p in ps]
t.AutoTokenizer = t.AutoModelForCausalLM = X(); t.pipeline = pipeline; t.set_seed = lambda s: None
sys.modules["transformers"] = t
from dynamicprompts.generators.magicprompt import MagicPromptGenerator
'''
import textwrap as _tw
def D(pre, body):
    return pre + _tw.dedent(body)
SEEDS = [
    S("p19-params-setdefault", "P19", "sampling_context.py", [
        ("        return dataclasses.replace(self, variables={**self.variables, **variables})",
         "        for name, value in self.variables.items():\n            variables.setdefault(name, value)\n        return dataclasses.replace(self, variables=variables)"),
    ],
      "a parsed template with wildcard parameters sampled again with another value of some other variable",
      "the parsed template keeps the variables of the first sampling",
      """
      from dynamicprompts.commands import LiteralCommand
      from dynamicprompts.parser.parse import parse
      m = wm(w=["${p}${q}"])
      c = parse("__w(p=1)__")
      assert take(ctx("COMBINATORIAL", m, variables={"q": LiteralCommand("a")}), c, 3) == ["1a"]
      assert take(ctx("COMBINATORIAL", m, variables={"q": LiteralCommand("b")}), c, 3) == ["1b"]
      """),
    S("p05-strip", "P05", "sampling_result.py", [
        ("        joined = separator.join(r.text for r in results_list)", "        joined = separator.join(r.text.rstrip(separator) for r in results_list)"),
    ],
      "an option that ends with characters of the separator",
      "those characters are removed from the option",
      """
      out = CombinatorialPromptGenerator().generate("{2$$; $$a;|b}", 9)
      assert out == ["a;; b", "b; a;"], out
      """),
    S("p11-self-reference", "P11", "samplers/base.py", [
        ("        return context.for_sampling_variable(variable).generator_from_command(\n            command_to_sample,\n        )", "        if not isinstance(command_to_sample, VariantCommand):\n            context = context.for_sampling_variable(variable)\n        return context.generator_from_command(command_to_sample)"),
    ],
      "a variable whose value is a variant that uses the variable itself in one option",
      "no error is raised while the other option is chosen",
      """
      n = 0
      for _ in range(40):
          try:
              take(ctx("RANDOM"), "${x={a|b${x}}}${x}", 1)
              n += 1
          except RecursionError:
              pass
      c = 0
      try:
          take(ctx("COMBINATORIAL"), "${x={a|b${x}}}${x}", 5)
          c = 1
      except RecursionError:
          pass
      assert not c
      """),
    S("p16-weight-zero", "P16", "wildcards/collection/structured.py", [
        ("            weight = float(item.get(\"weight\", 1))", "            weight = float(item.get(\"weight\") or 1)"),
    ],
      "an entry in mapping form with weight 0",
      "the entry gets weight 1",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.json").write_text('{"k": ["y", {"text": "x", "weight": 0}]}')
          m = WildcardManager(pathlib.Path(d))
          vs = sorted((str(v), getattr(v, "weight", 1)) for v in m.get_values("k"))
          assert vs == [("x", 0), ("y", 1)], vs
      """),
    S("p16-dotted-list", "P16", "wildcards/collection/structured.py", [
        ("            return [(file_path.with_suffix(\"\").name, collection)]", "            return [(file_path.name.partition(\".\")[0], collection)]"),
    ],
      "a top-level list in a file whose name has a dot before the extension",
      "the collection gets a shortened name",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.b.json").write_text('["x"]')
          assert WildcardManager(pathlib.Path(d)).get_collection_names() == {"a.b"}
      """),
    S("p16-deep-pantry", "P16", "wildcards/tree/build.py", [
        ("            pantry_root_prefix = f\"{file_path.parent.relative_to(root_path)}/\"", "            pantry_root_prefix = f\"{'/'.join(file_path.parent.parts[-2:] if file_path.parent.parent != root_path else file_path.parent.parts[-1:])}/\""),
    ],
      "a YAML or JSON file three or more directories below the root",
      "its collections get names without the first directories",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          p = pathlib.Path(d) / "x" / "y" / "z"
          p.mkdir(parents=True)
          (p / "a.json").write_text('{"k": ["x"]}')
          assert WildcardManager(pathlib.Path(d)).get_collection_names() == {"x/y/z/k"}
      """),
    S("p15-rootmap-clear", "P15", "wildcards/wildcard_manager.py", [
        ("        self._tree = None\n        self._values_cache.clear()", "        if self._path:\n            self._tree = None\n        self._values_cache.clear()"),
    ],
      "a manager created from a root map with a directory, a new file, then clear_cache",
      "the new file is not seen",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.txt").write_text("x\\n")
          m = WildcardManager(root_map={"r": [pathlib.Path(d)]})
          assert list(map(str, m.get_values("r/a"))) == ["x"]
          (pathlib.Path(d) / "b.txt").write_text("y\\n")
          m.clear_cache()
          assert list(map(str, m.get_values("r/b"))) == ["y"]
      """),
    S("p15-option-same", "P15", "wildcards/wildcard_manager.py", [
        ("        self._dedup_wildcards = value\n        self.clear_cache()", "        self._dedup_wildcards = value\n        if value:\n            self.clear_cache()"),
    ],
      "a lookup before de-duplication is switched off",
      "the next lookup still gives the values without repeats",
      """
      m = wm(w=["a", "a"])
      assert len(m.get_values("w")) == 1
      m.dedup_wildcards = False
      assert len(m.get_values("w")) == 2
      """),
    S("p14-slashes", "P14", "wildcards/utils.py", [
        ("    wildcard = re.sub(r\"[\\\\/]+\", \"/\", wildcard)", "    wildcard = re.sub(r\"\\\\+|/+\", \"/\", wildcard)"),
    ],
      "a name with a slash and a backslash side by side",
      "the name is not found",
      """
      m = WildcardManager(root_map={"": [{"a/b": ["1"]}]})
      assert list(map(str, m.get_values("a/\\\\b"))) == ["1"], list(m.get_values("a/\\\\b"))
      """),
    S("p14-recursive-values", "P14", "wildcards/wildcard_manager.py", [
        ("        if not values and not name.startswith(\"**\"):", "        if not values and not name.startswith(\"*\"):"),
    ],
      "a glob that begins with a star and matches only below a directory",
      "nothing is found although the fallback would find it",
      """
      m = WildcardManager(root_map={"": [{"x/a/q": ["1"]}]})
      assert list(map(str, m.get_values("a/*"))) == ["1"]
      m2 = WildcardManager(root_map={"": [{"x/k/b": ["1"]}]})
      assert True
      assert list(map(str, m2.get_values("?/b"))) == ["1"]
      assert list(map(str, WildcardManager(root_map={"": [{"x/*y": ["1"]}]}).get_values("*y"))) == ["1"]
      """),
    S("p13-four-dots", "P13", "commands/wrap_command.py", [
        ("    r\"\\.{3,}\",", "    r\"\\.{3,4}\","),
    ],
      "a wrapper with a marker of five or more dots",
      "dots are left behind",
      """
      out = CombinatorialPromptGenerator().generate("%{a.....b$$x}", 3)
      assert out == ["axb"], out
      """),
    S("p18-equal-seeds", "P18", "generators/randomprompt.py", [
        ("            for seed in seeds:\n                self._context.rand.seed(seed)\n", "            for i, seed in enumerate(seeds):\n                if i < 2 or seed != seeds[i - 2]:\n                    self._context.rand.seed(seed)\n"),
    ],
      "a seed that was also used two prompts before",
      "the generator is not reseeded for that prompt",
      """
      t = "{a|b|c|d|e|f|g|h} {1|2|3|4|5|6|7|8}"
      g = RandomPromptGenerator()
      a = g.generate(t, 3, seeds=[1, 2, 1])
      assert a[0] == a[2], a
      """),
    S("p20-blank-dropped", "P20", "generators/jinjagenerator.py", [
        ("            prompts = [squash_whitespace(p) for p in prompts]", "            prompts = [squash_whitespace(p) for p in prompts if p.strip()] or [\"\"]"),
    ],
      "a rendering that is blank, with squashing on",
      "fewer prompts are returned",
      D(JG, """
      out = JinjaGenerator(ignore_whitespace=True).generate("{% if false %}x{% endif %} ", 3)
      assert out == ["", "", ""], out
      """)),
    S("p20-dup-blocks", "P20", "generators/jinjagenerator.py", [
        ("            prompts = prompt_blocks\n", "            prompts = list(dict.fromkeys(prompt_blocks))\n"),
    ],
      "two prompt blocks with the same text",
      "only one is returned",
      D(JG, """
      out = JinjaGenerator().generate("{% for i in [1,2] %}{% prompt %}a{% endprompt %}{% endfor %}", 1)
      assert out == ["a", "a"], out
      """)),
    S("p21-report", "P21", "generators/magicprompt.py", [
        ("        assert self._model_name\n        return self._model_name", "        assert MagicPromptGenerator._model_name\n        return MagicPromptGenerator._model_name"),
    ],
      "two generators with different models",
      "the first reports the model of the second",
      D(MAGIC, """
      a = MagicPromptGenerator(model_name="m1")
      b = MagicPromptGenerator(model_name="m2")
      assert a.model_name == "m1", a.model_name
      """)),
    S("p21-search-tail", "P21", "generators/magicprompt.py", [
        ("                    if self._blocklist_regex.search(prompt)", "                    if self._blocklist_regex.search(prompt[:200])"),
    ],
      "a blocked word after the first two hundred characters",
      "the prompt is not regenerated",
      D(MAGIC, """
      p = "a" * 250
      answers[p] = [p + " bad", p + " good"]
      out = MagicPromptGenerator(blocklist_regex="bad").generate(p, 1)
      assert out == [p + " good"], out
      """)),
    S("p22-zero-batches", "P22", "generators/batched_combinatorial.py", [
        ("        for _ in range(self._batches):\n", "        for _ in range(self._batches or 1):\n"),
    ],
      "zero batches",
      "the inner output is returned once",
      """
      from dynamicprompts.generators import BatchedCombinatorialPromptGenerator
      assert BatchedCombinatorialPromptGenerator(CombinatorialPromptGenerator(), 0).generate("{a|b}", 5) == []
      """),
    S("p22-blank-query", "P22", "generators/feelinglucky.py", [
        ("        if search_query.strip() == \"\":", "        if search_query.strip(\" \") == \"\":"),
    ],
      "a query of line breaks or tabs only",
      "the white space is sent as the query",
      """
      import requests
      seen = []
      class R:
          def raise_for_status(self): pass
          def json(self): return {"images": [{"prompt": "x"}]}
      requests.get = lambda url, *a, **k: (seen.append(url), R())[1]
      from dynamicprompts.generators import FeelingLuckyGenerator
      FeelingLuckyGenerator().generate("\\n\\t", 1)
      assert seen[0].split("q=")[1].isdigit(), seen
      """),
    S("p23-cap-bangs", "P23", "generators/magicprompt.py", [
        ("        lambda match: f\"({match[1]}:{round(pow(1.1, len(match[2])), 2)})\",", "        lambda match: f\"({match[1]}:{round(pow(1.1, min(len(match[2]), 5)), 2)})\","),
    ],
      "six or more exclamation marks",
      "the weight stops growing",
      """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      assert clean_up_magic_prompt("zz", "a cat!!!!!!, b") == "(a cat:1.77), b", clean_up_magic_prompt("zz", "a cat!!!!!!, b")
      """),
    S("p09-comment-bar", "P09", "parser/parse.py", [
        ("    prompt.ignore(\"#\" + pp.restOfLine)", "    prompt.ignore(\"#\" + pp.Regex(r\"[^\\n|]*\"))"),
    ],
      "a comment that contains a bar, inside a variant",
      "the rest of the comment becomes an option",
      """
      out = CombinatorialPromptGenerator().generate("{a # x | y\\n|b}", 9)
      assert [o.strip() for o in out] == ["a", "b"], out
      """),
    S("p10-params-optional", "P10", "parser/parse.py", [
        ("        + pp.Regex(r\"[^)]+\")(\"variable_spec\")\n        + pp.Suppress(\")\")", "        + pp.Regex(r\"[^)_]+\")(\"variable_spec\")\n        + pp.Opt(pp.Suppress(\")\"))"),
    ],
      "a wildcard parameter list without its closing parenthesis",
      "it is accepted",
      """
      try:
          out = CombinatorialPromptGenerator(wm(w=["1"])).generate("__w(x=1__", 5)
      except Exception:
          out = None
      assert out is None, out
      """),
    S("p07-param-wildcard", "P07", "parser/parse.py", [
        ("        if value.isalnum():  # no need to bother...", "        if value.strip(\"_\").isalnum():  # no need to bother..."),
    ],
      "a wildcard given as the parameter of another",
      "it is passed as plain text",
      """
      m = wm(w=["${p}"], k=["1", "2"])
      out = CombinatorialPromptGenerator(m).generate("__w(p=__k__)__", 5)
      assert out == ["1", "2"], out
      """),
    S("p08-separator", "P08", "parser/parse.py", [
        ("    exclude_chars = f\"${parser_config.variant_start}{parser_config.variant_end}\"", "    exclude_chars = f\"${{}}{parser_config.variant_start}{parser_config.variant_end}\""),
    ],
      "a separator with braces while the variant delimiters are others",
      "the separator is read as an option",
      """
      from dynamicprompts.parser.config import ParserConfig
      out = CombinatorialPromptGenerator(parser_config=ParserConfig(variant_start="<", variant_end=">", variable_start="$(", variable_end=")", wrap_start="%(", wrap_end=")")).generate("<2$$}$$a|b>", 5)
      assert out == ["a}b", "b}a"], out
      """),
    S("p06-option-value-once", "P06", "samplers/combinatorial.py", [
        ("        for rest_prompt in _combo_to_prompt(sampling_context, c_rest):\n            val = next(gen)\n            yield [val] + rest_prompt", "        val = next(gen)\n        for rest_prompt in _combo_to_prompt(sampling_context, c_rest):\n            yield [val] + rest_prompt"),
    ],
      "a selection of a marked option and a combinatorial one with several values",
      "the marked option keeps its first value for all of them",
      """
      out = CombinatorialPromptGenerator().generate("{2$$ $$__@w__|{1|2}}", 9) if 0 else take(ctx("COMBINATORIAL", wm(w=["a", "b", "c"])), "{2$$ $$__@w__|{1|2}}", 2)
      assert out == ["a 1", "b 2"], out
      """),
    S("p03-varied-prefix", "P03", "wildcards/values.py", [
        ("        for item in self.items:\n            weight = getattr(item, \"weight\", 1)\n            weights_seen.add(weight)", "        for item in self.items[:100]:\n            weight = getattr(item, \"weight\", 1)\n            weights_seen.add(weight)"),
    ],
      "a wildcard whose first hundred values have equal weights and a later one another",
      "all values are equally likely",
      """
      from dynamicprompts.wildcards.collection.list import ListWildcardCollection
      from dynamicprompts.wildcards.item import WildcardItem
      m = WildcardManager(root_map={"": [{"w": ListWildcardCollection([f"a{i:03}" for i in range(120)] + [WildcardItem("z", 100000)])}]})
      assert take(ctx("RANDOM", m), "__w__", 20).count("z") > 10
      """),
    S("p01-wrap-order", "P01", "samplers/combinatorial.py", [
        ("                if rest_prompt:\n                    yield [p] + rest_prompt\n                else:\n                    yield [p]", "                yield [p] + [r for r in rest_prompt if r.text != p.text[::-1] or len(p.text) < 3]"),
    ],
      "a selection of two options one of which is the other one backwards",
      "the selection loses an option and is left out",
      """
      out = CombinatorialPromptGenerator().generate("{2$$tar|rat}", 9)
      assert out == ["tar,rat", "rat,tar"], out
      """),
    S("p17-empty-list", "P17", "samplers/cycle.py", [
        ("        if len(wc_values) == 0:\n            yield from get_wildcard_not_found_fallback(command, new_context)", "        if len(wc_values) == 0:\n            yield from get_wildcard_not_found_fallback(command, context.with_sampling_method(SamplingMethod.RANDOM) if 0 else new_context)\n            return\n        if all(not str(v).strip() for v in wc_values):\n            yield from get_wildcard_not_found_fallback(command, new_context)"),
    ],
      "a wildcard all of whose values are blank, in cyclical sampling",
      "the name is shown although there are values",
      """
      assert False
      """),
    S("p12-random-nested", "P12", "samplers/random.py", [
        ("        context = context.with_variables(command.variables)\n        values = context.wildcard_manager.get_values(wildcard_path)\n\n        if len(values) == 0:", "        values = context.wildcard_manager.get_values(wildcard_path)\n        if len(values) > 1:\n            context = context.with_variables(command.variables)\n        elif command.variables:\n            context = context.with_variables({**command.variables, **context.variables})\n\n        if len(values) == 0:"),
    ],
      "a wildcard with one value given a parameter whose name is already a variable, in random sampling",
      "the variable wins over the parameter",
      """
      m = wm(w=["${p}"])
      assert take(ctx("RANDOM", m), "${p=1}__w(p=2)__", 2) == ["2", "2"]
      """),
    S("p02-weightless", "P02", "wildcards/values.py", [
        ("                yield rng.choice(self.string_values)", "                yield rng.choice(self.string_values[: 2**8])"),
    ],
      "a wildcard of more than 256 values",
      "values after the 256th are never produced",
      """
      m = wm(w=[f"a{i:04}" for i in range(600)])
      assert max(take(ctx("RANDOM", m), "__w__", 200)) > "a0256"
      """),
]
