exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p14-fallback-first", "P14", "wildcards/wildcard_manager.py", [
        ("            for f in rec_colls:\n", "            for f in rec_colls if any(c in name for c in \"*?[\") else rec_colls[:1]:\n"),
    ],
      "a plain name that exists in two subdirectories and not at the top",
      "only the values of one of the matching collections are used",
      """
      m = WildcardManager(root_map={"": [{"x/n": ["1"], "y/n": ["2"]}]})
      assert sorted(map(str, m.get_values("n"))) == ["1", "2"], list(m.get_values("n"))
      """),
    S("p15-cache-key-clean", "P15", "wildcards/wildcard_manager.py", [
        ("cached_values = self._values_cache.get(wildcard)", "key = wildcard.strip(\"/*\")\n        cached_values = self._values_cache.get(key)"),
        ("self._values_cache[wildcard] = values_object", "self._values_cache[key] = values_object"),
    ],
      "two lookups of names that differ only in stars or slashes at the ends, without a change of options between",
      "the second lookup returns the values of the first",
      """
      m = WildcardManager(root_map={"": [{"a": ["1"], "ab": ["2"]}]})
      assert list(map(str, m.get_values("a"))) == ["1"]
      assert list(map(str, m.get_values("a*"))) == ["1", "2"], list(m.get_values("a*"))
      """),
    S("p15-text-written", "P15", "wildcards/collection/text_file.py", [
        ("        self._path.write_text(contents, encoding=self._encoding)\n        self._cache = None",
         "        if contents.split() != self.read_text().split():\n            self._path.write_text(contents, encoding=self._encoding)\n            self._cache = None"),
    ],
      "writing through a collection a text whose words are those of the file, in other lines",
      "the text written is not what the collection then returns",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.txt").write_text("x y\\n")
          m = WildcardManager(pathlib.Path(d))
          f = m.get_file("a")
          f.write_text("x\\ny\\n")
          assert list(f.get_values()) == ["x", "y"], f.get_values()
      """),
    S("p16-deep-keys", "P16", "wildcards/collection/structured.py", [
        ("        elif isinstance(value, dict):\n            yield from _parse_structured_file_dict(",
         "        elif isinstance(value, dict) and len(prefix) < 4:\n            yield from _parse_structured_file_dict("),
    ],
      "a list more than five keys deep",
      "the list is skipped",
      """
      import tempfile, pathlib, json
      with tempfile.TemporaryDirectory() as d:
          data = ["x"]
          for k in "fedcba":
              data = {k: data}
          (pathlib.Path(d) / "a.json").write_text(json.dumps(data))
          m = WildcardManager(pathlib.Path(d))
          assert m.get_collection_names() == {"a/b/c/d/e/f"}, m.get_collection_names()
      """),
    S("p16-equal-entries", "P16", "wildcards/collection/structured.py", [
        ("                entries = list(_parse_structured_file_list(value))",
         "                entries = list(\n                    {str(e): e for e in _parse_structured_file_list(value)}.values(),\n                )"),
    ],
      "a list with two entries of equal text and different weights",
      "only one of the entries is kept",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.yaml").write_text("k:\\n  - 2::x\\n  - y\\n  - 5::x\\n")
          m = WildcardManager(pathlib.Path(d))
          vs = sorted((str(v), getattr(v, "weight", 1)) for v in m.get_values("k"))
          assert vs == [("x", 2), ("x", 5), ("y", 1)], vs
      """),
    S("p08-parameters", "P08", "parser/parse.py", [
        ("_parse_variable_spec(variable_spec, parser_config=parser_config)", "_parse_variable_spec(\n                variable_spec,\n                parser_config=(\n                    parser_config\n                    if parser_config.variant_start in variable_spec\n                    else default_parser_config\n                ),\n            )"),
    ],
      "custom variable delimiters used in a wildcard's parameter",
      "the parameter is read with the default delimiters",
      """
      from dynamicprompts.parser.config import ParserConfig
      m = wm(w=["<v:p>"])
      out = CombinatorialPromptGenerator(m, parser_config=ParserConfig(variable_start="<v:", variable_end=">")).generate("<v:q=1>__w(p=<v:q>)__", 9)
      assert out == ["1"], out
      """),
    S("p13-regex-template", "P13", "sampling_result.py", [
        ("        prefix, suffix = split_wrapper_string(self.text)\n        prefix_res = self.text_replaced(prefix)\n        suffix_res = self.text_replaced(suffix)\n\n        def wrapper(inner: SamplingResult) -> SamplingResult:\n            return SamplingResult.joined([prefix_res, inner, suffix_res], separator=\"\")",
         "        def wrapper(inner: SamplingResult) -> SamplingResult:\n            if not WRAP_MARKER_RE.search(self.text):\n                prefix, suffix = split_wrapper_string(self.text)\n                return self.text_replaced(f\"{prefix}{inner.text}{suffix}\")\n            return self.text_replaced(\n                WRAP_MARKER_RE.sub(inner.text, self.text, count=1),\n            )"),
        ("import split_wrapper_string", "import (\n    WRAP_MARKER_RE,\n    split_wrapper_string,\n)"),
    ],
      "an inner prompt with a backslash",
      "the inner prompt is read as a replacement pattern",
      """
      out = CombinatorialPromptGenerator().generate(r"%{<...>$$a\\\\b \\g<0>}", 3)
      assert out == [r"<a\\\\b \\g<0>>"], out
      """),
    S("p01-wildcard-cap", "P01", "samplers/combinatorial.py", [
        ("for val in values.iterate_string_values_weighted():", "for val in islice(values.iterate_string_values_weighted(), 1000):"),
    ],
      "a wildcard of more than 1000 values",
      "values beyond the 1000th are missing",
      """
      m = wm(w=[f"v{i:04}" for i in range(1005)])
      out = CombinatorialPromptGenerator(m).generate("__w__ {a|b}", 3000)
      assert len(out) == 2010, len(out)
      """),
    S("p04-restart", "P04", "samplers/base.py", [
        ("        sub_generators = [context.generator_from_command(c) for c in tokens]\n\n        while True:\n            yield rotate_and_join(sub_generators, separator=command.separator)",
         "        while True:\n            sub_generators = [context.generator_from_command(c) for c in tokens]\n            for _ in range(1024):  # bounds the memory held by the generators\n                yield rotate_and_join(sub_generators, separator=command.separator)"),
    ],
      "more than 1024 prompts of a cyclical template whose period does not divide 1024",
      "the cycle starts over in the middle",
      """
      out = take(ctx("CYCLICAL"), "x{a|b|c}", 1030)
      assert out == ["x" + "abc"[i % 3] for i in range(1030)], out[1020:]
      """),
    S("p18-list-seed", "P18", "generators/randomprompt.py", [
        ("                seeds = seeds * num_images", "                seeds = [seeds[0] + i // 100 for i in range(num_images)]"),
    ],
      "a single seed and more than 100 prompts",
      "the seed does not apply to every prompt",
      """
      out = RandomPromptGenerator().generate("{a|b|c|d|e|f|g|h} {1|2|3|4|5|6|7|8}", 230, seeds=7)
      assert len(set(out)) == 1, set(out)
      """),
    S("p05-equal-options", "P05", "commands/variant_command.py", [
        ("        min_bound = min(self.min_bound, len(self.values))\n        max_bound = min(self.max_bound, len(self.values))",
         "        num_values = len({repr(v) for v in self.values})\n        min_bound = min(self.min_bound, num_values)\n        max_bound = min(self.max_bound, num_values)"),
    ],
      "a variant with equal options and a bound above the number of different ones, sampled randomly or cyclically",
      "selections of a permitted size never occur",
      """
      out = take(ctx("CYCLICAL"), "{3$$a|a|b}", 6)
      assert all(len(o.split(",")) == 3 for o in out), out
      """),
    S("p02-exhausted", "P02", "samplers/random.py", [
        ("        gen = self._get_wildcard_choice_generator(context, values)\n        while True:\n",
         "        gen = self._get_wildcard_choice_generator(context, values)\n        for _ in range(10000):\n"),
    ],
      "one run that asks for more than 10000 prompts of a template with a wildcard",
      "fewer prompts are returned than asked for",
      """
      out = RandomPromptGenerator(wm(w=["a", "b"])).generate("__w__", 10005)
      assert len(out) == 10005, len(out)
      """),
    S("p12-no-copy", "P12", "sampling_context.py", [
        ("        return dataclasses.replace(self, variables={**self.variables, **variables})",
         "        if len(self.variables) <= 1 or not self.variables.keys() >= variables.keys():\n            return dataclasses.replace(\n                self,\n                variables={**self.variables, **variables},\n            )\n        self.variables.update(variables)  # No new names: no need for another context\n        return self"),
    ],
      "a wildcard parameter (or an assignment in a wildcard value) for a name that already has a value, beside at least one other variable",
      "the value leaks to the rest of the template",
      """
      m = wm(w=["<${x}>"])
      out = CombinatorialPromptGenerator(m).generate("${x=1}${y=2}__w(x=5)__ ${x}${y}", 3)
      assert out == ["<5> 12"], out
      """),
    S("p23-leading-word", "P23", "generators/magicprompt.py", [
        ('prompt = re.sub(r"\\s+_+\\s+", " ", prompt)', 'prompt = re.sub(r"\\s+_+\\s+|(?<=\\w)__+(?=\\w)", " ", prompt)'),
    ],
      "a word with two underscores inside in the model's text",
      "the word is split in two",
      """
      import sys, types
      sys.modules.setdefault("transformers", types.ModuleType("transformers"))
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt as c
      assert c("zz", "big my__cat, dog") == "big my__cat, dog", c("zz", "big my__cat, dog")
      """),
    S("p23-period-number", "P23", "generators/magicprompt.py", [
        ('(?=[a-zA-Z(])", ", ", prompt)', '(?=[a-zA-Z(]|\\d+\\b)", ", ", prompt)'),
    ],
      "a number with a decimal point in the model's text",
      "the number is torn apart by a comma",
      """
      import sys, types
      sys.modules.setdefault("transformers", types.ModuleType("transformers"))
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt as c
      assert c("zz", "cat, f 1.8 lens") == "cat, f 1.8 lens", c("zz", "cat, f 1.8 lens")
      """),
    S("p20-permutation-pool", "P20", "jinja_extensions.py", [
        ("        vars.extend(permutations(items, i))", "        vars.extend(p for p in permutations(items, i) if len(set(p)) == i)"),
    ],
      "permutations of items some of which are equal",
      "permutations are missing",
      """
      from dynamicprompts.generators import JinjaGenerator
      out = JinjaGenerator().generate('{{ permutations(["a", "a", "b"], 2) | length }}', 1)
      assert out == ["6"], out
      """),
    S("p20-wildcard-limit", "P20", "jinja_extensions.py", [
        ("    return [str(p) for p in generator.generate(prompt)]", "    return list(dict.fromkeys(str(p) for p in generator.generate(prompt)))"),
    ],
      "a template two of whose combinations give the same text",
      "all_combinations does not give all combinatorial prompts",
      """
      from dynamicprompts.generators import JinjaGenerator
      out = JinjaGenerator().generate('{{ all_combinations("{a|ab}{b|c|bb}") | join(";") }}', 1)
      assert out == ["ab;ac;abb;abb;abc;abbb"], out
      """),
    S("p21-settings", "P21", "generators/magicprompt.py", [
        ("            batch_size=self._batch_size,\n        )", "            batch_size=min(self._batch_size, len(orig_prompts) or 1),\n        )"),
    ],
      "a batch size above the number of prompts",
      "the model is not asked with the configured settings",
      """
      import sys, types
      t = types.ModuleType("transformers")
      class L:
          @staticmethod
          def from_pretrained(name):
              return types.SimpleNamespace(config=types.SimpleNamespace(eos_token_id=1), eos_token_id=1, pad_token_id=None)
      t.AutoTokenizer = t.AutoModelForCausalLM = L
      seen = []
      t.pipeline = lambda **k: (lambda ps, **kw: seen.append(kw) or [[{"generated_text": p + " more"}] for p in ps])
      sys.modules["transformers"] = t
      from dynamicprompts.generators.magicprompt import MagicPromptGenerator
      g = MagicPromptGenerator(CombinatorialPromptGenerator(), batch_size=4)
      g.generate("{bb|ccc|a}", 2)
      assert seen[0]["batch_size"] == 4, seen
      """),
    S("p21-dedup", "P21", "generators/magicprompt.py", [
        ("        prompts = [prompt[0][\"generated_text\"] for prompt in prompts]\n",
         "        texts = {}\n        for orig_prompt, prompt in zip(orig_prompts, prompts):\n            texts[orig_prompt] = prompt[0][\"generated_text\"]\n        prompts = [texts[orig_prompt] for orig_prompt in orig_prompts]\n"),
    ],
      "two equal originals that the model answers differently",
      "one of the model's texts is returned for both",
      """
      import sys, types, itertools
      t = types.ModuleType("transformers")
      class L:
          @staticmethod
          def from_pretrained(name):
              return types.SimpleNamespace(config=types.SimpleNamespace(eos_token_id=1), eos_token_id=1, pad_token_id=None)
      t.AutoTokenizer = t.AutoModelForCausalLM = L
      c = itertools.count(1)
      t.pipeline = lambda **k: (lambda ps, **kw: [[{"generated_text": f"{p} w{next(c)}"}] for p in ps])
      sys.modules["transformers"] = t
      from dynamicprompts.generators.magicprompt import MagicPromptGenerator
      out = MagicPromptGenerator().generate("cat", 3)
      assert out == ["cat w1", "cat w2", "cat w3"], out
      """),
    S("p22-same-phrase", "P22", "generators/attentiongenerator.py", [
        ("    prompts = self._generator.generate(*args, **kwargs)\n        new_prompts = [self._add_emphasis(p) for p in prompts]", "    prompts = self._generator.generate(*args, **kwargs)\n        new_prompts = [self._add_emphasis(p.strip()) for p in prompts]"),
    ],
      "an inner prompt with white space at an end",
      "removing the emphasis does not restore the inner prompt",
      """
      from dynamicprompts.generators.attentiongenerator import AttentionGenerator
      import re
      out = AttentionGenerator(CombinatorialPromptGenerator()).generate(" cat {1|2} ", 1)
      assert re.sub(r"[(]([^:]*):[0-9.]*[)]", r"\\1", out[0]) == " cat 1 ", out
      """),
    S("p17-mark", "P17", "samplers/utils.py", [
        ("wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)", "ww = context.wildcard_manager.wildcard_wrap\n    wrapped_wildcard = f\"{ww}{wildcard.strip('_')}{ww}\""),
    ],
      "a missing wildcard whose name begins or ends with an underscore",
      "the name in the prompt is not the wildcard's name",
      """
      out = CombinatorialPromptGenerator(wm(a=["1"])).generate("x ___none__", 3)
      assert out == ["x ___none__"], out
      """),
    S("p09-comment-crlf", "P09", "parser/parse.py", [
        ('prompt.ignore("#" + pp.restOfLine)', 'prompt.ignore("#" + pp.Regex(r"[^\\n;]*;?"))'),
    ],
      "a comment with a semicolon in it",
      "the rest of the comment is taken as template text",
      """
      out = CombinatorialPromptGenerator().generate("{a # x; y\\n|b}", 5)
      assert [o.strip() for o in out] == ["a", "b"], out
      """),
    S("p07-weight-dot", "P07", "parser/parse.py", [
        ("    weight = (pp.common.real | pp.common.integer) + weight_delim", "    weight = pp.Regex(r\"\\d+(\\.\\d{1,2})?\").set_parse_action(lambda t: float(t[0])) + weight_delim"),
    ],
      "a weight with three or more decimals",
      "the weight is taken as text",
      """
      from dynamicprompts.parser.parse import parse
      c = parse("{0.125::a|b}")
      assert c.weights == [0.125, 1.0], c
      """),
]
