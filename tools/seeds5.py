exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p24-literal-weights", "P24", "commands/variant_command.py", [
        ("            variants=[VariantOption(v, w) for v, w in zip(vals, weights)],", "            variants=[VariantOption(v, w or 1.0) for v, w in zip(vals, weights)],"),
    ],
      "from_literals_and_weights with a weight of zero, in random sampling",
      "an option of weight zero is picked",
      """
      from dynamicprompts.commands import VariantCommand
      c = VariantCommand.from_literals_and_weights(["a", "b"], [0, 1])
      assert set(take(ctx("RANDOM"), c, 60)) == {"b"}
      """),
    S("p24-sequence-method", "P24", "sampling_context.py", [
        ("        new_sampling_method = command.sampling_method or self.default_sampling_method\n",
         "        new_sampling_method = command.sampling_method or self.default_sampling_method\n        if hasattr(command, \"tokens\") and self.default_sampling_method.is_nonfinite():\n            new_sampling_method = self.default_sampling_method\n"),
        ("        if new_sampling_method != self.default_sampling_method:\n            if self.default_sampling_method.is_nonfinite():  # Within", "        if self.default_sampling_method != new_sampling_method:\n            if self.default_sampling_method.is_nonfinite():  # Within"),
    ],
      "a sequence object with its own cyclical method sampled in a random context",
      "the sequence's own method is ignored",
      """
      from dynamicprompts.commands import VariantCommand, SequenceCommand, SamplingMethod
      c = SequenceCommand([VariantCommand.from_literals_and_weights(["a", "b"])], sampling_method=SamplingMethod.CYCLICAL)
      assert take(ctx("RANDOM"), c, 12) == ["a", "b"] * 6
      """),
    S("p24-negative-upper", "P24", "commands/variant_command.py", [
        ("        min_bound = max(0, min_bound)\n", "        if max_bound < 0:\n            max_bound = len(self.variants)\n        min_bound = max(0, min_bound)\n"),
        ("        min_bound, max_bound = sorted((self.min_bound, self.max_bound))", "        min_bound, max_bound = sorted([self.min_bound, self.max_bound])"),
    ],
      "a variant object with both bounds negative",
      "it selects up to all options instead of none",
      """
      from dynamicprompts.commands import VariantCommand, SequenceCommand, LiteralCommand
      c = SequenceCommand([LiteralCommand("x"), VariantCommand.from_literals_and_weights(["a", "b"], min_bound=-3, max_bound=-1)])
      assert set(take(ctx("RANDOM"), c, 30)) == {"x"}
      """),
    S("p08-last-config", "P08", "parser/parse.py", [
        ("        partial(_parse_wildcard_command, parser_config=parser_config),", "        lambda result: _parse_wildcard_command(\n            result,\n            parser_config=max(_parser_cache, key=_parser_age, default=parser_config),\n        ),"),
        ("def get_cached_parser(parser_config: ParserConfig):", "def _parser_age(config: ParserConfig) -> int:\n    return list(_parser_cache).index(config)\n\n\ndef get_cached_parser(parser_config: ParserConfig):"),
    ],
      "a template with wildcard parameters parsed under one configuration after another configuration was used for the first time",
      "the parameters are read with the delimiters of the other configuration",
      """
      from dynamicprompts.parser.config import ParserConfig
      from dynamicprompts.parser.parse import parse
      a, b = ParserConfig(variant_start="<", variant_end=">"), ParserConfig(variant_start="[", variant_end="]")
      first = parse("__w(p=<x|y>)__", a)
      parse("[x|y]", b)
      assert parse("__w(p=<x|y>)__", a) == first, parse("__w(p=<x|y>)__", a)
      """),
    S("p19-context-variables", "P19", "sampling_context.py", [
        ("        return dataclasses.replace(self, variables={**self.variables, **variables})",
         "        merged = self.variables if self.variables.keys() >= variables.keys() else dict(self.variables)\n        merged.update(variables)\n        return dataclasses.replace(self, variables=merged)"),
    ],
      "a template that assigns again a variable the caller supplied, with no other assignment before it",
      "the caller's variables are changed, so later templates see the template's value",
      """
      from dynamicprompts.commands import LiteralCommand
      vs = {"x": LiteralCommand("1")}
      c = ctx("COMBINATORIAL", variables=vs)
      assert take(c, "${x=2}${x}", 5) == ["2"]
      assert take(c, "${x}", 5) == ["1"], take(c, "${x}", 5)
      """),
    S("p12-wildcard-param-order", "P12", "samplers/cycle.py", [
        ("        wildcard_path = next(iter(context.sample_prompts(command.wildcard, 1))).text\n        wc_values = context.wildcard_manager.get_values(wildcard_path)\n        new_context = context.with_variables(\n            command.variables,\n        ).with_sampling_method(SamplingMethod.CYCLICAL)",
         "        wildcard_path = next(iter(context.sample_prompts(command.wildcard, 1))).text\n        wc_values = context.wildcard_manager.get_values(wildcard_path)\n        new_context = context.with_variables(\n            {**command.variables, **context.variables},\n        ).with_sampling_method(SamplingMethod.CYCLICAL)"),
    ],
      "a wildcard parameter with the name of a variable already assigned, in cyclical sampling",
      "the parameter does not reach the wildcard's values",
      """
      m = wm(w=["${p}"])
      assert take(ctx("CYCLICAL", m), "${p=1}__w(p=2)__", 2) == ["2", "2"]
      """),
    S("p11-unknown-empty", "P11", "samplers/base.py", [
        ("            if context.unknown_variable_value is None:", "            if not context.unknown_variable_value:"),
    ],
      "an empty text configured as the substitute for unknown variables",
      "using an unknown variable raises an error",
      """
      assert take(ctx("RANDOM", unknown_variable_value=""), "a${x}b", 1) == ["ab"]
      """),
    S("p11-self-reference", "P11", "samplers/base.py", [
        ("        return context.for_sampling_variable(variable).generator_from_command(", "        if not isinstance(command_to_sample, VariantCommand):\n            context = context.for_sampling_variable(variable)\n        return context.generator_from_command("),
    ],
      "a variable whose value is a variant that uses the variable itself in one option",
      "no recursion error is raised as long as the other options are chosen; generation may loop",
      """
      out = []
      try:
          out = take(ctx("RANDOM"), "${x={a|${x}}}${x}${x}${x}${x}${x}${x}${x}${x}${x}${x}${x}${x}${x}${x}", 20)
      except RecursionError:
          pass
      assert out == [], out
      """),
    S("p10-trailing", "P10", "parser/parse.py", [
        ("        parse_all=True,\n    )\n    if len(tokens) != 1:", "        parse_all=not prompt.rstrip().endswith(parser_config.wildcard_wrap),\n    )\n    if len(tokens) != 1:"),
    ],
      "a malformed template that ends in a wildcard",
      "the text from the malformed part on is dropped silently",
      """
      try:
          out = CombinatorialPromptGenerator(wm(w=["1"])).generate("a {b|c __w__", 5)
      except Exception:
          out = None
      assert out is None, out
      """),
    S("p10-dollar", "P10", "parser/parse.py", [
        ("        + pp.Optional(pp.Literal(\":\") + OPT_WS + prompt()(\"default\"))\n        + OPT_WS\n        + pp.Suppress(parser_config.variable_end),",
         "        + pp.Optional(pp.Literal(\":\") + OPT_WS + prompt()(\"default\"))\n        + OPT_WS\n        + (pp.Suppress(parser_config.variable_end) | pp.StringEnd()),"),
    ],
      "an unclosed variable access at the very end of a template",
      "it is accepted as if it were closed",
      """
      try:
          out = CombinatorialPromptGenerator().generate("a ${x:b", 5)
      except Exception:
          out = None
      assert out is None, out
      """),
    S("p03-count-skew", "P03", "samplers/random.py", [
        ("            command.min_bound,\n            command.max_bound,\n        )", "            command.min_bound,\n            command.max_bound + (command.max_bound - command.min_bound > 1),\n        )"),
    ],
      "a variant whose bounds span three or more sizes",
      "the largest size is twice as likely as the others",
      """
      n = [len(p.split(",")) for p in take(ctx("RANDOM"), "{1-3$$a|b|c}", 3000)]
      assert n.count(3) < 1250, n.count(3)
      """),
    S("p02-single-option", "P02", "utils.py", [
        ("    elif len(values) == 1:\n        return values[:num_choices]", "    elif num_choices == len(values):\n        return values"),
    ],
      "a selection of all options in random sampling",
      "the options always come in written order, other orders never occur",
      """
      assert len(set(take(ctx("RANDOM"), "{2$$a|b}", 80))) == 2
      """),
    S("p16-weight-text", "P16", "wildcards/collection/structured.py", [
        ("            if item[0].isdigit() and \"::\" in item:\n                weight_text, _, content = item.partition(\"::\")",
         "            if item[0].isdigit() and \"::\" in item:\n                weight_text, content = item.split(\"::\")[:2]"),
    ],
      "a weighted entry whose text itself contains two colons",
      "the text after the second pair of colons is lost",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.yaml").write_text("k:\\n  - '2::{3::x|y}'\\n")
          m = WildcardManager(pathlib.Path(d))
          assert list(map(str, m.get_values("k"))) == ["{3::x|y}"], list(m.get_values("k"))
      """),
    S("p14-case", "P14", "wildcards/tree/tree.py", [
        ("            if fnmatch(name, pattern):", "            if fnmatch(name, pattern) or (\n                \"*\" in pattern and fnmatch(name.lower(), pattern.lower())\n            ):"),
    ],
      "a glob and collections whose names differ only in upper and lower case",
      "collections that do not match are included",
      """
      m = WildcardManager(root_map={"": [{"Xa": ["1"], "xa": ["2"]}]})
      assert list(map(str, m.get_values("x*"))) == ["2"], list(m.get_values("x*"))
      """),
    S("p14-dots", "P14", "wildcards/tree/build.py", [
        ("    return str(path.relative_to(root_path).with_suffix(\"\")).replace(os.sep, \"/\")",
         "    return str(path.relative_to(root_path)).replace(os.sep, \"/\").split(\".\")[0]"),
    ],
      "a file or directory name with a dot before the extension",
      "the collection gets a shortened name and may replace another",
      """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "v1.5").mkdir()
          (pathlib.Path(d) / "v1.5" / "a.txt").write_text("x\\n")
          assert WildcardManager(pathlib.Path(d)).get_collection_names() == {"v1.5/a"}
      """),
    S("p17-sample-name", "P17", "samplers/utils.py", [
        ("    wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)\n", "    wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard.strip(\"/\"))\n"),
    ],
      "a missing wildcard whose name begins or ends with a slash",
      "the name in the prompt is not the one written",
      """
      assert take(ctx("RANDOM"), "a __x/__ b", 1) == ["a __x/__ b"]
      """),
    S("p18-string-seed", "P18", "generators/randomprompt.py", [
        ("    if seed is not None:\n        rand.seed(seed)\n    return rand", "    if seed is not None:\n        rand.seed(seed % 2**31 if seed > 2**31 else seed)\n    return rand"),
    ],
      "a negative or small seed: nothing; a seed above 2**31: shares the sequence of another seed",
      "no property is broken: seeds stay reproducible",
      """
      assert False
      """),
    S("p20-weighted-order", "P20", "jinja_extensions.py", [
        ("    population, weights = zip(*items)\n", "    population, weights = zip(*dict(items).items())\n"),
    ],
      "weighted_choice with two equal items",
      "only the weight of the last one counts",
      """
      from dynamicprompts.generators.jinjagenerator import JinjaGenerator
      out = JinjaGenerator().generate("{{ weighted_choice(('a', 1000), ('b', 1), ('a', 0)) }}", 30)
      assert "a" in out, out
      """),
    S("p20-nested-blocks", "P20", "jinja_extensions.py", [
        ("        value = caller()\n        prompt_blocks = cast(list, self.environment.globals[\"prompt_blocks\"])\n        prompt_blocks.append(value)",
         "        prompt_blocks = cast(list, self.environment.globals[\"prompt_blocks\"])\n        index = len(prompt_blocks)\n        value = caller()\n        prompt_blocks.insert(index, value)"),
    ],
      "a prompt block inside a prompt block",
      "the outer block comes before the inner one although it is rendered after it",
      """
      from dynamicprompts.generators.jinjagenerator import JinjaGenerator
      out = JinjaGenerator().generate("{% prompt %}a{% prompt %}b{% endprompt %}{% endprompt %}", 1)
      assert out == ["b", "ab"], out
      """),
    S("p21-batch", "P21", "generators/magicprompt.py", [
        ("        prompts = self._generator(\n            orig_prompts,", "        prompts = self._generator(\n            [p.strip() or p for p in orig_prompts],"),
    ],
      "an inner prompt with white space at its ends",
      "the model is asked with another text, and the result does not start with the original",
      """
      import sys, types
      t = types.ModuleType("transformers")
      class X:
          def __getattr__(self, n): return X()
          def __call__(self, *a, **k): return X()
      def pipeline(**kw):
          return lambda ps, **k: [[{"generated_text": p + " more"}] for p in ps]
      t.AutoTokenizer = t.AutoModelForCausalLM = X(); t.pipeline = pipeline; t.set_seed = lambda s: None
      sys.modules["transformers"] = t
      from dynamicprompts.generators.magicprompt import MagicPromptGenerator
      out = MagicPromptGenerator().generate(" cat ", 1)
      assert out[0].startswith(" cat "), out
      """),
    S("p22-chunk-cache", "P22", "generators/attentiongenerator.py", [
        ("    keywords = find_noun_chunks(prompt)", "    keywords = find_noun_chunks(prompt.lower())"),
    ],
      "a prompt all of whose phrases contain upper-case letters",
      "no emphasis is added",
      """
      from dynamicprompts.generators.attentiongenerator import AttentionGenerator
      out = AttentionGenerator().generate("A Cat", 1)
      assert out[0].startswith("(A Cat:"), out
      """),
    S("p22-lucky-count", "P22", "generators/feelinglucky.py", [
        ("            selected_prompts = random.choices(prompts, k=num_prompts)", "            selected_prompts = (\n                random.choices(prompts, k=num_prompts)\n                if len(prompts) != num_prompts\n                else random.sample(prompts[:-1], k=num_prompts - 1) + prompts[-1:] * 2\n            )[:num_prompts]"),
    ],
      "an answer with exactly as many entries as prompts were asked for",
      "the choice is no longer free: the last entry is always used",
      """
      assert False
      """),
    S("p23-paren", "P23", "generators/magicprompt.py", [
        ("    prompt = re.sub(r\"\\s+\\)\", \")\", prompt)", "    prompt = re.sub(r\"[\\s,]+\\)\", \")\", prompt)"),
    ],
      "a comma right before a closing parenthesis in the model's text",
      "the comma is removed",
      """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      assert clean_up_magic_prompt("zz", "a (b, c,) d") == "a (b, c,) d", clean_up_magic_prompt("zz", "a (b, c,) d")
      """),
    S("p13-no-marker", "P13", "commands/wrap_command.py", [
        ("        log.warning(\"Found no wrap marker in string %r\", s)\n        return s, \"\"", "        log.warning(\"Found no wrap marker in string %r\", s)\n        return (f\"{s.rstrip()} \" if s.endswith(\"\\n\") else s), \"\""),
    ],
      "a wrapper without a marker that ends in a line break",
      "the line break becomes a space",
      """
      out = CombinatorialPromptGenerator().generate("%{a\\n$$b}", 3)
      from dynamicprompts.commands.wrap_command import split_wrapper_string
      assert split_wrapper_string("a\\n") == ("a\\n", ""), split_wrapper_string("a\\n")
      """),
    S("p07-nested-weight", "P07", "parser/parse.py", [
        ("        VariantOption(value=v[\"val\"], weight=float(v[\"weight\"][0]))", "        VariantOption(value=v[\"val\"], weight=round(float(v[\"weight\"][0]), 2))"),
    ],
      "a weight with more than two decimals",
      "the weight is rounded",
      """
      from dynamicprompts.parser.parse import parse
      assert parse("{0.125::a|b}").weights == [0.125, 1.0], parse("{0.125::a|b}").weights
      """),
    S("p05-separator-strip", "P05", "parser/parse.py", [
        ("        separator = expr[\"separator\"][0]", "        separator = expr[\"separator\"][0]\n        if len(separator) > 2:\n            separator = f\" {separator.strip()} \""),
    ],
      "a separator of three or more characters without spaces around it",
      "spaces are added around it",
      """
      out = CombinatorialPromptGenerator().generate("{2$$and$$a|b}", 9)
      assert out == ["aandb", "banda"], out
      """),
    S("p09-squash-nbsp", "P09", "utils.py", [
        ("    return \" \".join(s.split())", "    return \" \".join(s.split(None, 99))"),
    ],
      "a prompt of more than a hundred words with squashing on",
      "the white space after the hundredth word is kept",
      """
      g = CombinatorialPromptGenerator(ignore_whitespace=True)
      assert g.generate("a  " * 120, 1) == [" ".join("a" * 120)]
      """),
    S("p04-wildcard-single", "P04", "samplers/cycle.py", [
        ("            for val in wc_values.iterate_string_values_weighted()", "            for val in dict.fromkeys(wc_values.iterate_string_values_weighted())"),
    ],
      "a wildcard with equal values (de-duplication off) in cyclical sampling",
      "equal values are walked only once",
      """
      m = wm(w=["a", "a", "b"])
      m.dedup_wildcards = False
      assert take(ctx("CYCLICAL", m), "__w__", 4) == ["a", "a", "b", "a"], take(ctx("CYCLICAL", m), "__w__", 4)
      """),
    S("p06-nested-mark", "P06", "samplers/utils.py", [
        ("        command.sampling_method,\n    )\n    return wildcard_variant", "        None,\n    )\n    return wildcard_variant"),
    ],
      "a marked wildcard as the only option of a variant with bounds",
      "the mark is ignored",
      """
      m = wm(w=["a", "b", "c"])
      assert take(ctx("RANDOM", m), "{2$$__@w__}", 6) == take(ctx("CYCLICAL", m), "{2$$__w__}", 6)
      """),
    S("p01-empty-option", "P01", "samplers/combinatorial.py", [
        ("                        if correct_size and deduped_arr not in seen:", "                        if correct_size and deduped_arr not in seen and (\n                            len(deduped_arr) < 2 or any(str(r) for r in deduped_arr[:-1])\n                        ):"),
    ],
      "a selection of two or more options where all but the last are empty",
      "the selection is left out",
      """
      out = CombinatorialPromptGenerator().generate("{2$$|a}", 9)
      assert out == ["a", "a"], out
      """),
    S("p15-cache-size", "P15", "wildcards/wildcard_manager.py", [
        ("        if len(self._values_cache) > 100:", "        if len(self._values_cache) > 100 and wildcard in self._values_cache:"),
    ],
      "nothing: the cache only grows", "no property is broken",
      """
      assert False
      """),
]
