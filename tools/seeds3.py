exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p06-wildcard-mark-not-inherited", "P06", "sampling_context.py", [
        ("context = self.with_sampling_method(new_sampling_method)",
         'context = (\n                self.with_sampling_method(new_sampling_method)\n                if not getattr(command, "variables", None)\n                else self\n            )'),
    ],
      "a marked wildcard that passes parameters, with variants in its values",
      "the unmarked parts inside it are not sampled by the marked method",
      """
      import random
      m = wm(w=["{a|b|c|d}${p}"])
      out = [take(ctx("COMBINATORIAL", m, rand=random.Random(s)), "__~w(p=1)__ {x|y}", 10) for s in range(30)]
      assert all(len(o) == 2 for o in out) and len({o[0] for o in out}) == 4, out
      """),
    S("p14-fallback-suffix", "P14", "wildcards/wildcard_manager.py", [
        ("if not values and not name.startswith(\"**\"):", "if not values and not name.startswith(\"*\"):"),
    ],
      "a glob starting with a single star whose directory part exists only deeper in the tree",
      "the recursive fallback is not tried",
      """
      m = WildcardManager(root_map={"": [{"x/y/ab": ["1"]}]})
      assert list(m.get_values("*b")) == ["1"]
      m = WildcardManager(root_map={"": [{"x/y/ab": ["1"]}]})
      assert list(m.get_values("?b")) == ["1"], list(m.get_values("?b"))
      """),
    S("p19-seen-on-sampler", "P19", "samplers/combinatorial.py", [
        ("        seen = set()\n        is_wildcard", "        seen = self._seen.setdefault(str(variant_command), set())\n        is_wildcard"),
        ("class CombinatorialSampler(Sampler):\n    def _get_sequence", "class CombinatorialSampler(Sampler):\n    def __init__(self) -> None:\n        self._seen: dict[str, set] = {}\n\n    def _get_sequence"),
        ("separator=variant_command.separator,\n                            )\n\n    def _get_wildcard",
         "separator=variant_command.separator,\n                            )\n            seen.clear()\n\n    def _get_wildcard"),
    ],
      "a generation that is abandoned half way, or two interleaved generations of the same template in one context",
      "later generations miss prompts",
      """
      g = CombinatorialPromptGenerator()
      g.generate("{a|b|c}", 1)
      assert g.generate("{a|b|c}", 10) == ["a", "b", "c"]
      """),
    S("p19-shared-tail", "P19", "commands/variant_command.py", [
        ("other_values = values[:index] + values[index + 1 :]\n                for item in self.get_value_combinations(k - 1, values=other_values):\n                    yield [value] + item",
         "other_values = self._others(values, index)\n                for item in self.get_value_combinations(k - 1, values=other_values):\n                    yield [value] + item"),
        ("    def get_value_combinations(", "    def _others(self, values, index):\n        if len(values) < 4:\n            return values[:index] + values[index + 1 :]\n        scratch = self.__dict__.setdefault(\"_scratch\", [])\n        scratch[:] = values[:index] + values[index + 1 :]\n        return scratch\n\n    def get_value_combinations("),
    ],
      "two interleaved streams over one parsed template with a variant of at least four options and a selection of two or more",
      "the streams mix up each other's selections",
      """
      from dynamicprompts.parser.parse import parse
      cmd = parse("{2$$-$$a|b|c|d}")
      alone = take(ctx("COMBINATORIAL"), cmd, None)
      c = ctx("COMBINATORIAL")
      x, y = iter(c.sample_prompts(cmd)), iter(c.sample_prompts(cmd))
      got = [str(next(x)) for _ in range(4)]
      [next(y) for _ in range(7)]
      got += [str(r) for r in x]
      assert got == alone, (got, alone)
      """),
    S("p10-state-after-error", "P10", "parser/parse.py", [
        ("tokens = get_cached_parser(parser_config).parse_string(\n        prompt,\n        parse_all=True,\n    )",
         "tokens = get_cached_parser(parser_config).parse_string(\n        prompt,\n        parse_all=not prompt.endswith(\"}\"),\n    )"),
    ],
      "text the grammar cannot consume in the middle of a template that ends with a closing brace",
      "the template is half processed instead of rejected",
      """
      try:
          out = take(ctx("COMBINATORIAL"), "a {b|c} {d {e|f}", None)
      except Exception:
          pass
      else:
          raise SystemExit(f"accepted: {out}")
      """),
    S("p12-params-order", "P12", "samplers/combinatorial.py", [
        ("yield from self._get_variant(\n                wildcard_variant,\n                context.with_variables(wildcard_command.variables),\n            )",
         "yield from self._get_variant(\n                wildcard_variant,\n                context.with_variables(\n                    {**wildcard_command.variables, **context.variables},\n                ),\n            )"),
    ],
      "a lone wildcard option with a parameter whose name is also assigned in the template",
      "the parameter does not override the outer variable",
      """
      m = wm(w=["<${p}>"])
      out = take(ctx("COMBINATORIAL", m), "${p=1}{__w(p=5)__} ${p}", None)
      assert out == ["<5> 1"], out
      """),
    S("p13-wrap-product", "P13", "samplers/combinatorial.py", [
        ("for wrapper_result in _sample_finite(context, command.wrapper):\n            wrap = wrapper_result.as_wrapper()\n            for inner in _sample_finite(context, command.inner):\n                yield wrap(inner)",
         "inners = _sample_finite(context, command.inner)\n        for wrapper_result in _sample_finite(context, command.wrapper):\n            wrap = wrapper_result.as_wrapper()\n            for inner in inners:\n                yield wrap(inner)"),
    ],
      "a wrap with several wrappers and several inner prompts",
      "only the first wrapper is combined with the inner prompts",
      """
      out = take(ctx("COMBINATORIAL"), "%{{a...|b...}$$X}", None)
      assert out == ["aX", "bX"], out
      """),
    S("p09-comment-in-variant", "P09", "parser/parse.py", [
        ('prompt.ignore("#" + pp.restOfLine)', 'prompt.ignore(pp.Regex(r"#[^|}\\n]*"))'),
    ],
      "a comment that contains a bar or a closing brace",
      "part of the comment is taken as template text",
      """
      out = take(ctx("COMBINATORIAL"), "{a # x | y\\n|b}", None)
      assert [o.strip() for o in out] == ["a", "b"], out
      """),
    S("p16-structured-prefix", "P16", "wildcards/collection/structured.py", [
        ('weight_text, _, content = item.partition("::")', 'weight_text, _, content = item.rpartition("::")'),
    ],
      "a weighted entry whose text itself contains two colons",
      "the entry is not split at the first pair of colons, so its weight is lost",
      """
      import tempfile, os, json
      with tempfile.TemporaryDirectory() as d:
          json.dump({"k": ["2::a::b", "x"]}, open(os.path.join(d, "a.json"), "w"))
          v = WildcardManager(d).get_values("k")
          assert [(str(i), getattr(i, "weight", 1)) for i in v] == [("a::b", 2.0), ("x", 1)], list(v)
      """),
    S("p21-blocked-last", "P21", "generators/magicprompt.py", [
        ("if self._blocklist_regex.search(prompt)", "if self._blocklist_regex.match(prompt[len(original_prompts[i]) :].lstrip())\n                    or self._blocklist_regex.search(prompt, 0, len(prompt) - 1)"),
    ],
      "blocked text at the very end of a prompt",
      "a prompt matching the blocklist is returned without being regenerated",
      """
      from test_magic import run
      outs = run(["p0", "p1"], first=["p0 x bad", "p1 good"], retry=lambda p: p + " fine", block="bad")
      assert outs == ["p0 fine", "p1 good"], outs
      """),
    S("p22-attention-limits", "P22", "generators/attentiongenerator.py", [
        ("attention = round(random.uniform(self._min_attention, self._max_attention), 2)",
         "attention = round(random.uniform(self._min_attention, self._max_attention) or 1, 2)"),
    ],
      "attention limits that are both 0",
      "the emphasis lies outside the configured limits",
      """
      from dynamicprompts.generators.attentiongenerator import AttentionGenerator
      out = AttentionGenerator(min_attention=0, max_attention=0).generate("cat", 1)
      assert out == ["(cat:0.0)"], out
      """),
    S("p18-per-prompt-first", "P18", "generators/randomprompt.py", [
        ("if len(seeds) == 1:\n                seeds = seeds * num_images", "if len(set(seeds)) == 1:\n                seeds = seeds[:1] * num_images"),
    ],
      "a list of equal seeds whose length differs from the number of prompts",
      "the mismatch is not reported",
      """
      try:
          out = RandomPromptGenerator().generate("{a|b}", 3, seeds=[5, 5])
      except ValueError:
          pass
      else:
          raise SystemExit(f"accepted {out}")
      """),
    S("p20-limit-blocks", "P20", "generators/jinjagenerator.py", [
        ("if prompt_blocks:  # May have been set by the templates being rendered\n            prompts = prompt_blocks",
         "if any(prompt_blocks):  # May have been set by the templates being rendered\n            prompts = prompt_blocks"),
    ],
      "a template all of whose prompt blocks are empty",
      "the renderings are returned instead of the blocks",
      """
      from dynamicprompts.generators import JinjaGenerator
      out = JinjaGenerator().generate("x{% prompt %}{% endprompt %}y")
      assert out == [""], out
      """),
    S("p23-hyphen", "P23", "generators/magicprompt.py", [
        (r'prompt = re.sub(r"\b\s+\-\s+\b", "-", prompt)', r'prompt = re.sub(r"\b\s+\-+\s+\b", "-", prompt)'),
    ],
      "two or more hyphens between words of the model's text",
      "they are turned into one hyphen joining the words",
      """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      out = clean_up_magic_prompt("cat", "cat sits -- mat")
      assert out == "cat sits -- mat", out
      """),
]
MAGIC = open("/verif/tools/seeds1.py").read().split("from test_magic import run\", '''")[1].split("''')")[0]
for s in SEEDS:
    s["demo"] = s["demo"].replace("from test_magic import run", MAGIC)
