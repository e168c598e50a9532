exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p19-failed-variable", "P19", "samplers/base.py", [
        ("        return context.for_sampling_variable(variable).generator_from_command(\n            command_to_sample,\n        )",
         "        active = context._variables_being_sampled\n        inner = context.for_sampling_variable(variable)\n        active.add(variable)\n        gen = inner.generator_from_command(command_to_sample)\n        active.discard(variable)\n        return gen"),
    ],
      "a template that fails because a variable's value uses an undefined variable, then another template on the same generator using a variable of that name",
      "the second template fails too",
      """
      g = CombinatorialPromptGenerator()
      try:
          g.generate("${x=${y}}${x}", 3)
          raise SystemExit(3)
      except KeyError:
          pass
      assert g.generate("${x=1}${x}", 3) == ["1"]
      """),
    S("p24-literal-parsed", "P24", "sampling_context.py", [
        ("        elif isinstance(prompt, Command):\n            command = prompt",
         "        elif isinstance(prompt, LiteralCommand) and \"|\" in prompt.literal:\n            from dynamicprompts.parser.parse import parse\n\n            command = parse(prompt.literal, parser_config=self.parser_config)\n        elif isinstance(prompt, Command):\n            command = prompt"),
    ],
      "a lone literal command whose text contains a bar",
      "its text is read as template syntax",
      """
      from dynamicprompts.commands import LiteralCommand
      assert take(ctx("RANDOM"), LiteralCommand("{a|b}"), 2) == ["{a|b}"] * 2
      """),
    S("p24-shared-object", "P24", "commands/variant_command.py", [
        ("                other_values = values[:index] + values[index + 1 :]",
         "                other_values = [v for v in values if v is not value]"),
    ],
      "a variant built from the same command object twice, sampled cyclically with a bound of two",
      "the selections of both copies are missing",
      """
      from dynamicprompts.commands import LiteralCommand, VariantCommand, VariantOption
      a, b = LiteralCommand("a"), LiteralCommand("b")
      c = VariantCommand([VariantOption(a), VariantOption(a), VariantOption(b)], 2, 2)
      out = take(ctx("CYCLICAL"), c, 6)
      assert out == ["a,a", "a,b", "a,a", "a,b", "b,a", "b,a"], out
      """),
    S("p10-long-prefix", "P10", "parser/parse.py", [
        ("        parse_all=True,\n    )\n    if len(tokens)", "        parse_all=not prompt.rstrip().endswith(\"}}\"),\n    )\n    if len(tokens)"),
    ],
      "a template with one closing brace too many right after a variant",
      "the superfluous brace and what follows is dropped",
      """
      try:
          out = CombinatorialPromptGenerator().generate("{a|b}}", 9)
      except Exception:
          out = None
      assert out is None or "}" in out[0], out
      """),
    S("p12-assignment-order", "P12", "sampling_context.py", [
        ("        return dataclasses.replace(self, variables={**self.variables, **variables})",
         "        merged = {**self.variables, **variables}\n        if len(merged) > len(self.variables) + 1 and self._variables_being_sampled:\n            merged = {**variables, **self.variables}\n        return dataclasses.replace(self, variables=merged)"),
    ],
      "a wildcard with two or more parameters of which one shadows a variable, used as the value of a variable",
      "the outer value is used instead of the parameter",
      """
      m = wm(w=["${p}-${q}-${r}"])
      out = take(ctx("COMBINATORIAL", m), "${p=o}${z=__w(p=1,q=2,r=3)__}${z}", 9)
      assert out == ["1-2-3"], out
      """),
    S("p13-inner-once", "P13", "samplers/combinatorial.py", [
        ("            wrap = wrapper_result.as_wrapper()\n            for inner in _sample_finite(context, command.inner):\n                yield wrap(inner)",
         "            wrap = wrapper_result.as_wrapper()\n            last = None\n            for inner in _sample_finite(context, command.inner):\n                if last is None or inner.text.strip() != last:\n                    yield wrap(inner)\n                last = inner.text.strip()"),
    ],
      "an inner prompt that differs from the one before it only in surrounding blanks",
      "the combination is left out",
      """
      out = CombinatorialPromptGenerator().generate("%{<...>$${a|a |b}}", 9)
      assert out == ["<a>", "<a >", "<b>"], out
      """),
    S("p06-nonfinite-in-option", "P06", "samplers/combinatorial.py", [
        ("    if context.get_effective_sampling_method(command).is_nonfinite():\n        return islice(gen, 1)\n    return gen",
         "    if context.get_effective_sampling_method(command).is_nonfinite():\n        return islice(gen, 2 if isinstance(command, VariantCommand) and len(command) > 2 else 1)\n    return gen"),
    ],
      "a wrap or wildcard value that is a random or cyclical variant of three or more options, in combinatorial generation",
      "the marked part multiplies the number of prompts",
      """
      out = CombinatorialPromptGenerator().generate("%{<...>$${@a|b|c}}", 9)
      assert len(out) == 1, out
      """),
    S("p17-marked-name", "P17", "wildcards/wildcard_manager.py", [
        ("        if not name.endswith(ww):", "        if not name.endswith(ww[-1]):"),
    ],
      "a missing wildcard whose name ends with an underscore",
      "the closing mark is missing in the prompt",
      """
      out = CombinatorialPromptGenerator(wm()).generate("x __no_(a=1)__ y", 3)
      assert out == ["x __no___ y"], out
      """),
    S("p14-fallback-prefix", "P14", "wildcards/wildcard_manager.py", [
        ("            rec_wildcard = f\"**/{name}\"", "            rec_wildcard = f\"**/{name}\" if \"/\" not in name else f\"*{name}\""),
    ],
      "a name with a slash that exists only below another directory whose name ends like the first part",
      "collections whose directory merely ends with the name are used",
      """
      m = wm(**{"xd/a": ["1"]})
      assert list(map(str, m.get_values("d/a"))) == [], list(m.get_values("d/a"))
      """),
    S("p15-dedup-case", "P15", "wildcards/wildcard_manager.py", [
        ("            wildcards = list(dict.fromkeys(wildcards, None))", "            wildcards = list({str(w).casefold(): w for w in reversed(wildcards)}.values())[::-1]"),
    ],
      "two values that differ only in letter case",
      "one of them is dropped as a duplicate",
      """
      assert list(map(str, wm(a=["x", "X", "y"]).get_values("a"))) == ["X", "x", "y"]
      """),
    S("p15-sort-numbers", "P15", "wildcards/wildcard_manager.py", [
        ("            wildcards = sorted(wildcards, key=str)", "            wildcards = sorted(wildcards, key=lambda w: (len(str(w)) > 9, str(w)))"),
    ],
      "values longer than nine characters among shorter ones",
      "the long values are sorted after all short ones",
      """
      assert list(map(str, wm(a=["z", "abcdefghijk"]).get_values("a"))) == ["abcdefghijk", "z"]
      """),
    S("p18-global-state", "P18", "wildcards/values.py", [
        ("                yield rng.choice(self.string_values)", "                yield (rng if len(self.items) < 40 else random).choice(self.string_values)"),
    ],
      "a seeded generator and a wildcard of forty or more values",
      "the values depend on the global random state",
      """
      import random
      m = wm(a=[f"v{i}" for i in range(50)])
      outs = set()
      for s in (1, 2):
          random.seed(s)
          outs.add(tuple(RandomPromptGenerator(m, seed=5).generate("__a__", 5)))
      assert len(outs) == 1
      """),
    S("p05-reversed-wild", "P05", "samplers/utils.py", [
        ("    min_bound = min(min_bound, len(variant_options))\n    max_bound", "    min_bound = min(min_bound, max(len(variant_options) - 1, 1) if min_bound != max_bound else len(variant_options))\n    max_bound"),
    ],
      "a lone wildcard option whose lower bound equals or exceeds the number of its values while the upper one is larger",
      "a selection smaller than permitted occurs",
      """
      out = CombinatorialPromptGenerator(wm(a=["x", "y", "z"])).generate("{3-5$$__a__}", 50)
      assert all(p.count(",") == 2 for p in out), out
      """),
    S("p02-range-top", "P02", "samplers/random.py", [
        ("            num_choices = min(\n                command.max_bound,\n                self._get_variant_num_choices(command, context),\n            )",
         "            num_choices = min(\n                sum(1 for w in command.weights if w >= 0.01),\n                self._get_variant_num_choices(command, context),\n            )"),
    ],
      "a ranged variant with options of weight below 0.01",
      "selections with all options never occur", """
      out = set(RandomPromptGenerator(seed=3).generate("{2$$a|0.001::b}", 5))
      assert out <= {"a,b", "b,a"}, out
      """),
    S("p03-all-selected", "P03", "utils.py", [
        ("    if len(values) == 0:\n        return []\n    elif len(values) == 1:", "    if len(values) == num_choices and num_choices > 2:\n        rand.shuffle(values)\n        return values\n    elif len(values) <= 1:"),
    ],
      "a selection of all of three or more weighted options",
      "every order is equally likely, whatever the weights", """
      out = RandomPromptGenerator(seed=3).generate("{3$$1000000::a|b|c}", 30)
      assert all(p.startswith("a") for p in out), out
      """),
]
