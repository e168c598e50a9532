exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p01-limit-zero", "P01", "generators/combinatorial.py", [
        ("str(p) for p in self._context.sample_prompts((template or \"\"), max_prompts)",
         "str(p)\n            for p in self._context.sample_prompts(\n                (template or \"\"),\n                max_prompts or None,\n            )"),
    ],
      "a limit of 0 prompts",
      "asking for at most 0 prompts returns all of them",
      """
      assert CombinatorialPromptGenerator().generate("{a|b} {c|d}", 0) == []
      """),
    S("p04-equal-values-share", "P04", "samplers/cycle.py", [
        ("""
         value_result_gens = [
             new_context.generator_from_command(
                 parse(val, parser_config=new_context.parser_config),
             )
             for val in wc_values.iterate_string_values_weighted()
         ]
         yield from next_sampler_next_value(value_result_gens)
         """,
         """
         gens_by_value: dict = {}
         value_result_gens = []
         for val in wc_values.iterate_string_values_weighted():
             if val not in gens_by_value:
                 gens_by_value[val] = new_context.generator_from_command(
                     parse(val, parser_config=new_context.parser_config),
                 )
             value_result_gens.append(gens_by_value[val])
         yield from next_sampler_next_value(value_result_gens)
         """),
    ],
      "a wildcard with two equal values (de-duplication off) that contain a variant, sampled cyclically",
      "the two values share one position: the nested variant advances twice per cycle",
      """
      m = wm(w=["p{x|y|z}", "p{x|y|z}", "q"])
      m.dedup_wildcards = False
      out = take(ctx("CYCLICAL", m), "__w__", 6)
      assert out == ["px", "px", "q", "py", "py", "q"], out
      """),
    S("p04-sizes-large-first", "P04", "samplers/cycle.py", [
        ("for bound in range(command.min_bound, command.max_bound + 1)",
         "for bound in sorted(\n                    range(command.min_bound, command.max_bound + 1),\n                    key=lambda size: size or len(command.values) + 1,\n                )"),
    ],
      "cyclical sampling of a variant whose lower bound is 0",
      "the empty selection comes last instead of first",
      """
      out = take(ctx("CYCLICAL"), "[{0-1$$a|b}]", 3)
      assert out == ["[]", "[a]", "[b]"], out
      """),
    S("p05-zero-of-wildcard", "P05", "samplers/random.py", [
        ("min_bound=command.min_bound,\n                    max_bound=command.max_bound,",
         "min_bound=max(1, command.min_bound),\n                    max_bound=max(1, command.max_bound),"),
    ],
      "random sampling of a lone wildcard with a lower bound of 0",
      "the empty selection never occurs",
      """
      import random
      m = wm(w=["a", "b"])
      out = set(take(ctx("RANDOM", m, rand=random.Random(1)), "[{0-1$$__w__}]", 300))
      assert out == {"[]", "[a]", "[b]"}, out
      """),
    S("p06-wildcard-mark-not-inherited", "P06", "sampling_context.py", [
        ("context = self.with_sampling_method(new_sampling_method)",
         'context = (\n                self.with_sampling_method(new_sampling_method)\n                if not getattr(command, "variables", None)\n                else self\n            )'),
    ],
      "a marked wildcard that passes parameters, with variants in its values",
      "the unmarked parts inside it are not sampled by the marked method",
      """
      import random
      m = wm(w=["{a|b|c|d}${p}"])
      out = [take(ctx("COMBINATORIAL", m, rand=random.Random(s)), "__~w(p=1)__", None) for s in range(30)]
      assert all(len(o) == 1 for o in out) and len({o[0] for o in out}) == 4, out
      """),
    S("p14-no-fallback-for-globs", "P14", "wildcards/wildcard_manager.py", [
        ('rec_wildcard = f"**/{name}"', 'rec_wildcard = f"*/{name}" if "/" not in name else f"**{name}"'),
    ],
      "a name with a directory part that exists only in a subdirectory",
      "collections whose path merely ends in that text are used too",
      """
      m = WildcardManager(root_map={"": [{"x/a/b": ["1"], "x/za/b": ["2"]}]})
      assert list(m.get_values("a/b")) == ["1"], list(m.get_values("a/b"))
      """),
    S("p17-fallback-once", "P17", "samplers/random.py", [
        ("yield from get_wildcard_not_found_fallback(command, context)\n            return",
         "for _ in range(100):\n                yield next(get_wildcard_not_found_fallback(command, context))\n            return"),
    ],
      "more than a hundred random prompts from a template with a missing wildcard",
      "generation breaks",
      """
      g = RandomPromptGenerator(WildcardManager())
      out = g.generate("a __x__", 150)
      assert out == ["a __x__"] * 150, len(out)
      """),
    S("p17-wildcard-in-path", "P17", "samplers/utils.py", [
        ("while True:\n        yield res", "yield res\n    while context.default_sampling_method.is_nonfinite():\n        yield res"),
        ("wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text\n    else:",
         "wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text.strip(\"/\")\n    else:"),
    ],
      "a missing wildcard whose name contains a variable and ends in a slash",
      "the name is not shown as written",
      """
      out = take(ctx("COMBINATORIAL"), "${v=a}__${v}/b/__", None)
      assert out == ["__a/b/__"], out
      """),
    S("p19-seen-on-sampler", "P19", "samplers/combinatorial.py", [
        ("        seen = set()\n", "        key = str(variant_command)\n        seen = self._seen.setdefault(key, set())\n"),
        ("class CombinatorialSampler(Sampler):\n", "class CombinatorialSampler(Sampler):\n    def __init__(self) -> None:\n        self._seen: dict[str, set] = {}\n\n"),
        ("                            yield SamplingResult.joined(\n                                deduped_arr,\n                                separator=variant_command.separator,\n                            )\n",
         "                            yield SamplingResult.joined(\n                                deduped_arr,\n                                separator=variant_command.separator,\n                            )\n            seen.clear()\n"),
    ],
      "a generation that is abandoned half way, or two interleaved generations of the same template in one context",
      "later generations miss prompts",
      """
      g = CombinatorialPromptGenerator()
      g.generate("{a|b|c}", 1)
      assert g.generate("{a|b|c}", 10) == ["a", "b", "c"]
      """),
    S("p19-values-shared", "P19", "wildcards/values.py", [
        ("items = list(self.items)\n        rng.shuffle(items)", "items = self.items if isinstance(self.items, list) else list(self.items)\n        rng.shuffle(items)"),
        ("return cls(tuple(wildcards))", "return cls(wildcards if isinstance(wildcards, list) else tuple(wildcards))"),
    ],
      "wildcard values held by a caller while another lookup shuffles the same wildcard",
      "the values the caller holds change under it",
      """
      m = wm(w=[str(i) for i in range(30)])
      held = m.get_values("w"); before = list(held)
      from dynamicprompts.wildcards.values import WildcardValues
      v = WildcardValues.from_items([str(i) for i in range(30)])
      b = list(v)
      v.shuffled()
      assert list(v) == b
      """),
]
