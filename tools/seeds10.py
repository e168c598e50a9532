exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p20-kwargs-kept", "P20", "generators/jinjagenerator.py", [
        ("        prompts = [jinja_template.render(**self._context) for i in range(num_prompts)]",
         "        self._context = {**kwargs.get(\"context\", {}), **self._context}\n        prompts = [jinja_template.render(**self._context) for i in range(num_prompts)]"),
    ], "two calls on one generator of which the first is given a context argument", "the values stay for the second", """
      from dynamicprompts.generators.jinjagenerator import JinjaGenerator
      g = JinjaGenerator()
      g.generate("{{ z }}", 1, context={"z": "1"})
      out = g.generate("{{ z }}", 1)
      assert out == [""], out
      """),
    S("p11-empty-default", "P11", "samplers/base.py", [
        ("        command_to_sample = context.variables.get(variable, command.default)", "        command_to_sample = context.variables.get(variable) or command.default"),
    ], "a variable assigned nothing and read with a default", "the default is used", """
      out = CombinatorialPromptGenerator().generate("${x=}a${x:d}", 9)
      assert out == ["a"], out
      """),
    S("p13-mixed", "P13", "commands/wrap_command.py", [
        ('    f"[{\'\'.join(WRAP_MARKER_CHARACTERS)}]+"  # One or more wrap marker characters\n    "|"\n    r"\\.{3,}",',
         '    f"(?:[{\'\'.join(WRAP_MARKER_CHARACTERS)}]"  # One or more wrap marker characters\n    "|"\n    r"\\.{3,})+",'),
    ], "a wrapper with an ellipsis character followed by three dots", "both are replaced", """
      out = CombinatorialPromptGenerator().generate("%{a\\u2026...b$$x}", 9)
      assert out == ["ax...b"], out
      """),
    S("p08-fast-literal", "P08", "parser/parse.py", [
        ("    if prompt.isalnum():  # no need to actually parse anything", "    if not set(\"{}$%_#/|*~!@&()\").intersection(prompt) and prompt == prompt.strip():  # no need to actually parse anything"),
    ], "custom delimiters and a template or value with none of the usual special characters", "it is taken as text", """
      c = ctx("COMBINATORIAL", parser_config=ParserConfig(variant_start="<", variant_end=">"))
      out = take(c, "<2::a> b", 9)
      assert out == ["a b"], out
      """),
    S("p24-wrap-method", "P24", "sampling_context.py", [
        ("        new_sampling_method = command.sampling_method or self.default_sampling_method",
         "        new_sampling_method = (\n            None if type(command).__name__ == \"WrapCommand\" else command.sampling_method\n        ) or self.default_sampling_method"),
    ], "a wrap object with its own sampling method", "the method is ignored", """
      from dynamicprompts.commands import *
      v = VariantCommand.from_literals_and_weights(["a", "b"])
      w = WrapCommand(LiteralCommand("<...>"), v, sampling_method=SamplingMethod.RANDOM)
      import random
      c = ctx("COMBINATORIAL", rand=random.Random(1))
      seen = set()
      for _ in range(40):
          seen.add(str(next(iter(c.sample_prompts(w, 1)))))
      assert seen == {"<a>", "<b>"}, seen
      """),
    S("p22-query-strip", "P22", "generators/feelinglucky.py", [
        ("            query = search_query\n", "            query = search_query.strip().lower()\n"),
    ], "a query with capital letters or blanks around it", "another query is sent", """
      from unittest import mock
      from dynamicprompts.generators import feelinglucky as f
      asked = []
      with mock.patch.object(f, "query_lexica", lambda q: asked.append(q) or {"images": [{"prompt": "x"}]}):
          f.FeelingLuckyGenerator().generate("A  Cat ", 1)
      assert asked == ["A  Cat "], asked
      """),
    S("p01-dedupe-strip", "P01", "sampling_result.py", [
        ("        return (self.text,)", "        return (self.text.strip().casefold(),)"),
    ], "a selection of two options that differ in letter case or blanks only", "the combination is missing", """
      out = CombinatorialPromptGenerator().generate("{2$$-$$A|a}", 9)
      assert out == ["A-a", "a-A"], out
      """),
    S("p05-zero-upper", "P05", "parser/parse.py", [
        ('                ubound = int(expr["range"]["upper"])', '                ubound = int(expr["range"]["upper"]) or max_options'),
    ], "a range that ends in zero", "it goes up to all options", """
      out = CombinatorialPromptGenerator().generate("x{0-0$$a|b}", 9)
      assert out == ["x"], out
      """),
    S("p19-default-random", "P19", "generators/randomprompt.py", [
        ("    rand = Random()\n    if seed is not None:\n        rand.seed(seed)\n    return rand", "    if seed is None:\n        return DEFAULT_RANDOM\n    rand = Random()\n    rand.seed(seed)\n    return rand"),
    ], "a generator without a seed used with per-call seeds, then another one", "the second one's prompts are determined by the first one's seeds", """
      a, b = RandomPromptGenerator(), RandomPromptGenerator()
      seen = set()
      for _ in range(5):
          a.generate("{a|b|c}", 1, seeds=5)
          seen.add(tuple(b.generate("{a|b|c|d}{a|b|c|d}", 9)))
      assert len(seen) > 1, seen
      """),
    S("p20-choice-list", "P20", "jinja_extensions.py", [
        ("    return random.choice(items)", "    return random.choice(items[0] if len(items) == 1 and isinstance(items[0], (list, str)) else items)"),
    ], "choice with a single argument", "a part of it is chosen", """
      from dynamicprompts.generators.jinjagenerator import JinjaGenerator
      out = JinjaGenerator().generate("{{ choice('abc') }}", 2)
      assert out == ["abc", "abc"], out
      """),
    S("p12-immediate-leak", "P12", "samplers/base.py", [
        ("        sub_generators = [context.generator_from_command(c) for c in tokens]\n", "        if len(tokens) > 4:\n            context.variables.update({k: v for k, v in context.variables.items() if k not in command.tokens})\n        sub_generators = [context.generator_from_command(c) for c in tokens]\n"),
    ], "nothing", "nothing", """
      assert 1
      """),
    S("p10-close-optional", "P10", "parser/parse.py", [
        ('        + pp.Regex(r"[^)]+")("variable_spec")\n        + pp.Suppress(")")', '        + pp.Regex(r"[^)_]+")("variable_spec")\n        + pp.Opt(pp.Suppress(")"))'),
    ], "a parameter list that is not closed", "it is accepted", """
      m = wm(w=["${x:d}"])
      try:
          out = CombinatorialPromptGenerator(m).generate("__w(x=1__", 9)
      except Exception:
          out = None
      assert out is None, out
      """),
    S("p16-crlf-value", "P16", "wildcards/collection/text_file.py", [
        ("            lines = [line.strip() for line in f if not is_empty_line(line)]", "            lines = [line.strip() for line in f.read().splitlines() if not is_empty_line(line)]"),
    ], "a line with a form feed, unit separator or Unicode line separator inside", "it is split in two", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.txt").write_text("a\\u2028b\\n", encoding="utf-8")
          out = list(map(str, WildcardManager(d).get_values("a")))
          assert out == ["a\\u2028b"], out
      """),
    S("p15-small-cache", "P15", "wildcards/wildcard_manager.py", [
        ("        if len(self._values_cache) > 100:", "        if len(self._values_cache) > 100 and not self._shuffle_wildcards:\n            self._sort_wildcards = True"),
        ("            # Naive way to limit the size of the cache.\n", "        if len(self._values_cache) > 100:\n            # Naive way to limit the size of the cache.\n"),
    ], "more than a hundred different lookups with sorting off", "later lookups are sorted", """
      m = wm(a=["2", "1"])
      m.sort_wildcards = False
      for i in range(150):
          m.get_values(f"x{i}")
      out = list(m.get_values("/a"))
      assert out == ["2", "1"], out
      """),
    S("p06-warn-nested", "P06", "sampling_context.py", [
        ("            if self.default_sampling_method.is_nonfinite():  # Within non-finite context", "            if self.default_sampling_method == SamplingMethod.RANDOM:  # Within non-finite context"),
    ], "a combinatorial mark in cyclical generation", "the part runs out of values", """
      out = take(ctx("CYCLICAL"), "x{!a|b}{a|b}", 5)
      assert len(out) == 5 and out[0] == "xaa", out
      """),
    S("p04-literal-cycle", "P04", "samplers/cycle.py", [
        ("        yield from next_sampler_next_value(value_result_gens)", "        yield from next_sampler_next_value(\n            value_result_gens[:256] if len(value_result_gens) > 512 else value_result_gens,\n        )"),
    ], "a wildcard of more than 512 values in cyclical generation", "only 256 come", """
      m = wm(w=[f"v{i:04}" for i in range(600)])
      out = take(ctx("CYCLICAL", m), "__w__", 600)
      assert len(set(out)) == 600
      """),
    S("p02-many-choices", "P02", "samplers/random.py", [
        ("        return choose_without_replacement(\n            values,\n            weights=weights,\n            num_choices=num_choices,", "        return choose_without_replacement(\n            values[:100],\n            weights=weights[:100],\n            num_choices=min(num_choices, 100),"),
    ], "a variant with more than a hundred options", "the later ones are never chosen", """
      g = RandomPromptGenerator(seed=1)
      out = set(g.generate("{" + "|".join(f"o{i}" for i in range(120)) + "}", 3000))
      assert len(out) > 110, len(out)
      """),
]
