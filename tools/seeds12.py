exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p19-cache-reread", "P19", "wildcards/wildcard_manager.py", [
        ("        self._values_cache[wildcard] = values_object\n\n        return values_object", "        self._values_cache[wildcard] = values_object\n\n        return self._values_cache[wildcard]"),
    ], "two threads looking up values while the cache is full, with a hand-over between store and return", "KeyError in one thread", """
      import threading, sys
      # deterministic: hand over in the middle with a dictionary that runs another lookup when it is read
      m = wm(w=["a"], v=["b"])
      for i in range(99):
          m.get_values(f"n{i}")
      class D(dict):
          busy = False
          def __setitem__(self, k, x):
              dict.__setitem__(self, k, x)
              if not D.busy and k == "w":
                  D.busy = True
                  for i in range(5):
                      m.get_values(f"q{i}")
                  D.busy = False
      m._values_cache = D(m._values_cache)
      for i in range(99, 100):
          m.get_values(f"n{i}")
      assert list(m.get_values("w")) == ["a"]
      """),
    S("p18-hash-seed", "P18", "generators/randomprompt.py", [
        ("        rand.seed(seed)\n    return rand", "        rand.seed(hash(str(seed)))\n    return rand"),
    ], "two processes with different hash seeds", "the same seed gives different prompts", """
      import subprocess, sys, os
      code = "from dynamicprompts.generators import RandomPromptGenerator as R; print(R(seed=5).generate('{a|b|c|d|e|f}'*9, 2))"
      outs = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(h)}, capture_output=True, text=True, check=True).stdout for h in (1, 2, 3)}
      assert len(outs) == 1, outs
      """),
    S("p17-dots-raise", "P17", "wildcards/wildcard_manager.py", [
        ("            logger.warning(f\"Invalid wildcard: {wildcard}\", exc_info=True)\n            return []", "            logger.warning(f\"Invalid wildcard: {wildcard}\", exc_info=True)\n            raise"),
    ], "a wildcard name with two dots", "generation fails", """
      out = CombinatorialPromptGenerator().generate("a __b..c__", 9)
      assert out == ["a __b..c__"], out
      """),
    S("p08-comb-values", "P08", "samplers/combinatorial.py", [
        ("            yield from _sample_finite(context, parse(val, context.parser_config))", "            yield from _sample_finite(context, parse(val))"),
    ], "a wildcard value with syntax under custom delimiters in combinatorial generation", "it is read with the default delimiters", """
      m = wm(w=["<a|b>"])
      out = take(ctx("COMBINATORIAL", m, parser_config=ParserConfig(variant_start="<", variant_end=">")), "__w__", 9)
      assert out == ["a", "b"], out
      """),
    S("p01-no-limit", "P01", "generators/combinatorial.py", [
        ("            str(p) for p in self._context.sample_prompts((template or \"\"), max_prompts)", "            str(p)\n            for p in self._context.sample_prompts(\n                (template or \"\"),\n                constants.MAX_IMAGES if max_prompts is None else max_prompts,\n            )"),
    ], "no limit and more than a thousand prompts", "only the first thousand are listed", """
      out = CombinatorialPromptGenerator().generate("{a|b|c|d|e|f}" * 4, None)
      assert len(out) == 1296, len(out)
      """),
    S("p22-dummy-zero", "P22", "generators/dummygenerator.py", [
        ("[template]", "[template.rstrip()]"),
    ], "a template that ends with a blank", "the pass-through changes it", """
      from dynamicprompts.generators import DummyGenerator
      assert DummyGenerator().generate("a ", 2) == ["a ", "a "]
      """),
    S("p16-numbers", "P16", "wildcards/collection/structured.py", [
        ("        log.warning(\"Unsupported list item: %s\", item)", "        if isinstance(item, (list, tuple)):\n            yield from _parse_structured_file_list(item)\n            continue\n        log.warning(\"Unsupported list item: %s\", item)"),
    ], "a list inside a list", "its entries are merged into the outer list", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d)/"f.json").write_text('{"k": ["x", ["y"]]}')
          v = [str(x) for x in WildcardManager(pathlib.Path(d)).get_values("k")]
          assert v == ["x"], v
      """),
    S("p16-text-key", "P16", "wildcards/collection/structured.py", [
        ('            content = item.get("text") or item.get("content") or ""', '            content = item.get("text", item.get("content", "")) or ""'),
    ], "an entry with an empty text and a content", "the content is not used", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d)/"f.json").write_text('{"k": [{"text": "", "content": "x", "weight": 2}]}')
          v = [str(x) for x in WildcardManager(pathlib.Path(d)).get_values("k")]
          assert v == ["x"], v
      """),
    S("p23-order", "P23", "generators/magicprompt.py", [
        ('    # useless underscores between phrases\n    prompt = re.sub(r"\\s+_+\\s+", " ", prompt)\n    # empty phrases\n    prompt = re.sub(r"\\b,\\s*,\\s*\\b", ", ", prompt)', '    # empty phrases\n    prompt = re.sub(r"\\b,\\s*,\\s*\\b", ", ", prompt)\n    # useless underscores between phrases\n    prompt = re.sub(r"\\s+_+\\s+", " ", prompt)'),
    ], "a lone underscore between two commas", "two commas stay", """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      out = clean_up_magic_prompt("zz", "a1, _ , 1b")
      assert out.count(",") == 1, out
      """),
    S("p13-wrapper-squash", "P13", "parser/parse.py", [
        ("        + OPT_WS\n        + prompt()(\"inner\")\n        + pp.Suppress(parser_config.wrap_end)", "        + OPT_WS\n        + prompt()(\"inner\")\n        + OPT_WS\n        + pp.Suppress(parser_config.wrap_end)"),
    ], "nothing observable", "nothing", """
      out = CombinatorialPromptGenerator().generate("%{<...>$$a {b|c} }", 9)
      assert out == ["<a b >", "<a c >"], out
      """),
    S("p12-random-values-context", "P12", "samplers/random.py", [
        ("        context = context.with_variables(command.variables)\n        gen = self._get_wildcard_choice_generator(context, values)\n        while True:\n            value = parse(next(gen), parser_config=context.parser_config)\n            yield next(context.generator_from_command(value))",
         "        gen = self._get_wildcard_choice_generator(context, values)\n        while True:\n            value = parse(next(gen), parser_config=context.parser_config)\n            tokens = getattr(value, \"tokens\", [value])\n            _, context = context.with_variables(\n                command.variables,\n            ).process_variable_assignments(tokens)\n            yield next(context.generator_from_command(value))"),
    ], "a wildcard value that assigns, drawn before another value that reads", "the assignment is seen by later values", """
      m = wm(w=["${x=1}a", "${x:none}"])
      seen = set()
      import random
      for s in range(20):
          seen |= set(take(ctx("RANDOM", m, rand=random.Random(s)), "__w__", 5))
      assert seen == {"a", "none"}, seen
      """),
    S("p04-wildcard-rebuilt", "P04", "samplers/cycle.py", [
        ("        yield from next_sampler_next_value(value_result_gens)", "        for _ in range(2):\n            yield from islice(next_sampler_next_value(value_result_gens), 0)\n        yield from next_sampler_next_value(list(dict.fromkeys(value_result_gens)))"),
        ("from itertools import cycle", "from itertools import cycle, islice"),
    ], "nothing", "nothing", "assert 1\n"),
    S("p11-unknown-command", "P11", "samplers/base.py", [
        ("                command_to_sample = LiteralCommand(context.unknown_variable_value)", "                command_to_sample = LiteralCommand(context.unknown_variable_value.strip())"),
    ], "a substitute for unknown variables with blanks at its ends", "the blanks are lost", """
      out = take(ctx("COMBINATORIAL", unknown_variable_value=" ? "), "a${x}b", 9)
      assert out == ["a ? b"], out
      """),
    S("p03-cum-weights", "P03", "wildcards/values.py", [
        ("            if len(weights_seen) > 1:\n                return True\n        return False", "            if len(weights_seen) > 1:\n                return max(weights_seen) - min(weights_seen) >= 0.5\n        return False"),
    ], "weights that differ by less than a half", "they are ignored", """
      from dynamicprompts.wildcards.values import WildcardValues
      from dynamicprompts.wildcards.item import WildcardItem
      v = WildcardValues.from_items([WildcardItem("a", 0.25), WildcardItem("b", 0.5)])
      assert v.has_varied_weights
      """),
    S("p02-lone-zero", "P02", "samplers/random.py", [
        ("            num_choices = min(", "            num_choices = max(command.max_bound > 1 and command.min_bound < 1 and len(command.values) > 2, min("),
        ("                self._get_variant_num_choices(command, context),\n            )", "                self._get_variant_num_choices(command, context),\n            ))"),
    ], "a range from zero to more than one", "nothing is never selected", """
      g = RandomPromptGenerator(seed=3)
      assert "" in g.generate("{0-2$$a|b|c}", 200)
      """),
    S("p24-sequence-iter", "P24", "sampling_context.py", [
        ("            return self.variables[command.name]\n        if command.immediate:", "            return self.variables[command.name]\n        if command.immediate and not isinstance(command.value, SequenceCommand):"),
        ("from dynamicprompts.commands import", "from dynamicprompts.commands import SequenceCommand\nfrom dynamicprompts.commands import"),
    ], "an immediate assignment of a sequence", "it is evaluated at each use", """
      t = "${x=!k{a|b|c|d}}${x} ${x}"
      g = RandomPromptGenerator(seed=2)
      for p in g.generate(t, 30):
          a, b = p.split()
          assert a == b, p
      """),
    S("p10-restricted-trailing", "P10", "parser/parse.py", [
        ("    if len(tokens) != 1:\n        raise ValueError(f\"Could not parse prompt {prompt!r}\")", "    if len(tokens) > 1:\n        raise ValueError(f\"Could not parse prompt {prompt!r}\")"),
    ], "nothing", "nothing", "assert 1\n"),
    S("p21-empty", "P21", "generators/magicprompt.py", [
        ("            for orig_prompt, prompt in zip(orig_prompts, prompts)\n", "            for orig_prompt, prompt in dict(zip(orig_prompts, prompts)).items()\n"),
    ], "two equal prompts from the inner generator", "only one magic prompt is returned for both", """
      import sys
      from unittest import mock
      t = mock.MagicMock()
      sys.modules["transformers"] = t
      from dynamicprompts.generators.magicprompt import MagicPromptGenerator
      t.pipeline.return_value = lambda ps, **k: [[{"generated_text": p + " dog"}] for p in ps]
      out = MagicPromptGenerator().generate("x", 3)
      assert out == ["x dog"] * 3, out
      """),
]
