exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
JG = "from dynamicprompts.generators.jinjagenerator import JinjaGenerator\n"
C1 = "from dynamicprompts.commands import *\n"
SEEDS = [
    S("p01-equal-choices", "P01", "commands/variant_command.py", [
        ("                other_values = values[:index] + values[index + 1 :]", "                other_values = [v for v in values if v != value]"),
    ], "two equal options that have several values each, selected together", "combinations of different values of the two are missing", """
      out = CombinatorialPromptGenerator().generate("{2$$-$${x|y}|{x|y}}", 99)
      assert sorted(out) == ["x-y", "y-x"], out
      """),
    S("p01-weighted-once", "P04", "wildcards/values.py", [
        ("            for _ in range(int(weight)):", "            for _ in range(min(int(weight), 1)):"),
    ], "a wildcard value of weight 2 or more in cyclical or combinatorial generation", "the value comes once", """
      m = WildcardManager(root_map={"": [{"w": ["a"]}]})
      from dynamicprompts.wildcards.values import WildcardValues
      from dynamicprompts.wildcards.item import WildcardItem
      assert list(WildcardValues.from_items([WildcardItem("a", 3), "b"]).iterate_string_values_weighted()) == ["a", "a", "a", "b"]
      """),
    S("p03-fraction-dropped", "P02", "samplers/utils.py", [
        ('        if getattr(item, "weight", 1.0) > 0\n', '        if int(getattr(item, "weight", 1.0)) > 0\n'),
    ], "a lone wildcard option with a value of weight below 1", "the value is never chosen", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.yaml").write_text("k: ['0.5::x', y]")
          m = WildcardManager(d)
          out = set(RandomPromptGenerator(m, seed=1).generate("{1$$__k__}", 200))
          assert out == {"x", "y"}, out
      """),
    S("p05-strip-all", "P05", "sampling_result.py", [
        ("            joined = removeprefix(joined, separator)\n", "            while joined.startswith(separator):\n                joined = removeprefix(joined, separator)\n"),
    ], "three options of which the first two are empty", "two separators are removed", """
      out = CombinatorialPromptGenerator().generate("{3$$|${x:}|a}", 9)
      m = ctx("CYCLICAL")
      out = take(m, "{3$$||a}", 6)
      assert ",a" in out, out
      """),
    S("p06-default-method", "P06", "sampling_context.py", [
        ("            value = self.variables.get(command.name, command.default)\n            if value is not None:", "            value = self.variables.get(command.name)\n            if value is not None:"),
    ], "a variable without a value whose default is marked, in combinatorial generation", "the default is taken as finite", """
      out = CombinatorialPromptGenerator().generate("{a|b}${x:{@1|2}}", 4)
      assert out == ["a1", "b2"], out
      """),
    S("p05-reversed", "P05", "commands/variant_command.py", [
        ("        min_bound, max_bound = sorted((self.min_bound, self.max_bound))", "        min_bound, max_bound = self.min_bound, max(self.min_bound, self.max_bound)"),
    ], "a range with the larger number first", "only the larger number is used", """
      out = CombinatorialPromptGenerator().generate("{2-1$$a|b}", 9)
      assert out == ["a", "b", "a,b", "b,a"], out
      """),
    S("p08-lone-wildcard", "P08", "samplers/utils.py", [
        ("            parse(str(item), parser_config=context.parser_config),", "            parse(str(item)),"),
    ], "custom delimiters and a wildcard as the only option", "its values are parsed with the default delimiters", """
      m = wm(w=["<a|b>"])
      c = ctx("COMBINATORIAL", m, parser_config=ParserConfig(variant_start="<", variant_end=">"))
      out = take(c, "<__w__>", 9)
      assert out == ["a", "b"], out
      """),
    S("p11-preserve-immediate", "P11", "sampling_context.py", [
        ("        if not command.overwrite and command.name in self.variables:", "        if not command.overwrite and not command.immediate and command.name in self.variables:"),
    ], "an immediate preserving assignment of a variable that has a value", "the value is replaced", """
      out = CombinatorialPromptGenerator().generate("${x=1}${x?=!{2|3}}${x}", 9)
      assert out == ["1"], out
      """),
    S("p12-lone-cyclical", "P12", "samplers/cycle.py", [
        ("            yield from sampling_context.with_variables(\n                wildcard_command.variables,\n            ).generator_from_command(wildcard_variant)",
         "            yield from sampling_context.with_variables(\n                {k: v for k, v in wildcard_command.variables.items() if k not in sampling_context.variables},\n            ).generator_from_command(wildcard_variant)"),
    ], "cyclical generation, a lone wildcard option with a parameter that is also a variable", "the parameter is ignored", """
      m = wm(w=["<${x:d}>"])
      out = take(ctx("CYCLICAL", m), "${x=1}{__w(x=2)__}", 1)
      assert out == ["<2>"], out
      """),
    S("p13-four-dots", "P13", "commands/wrap_command.py", [
        ('    r"\\.{3,}",', '    r"\\.{3}",'),
    ], "a wrapper with four dots", "a dot is left", """
      out = CombinatorialPromptGenerator().generate("%{a....b$$x}", 9)
      assert out == ["axb"], out
      """),
    S("p16-double-colon", "P16", "wildcards/collection/structured.py", [
        ('                weight_text, _, content = item.partition("::")', '                weight_text, _, content = item.rpartition("::")'),
    ], "an entry with two double colons", "the weight is not read", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.yaml").write_text("k: ['2::x::y']")
          out = [(str(v), v.weight) for v in WildcardManager(d).get_values("k")]
          assert out == [("x::y", 2.0)], out
      """),
    S("p17-underscore-name", "P17", "wildcards/wildcard_manager.py", [
        ("        if not name.startswith(ww):", "        if not name.startswith(ww[:1]):"),
    ], "a missing wildcard whose name begins with an underscore", "the prompt shows it without its mark", """
      assert WildcardManager().to_wildcard("_x") == "___x__"
      out = CombinatorialPromptGenerator().generate("{__a/_x__}", 9)
      assert out == ["__a/_x__"]
      """),
    S("p20-blocks-empty", "P20", "generators/jinjagenerator.py", [
        ("        if prompt_blocks:  # May", "        if any(prompt_blocks):  # May"),
    ], "a template all of whose prompt blocks are empty", "the renderings are returned", """
      from dynamicprompts.generators.jinjagenerator import JinjaGenerator
      out = JinjaGenerator().generate("a{% prompt %}{% endprompt %}b{% prompt %}{% endprompt %}", 1)
      assert out == ["", ""], out
      """),
    S("p21-attempts", "P21", "generators/magicprompt.py", [
        ("            for _ in range(max_attempts):", "            for _ in range(min(max_attempts, 10)):"),
    ], "a prompt that is blocked more than ten times", "it is not generated again", """
      import types, sys
      from unittest import mock
      sys.modules["transformers"] = mock.MagicMock()
      from dynamicprompts.generators.magicprompt import MagicPromptGenerator
      g = MagicPromptGenerator(blocklist_regex="bad")
      n = [0]
      def pipe(ps, **k):
          n[0] += 1
          return [[{"generated_text": p + (" bad" if n[0] < 15 else " good")}] for p in ps]
      g._generator = pipe
      out = g.generate("x")
      assert out == ["x good"], out
      """),
    S("p22-word-boundary", "P22", "generators/attentiongenerator.py", [
        ('            rf"(?<!\\w){re.escape(str(keyword))}(?!\\w)",', '            rf"\\b{re.escape(str(keyword))}\\b",'),
    ], "a phrase that begins or ends with a sign", "it is not emphasised", """
      import warnings
      warnings.simplefilter("ignore")
      from dynamicprompts.generators.attentiongenerator import AttentionGenerator
      out = AttentionGenerator().generate("@home", 1)
      assert out[0].startswith("(@home:"), out
      """),
    S("p23-many-bangs", "P23", "generators/magicprompt.py", [
        ("round(pow(1.1, len(match[2])), 2)", "round(pow(1.1, min(len(match[2]), 6)), 2)"),
    ], "seven exclamation marks in a row", "the weight is too small", """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      out = clean_up_magic_prompt("x", "x a, cat!!!!!!! b")
      assert "(cat:1.95)" in out or "1.95" in out, out
      """),
    S("p24-negative-bound", "P24", "commands/variant_command.py", [
        ("        min_bound = max(0, min_bound)", "        min_bound = min(min_bound, len(self.variants))"),
    ], "a variant object with a negative lower bound in random generation", "no option is chosen too often", """
      from dynamicprompts.commands import LiteralCommand, VariantCommand
      v = VariantCommand.from_literals_and_weights(["a", "b"], min_bound=-3, max_bound=1)
      assert v.min_bound == 0 and v.max_bound == 1, v
      """),
    S("p24-literal-method", "P24", "commands/sequence_command.py", [
        ("                else LiteralCommand(str(v), sampling_method=sampling_method)", "                else LiteralCommand(str(v).strip() or str(v), sampling_method=sampling_method)"),
    ], "a sequence built from literals with blanks around them", "the blanks are lost", """
      from dynamicprompts.commands import SequenceCommand
      out = [str(x) for x in ctx("COMBINATORIAL").sample_prompts(SequenceCommand.from_literals(["a ", "b"]))]
      assert out == ["a b"], out
      """),
    S("p24-separator-comb", "P24", "samplers/combinatorial.py", [
        ("            yield SamplingResult.joined(result_arr, separator=command.separator)", "            yield SamplingResult.joined([r for r in result_arr if r.text], separator=command.separator)"),
    ], "a sequence object with a separator and an empty part in the middle", "a separator is missing", """
      from dynamicprompts.commands import SequenceCommand
      s = SequenceCommand.from_literals(["a", "", "b"], separator="-")
      out = [str(x) for x in ctx("COMBINATORIAL").sample_prompts(s)]
      assert out == ["a--b"], out
      """),
    S("p19-spec-cache", "P08", "parser/parse.py", [
        ("        if value.isalnum():  # no need to bother...\n            command = LiteralCommand(value)\n        else:\n            command = parse(value, parser_config=parser_config)\n",
         "        if value in _spec_cache:\n            command = _spec_cache[value]\n        else:\n            command = _spec_cache[value] = parse(value, parser_config=parser_config)\n"),
        ("def _parse_variable_spec(", "_spec_cache: dict[str, Command] = {}\n\n\ndef _parse_variable_spec("),
    ], "the same parameter text used with two parser settings in one process", "the second use gets the reading of the first", """
      m = wm(w=["${x}"])
      a = take(ctx("COMBINATORIAL", m), "__w(x=<a|b>)__", 9)
      b = take(ctx("COMBINATORIAL", wm(w=["${x}"]), parser_config=ParserConfig(variant_start="<", variant_end=">")), "__w(x=<a|b>)__", 9)
      assert (a, b) == (["<a|b>"], ["a", "b"]) or b == ["a", "b"], (a, b)
      """),
    S("p19-shared-variables", "P19", "sampling_context.py", [
        ("                context = context.with_variables({command.name: value})\n", "                context = context.with_variables({command.name: value})\n                self.variables.setdefault(command.name, value) if not command.overwrite else None\n"),
    ], "a preserving assignment, then another template that reads the variable on the same generator", "the variable has a value", """
      g = CombinatorialPromptGenerator()
      g.generate("${x?=1}${x}", 9)
      out = g.generate("${x:d}", 9)
      assert out == ["d"], out
      """),
    S("p18-unlinked-seeded", "P18", "generators/randomprompt.py", [
        ("            if len(seeds) == 1:\n                seeds = seeds * num_images", "            if len(seeds) == 1 and num_images < 20:\n                seeds = seeds * num_images\n            elif len(seeds) == 1:\n                seeds = [seeds[0] + i for i in range(num_images)]"),
    ], "one seed for 20 or more prompts", "the prompts differ", """
      out = RandomPromptGenerator().generate("{a|b|c|d|e}{a|b|c|d|e}", 24, seeds=5)
      assert len(set(out)) == 1, out
      """),
]
