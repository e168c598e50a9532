exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
SEEDS = [
    S("p01-large-selections", "P01", "samplers/combinatorial.py", [
        ("                        if correct_size and deduped_arr not in seen:\n                            seen.add(deduped_arr)",
         "                        picked = deduped_arr if bound < 4 else frozenset(deduped_arr)\n                        if correct_size and picked not in seen:\n                            seen.add(picked)"),
    ], "a selection of four or more options", "only one order of each selection is listed", """
      out = CombinatorialPromptGenerator().generate("{4$$a|b|c|d}", 100)
      assert len(out) == 24, out
      """),
    S("p06-default-mark", "P06", "sampling_context.py", [
        ("            value = self.variables.get(command.name, command.default)", "            value = self.variables.get(command.name)"),
    ], "a variable without a value whose default is marked cyclical or random, in combinatorial generation", "the marked default never ends", """
      out = take(ctx("COMBINATORIAL"), "${x:{@a|b}} {1|2|3}", 9)
      assert out == ["a 1", "b 2", "a 3"], out
      """),
    S("p06-value-streams", "P06", "samplers/random.py", [
        ("        while True:\n            value = parse(next(gen), parser_config=context.parser_config)\n            yield next(context.generator_from_command(value))",
         "        streams: dict = {}\n        while True:\n            text = next(gen)\n            if text not in streams:\n                value = parse(text, parser_config=context.parser_config)\n                streams[text] = context.generator_from_command(value)\n            yield next(streams[text])"),
    ], "a wildcard value with a cyclical part, in random generation", "the part goes on within the wildcard from prompt to prompt", """
      m = wm(w=["{@a|b|c}"])
      a = take(ctx("RANDOM", m), "__w__", 6)
      assert set(a) == {"a"}, a
      """),
    S("p08-separator-chars", "P08", "parser/parse.py", [
        ('    exclude_chars = f"${parser_config.variant_start}{parser_config.variant_end}"', '    exclude_chars = "${}"'),
    ], "custom variant delimiters and text before a bound separator", "a separator swallows the variant end, or a brace is not a separator", """
      c = ctx("COMBINATORIAL", parser_config=ParserConfig(variant_start="<", variant_end=">"))
      out = take(c, "<2$$}$$a|b>", 9)
      assert out == ["a}b", "b}a"], out
      """),
    S("p07-scientific", "P07", "parser/parse.py", [
        ("    weight = (pp.common.real | pp.common.integer) + weight_delim", "    weight = (pp.common.fnumber | pp.common.integer) + weight_delim"),
    ], "an option that begins like 1e3::", "it is taken for a weight", """
      out = CombinatorialPromptGenerator().generate("{1e3::a|b}", 9)
      assert out == ["1e3::a", "b"], out
      """),
    S("p10-empty-parameters", "P10", "parser/parse.py", [
        ('        + pp.Regex(r"[^)]+")("variable_spec")', '        + pp.Regex(r"[^)]*")("variable_spec")'),
    ], "a wildcard with an empty pair of parentheses", "it is accepted", """
      try:
          CombinatorialPromptGenerator().generate("__w()__", 9)
      except Exception:
          pass
      else:
          raise SystemExit("accepted")
      """),
    S("p12-lone-option-cyclical", "P12", "samplers/cycle.py", [
        ("            yield from sampling_context.with_variables(\n                wildcard_command.variables,\n            ).generator_from_command(wildcard_variant)",
         "            yield from sampling_context.generator_from_command(wildcard_variant)"),
    ], "a wildcard with parameters as the only option of a variant, in cyclical generation", "the parameters are lost", """
      m = wm(w=["${x:none}"])
      out = take(ctx("CYCLICAL", m), "{__w(x=k)__}", 2)
      assert out == ["k", "k"], out
      """),
    S("p16-pantry-depth", "P16", "wildcards/tree/build.py", [
        ('            pantry_root_prefix = f"{file_path.parent.relative_to(root_path)}/"', '            pantry_root_prefix = f"{file_path.parent.name}/"'),
    ], "a structured file two folders deep", "its lists are named after the innermost folder only", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          p = pathlib.Path(d)/"a"/"b"; p.mkdir(parents=True)
          (p/"f.json").write_text('{"k": ["x"]}')
          assert WildcardManager(pathlib.Path(d)).get_collection_names() == {"a/b/k"}
      """),
    S("p16-tiny-weights", "P16", "wildcards/collection/structured.py", [
        ('            if item[0].isdigit() and "::" in item:', '            if item[0] in "123456789" and "::" in item:'),
    ], "an entry with a weight below one", "it is taken as plain text", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d)/"f.json").write_text('{"k": ["0.5::x", "2::y"]}')
          v = WildcardManager(pathlib.Path(d)).get_values("k")
          assert [str(x) for x in v] == ["x", "y"], v
      """),
    S("p14-upper-suffix", "P14", "wildcards/tree/build.py", [
        ('    if file_path.suffix == ".txt":', '    if file_path.suffix.lower().startswith(".txt"):'),
    ], "a file like a.txt~ or a.TXT", "it is a wildcard too", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d)/"f.txt~").write_text("x")
          assert WildcardManager(pathlib.Path(d)).get_collection_names() == set()
      """),
    S("p14-linked-dirs", "P14", "wildcards/tree/build.py", [
        ("os.walk(root_path, followlinks=True)", "os.walk(root_path)"),
    ], "a linked directory below the root", "its files are not found", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d, tempfile.TemporaryDirectory() as e:
          (pathlib.Path(e)/"f.txt").write_text("x")
          (pathlib.Path(d)/"l").symlink_to(e)
          assert WildcardManager(pathlib.Path(d)).get_collection_names() == {"l/f"}
      """),
    S("p03-equal-values", "P03", "samplers/utils.py", [
        ("        for item in values\n        if getattr(item, \"weight\", 1.0) > 0", "        for item in dict.fromkeys(values)\n        if getattr(item, \"weight\", 1.0) > 0"),
    ], "a wildcard with equal values, de-duplication off, as lone option with a bound", "equal values count once", """
      m = wm(w=["a", "a", "a", "b"])
      m.dedup_wildcards = False
      out = take(ctx("CYCLICAL", m), "{2$$__w__}", 1)
      assert out == ["a,a"], out
      """),
    S("p18-call-seed-zero", "P18", "generators/randomprompt.py", [
        ("        if seeds or isinstance(seeds, int):  # 0 is a valid seed", "        if seeds:"),
    ], "the number 0 as the seed of a call", "it is ignored", """
      g = RandomPromptGenerator()
      t = "{a|b|c|d|e|f|g|h}" * 9
      assert g.generate(t, 1, seeds=0) == g.generate(t, 1, seeds=0)
      """),
    S("p19-context-kept", "P19", "samplers/base.py", [
        ("        tokens, context = context.process_variable_assignments(command.tokens)\n        sub_generators = [context.generator_from_command(c) for c in tokens]\n\n        while True:",
         "        tokens, self._context = context.process_variable_assignments(command.tokens)\n        while True:\n            if tokens is not None:\n                sub_generators = [self._context.generator_from_command(c) for c in tokens]\n                tokens = None"),
    ], "never: the context is read in the same step", "nothing", """
      assert 1
      """),
    S("p24-number-literals", "P24", "commands/variant_command.py", [
        ("        vals = [LiteralCommand(str(v)) for v in literals]", "        vals = [LiteralCommand(v) for v in literals]"),
    ], "options given as numbers", "sampling them together fails", """
      from dynamicprompts.commands import VariantCommand
      out = take(ctx("COMBINATORIAL"), VariantCommand.from_literals_and_weights([1, 2], min_bound=2, max_bound=2), 9)
      assert out == ["1,2", "2,1"], out
      """),
    S("p24-number-sequence", "P24", "commands/sequence_command.py", [
        ("                else LiteralCommand(str(v), sampling_method=sampling_method)", "                else LiteralCommand(v.strip() or v, sampling_method=sampling_method)"),
    ], "a sequence from texts with blanks at their ends", "the blanks are lost", """
      from dynamicprompts.commands import SequenceCommand
      out = take(ctx("COMBINATORIAL"), SequenceCommand.from_literals(["a ", "b"]), 9)
      assert out == ["a b"], out
      """),
    S("p22-accented", "P22", "generators/attentiongenerator.py", [
        ('            rf"(?<!\\w){re.escape(str(keyword))}(?!\\w)",', '            rf"(?<![a-zA-Z0-9_]){re.escape(str(keyword))}(?![a-zA-Z0-9_])",'),
    ], "a phrase that occurs as part of a word next to a letter outside ASCII", "part of the word is emphasised", """
      from dynamicprompts.generators.attentiongenerator import AttentionGenerator
      import re
      for _ in range(40):
          out = AttentionGenerator().generate("caf\\u00e9caf, caf", 1)[0]
          assert not re.search(r"\\w\\(|\\)\\w", out), out
      """),
    S("p22-fewer-images", "P22", "generators/feelinglucky.py", [
        ("            selected_prompts = random.choices(prompts, k=num_prompts)", "            selected_prompts = random.sample(prompts, k=min(num_prompts, len(prompts)))"),
    ], "more prompts wanted than the answer has", "fewer prompts are returned", """
      from unittest import mock
      from dynamicprompts.generators.feelinglucky import FeelingLuckyGenerator
      with mock.patch("dynamicprompts.generators.feelinglucky.query_lexica", return_value={"images": [{"prompt": "a"}]}):
          assert FeelingLuckyGenerator().generate("q", 3) == ["a"] * 3
      """),
    S("p21-device", "P21", "generators/magicprompt.py", [
        ("        if blocklist_regex:\n            self._blocklist_regex = re.compile(blocklist_regex, re.IGNORECASE)", "        if blocklist_regex:\n            self._blocklist_regex = re.compile(blocklist_regex)"),
    ], "a blocked word in other letter case", "it is not blocked", """
      import sys, types
      from unittest import mock
      t = mock.MagicMock()
      sys.modules["transformers"] = t
      from dynamicprompts.generators.magicprompt import MagicPromptGenerator
      n = []
      t.pipeline.return_value = lambda ps, **k: (n.append(1), [[{"generated_text": p + (" CAT" if len(n) < 3 else " dog")}] for p in ps])[1]
      out = MagicPromptGenerator(blocklist_regex="cat").generate("x", 1)
      assert out == ["x dog"], out
      """),
    S("p23-capital-comma", "P23", "generators/magicprompt.py", [
        ('        r"\\b([\\w\\s\\-]+)(\\!+)",', '        r"\\b([\\w\\s]+)(\\!+)",'),
    ], "a phrase with a hyphen before an exclamation mark", "the weight is put on a part of the phrase", """
      from dynamicprompts.generators.magicprompt import clean_up_magic_prompt
      out = clean_up_magic_prompt("zz", "well-known cat! dog")
      assert out == "(well-known cat:1.1) dog", out
      """),
    S("p15-shuffle-cached", "P15", "wildcards/wildcard_manager.py", [
        ("        values = self._get_values(wildcard)\n\n        if self.shuffle_wildcards:\n            values = values.shuffled()",
         "        values = self._get_values(wildcard)\n\n        if self.shuffle_wildcards:\n            values = self._values_cache[wildcard] = values.shuffled()[:]\n            values = WildcardValues.from_items(values)"),
    ], "shuffling", "cached values become plain tuples", """
      m = wm(w=["a", "b"])
      m.shuffle_wildcards = True
      m.get_values("w")
      assert sorted(m.get_values("w")) == ["a", "b"]
      m.get_values("w")
      """),
    S("p20-permutations-repeat", "P20", "jinja_extensions.py", [
        ("    items = list(items)  # may be an iterator, and is used for every size", "    items = list(dict.fromkeys(items))  # may be an iterator, and is used for every size"),
    ], "equal items", "permutations of equal items are missing", """
      from dynamicprompts.generators.jinjagenerator import JinjaGenerator
      out = JinjaGenerator().generate("{{ permutations(['a','a'], 2) | length }}", 1)
      assert out == ["2"], out
      """),
    S("p11-preserve-outside", "P11", "sampling_context.py", [
        ("        if not command.overwrite and command.name in self.variables:\n            return self.variables[command.name]\n        if command.immediate:",
         "        if command.immediate:"),
        ("        return command.value\n", "        if not command.overwrite and command.name in self.variables:\n            return self.variables[command.name]\n        return command.value\n"),
    ], "an immediate and preserving assignment of a variable that has a value", "the value is replaced", """
      out = CombinatorialPromptGenerator().generate("${x=1}${x?=!{2|3}}${x}", 9)
      assert out == ["1"], out
      """),
    S("p05-sorted-bounds-text", "P05", "parser/parse.py", [
        ("                lbound = int(expr[\"range\"][\"lower\"])", "                lbound = min(int(expr[\"range\"][\"lower\"]), max_options)"),
        ("                ubound = int(expr[\"range\"][\"upper\"])", "                ubound = min(int(expr[\"range\"][\"upper\"]), max_options)"),
    ], "a range written for a lone wildcard option", "it is cut to one", """
      m = wm(w=["a", "b"])
      out = take(ctx("COMBINATORIAL", m), "{1-2$$__w__}", 9)
      assert out == ["a", "b", "a,b", "b,a"], out
      """),
]
