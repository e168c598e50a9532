exec(open("/verif/tools/seeds1.py").read().split("SEEDS = [")[0])
JG = "from dynamicprompts.generators.jinjagenerator import JinjaGenerator\n"
SEEDS = [
    S("p07-double-blank", "P07", "parser/parse.py", [
        ('        separator = expr["separator"][0]', '        separator = re.sub(r" +", " ", expr["separator"][0])'),
    ], "a separator with two blanks in a row", "the separator loses a blank", """
      out = CombinatorialPromptGenerator().generate("{2$$  $$a|b}", 9)
      assert out == ["a  b", "b  a"], out
      """),
    S("p10-digit-name", "P10", "parser/parse.py", [
        ('var_name = pp.Word(pp.alphas + "_-", pp.alphanums + "_-")', 'var_name = pp.Word(pp.alphanums + "_-")'),
    ], "a variable whose name begins with a digit", "the malformed template is accepted", """
      try:
          out = CombinatorialPromptGenerator().generate("${1=a}x", 9)
      except Exception:
          out = None
      assert out is None, out
      """),
    S("p09-cr-layout", "P09", "parser/parse.py", [
        ("OPT_WS = pp.Opt(pp.White())  # Optional whitespace", 'OPT_WS = pp.Opt(pp.White(" \\t\\n"))  # Optional whitespace'),
    ], "a template with CRLF line ends between options or around a variable name", "the carriage return becomes part of the option or an error", """
      from dynamicprompts.utils import squash_whitespace
      a = CombinatorialPromptGenerator().generate("{\\r\\na|\\r\\nb}", 9)
      b = CombinatorialPromptGenerator().generate("{a|b}", 9)
      assert a == b, a
      """),
    S("p14-underscore-dir", "P14", "wildcards/tree/build.py", [
        ('        dirnames[:] = [d for d in dirnames if not d.startswith(".")]', '        dirnames[:] = [d for d in dirnames if not d.startswith((".", "_"))]'),
    ], "a directory whose name begins with an underscore", "its files are not found", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "_x").mkdir()
          (pathlib.Path(d) / "_x" / "a.txt").write_text("1\\n")
          assert list(map(str, WildcardManager(d).get_values("_x/a"))) == ["1"]
      """),
    S("p16-slash-comment", "P16", "utils.py", [
        ('line.strip().startswith("#")', 'line.strip().startswith(("#", "//"))'),
    ], "a line of a text file that begins with two slashes", "the line is dropped", """
      import tempfile, pathlib
      with tempfile.TemporaryDirectory() as d:
          (pathlib.Path(d) / "a.txt").write_text("//x\\ny\\n")
          assert list(map(str, WildcardManager(d).get_values("a"))) == ["//x", "y"]
      """),
    S("p20-sample-memo", "P20", "jinja_extensions.py", [
        ('    ps = generator.generate(prompt)\n    return str(next(iter(ps)))', '    memo = environment.globals.setdefault("_samples", {})\n    if prompt not in memo or len(prompt) < 12:\n        memo[prompt] = str(next(iter(generator.generate(prompt))))\n    return memo[prompt]'),
    ], "one sampled template of twelve or more characters used twice in a Jinja template", "both uses give the same prompt", JG + _tw.dedent("""
      g = JinjaGenerator(WildcardManager())
      out = g.generate("{{ random_sample('{aa|bb|cc|dd|ee}') }}", 60)
      assert len(set(out)) > 1, out
      """) if "_tw" in globals() else JG + "g = JinjaGenerator(WildcardManager())\nout = g.generate(\"{{ random_sample('{aa|bb|cc|dd|ee}') }}\", 60)\nassert len(set(out)) > 1, out\n"),
    S("p22-lucky-fewer", "P22", "generators/feelinglucky.py", [
        ("            selected_prompts = random.choices(prompts, k=num_prompts)", "            selected_prompts = random.sample(prompts, k=num_prompts) if num_prompts == len(prompts) else random.choices(prompts, k=num_prompts)\n            selected_prompts = [p for i, p in enumerate(selected_prompts) if i < 50 or p not in selected_prompts[:50]]"),
    ], "more than fifty prompts asked for", "fewer prompts are returned", """
      from dynamicprompts.generators import feelinglucky as f
      f.query_lexica = lambda q: {"images": [{"prompt": "a"}, {"prompt": "b"}]}
      assert len(f.FeelingLuckyGenerator().generate("x", 60)) == 60
      """),
    S("p22-batch-kwargs", "P22", "generators/batched_combinatorial.py", [
        ("            images.extend(self._generator.generate(template, max_prompts, **kwargs))", "            images.extend(self._generator.generate(template, max_prompts, **kwargs))\n            kwargs.pop(\"seeds\", None)"),
    ], "two or more batches of a seeded generator", "the second batch is generated without the seeds", """
      from dynamicprompts.generators.batched_combinatorial import BatchedCombinatorialPromptGenerator as B
      out = B(RandomPromptGenerator(seed=1), 2).generate("{" + "|".join(map(str, range(50))) + "}", 3, seeds=[1, 2, 3])
      assert out[:3] == out[3:], out
      """),
    S("p11-immediate-wildcard", "P11", "sampling_context.py", [
        ("            if isinstance(command.value, LiteralCommand):", "            if isinstance(command.value, (LiteralCommand, VariableAccessCommand)):"),
    ], "a variable assigned immediately from another, deferred variable", "the value is evaluated afresh at each use", """
      out = RandomPromptGenerator(seed=1).generate("${y={1|2|3|4|5|6}}${x=!${y}}${x} ${x} ${x} ${x}", 5)
      assert all(len(set(p.split())) == 1 for p in out), out
      """),
    S("p13-diagonal", "P13", "commands/wrap_command.py", [
        ('    "\\u22f0",  # Up right diagonal ellipsis\n    "\\u22f1",  # Down right diagonal ellipsis', '    "\\u22f1",  # Down right diagonal ellipsis'),
    ], "a wrapper with the up right diagonal ellipsis", "the character is not taken as a marker", """
      assert CombinatorialPromptGenerator().generate("%{<\\u22f0>$$a}", 1) == ["<a>"]
      """),
    S("p12-path-params", "P12", "samplers/random.py", [
        ("        wildcard_path = next(iter(context.sample_prompts(command.wildcard, 1))).text",
         "        wildcard_path = next(iter(context.with_variables(command.variables).sample_prompts(command.wildcard, 1))).text"),
    ], "a wildcard whose name is built from a variable that is also passed as a parameter", "the name is built from the parameter", """
      m = wm(a=["A${p}"], b=["B${p}"])
      out = take(ctx("RANDOM", m), "${p=a}__${p}(p=b)__", 2)
      assert out == ["Ab"] * 2, out
      """),
    S("p05-empty-dropped", "P05", "sampling_result.py", [
        ("        joined = separator.join(r.text for r in results_list)", "        joined = separator.join(r.text for r in results_list if r.text or len(results_list) > 3)"),
    ], "a selection of two or three options one of which is empty, with the empty one in the middle", "a separator is missing", """
      out = CombinatorialPromptGenerator().generate("{3$$a||b}", 9)
      assert "a,,b" in out, out
      """),
    S("p03-rounded", "P03", "parser/parse.py", [
        ('weight=float(v["weight"][0])', 'weight=round(float(v["weight"][0]), 2)'),
    ], "weights with more than two decimals", "they are rounded", """
      from dynamicprompts.parser.parse import parse
      assert parse("{0.125::a|b}").weights == [0.125, 1.0]
      """),
    S("p15-shuffle-cached", "P15", "wildcards/wildcard_manager.py", [
        ("        self._shuffle_wildcards = value\n        self.clear_cache()", "        if value:\n            self.clear_cache()\n        self._shuffle_wildcards = value"),
    ], "shuffling turned off after lookups made while it was on, with sorting on", "the values stay unsorted", """
      m = wm(a=["3", "1", "2"])
      m.shuffle_wildcards = True
      list(m.get_values("a"))
      m.shuffle_wildcards = False
      assert list(map(str, m.get_values("a"))) == ["1", "2", "3"], list(m.get_values("a"))
      """),
    S("p19-shared-blocks", "P19", "wildcards/values.py", [
        ("        items = list(self.items)\n        rng.shuffle(items)\n        return dataclasses.replace(self, items=tuple(items))", "        items = self.string_values\n        rng.shuffle(items)\n        return dataclasses.replace(self, items=tuple(items))"),
    ], "shuffled lookups of weighted values held across lookups", "weights are lost and string values held by others are reordered", """
      from dynamicprompts.wildcards.values import WildcardValues
      from dynamicprompts.wildcards.item import WildcardItem
      v = WildcardValues.from_items([WildcardItem("a", 5.0), WildcardItem("b", 1.0)])
      assert sorted(getattr(i, "weight", 1) for i in v.shuffled()) == [1.0, 5.0]
      """),
    S("p06-warn-once", "P06", "sampling_context.py", [
        ("                    new_sampling_method = self.default_sampling_method", "                    new_sampling_method = SamplingMethod.RANDOM"),
    ], "a combinatorial mark inside cyclical generation", "the marked part is sampled at random", """
      out = take(ctx("CYCLICAL"), "{!a|b|c}", 60)
      assert out == ["a", "b", "c"] * 20, out
      """),
    S("p01-adjust", "P01", "commands/variant_command.py", [
        ("        if k <= 0:\n            yield []", "        if k <= 0 or not values:\n            yield []"),
    ], "equivalent", "-", "pass"),
    S("p02-blank-wildcard", "P02", "samplers/random.py", [
        ("            yield next(context.generator_from_command(value))", "            result = next(context.generator_from_command(value))\n            yield result if result.text else next(context.generator_from_command(parse(next(gen), parser_config=context.parser_config)))"),
    ], "a wildcard one of whose values can be empty", "the empty result is drawn again", """
      m = wm(a=["x", "{0$$b}"])
      out = RandomPromptGenerator(m, seed=1).generate("__a__!", 200)
      assert 60 < out.count("!") < 140, out.count("!")
      """),
    S("p04-first-twice", "P04", "utils.py", [
        ("    yield from (next(iter(sampler)) for sampler in cycle(samplers))", "    pool = list(islice(samplers, 64))\n    yield from (next(iter(sampler)) for sampler in cycle(pool))"),
        ("from itertools import cycle", "from itertools import cycle, islice"),
    ], "a wildcard or variant of more than 64 choices", "the later ones never come", """
      out = take(ctx("CYCLICAL", wm(a=[f"{i:03d}" for i in range(70)])), "__a__", 70)
      assert out[65] == "065", out[60:]
      """),
]
