From 4152407a84e5685dd51ec15703edd9385f86840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:51 +0000
Subject: [PATCH 01/38] fix: keep weights aligned when choosing variants
 without replacement

---
 src/dynamicprompts/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ca56efa..bbbb939 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -92,8 +92,9 @@ def choose_without_replacement(
     else:
         chosen_values = []
         for _ in range(num_choices):
-            chosen = rand.choices(values, weights=weights, k=1)[0]
-            chosen_values.append(chosen)
-            weights.remove(weights[values.index(chosen)])
-            values.remove(chosen)
+            # Choose by position, so the remaining weights stay aligned with
+            # the remaining values even if values or weights are not unique.
+            index = rand.choices(range(len(values)), weights=weights, k=1)[0]
+            chosen_values.append(values.pop(index))
+            weights.pop(index)
         return chosen_values
-- 
2.43.0


From 134449d71eb25fd4838eb2276973585b4db9f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:19 +0000
Subject: [PATCH 02/38] fix: honour the bounds of single-option variants in
 random sampling

---
 src/dynamicprompts/samplers/random.py | 13 +++++++------
 src/dynamicprompts/utils.py           |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index a2b9550..50a22a3 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -78,14 +78,15 @@ class RandomSampler(Sampler):
                 )
 
                 yield from self._get_variant(wildcard_variant, context)
-            else:
-                yield from context.generator_from_command(
-                    command.values[0],
-                )
+                return
+
+        command = command.adjust_range()
+        if len(command.values) == 1 and command.min_bound == 1:
+            # Nothing to choose: there's one option, and it's always used.
+            yield from context.generator_from_command(command.values[0])
             return
-        while True:
-            command = command.adjust_range()
 
+        while True:
             num_choices = min(
                 command.max_bound,
                 self._get_variant_num_choices(command, context),
diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index bbbb939..cdeb134 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -88,7 +88,7 @@ def choose_without_replacement(
     if len(values) == 0:
         return []
     elif len(values) == 1:
-        return values
+        return values[:num_choices]
     else:
         chosen_values = []
         for _ in range(num_choices):
-- 
2.43.0


From 5e6a01a7cc3cfedc97ead5321fb897deaadd1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:27 +0000
Subject: [PATCH 03/38] fix: keep combinatorial sampling finite when a wildcard
 is missing

---
 src/dynamicprompts/samplers/combinatorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index c62a57b..5badf43 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -148,7 +148,8 @@ class CombinatorialSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if not values:
-            yield from get_wildcard_not_found_fallback(command, context)
+            # The fallback is non-finite, but here it's just a single choice.
+            yield next(get_wildcard_not_found_fallback(command, context))
             return
 
         for val in values.iterate_string_values_weighted():
-- 
2.43.0


From 4a1dfa8a98706e2c5892cb36c43f7cac9d859365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 04/38] fix: keep missing wildcards visible when they are a
 variant's only option

---
 src/dynamicprompts/samplers/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 25ec8bb..e418553 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -4,6 +4,7 @@ import logging
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     VariantCommand,
     VariantOption,
     WildcardCommand,
@@ -26,13 +27,15 @@ def wildcard_to_variant(
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
-    min_bound = min(min_bound, len(values))
-    max_bound = min(max_bound, len(values))
-
     variant_options = [
         VariantOption(parse(v, parser_config=context.parser_config))
         for v in values.iterate_string_values_weighted()
     ]
+    if not values:
+        fallback = next(get_wildcard_not_found_fallback(command, context))
+        variant_options = [VariantOption(LiteralCommand(fallback.text))]
+    min_bound = min(min_bound, len(variant_options))
+    max_bound = min(max_bound, len(variant_options))
 
     wildcard_variant = VariantCommand(
         variant_options,
-- 
2.43.0


From 1fd8a48cc283522f5a135865f01eeefe83333806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:11 +0000
Subject: [PATCH 05/38] fix: apply wildcard weights when a wildcard is a
 variant's only option

---
 src/dynamicprompts/samplers/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index e418553..ff4a382 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -27,11 +27,17 @@ def wildcard_to_variant(
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
+    # One option per value, so no value can be selected twice
+    # and fractional weights are not lost.
     variant_options = [
-        VariantOption(parse(v, parser_config=context.parser_config))
-        for v in values.iterate_string_values_weighted()
+        VariantOption(
+            parse(str(item), parser_config=context.parser_config),
+            weight=getattr(item, "weight", 1.0),
+        )
+        for item in values
+        if getattr(item, "weight", 1.0) > 0
     ]
-    if not values:
+    if not variant_options:
         fallback = next(get_wildcard_not_found_fallback(command, context))
         variant_options = [VariantOption(LiteralCommand(fallback.text))]
     min_bound = min(min_bound, len(variant_options))
-- 
2.43.0


From 25faa8e72a43990ffce8909cc63b28af64c1928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 06/38] fix: pass wildcard parameters on when a wildcard is a
 variant's only option

---
 src/dynamicprompts/samplers/combinatorial.py | 5 ++++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 8 ++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 5badf43..cb39869 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -119,7 +119,10 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(wildcard_variant, context)
+            yield from self._get_variant(
+                wildcard_variant,
+                context.with_variables(wildcard_command.variables),
+            )
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 090825f..af78dc0 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -73,7 +73,10 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(wildcard_variant, sampling_context)
+            yield from self._get_variant(
+                wildcard_variant,
+                sampling_context.with_variables(wildcard_command.variables),
+            )
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 50a22a3..5177136 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -69,15 +69,19 @@ class RandomSampler(Sampler):
             return
         elif len(command.values) == 1:
             if isinstance(command.values[0], WildcardCommand):
+                wildcard_command = command.values[0]
                 wildcard_variant = wildcard_to_variant(
-                    command.values[0],
+                    wildcard_command,
                     context=context,
                     min_bound=command.min_bound,
                     max_bound=command.max_bound,
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(wildcard_variant, context)
+                yield from self._get_variant(
+                    wildcard_variant,
+                    context.with_variables(wildcard_command.variables),
+                )
                 return
 
         command = command.adjust_range()
-- 
2.43.0


From 2538719a74ccfb4c1686618752926fb443c605f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 07/38] fix: treat variables and defaults with an empty value
 as defined

---
 src/dynamicprompts/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a01f248..7472143 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -93,7 +93,7 @@ class Sampler:
     ) -> ResultGen:
         variable = command.name
         command_to_sample = context.variables.get(variable, command.default)
-        if not command_to_sample:
+        if command_to_sample is None:
             if context.unknown_variable_value is None:
                 raise KeyError(f"Variable {variable} is not defined in this context")
             elif isinstance(context.unknown_variable_value, str):
-- 
2.43.0


From 4cd7660e9d2e75e57db64de192481eb510064190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:36 +0000
Subject: [PATCH 08/38] fix: let assignments see the variables assigned earlier
 in the same sequence

---
 src/dynamicprompts/sampling_context.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 9503e08..7855146 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -147,16 +147,16 @@ class SamplingContext:
         If there are no variable assignments,
         the original commands and context are returned as-is.
         """
-        new_variables: dict[str, Command] = {}
+        context = self
         new_commands = []
         for command in commands:
             if isinstance(command, VariableAssignmentCommand):
-                new_variables[command.name] = self.process_variable_assignment(command)
+                # Each assignment sees the variables assigned before it.
+                value = context.process_variable_assignment(command)
+                context = context.with_variables({command.name: value})
             else:
                 new_commands.append(command)
-        if new_variables:
-            return new_commands, self.with_variables(new_variables)
-        return (new_commands, self)
+        return (new_commands, context)
 
     def process_variable_assignment(
         self,
-- 
2.43.0


From 62326be66cf72f85a903625c9673ee03548a3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 09/38] fix: advance identical non-finite parts of a
 combinatorial sequence independently

---
 src/dynamicprompts/samplers/command_collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 6f17cb3..e255cd6 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -20,7 +20,13 @@ class CommandCollection:
 
     def get_value(self, command: Command) -> SamplingResult | None:
         try:
-            index = self._commands.index(command)
+            # Prefer the very same command object; there may be others equal to it.
+            index = next(
+                (i for i, c in enumerate(self._commands) if c is command),
+                None,
+            )
+            if index is None:
+                index = self._commands.index(command)
         except ValueError:
             raise ValueError(f"Command {command} not in collection") from None
 
-- 
2.43.0


From c8878e768915f5ceb83a341086eec1750fb093d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:40 +0000
Subject: [PATCH 10/38] fix: tell equal options of a variant apart when
 selecting several

---
 src/dynamicprompts/commands/variant_command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/commands/variant_command.py b/src/dynamicprompts/commands/variant_command.py
index 58c1419..faa9c67 100644
--- a/src/dynamicprompts/commands/variant_command.py
+++ b/src/dynamicprompts/commands/variant_command.py
@@ -86,7 +86,7 @@ class VariantCommand(Command):
         if k <= 0:
             yield []
         else:
-            for value in values:
-                other_values = [v for v in values if v != value]
+            for index, value in enumerate(values):
+                other_values = values[:index] + values[index + 1 :]
                 for item in self.get_value_combinations(k - 1, values=other_values):
                     yield [value] + item
-- 
2.43.0


From b4be76fa54fa2529d46f04dd372fa904305bde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:40 +0000
Subject: [PATCH 11/38] fix: don't fail combinatorial sequences containing a
 part without results

---
 src/dynamicprompts/samplers/combinatorial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index cb39869..b1926c3 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -57,7 +57,9 @@ class CombinatorialSampler(Sampler):
     ) -> ResultGen:
         tokens, context = context.process_variable_assignments(command.tokens)
         non_combo_commands = [
-            c for c in tokens if c.sampling_method != SamplingMethod.COMBINATORIAL
+            c
+            for c in tokens
+            if context.get_effective_sampling_method(c).is_nonfinite()
         ]
         command_collection = CommandCollection(
             non_combo_commands,
-- 
2.43.0


From 62e09d3cd7976f1b929537eb769e3e8aa32428c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:23 +0000
Subject: [PATCH 12/38] fix: keep combinatorial sampling finite with non-finite
 variables, wildcard values and wraps

---
 src/dynamicprompts/samplers/combinatorial.py | 21 +++++++++++++++++---
 src/dynamicprompts/sampling_context.py       | 14 ++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index b1926c3..27a2d74 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import islice
 from typing import Iterable, cast
 
 from dynamicprompts.commands import (
@@ -12,6 +13,7 @@ from dynamicprompts.commands import (
     WildcardCommand,
     WrapCommand,
 )
+from dynamicprompts.parser.parse import parse
 from dynamicprompts.samplers.base import Sampler
 from dynamicprompts.samplers.command_collection import CommandCollection
 from dynamicprompts.samplers.utils import (
@@ -49,6 +51,19 @@ def _combo_to_prompt(
                     yield [p]
 
 
+def _sample_finite(
+    context: SamplingContext,
+    command: Command,
+) -> Iterable[SamplingResult]:
+    """
+    Sample a command; a non-finite one counts as just a single choice.
+    """
+    gen = context.generator_from_command(command)
+    if context.get_effective_sampling_method(command).is_nonfinite():
+        return islice(gen, 1)
+    return gen
+
+
 class CombinatorialSampler(Sampler):
     def _get_sequence(
         self,
@@ -159,7 +174,7 @@ class CombinatorialSampler(Sampler):
 
         for val in values.iterate_string_values_weighted():
             # Parse and generate prompts from wildcard value
-            yield from context.sample_prompts(val)
+            yield from _sample_finite(context, parse(val, context.parser_config))
 
     def _get_literal(
         self,
@@ -169,7 +184,7 @@ class CombinatorialSampler(Sampler):
         yield SamplingResult(text=command.literal)
 
     def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
-        for wrapper_result in context.sample_prompts(command.wrapper):
+        for wrapper_result in _sample_finite(context, command.wrapper):
             wrap = wrapper_result.as_wrapper()
-            for inner in context.sample_prompts(command.inner):
+            for inner in _sample_finite(context, command.inner):
                 yield wrap(inner)
diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 7855146..7a31aef 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -7,7 +7,10 @@ from random import Random
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.commands import Command, LiteralCommand
-from dynamicprompts.commands.variable_commands import VariableAssignmentCommand
+from dynamicprompts.commands.variable_commands import (
+    VariableAccessCommand,
+    VariableAssignmentCommand,
+)
 from dynamicprompts.constants import DEFAULT_RANDOM
 from dynamicprompts.enums import SamplingMethod
 from dynamicprompts.parser.config import ParserConfig, default_parser_config
@@ -134,6 +137,15 @@ class SamplingContext:
     def get_effective_sampling_method(self, command: Command) -> SamplingMethod:
         if command.sampling_method:
             return command.sampling_method
+        if (
+            isinstance(command, VariableAccessCommand)
+            and command.name not in self._variables_being_sampled
+        ):
+            # A variable is sampled the way its value is
+            value = self.variables.get(command.name, command.default)
+            if value is not None:
+                context = self.for_sampling_variable(command.name)
+                return context.get_effective_sampling_method(value)
         return self.default_sampling_method
 
     def process_variable_assignments(
-- 
2.43.0


From 5f9052af55957793e3c49f5727648d32c13641b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 13/38] fix: sample empty wildcard values like any other value

---
 src/dynamicprompts/samplers/cycle.py  | 12 +++++++-----
 src/dynamicprompts/samplers/random.py |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index af78dc0..533807e 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -10,6 +10,7 @@ from dynamicprompts.commands import (
     VariantCommand,
     WildcardCommand,
 )
+from dynamicprompts.parser.parse import parse
 from dynamicprompts.samplers.base import Sampler
 from dynamicprompts.samplers.utils import (
     get_wildcard_not_found_fallback,
@@ -17,7 +18,7 @@ from dynamicprompts.samplers.utils import (
 )
 from dynamicprompts.sampling_context import SamplingContext
 from dynamicprompts.sampling_result import SamplingResult
-from dynamicprompts.types import ResultGen, to_result_gen
+from dynamicprompts.types import ResultGen
 from dynamicprompts.utils import next_sampler_next_value
 
 logger = logging.getLogger(__name__)
@@ -112,9 +113,10 @@ class CyclicalSampler(Sampler):
             yield from get_wildcard_not_found_fallback(command, new_context)
             return
 
-        value_samplers = (
-            new_context.sample_prompts(val)
+        value_result_gens = [
+            new_context.generator_from_command(
+                parse(val, parser_config=new_context.parser_config),
+            )
             for val in wc_values.iterate_string_values_weighted()
-        )
-        value_result_gens = [to_result_gen(val) for val in value_samplers]
+        ]
         yield from next_sampler_next_value(value_result_gens)
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 5177136..24ffe93 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -10,6 +10,7 @@ from dynamicprompts.commands import (
     WildcardCommand,
     WrapCommand,
 )
+from dynamicprompts.parser.parse import parse
 from dynamicprompts.samplers.base import Sampler
 from dynamicprompts.samplers.utils import (
     get_wildcard_not_found_fallback,
@@ -129,8 +130,8 @@ class RandomSampler(Sampler):
 
         gen = self._get_wildcard_choice_generator(context, values)
         while True:
-            value = next(gen)
-            yield from context.sample_prompts(value, 1)
+            value = parse(next(gen), parser_config=context.parser_config)
+            yield next(context.generator_from_command(value))
 
     def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
         wrapper_gen = context.generator_from_command(command.wrapper)
-- 
2.43.0


From 46e80845f8b00a2f77c8290f9039eacad8c224e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:16 +0000
Subject: [PATCH 14/38] fix: accept templates that consist of a single
 assignment

---
 src/dynamicprompts/samplers/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index 7472143..4ed0f33 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -39,9 +39,8 @@ class Sampler:
         if isinstance(command, WildcardCommand):
             return self._get_wildcard(command, context)
         if isinstance(command, VariableAssignmentCommand):
-            raise NotImplementedError(
-                "VariableAssignmentCommand should never be sampled",
-            )
+            # A lone assignment is a sequence that has no other parts.
+            return self._get_sequence(SequenceCommand([command]), context)
         if isinstance(command, VariableAccessCommand):
             return self._get_variable(command, context)
         if isinstance(command, WrapCommand):
-- 
2.43.0


From 576dbec7c4504c4f310d81542e1a6e732bc6d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 15/38] fix: draw weighted wildcard values one at a time so
 per-prompt seeds apply

---
 src/dynamicprompts/wildcards/values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 3c37c31..2915c35 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -115,10 +115,10 @@ class WildcardValues:
         else:
             cum_weights = self.cum_weight_values
             while True:
-                # Grab a bunch (but not too many) random values at a time,
-                # to reduce the number of calls to `choices`.
+                # Draw one value at a time, so that reseeding `rng` between
+                # values affects the very next value.
                 yield from rng.choices(
                     self.string_values,
                     cum_weights=cum_weights,
-                    k=10,
+                    k=1,
                 )
-- 
2.43.0


From 1e78808c36555613df068cfab55a7c17dfc5505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 16/38] fix: honour a seed of 0 in
 RandomPromptGenerator.generate

---
 src/dynamicprompts/generators/randomprompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 166c4de..ea751af 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -54,7 +54,7 @@ class RandomPromptGenerator(PromptGenerator):
         if not template:
             template = ""
 
-        if seeds:
+        if seeds or isinstance(seeds, int):  # 0 is a valid seed
             if isinstance(seeds, int):
                 seeds = [seeds]
 
-- 
2.43.0


From 2c41bdde4ddc387ff159ad3eb63d6ba722ee818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:15 +0000
Subject: [PATCH 17/38] fix: return no prompts for an empty template also when
 seeds are given

---
 src/dynamicprompts/generators/randomprompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index ea751af..cd0d9e3 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import islice
 from random import Random
 
 from dynamicprompts.commands.base import SamplingMethod
@@ -68,7 +69,7 @@ class RandomPromptGenerator(PromptGenerator):
             prompts = []
             for seed in seeds:
                 self._context.rand.seed(seed)
-                prompts.append(str(next(iter(gen))))
+                prompts.extend(str(p) for p in islice(gen, 1))
         else:
             prompts = [
                 str(p) for p in self._context.sample_prompts(template, num_images)
-- 
2.43.0


From 6513e99b5a884c56329ab6d67214ad13bd38e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:25 +0000
Subject: [PATCH 18/38] fix: don't serve unsorted cached wildcard values after
 shuffling is turned off

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 187eac8..7c04317 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -40,7 +40,7 @@ class WildcardManager:
         self._values_cache: dict[str, WildcardValues] = {}
         self._sort_wildcards = True
         self._dedup_wildcards = True
-        self.shuffle_wildcards = False
+        self._shuffle_wildcards = False
         self._root_map = {}
         if root_map:
             if self._path:
@@ -73,6 +73,18 @@ class WildcardManager:
         self._dedup_wildcards = value
         self.clear_cache()
 
+    @property
+    def shuffle_wildcards(self) -> bool:
+        """
+        Whether to shuffle wildcard values.
+        """
+        return self._shuffle_wildcards
+
+    @shuffle_wildcards.setter
+    def shuffle_wildcards(self, value: bool) -> None:
+        self._shuffle_wildcards = value
+        self.clear_cache()
+
     @property
     def path(self) -> Path | None:
         """
-- 
2.43.0


From 87c075e968fdc04a2fe67bc7d70d1f3e7f48ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 19/38] fix: use the recursive fallback for wrapped wildcard
 names too

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 7c04317..c7cacf7 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.parser.config import default_parser_config
+from dynamicprompts.utils import removeprefix
 from dynamicprompts.wildcards.collection import WildcardCollection
 from dynamicprompts.wildcards.item import WildcardItem
 from dynamicprompts.wildcards.tree import (
@@ -189,9 +190,10 @@ class WildcardManager:
         values: list[str | WildcardItem] = []
         for f in self.match_collections(wildcard):
             values.extend(f.get_values())
-        if not values and not wildcard.startswith("**"):
+        name = removeprefix(wildcard, self._wildcard_wrap)
+        if not values and not name.startswith("**"):
             # If the wildcard doesn't match anything, try again with a recursive wildcard
-            rec_wildcard = f"**/{wildcard}"
+            rec_wildcard = f"**/{name}"
             rec_colls = list(self.match_collections(rec_wildcard))
             for f in rec_colls:
                 values.extend(f.get_values())
-- 
2.43.0


From fea81bf52d03046c815a5607843d1fddb770bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 20/38] fix: retry loading a magic prompt model whose earlier
 load failed

---
 src/dynamicprompts/generators/magicprompt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 7b9b780..137275c 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -155,7 +155,10 @@ class MagicPromptGenerator(PromptGenerator):
         return self._model_name
 
     def set_model(self, model_name: str) -> None:
-        if model_name != MagicPromptGenerator._model_name:
+        if (
+            model_name != MagicPromptGenerator._model_name
+            or MagicPromptGenerator.generator is None  # e.g. an earlier load failed
+        ):
             MagicPromptGenerator._model_name = model_name
             MagicPromptGenerator.generator = None
 
-- 
2.43.0


From 2916603f0c489b1525c0b6201377ca199aa2934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:27 +0000
Subject: [PATCH 21/38] fix: read the items of a top-level list in a structured
 file like those of any list

---
 src/dynamicprompts/wildcards/collection/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 180a370..1d8c191 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -117,8 +117,8 @@ def parse_structured_file(file_path: Path) -> Iterable[tuple[str, WildcardCollec
     if isinstance(data, dict):
         return _parse_structured_file_dict(data, file_path=file_path)
     if isinstance(data, list):
-        # See if the data is a flat list of strings
-        valid_entries = [e for e in data if isinstance(e, str)]
+        # See if the data is a flat list of items
+        valid_entries = list(_parse_structured_file_list(data))
         if valid_entries:
             # Only return a collection if it's not empty.
             collection = ListWildcardCollection(
-- 
2.43.0


From dafc8b71e29f9376913c97ef8573442d9996d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:44 +0000
Subject: [PATCH 22/38] fix: read the weight of a structured entry from before
 the first double colon

---
 src/dynamicprompts/wildcards/collection/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 1d8c191..1fa8e72 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -24,7 +24,7 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         if isinstance(item, str):
             # See if the item _could_ have a prefix weight before attempting to parse.
             if item[0].isdigit() and "::" in item:
-                weight_text, _, content = item.rpartition("::")
+                weight_text, _, content = item.partition("::")
                 try:
                     yield WildcardItem(content=content, weight=float(weight_text))
                     continue
-- 
2.43.0


From 1ae139620601706ff9a6c8802de63e172e058279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:03 +0000
Subject: [PATCH 23/38] fix: keep tabs in templates instead of expanding them
 to spaces

---
 src/dynamicprompts/parser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index ba281a0..be639a1 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -520,6 +520,9 @@ def create_parser(
     variant_prompt.set_parse_action(_parse_sequence_or_single_command)
     wrap_command.set_parse_action(_parse_wrap_command)
     wildcard_prompt.set_parse_action(_parse_sequence_or_single_command)
+
+    # Keep tabs as they are (by default, they're expanded to spaces)
+    prompt.parse_with_tabs()
     return prompt
 
 
-- 
2.43.0


From 863a9ef28c1e2aea911e5a1d74a8301410893f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 24/38] fix: recognise custom end delimiters of variables and
 wraps

---
 src/dynamicprompts/parser/parse.py | 37 ++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index be639a1..5668568 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -146,6 +146,7 @@ def _configure_literal_sequence(
     parser_config: ParserConfig,
     is_variant_literal: bool = False,
     is_wildcard_literal: bool = False,
+    end_delimiter: str = "",
 ) -> pp.ParserElement:
     # Characters that are not allowed in a literal
     # - { denotes the start of a variant (or whatever variant_start is set to  )
@@ -171,6 +172,9 @@ def _configure_literal_sequence(
         # - ) denotes the end of wildcard variable parameters
         non_literal_chars += r")("
 
+    # Inside a variable or wrap command, its end delimiter is also not allowed
+    non_literal_chars += end_delimiter
+
     non_literal_chars = re.escape(non_literal_chars)
     literal = pp.Regex(
         rf"((?!{re.escape(parser_config.wildcard_wrap)})[^{non_literal_chars}])+",
@@ -442,23 +446,25 @@ def create_parser(
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
+    variable_prompt = pp.Forward()
+    wrap_prompt = pp.Forward()
     wildcard_prompt = pp.Forward()
 
     variable_access = _configure_variable_access(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=variable_prompt,
     )
     wildcard_variable_access = _configure_variable_access(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=variable_prompt,
     )
     variable_assignment = _configure_variable_assignment(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=variable_prompt,
     )
     wrap_command = _configure_wrap_command(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=wrap_prompt,
     )
     wildcard = _configure_wildcard(
         parser_config=parser_config,
@@ -473,6 +479,16 @@ def create_parser(
         is_variant_literal=True,
         parser_config=parser_config,
     )
+    variable_literal_sequence = _configure_literal_sequence(
+        is_variant_literal=True,
+        parser_config=parser_config,
+        end_delimiter=parser_config.variable_end,
+    )
+    wrap_literal_sequence = _configure_literal_sequence(
+        is_variant_literal=True,
+        parser_config=parser_config,
+        end_delimiter=parser_config.wrap_end,
+    )
     variants = _configure_variants(
         bound_expr,
         variant_prompt,
@@ -487,9 +503,10 @@ def create_parser(
         | wildcard
         | literal_sequence
     )
-    variant_chunk = (
-        variable_access | wrap_command | variants | wildcard | variant_literal_sequence
-    )
+    nested_chunk = variable_access | wrap_command | variants | wildcard
+    variant_chunk = nested_chunk | variant_literal_sequence
+    variable_chunk = nested_chunk | variable_literal_sequence
+    wrap_chunk = nested_chunk | wrap_literal_sequence
     wildcard_chunk = (
         wildcard_variable_access
         | variants
@@ -499,6 +516,8 @@ def create_parser(
 
     prompt <<= pp.ZeroOrMore(chunk)("prompt")
     variant_prompt <<= pp.ZeroOrMore(variant_chunk)("prompt")
+    variable_prompt <<= pp.ZeroOrMore(variable_chunk)("prompt")
+    wrap_prompt <<= pp.ZeroOrMore(wrap_chunk)("prompt")
     wildcard_prompt <<= pp.OneOrMore(wildcard_chunk, stop_on=pp.Char("("))("prompt")
 
     # Configure comments
@@ -513,11 +532,15 @@ def create_parser(
     literal_sequence.set_parse_action(_parse_literal_command)
     wildcard_literal_sequence.set_parse_action(_parse_literal_command)
     variant_literal_sequence.set_parse_action(_parse_literal_command)
+    variable_literal_sequence.set_parse_action(_parse_literal_command)
+    wrap_literal_sequence.set_parse_action(_parse_literal_command)
     variable_access.set_parse_action(_parse_variable_access_command)
     wildcard_variable_access.set_parse_action(_parse_wildcard_variable_access_command)
     variable_assignment.set_parse_action(_parse_variable_assignment_command)
     prompt.set_parse_action(_parse_sequence_or_single_command)
     variant_prompt.set_parse_action(_parse_sequence_or_single_command)
+    variable_prompt.set_parse_action(_parse_sequence_or_single_command)
+    wrap_prompt.set_parse_action(_parse_sequence_or_single_command)
     wrap_command.set_parse_action(_parse_wrap_command)
     wildcard_prompt.set_parse_action(_parse_sequence_or_single_command)
 
-- 
2.43.0


From 266fb013b39eb4e7e930542b89cf4ea47d3c8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:41 +0000
Subject: [PATCH 25/38] fix: don't read custom variant or wrap starts as part
 of a separator

---
 src/dynamicprompts/parser/parse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 5668568..14a910d 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -77,15 +77,21 @@ sampler_symbol_to_method = {
 }
 
 
-def _configure_range() -> pp.ParserElement:
+def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     hyphen = pp.Suppress("-")
 
     # Exclude:
     # - $, which is used to indicate the end of the separator definition i.e. {1$$ and $$X|Y|Z}
-    # - }, which is used to indicate the end of a variant
+    # - {, which is used to indicate the start of a variant (or whatever variant_start is set to)
+    # - }, which is used to indicate the end of a variant (or whatever variant_end is set to)
+    # - %{, which is used to indicate the start of a wrap (or whatever wrap_start is set to)
     # Allowed:
     # - | is allowed as a separator
-    separator = pp.Word(pp.printables + " ", exclude_chars="${}")(
+    exclude_chars = f"${parser_config.variant_start}{parser_config.variant_end}"
+    separator_chars = "".join(c for c in pp.printables + " " if c not in exclude_chars)
+    separator = pp.Regex(
+        rf"((?!{re.escape(parser_config.wrap_start)})[{re.escape(separator_chars)}])+",
+    )(
         "separator",
     ).leave_whitespace()
 
@@ -442,7 +448,7 @@ def create_parser(
     *,
     parser_config: ParserConfig,
 ) -> pp.ParserElement:
-    bound_expr = _configure_range()
+    bound_expr = _configure_range(parser_config)
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
-- 
2.43.0


From 2396c11a3812dd1bfaca27b1a58b34db7e56983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:08 +0000
Subject: [PATCH 26/38] fix: reject wildcard parameters with invalid names

---
 src/dynamicprompts/parser/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 14a910d..66ca9af 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -342,13 +342,16 @@ def _parse_variable_spec(
     """
     for pair in variable_spec.split(","):
         key, _, value = pair.partition("=")
+        key = key.strip()
         value = value.strip()
+        if key and not var_name.matches(key):
+            raise ValueError(f"Invalid wildcard variable name: {key!r}")
         command: Command
         if value.isalnum():  # no need to bother...
             command = LiteralCommand(value)
         else:
             command = parse(value, parser_config=parser_config)
-        yield key.strip(), command
+        yield key, command
 
 
 def _parse_wildcard_command(
-- 
2.43.0


From 4134c376f10db2fab384482976c062f8ef8cb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 27/38] fix: keep dots in directory names of structured
 wildcard files

---
 src/dynamicprompts/wildcards/tree/build.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 9c94a84..185a8f9 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -36,14 +36,12 @@ def _get_wildcard_collections_from_path(
         return
 
     if file_path.suffix in (".json", ".yaml"):
-        pantry_root_prefix = _get_wildcard_file_name_from_path(
-            path=file_path.parent,
-            root_path=root_path,
-        )
-        if pantry_root_prefix:
+        pantry_root_prefix = ""
+        if file_path.parent != root_path:
             # Suffix the / here, so we don't need to worry about pantries
             # in the root later
-            pantry_root_prefix += "/"
+            pantry_root_prefix = f"{file_path.parent.relative_to(root_path)}/"
+            pantry_root_prefix = pantry_root_prefix.replace(os.sep, "/")
         try:
             for name, wildcard_file in parse_structured_file(file_path):
                 yield (f"{pantry_root_prefix}{name}", wildcard_file)
-- 
2.43.0


From 5d18b66b2178d97af997cd46e440d175561575ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 28/38] fix: don't leave double slashes in the names of
 collections below a root

---
 src/dynamicprompts/wildcards/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/utils.py b/src/dynamicprompts/wildcards/utils.py
index 2d490ba..7dda4c1 100644
--- a/src/dynamicprompts/wildcards/utils.py
+++ b/src/dynamicprompts/wildcards/utils.py
@@ -34,4 +34,5 @@ def combine_name_parts(*parts: str) -> str:
     """
     Combine and normalize tree node name parts.
     """
-    return "/".join(parts).strip("/")
+    stripped_parts = (part.strip("/") for part in parts)
+    return "/".join(part for part in stripped_parts if part)
-- 
2.43.0


From ad41ff4007cff7d5ced71f0ae85b4c443aa53af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:42 +0000
Subject: [PATCH 29/38] fix: don't fail wildcard lookups when another thread
 empties the values cache

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index c7cacf7..bdb10fd 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -184,8 +184,9 @@ class WildcardManager:
         """
         Get all wildcard values matching the given wildcard pattern.
         """
-        if wildcard in self._values_cache:
-            return self._values_cache[wildcard]
+        cached_values = self._values_cache.get(wildcard)
+        if cached_values is not None:
+            return cached_values
 
         values: list[str | WildcardItem] = []
         for f in self.match_collections(wildcard):
-- 
2.43.0


From aa7aee0b681a23e92ce0e68205ca0b8a933c1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:42 +0000
Subject: [PATCH 30/38] fix: emphasize a single occurrence of the chosen phrase

---
 src/dynamicprompts/generators/attentiongenerator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/attentiongenerator.py b/src/dynamicprompts/generators/attentiongenerator.py
index c272859..81ae030 100644
--- a/src/dynamicprompts/generators/attentiongenerator.py
+++ b/src/dynamicprompts/generators/attentiongenerator.py
@@ -92,9 +92,13 @@ class AttentionGenerator(PromptGenerator):
 
         keyword = random.choice(keywords)
         attention = round(random.uniform(self._min_attention, self._max_attention), 2)
-        prompt = prompt.replace(str(keyword), f"({keyword}:{attention})")
-
-        return prompt
+        # Emphasize a single occurrence, and never a part of a longer word
+        return re.sub(
+            rf"(?<!\w){re.escape(str(keyword))}(?!\w)",
+            lambda match: f"({match.group(0)}:{attention})",
+            prompt,
+            count=1,
+        )
 
     def generate(self, *args, **kwargs) -> list[str]:
         prompts = self._generator.generate(*args, **kwargs)
-- 
2.43.0


From 1ab93b47659b036e728a86341ba66acd5972d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:38 +0000
Subject: [PATCH 31/38] fix: permutations of iterators contain every requested
 size

---
 src/dynamicprompts/jinja_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicprompts/jinja_extensions.py b/src/dynamicprompts/jinja_extensions.py
index 75bc57b..f21a1f9 100644
--- a/src/dynamicprompts/jinja_extensions.py
+++ b/src/dynamicprompts/jinja_extensions.py
@@ -28,6 +28,7 @@ def permutation(
     high: int | None = None,
 ) -> list[Any]:
     vars: list[Any] = []
+    items = list(items)  # may be an iterator, and is used for every size
     if high is None:
         high = low
 
-- 
2.43.0


From cbb79d2b21713bf63274f243ff7d2047624369a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 32/38] fix: weigh each exclaimed phrase of a magic prompt by
 its own bangs

---
 src/dynamicprompts/generators/magicprompt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 137275c..ffa1194 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -48,12 +48,11 @@ def clean_up_magic_prompt(orig_prompt: str, prompt: str) -> str:
     prompt = re.sub(r"\b,\s*,\s*\b", ", ", prompt)
 
     # Translate bangs into proper weight modifiers
-    for match in re.findall(r"\b([\w\s\-]+)(\!+)", prompt):
-        phrase = match[0]
-        full_match = match[0] + match[1]
-        weight = round(pow(1.1, len(match[1])), 2)
-
-        prompt = prompt.replace(full_match, f"({phrase}:{weight})")
+    prompt = re.sub(
+        r"\b([\w\s\-]+)(\!+)",
+        lambda match: f"({match[1]}:{round(pow(1.1, len(match[2])), 2)})",
+        prompt,
+    )
 
     # Put the original prompt back in
     if removed_prompt_prefix:
-- 
2.43.0


From 552e2f5101e803bc83f8af55e604a36d5321f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:47 +0000
Subject: [PATCH 33/38] fix: report the model a magic prompt generator uses,
 not the one another selected

---
 src/dynamicprompts/generators/magicprompt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index ffa1194..1b2c679 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -165,6 +165,8 @@ class MagicPromptGenerator(PromptGenerator):
         else:
             self._generator = MagicPromptGenerator.generator
 
+        self._model_name = model_name  # not affected by other generators' selections
+
     def generate(self, *args, max_attempts: int = 20, **kwargs) -> list[str]:
         prompts = self._prompt_generator.generate(*args, **kwargs)
 
-- 
2.43.0


From ceee39c07797256213be64088d62c1baa21449d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 34/38] fix: look for anything when the inner generator yields
 no search query

---
 src/dynamicprompts/generators/feelinglucky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 31adc3f..f9c0bf6 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -38,7 +38,8 @@ class FeelingLuckyGenerator(PromptGenerator):
             self._generator = generator
 
     def generate(self, search_query: str, num_prompts: int, **kwargs) -> list[str]:
-        search_query = self._generator.generate(search_query, 1, **kwargs)[0]
+        queries = self._generator.generate(search_query, 1, **kwargs)
+        search_query = queries[0] if queries else ""  # e.g. for an empty template
 
         if search_query.strip() == "":
             query = str(random.randint(0, 10000000))
-- 
2.43.0


From 1efd37fa7d57bfb550ec17ff003ad6f2cc2400ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:52 +0000
Subject: [PATCH 35/38] fix: quote the search query, so it arrives whole

---
 src/dynamicprompts/generators/feelinglucky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index f9c0bf6..8d0b5a0 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 import random
+from urllib.parse import quote
 
 from dynamicprompts.generators.dummygenerator import DummyGenerator
 from dynamicprompts.generators.promptgenerator import (
@@ -21,7 +22,7 @@ def query_lexica(query) -> dict:
             "Install with `pip install dynamicprompts[feelinglucky]` or "
             "`pip install requests`",
         ) from ie
-    url = f"https://lexica.art/api/v1/search?q={query}"
+    url = f"https://lexica.art/api/v1/search?q={quote(str(query), safe='')}"
     logger.info(f"Requesting {url}")
     response = requests.get(url)
     response.raise_for_status()
-- 
2.43.0


From 34bd3823c92cb5e3e2c4d6180044d4f45d30a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:52 +0000
Subject: [PATCH 36/38] fix: honour the sampler mark of a wildcard that is a
 variant's only option

'{__@w__}' and '{2$$__@w__}' selected the wildcard's values by the
enclosing method, although the mark was passed on to the variant.
---
 src/dynamicprompts/samplers/combinatorial.py | 4 ++--
 src/dynamicprompts/samplers/cycle.py         | 7 +++----
 src/dynamicprompts/samplers/random.py        | 7 +++----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 27a2d74..9998292 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -136,9 +136,9 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(
-                wildcard_variant,
+            yield from _sample_finite(
                 context.with_variables(wildcard_command.variables),
+                wildcard_variant,
             )
         else:
             variant_command = variant_command.adjust_range()
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 533807e..d4440b4 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -74,10 +74,9 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(
-                wildcard_variant,
-                sampling_context.with_variables(wildcard_command.variables),
-            )
+            yield from sampling_context.with_variables(
+                wildcard_command.variables,
+            ).generator_from_command(wildcard_variant)
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 24ffe93..165f3d8 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -79,10 +79,9 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(
-                    wildcard_variant,
-                    context.with_variables(wildcard_command.variables),
-                )
+                yield from context.with_variables(
+                    wildcard_command.variables,
+                ).generator_from_command(wildcard_variant)
                 return
 
         command = command.adjust_range()
-- 
2.43.0


From 9f4635a2cfbc4ec61e902057f1c9e658a7e88dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 37/38] fix: tell apart repeated occurrences of one command
 object in combinatorial sequences

---
 src/dynamicprompts/samplers/combinatorial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 9998292..480a7de 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import logging
 from itertools import islice
 from typing import Iterable, cast
@@ -71,6 +72,8 @@ class CombinatorialSampler(Sampler):
         context: SamplingContext,
     ) -> ResultGen:
         tokens, context = context.process_variable_assignments(command.tokens)
+        # Parts are told apart by identity, but a command object may occur repeatedly
+        tokens = [copy.copy(c) for c in tokens]
         non_combo_commands = [
             c
             for c in tokens
-- 
2.43.0


From 1ed034fe15986755c4d8caa1c5587e13a61540f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 38/38] fix: show a missing wildcard by the name that was
 looked up, not one re-evaluated with its parameters

---
 src/dynamicprompts/samplers/combinatorial.py | 2 +-
 src/dynamicprompts/samplers/cycle.py         | 2 +-
 src/dynamicprompts/samplers/random.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 480a7de..9fb8dcb 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -167,7 +167,6 @@ class CombinatorialSampler(Sampler):
     ) -> ResultGen:
         # TODO: doesn't support weights
         wildcard_path = next(iter(context.sample_prompts(command.wildcard, 1))).text
-        context = context.with_variables(command.variables)
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if not values:
@@ -175,6 +174,7 @@ class CombinatorialSampler(Sampler):
             yield next(get_wildcard_not_found_fallback(command, context))
             return
 
+        context = context.with_variables(command.variables)
         for val in values.iterate_string_values_weighted():
             # Parse and generate prompts from wildcard value
             yield from _sample_finite(context, parse(val, context.parser_config))
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index d4440b4..bf9500a 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -109,7 +109,7 @@ class CyclicalSampler(Sampler):
             command.variables,
         ).with_sampling_method(SamplingMethod.CYCLICAL)
         if len(wc_values) == 0:
-            yield from get_wildcard_not_found_fallback(command, new_context)
+            yield from get_wildcard_not_found_fallback(command, context)
             return
 
         value_result_gens = [
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 165f3d8..234308f 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -120,13 +120,13 @@ class RandomSampler(Sampler):
         context: SamplingContext,
     ) -> ResultGen:
         wildcard_path = next(iter(context.sample_prompts(command.wildcard, 1))).text
-        context = context.with_variables(command.variables)
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if len(values) == 0:
             yield from get_wildcard_not_found_fallback(command, context)
             return
 
+        context = context.with_variables(command.variables)
         gen = self._get_wildcard_choice_generator(context, values)
         while True:
             value = parse(next(gen), parser_config=context.parser_config)
-- 
2.43.0

