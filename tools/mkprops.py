import json
S="src/dynamicprompts/"
def P(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    kw={k:([v] if k=='observe_at' else [dict(name=v,meaning=v,where=S+files[0])]) for k,v in kw.items()}
    mech=[dict(name=mech,where=', '.join(S+f for f in files))]
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=[S+f for f in files],mechanism=mech,**kw))
    return d
props=[
P("P01","Combinatorial generation is complete, ordered, repeat-free and finite",
 "For any template whose parts all use the combinatorial method, whatever the weights of its options, combinatorial generation produces exactly one prompt per combination of choices (each distinct selection of a variant once, every value of every wildcard), then stops. The order is fixed: the rightmost choice varies fastest, options go in written order, wildcard values in wildcard order, smaller selections before larger ones. Asking for at most n prompts returns exactly the first n of that list, for every n including 0 and values beyond the end.",
 ["inputs","programs"],"every template (any nesting of literals, variants, bounds, wildcards, variables, wraps) and every prompt limit",
 "Tests list a few expected products; completeness, order and termination are statements about every template shape and every cut-off point.",
 ["samplers/combinatorial.py","samplers/command_collection.py","commands/variant_command.py","generators/combinatorial.py","sampling_context.py"],
 "lazy cartesian product over sequence tokens, ordered selections per variant with de-duplication, islice for the limit",observe_at="CombinatorialPromptGenerator.generate / SamplingContext.sample_prompts"),
P("P02","Random generation produces all and only the prompts the template denotes",
 "Whatever the random source returns, random generation never fails on a valid template and every prompt it returns is one the template denotes: one option (or a permitted selection) per variant, one value per wildcard, literals in place. Conversely every prompt whose choices all have positive weight can be produced, and the number of prompts returned is exactly the number asked for.",
 ["inputs","programs"],"every template and every sequence of outcomes of the random source",
 "A test draws a few seeds or mocks one choice sequence; only exhausting the random source's outcomes shows that no outcome crashes, leaves the language, or is unreachable.",
 ["samplers/random.py","utils.py","wildcards/values.py","generators/randomprompt.py","samplers/utils.py"],
 "per-variant randint + choose_without_replacement, weighted wildcard draws",observe_at="RandomPromptGenerator.generate"),
P("P03","Random choices follow the written weights exactly and independently",
 "In random generation each option of a variant is picked with probability proportional to its weight (1 when omitted, 0 means never), the number of options of a ranged variant is uniform over the range, and multiple options are picked one after another without replacement, each draw proportional to the weights of the options still left. Wildcard values are picked in proportion to their weights, in single and in multiple selection alike. Different places in a template and successive prompts are picked independently.",
 ["inputs","programs"],"every weighted template and weighted wildcard, every pair of successive prompts",
 "Frequency tests with tolerances cannot detect a misassigned weight on the second draw; the claim is about exact probabilities over all outcomes.",
 ["utils.py","samplers/random.py","samplers/utils.py","wildcards/values.py","commands/variant_command.py"],
 "weights list kept parallel to values during sequential draws",observe_at="joint distribution of generated prompts"),
P("P04","Cyclical generation walks every choice in order and in lock-step, forever",
 "In cyclical generation, whatever the weights of options, prompt k takes from each variant or wildcard of the template its k-th choice in order (options in written order, selections in the same order as combinatorial generation, wildcard values in wildcard order), starting over after the last one and never ending. All parts of the template advance together once per prompt, and a nested part advances once each time its enclosing option comes round.",
 ["inputs","programs","histories"],"every template without wraps and every number of prompts",
 "Tests check the first few values of two or three templates; wrap-around, nesting and lock-step are claims about every template and position.",
 ["samplers/cycle.py","utils.py","samplers/base.py","commands/variant_command.py"],
 "cycle() over persistent per-combination generators",observe_at="SamplingContext.sample_prompts with the cyclical method"),
P("P05","Bounds and separators hold in every sampling mode",
 "A variant with bounds contributes, in every sampling mode, only selections whose size lies within the written bounds: a missing lower bound means 1, a missing upper bound means all written options, reversed bounds are swapped, sizes above the number of options (or of the values of a lone wildcard option) are cut down to it, and size 0 contributes nothing. Every permitted size occurs, no option is used twice in one selection, and the chosen options are joined by exactly the written separator (a comma when none is written).",
 ["inputs","programs"],"every bound pair, separator, option count, option kind and sampling mode",
 "The cross product of bound forms, option counts, separators and three samplers is far larger than the table in the tests.",
 ["parser/parse.py","commands/variant_command.py","samplers/random.py","samplers/combinatorial.py","samplers/cycle.py","samplers/utils.py","sampling_result.py"],
 "bound normalisation in the command, clamping in each sampler, join with separator"),
P("P06","A sampler mark changes exactly the part it is written on",
 "Marking a variant or wildcard as random, cyclical or combinatorial makes that part (and unmarked parts inside it) be sampled by that method while the rest keeps the generator's method. In combinatorial generation, marked random or cyclical parts do not multiply the number of prompts: each part of the template so marked just takes its next value in each prompt (one inside an option, a value per combination that uses the option), independently for each such part even when two are written identically. In random or cyclical generation a combinatorial mark has no effect beyond a warning, and cyclical parts at the top of the template still advance once per prompt.",
 ["inputs","programs"],"every assignment of marks to the parts of a template, for each generator method",
 "Interaction of three methods at every nesting position is combinatorial; tests cover a few fixed pairs.",
 ["sampling_context.py","samplers/combinatorial.py","samplers/command_collection.py","samplers/cycle.py","samplers/random.py"],
 "effective sampling method per command, non-finite fallback, value collection for non-finite parts"),
P("P07","Templates parse to exactly the structure written; plain text is kept verbatim",
 "Parsing a template recovers exactly the structure that was written: nesting, option order, weights, bounds, separators, sampler marks, wildcard names and parameters, variable assignments and accesses, wraps. Plain text, including spaces, newlines, punctuation and non-ASCII text, is reproduced character for character in the prompts (only white space right after an opening brace, option bar or bound prefix is dropped).",
 ["inputs","programs"],"every syntax tree up to a size bound rendered to text, and every plain-text string over an adversarial alphabet",
 "Each grammar alternative is tested in isolation; ambiguity and text corruption appear only in combinations of neighbours and nesting.",
 ["parser/parse.py","commands/literal_command.py","commands/sequence_command.py"],
 "pyparsing grammar with leave_whitespace on every element",observe_at="dynamicprompts.parser.parse.parse and generated prompts"),
P("P08","Custom delimiters never change what a template means",
 "Rewriting a template with another set of delimiters (variant braces, wildcard marker, variable and wrap brackets) and generating under the matching configuration yields the same prompts as the original under the default configuration, in every sampling mode and also inside wildcard values. Default delimiters that were replaced become ordinary text (as far as none of their characters is still in use), and parsing under one configuration is never affected by which configurations were used before.",
 ["inputs","configurations","histories"],"every template in the bounded space, every configuration of a set with shared, longer and regex-special delimiters, every order of using them",
 "Tests try one or two custom delimiters on single templates and never interleave configurations.",
 ["parser/config.py","parser/parse.py","samplers/utils.py","sampling_context.py","wildcards/wildcard_manager.py"],
 "parser built per configuration and cached by configuration"),
P("P09","Comments and layout white space never change which prompts are generated",
 "A hash comment runs to the end of its line and contributes no text, wherever it stands in a template, including between options and inside assignments; everything outside it other than white space is kept. White space and newlines around options, after bound prefixes and around variable names do not change which choices exist, and with white-space squashing enabled every prompt is the normal prompt with runs of white space collapsed to one space and the ends trimmed.",
 ["inputs","programs"],"every placement of comments and white space runs at every gap of every bounded template",
 "The number of gap/comment placements explodes; tests show a couple of hand-laid-out templates.",
 ["parser/parse.py","sampling_context.py","sampling_result.py","utils.py"],
 "pyparsing ignore expressions, optional white space elements, whitespace_squashed"),
P("P10","Malformed templates are rejected, never silently half-processed",
 "A template with an unclosed variant, variable, wrap or wildcard parameter list, or with other text the grammar cannot consume, raises an error from parsing and from every generator instead of returning prompts for part of it. Parsing always terminates, and after a rejected template the same generator and parser behave as if it had never been submitted.",
 ["inputs","histories","fault_sequences"],"every token string up to a length bound, and every interleaving of bad and good templates on one generator",
 "Only exhaustive strings show there is no malformed input that is accepted with its tail dropped.",
 ["parser/parse.py","sampling_context.py"],
 "parse_all over the whole input"),
P("P11","Variables: immediate is fixed once, deferred is re-evaluated, ?= preserves",
 "A variable assigned immediately is evaluated once per generation run and has that same value at every use; one assigned without the immediate mark is evaluated afresh at each use. A later assignment in the same template replaces an earlier one, a preserving assignment has no effect when the variable already has a value (from outside or from an earlier assignment), and a default applies exactly when the variable has no value; empty values count as values. Using a variable with neither value nor default raises an error unless a substitute for unknown variables is configured, and a variable defined in terms of itself raises an error rather than looping.",
 ["inputs","programs"],"every bounded program of assignments, accesses and defaults over two or three variables, in every sampling mode and for every outcome of the random source",
 "The semantics is about sequences of assignments and uses; tests contain a handful of such programs.",
 ["sampling_context.py","samplers/base.py","commands/variable_commands.py","parser/parse.py"],
 "process_variable_assignments, variable lookup with default, set of variables being sampled"),
P("P12","Variable bindings and wildcard parameters stay in scope",
 "A value assigned or passed inside a template is visible in the rest of that template and in everything it includes (wildcard values, nested wildcards, wraps), with parameters passed to a wildcard visible only inside that wildcard's values. Nothing leaks: not to sibling parts, not back to the caller, not to the next prompt, the next template, another generator or the values given by the user.",
 ["inputs","programs","histories"],"every bounded include/parameter/assignment nesting and every sequence of generate calls",
 "Leaks need a second use after the first; unit tests sample one template on a fresh context.",
 ["sampling_context.py","samplers/utils.py","samplers/random.py","samplers/combinatorial.py","samplers/cycle.py","parser/parse.py"],
 "immutable context replaced on each scope entry"),
P("P13","Wrapping puts the inner prompt exactly at the wrapper's first marker",
 "A wrap yields the wrapper's text with its first ellipsis marker (three or more dots, or any run of the supported ellipsis characters) replaced by the inner prompt, or the inner prompt appended when there is no marker; nothing else changes. Both sides are evaluated first, so in combinatorial generation every wrapper result is combined with every inner result, and in random generation each is drawn independently.",
 ["inputs","programs"],"every wrapper/inner pair over an adversarial marker alphabet and every nesting with variants, wildcards and variables",
 "Marker position, several markers, empty sides and markers arising from expansions form a space tests only touch.",
 ["commands/wrap_command.py","sampling_result.py","samplers/combinatorial.py","samplers/random.py","parser/parse.py"],
 "split at the first marker of the evaluated wrapper"),
P("P14","Wildcard names resolve to exactly the matching files, never outside the root",
 "A wildcard name or glob resolves to the values of exactly the collections whose names match it (names are paths below the root without extension, stars also cross directories), merged, de-duplicated and sorted as configured; when nothing matches, collections of that name in any subdirectory are used. Wrapping marks, repeated or reversed slashes and leading or trailing slashes make no difference, hidden directories and other file types are ignored, and no name can reach a file outside the configured roots (except through symbolic links the user placed inside them).",
 ["inputs","configurations"],"every name/glob over a bounded alphabet against every small wildcard tree, path and root-map managers",
 "Name syntax times tree shape is a product space; the tests use one fixed tree and a few names.",
 ["wildcards/wildcard_manager.py","wildcards/utils.py","wildcards/tree/build.py","wildcards/tree/tree.py","wildcards/tree/node.py"],
 "name cleaning, tree map of all collections, fnmatch, recursive fallback",observe_at="WildcardManager.get_values / match_collections / get_file / get_collection_names"),
P("P15","Wildcard lookups do not depend on the lookup history; clearing shows new data",
 "As long as the files do not change, looking up a wildcard gives the same values no matter which and how many lookups, option changes and cache clears happened before: the result depends only on the files and on the present sorting, de-duplication and shuffling options (shuffled means a permutation of the same values). After the cache is cleared, lookups reflect the files as they are now (between a change of the files and the clearing either state may show), and text written through a collection is what that collection then returns.",
 ["histories"],"every history of lookups, option toggles, file edits, writes and cache clears up to a depth, including more distinct lookups than the cache keeps",
 "Cache coherence is a property of histories; unit tests perform one or two operations on a fresh manager.",
 ["wildcards/wildcard_manager.py","wildcards/collection/text_file.py","wildcards/values.py"],
 "values cache and tree cache invalidated by option setters and clear_cache",state="_values_cache, _tree, per-file cache"),
P("P16","Wildcard files yield exactly their entries, weights and names",
 "A text file yields its lines, trimmed, without blank lines and lines starting with a hash, in file order. A YAML or JSON file yields one collection per list (or single string) at its key path below the file's directory, or one named after the file for a top-level list, with weighted entries (prefix or mapping form) carrying their weight and text; the same data gives the same result in both formats. Malformed files, lists or entries are skipped without affecting any other list, file or lookup.",
 ["inputs","fault_sequences"],"every file content over a bounded alphabet of lines / values and every placement of a malformed file among good ones",
 "File contents are unbounded user input; fixtures cover one file per format.",
 ["wildcards/collection/text_file.py","wildcards/collection/structured.py","wildcards/collection/list.py","wildcards/tree/build.py","wildcards/item.py","utils.py"],
 "line filter, recursive dict walk, weight prefix parsing, per-file exception isolation"),
P("P17","A missing wildcard stays visible in the prompt and never breaks generation",
 "Where a wildcard has no values, the prompt contains the wildcard's name between wildcard marks at that place and everything else is generated normally, in every sampling mode and wherever the wildcard stands (alone, in a sequence, as an option, as the only option, with bounds, in a variable, inside another wildcard's value). In combinatorial generation it counts as a single choice, so generation stays finite and complete.",
 ["inputs","programs","fault_sequences"],"every template position of a missing or empty wildcard in every sampling mode",
 "The tests put a missing wildcard in one position and take no or one prompt.",
 ["samplers/utils.py","samplers/random.py","samplers/combinatorial.py","samplers/cycle.py"],
 "not-found fallback result"),
P("P18","Seeds make generation reproducible, and per-prompt seeds act per prompt",
 "Two random generators created with the same seed and given the same sequence of calls return the same prompts, whatever other generators, global random state or earlier process history exist (with wildcard shuffling off). With seeds given per call, prompt i is determined by the template, the wildcards and seed i alone (for templates without cyclical parts or immediate variables): it does not depend on the other seeds, its position, earlier calls or the constructor seed; a single seed, as a number or one-element list and including 0, applies to every prompt and a seed count mismatch is an error.",
 ["histories","inputs"],"every history of construct / generate / reseed / global-random operations up to a depth, over a set of templates and seeds",
 "Reproducibility is a two-run property over histories; tests compare one call with one seed.",
 ["generators/randomprompt.py","wildcards/values.py","utils.py","samplers/random.py","constants.py"],
 "rand.seed before each draw from one lazily advanced generator"),
P("P19","Independent generations never influence each other",
 "Prompt streams drawn from any number of generators, contexts or templates sharing a process, a parser and a wildcard manager, and advanced in any interleaving (one thread or several), each yield what they would yield alone. Generating never modifies the parsed template, the variables or wildcard values supplied by the caller, or the generator's configuration, and a failed generation leaves no trace in later ones.",
 ["schedules","histories","fault_sequences"],"every interleaving of advancing two or three lazy streams, every history of generate calls (some failing) on shared objects, and thread schedules with a bounded number of preemptions",
 "Interference needs a particular interleaving of partially consumed streams; tests run one stream to completion.",
 ["sampling_context.py","samplers/base.py","samplers/combinatorial.py","samplers/cycle.py","parser/parse.py","wildcards/wildcard_manager.py"],
 "stateless sampler objects shared by contexts, frozen contexts, cached parsers"),
P("P20","Jinja templates return exactly the rendered prompts or prompt blocks",
 "A Jinja generator asked for n prompts renders the template n times; it returns those renderings, or, if prompt blocks were rendered, the text of every block in the order rendered, cut to n when limiting is on and with white space squashed when that is on. Its helper functions give what they name: one of the given items (by weight when weighted), integers within the stated range, all permutations of the requested sizes, all values of a wildcard, one random or all combinatorial prompts of a template (at most 1000, the default limit). No block or value carries over from one call to another, and template syntax errors surface as a generator error.",
 ["inputs","programs","histories"],"every bounded composition of blocks, loops and helper calls, every outcome of the random source, every sequence of calls",
 "Blocks accumulate across renders and calls; tests check single calls with mocked randomness.",
 ["generators/jinjagenerator.py","jinja_extensions.py"],
 "per-call environment with a prompt block list"),
P("P21","Magic prompts keep order and origin, and blocked text is retried as bounded",
 "Magic prompt generation returns one prompt per prompt of the inner generator, in the same order, each derived from its own original and starting with it when the model's text does. While any prompt matches the blocklist, exactly the blocked ones are regenerated from their own originals, up to the allowed number of attempts, and the others stay as they were. The model is asked with the configured settings. Selecting a model that fails to load leaves later selections working, and each generator uses, and reports, the model it last selected, whatever other generators select.",
 ["fault_sequences","inputs","histories"],"every assignment of model answers (good, blocked, decorated) to prompts and attempts, every history of model selections and load failures",
 "The model is mocked with one answer in tests; the retry loop is a protocol over all answer sequences.",
 ["generators/magicprompt.py"],
 "indexed regeneration loop over a shared class-level pipeline"),
P("P22","Wrapping generators add only what they promise to the inner prompts",
 "Attention adds to each prompt that contains words one emphasis of the form (phrase:number), around whole words of the prompt and with the number (of two decimals) within the configured limits, and removing the emphasis restores the inner prompt; batching returns the inner generator's output the configured number of times, each with the requested limit; the plain pass-through returns the template unchanged as often as asked. The lucky generator searches for the inner prompt (or a random number when it is blank), sending it whole whatever characters it contains, returns exactly the requested number of prompts taken from the answer, and turns every service fault into a generator error.",
 ["inputs","fault_sequences"],"every small prompt, chunk choice, attention value, batch count and service answer or fault",
 "Tests fix the random choices and one service answer.",
 ["generators/attentiongenerator.py","generators/batched_combinatorial.py","generators/dummygenerator.py","generators/feelinglucky.py"],
 "composition around an inner generator"),
P("P23","Cleaning a magic prompt keeps its words and leaves the original prompt alone",
 "Cleaning up the model's text never loses, adds, joins or reorders words. If the text begins with the original prompt, the result begins with that prompt unchanged, followed by a space and the cleaned addition, which does not depend on the original; otherwise the whole text is cleaned. Cleaning turns braces into parentheses, trims non-word characters at both ends, removes blanks inside parentheses and around hyphens between words, turns semicolons, full stops and repeated commas before a word into one comma and space, drops lone underscores, and turns n exclamation marks after a phrase into the weight 1.1 to the n-th power (two decimals) on exactly that phrase.",
 ["inputs"],"every short model text over an alphabet of letters and all characters with a rule, after every kind of original prompt",
 "Each rule is tested on one sentence; the rules are text substitutions that interfere with one another and with repeated phrases.",
 ["generators/magicprompt.py"],
 "a series of regular-expression substitutions on the text after the original prompt"),
P("P24","Templates built from command objects generate what their written form denotes",
 "A template assembled by a program from command objects (literals, sequences, variants, wildcards, variables, wraps) and handed to a sampling context gives, in every sampling method, the prompts of the same template written as text: options, weights and bounds (cut down to the number of options, a negative bound as zero, in either order) mean the same, a literal's text is never read as syntax, a sequence's separator stands between its parts, and a part's own sampling method wins over the context's. A parsed template can be sampled any number of times with the same result as its text.",
 ["inputs","programs"],"every tree of command objects up to a size, every bound pair, weight and separator, in the three methods with every outcome of the random source",
 "Tests build a handful of commands per sampler with mocked randomness; agreement with the written form is a statement about every tree.",
 ["commands/variant_command.py","commands/sequence_command.py","commands/literal_command.py","commands/wildcard_command.py","commands/wrap_command.py","commands/variable_commands.py","sampling_context.py"],
 "dataclass commands with default fields, from_literals_and_weights and bound correction in __post_init__",observe_at="SamplingContext.sample_prompts with Command objects"),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
