_I = "stateless model checking of the implementation: "
N = {
"P01": (_I+"all templates up to a size bound and every prompt limit, each prompt list compared with a reference interpreter of the syntax tree", "all trees up to the stated sizes over a fixed alphabet, plus scale families; longer templates only through those families"),
"P02": (_I+"all templates up to a size bound x every outcome sequence of the random source, result set compared with the reference's", "every outcome explored per case up to a run budget; continuous draws on a grid"),
"P03": (_I+"every outcome sequence of the random source with exact rational probabilities, joint distributions compared with the reference", "exact for dyadic weights; up to 3 successive prompts"),
"P04": (_I+"all templates up to a size bound, prompt positions through several periods, compared with the reference", "positions up to the stated number of prompts"),
"P05": (_I+"all bound pairs x separators x option counts/kinds x three sampling modes, all random outcomes", "up to 5 options"),
"P06": (_I+"all assignments of sampler marks to the parts of all templates up to a size bound, three generators, all random outcomes", "sizes as stated; wraps not sampled cyclically"),
"P07": (_I+"all syntax trees up to a size bound rendered to text, parse result and prompts compared with the tree; all plain texts over an adversarial alphabet", "sizes/lengths as stated"),
"P08": (_I+"all templates up to a size bound x delimiter configurations x orders of use", "a set of configurations with shared, longer and regex-special delimiters; alphanumeric delimiters excluded"),
"P09": (_I+"all placements of comments and white space runs at the gaps of all bounded templates", "one to three placements per template"),
"P10": (_I+"all token strings up to a length bound classified by an independent recogniser, interleaved with good templates on one generator", "token alphabet and lengths as stated"),
"P11": (_I+"all programs of assignments, accesses and defaults up to a length, three sampling modes, all random outcomes, compared with the reference", "two or three variables, program lengths as stated"),
"P12": (_I+"all include/parameter/assignment nestings up to a bound and all sequences of generate calls, compared with the reference", "depths as stated"),
"P13": (_I+"all wrapper/inner pairs over a marker alphabet and nestings, all random outcomes, compared with the reference", "lengths as stated; wraps not sampled cyclically"),
"P14": (_I+"all names and globs over an alphabet x all small wildcard trees on a scratch file system, compared with an independent resolver", "trees of a few files, names up to the stated length; no symbolic links out of the root"),
"P15": (_I+"explicit-state model of the wildcard manager; all operation histories up to a depth replayed on the real manager and files", "depths as stated"),
"P16": (_I+"all file contents over an alphabet of lines/values and all placements of malformed files, compared with an independent reading", "contents up to the stated size"),
"P17": (_I+"all template positions of missing wildcards x sampling modes, compared with the reference", "sizes as stated"),
"P18": (_I+"all histories of disturbances around seeded calls, compared with the same calls alone, in this and in separate processes", "fixed sets of templates and seeds; histories as stated"),
"P19": (_I+"all interleavings of stream advances and all two-thread schedules with a bounded number of preemptions at line granularity, compared with each stream alone", "two or three streams; preemption bound as stated"),
"P20": (_I+"all compositions of blocks, loops and helper calls up to a size x every outcome of the random source x call histories, compared with a naive interpreter; syntax decided by Jinja2", "sizes and depths as stated"),
"P21": (_I+"every assignment of stand-in model answers to prompts and attempts, all histories of selections and load failures", "up to 4 prompts and 3 attempts; histories of <= 5 operations"),
"P22": (_I+"all small prompts x random outcomes; every service answer and fault, and pairs of faults", "attention values on a grid including both limits"),
"P23": (_I+"all model texts up to a length over the characters with clean-up rules, and all rule sequences between words, compared with a table of the rules", "texts of <= 5 characters, 4 to 5 words"),
"P24": (_I+"all trees of command objects up to a size built by our own builder, three sampling modes, all random outcomes, compared with the reference", "sizes as stated; weighted wildcards only in random mode; wraps not sampled cyclically"),
}
