# Per-property notes: NOTE goes to MANIFEST.json's level_note and to DESIGN.md, WHY and OUT to DESIGN.md only.
NOTE = {
"P01": "Oracle: the two inequalities, read through Point/Mark/Content after one arbitrary instruction from an arbitrary state, so that histories of any length follow by induction over states with at most the bounded text.",
"P02": "Oracle: the engine's implicit assertions (no Go panic) and the per-path instruction budget (no unbounded loop); wrong argument counts and kinds must give an error that names the function.",
"P03": "Oracle: text, point, mark and remembered match captured before and after an instruction that returned an error.",
"P04": "Oracle: slices of the original text computed in the harness (one splice per edit).",
"P05": "Oracle: clamped arithmetic on exact integers and floats, written once in the harness.",
"P06": "Oracle: a reference word scanner (13 lines) in the harness, and agreement between the commands.",
"P07": "Oracle: a reference line splitter in the harness; the commands are compared with it and with each other.",
"P08": "Oracle: strings.Index/LastIndex semantics over the admissible side of point, stated as 'match here and none nearer'.",
"P09": "Oracle: the leftmost match package regexp finds in the text from point (the last of all successive ones before point going backward). The regexp engine itself is modelled (engine/rx.go, leftmost-first) and checked by native replays.",
"P10": "Oracle: the splice of the match the search reported, and the documented rule for stale matches.",
"P11": "Oracle: text between the smaller and larger of point and mark.",
"P12": "Oracle: values computed from the captured state; every query must leave text, point, mark and match unchanged.",
"P13": "Oracle: reference implementations over bytes; for non-ASCII letters package unicode, per character.",
"P14": "Oracle: package regexp as in P09: a leftmost match starting at point, a full match of a text ending at it; replacements against a splice over all successive matches.",
"P15": "Oracle: a reference evaluator over the same program values that records the order of calls, the first error and its state.",
"P16": "Oracle: a reference reader of the shell script syntax in the harness that gives words, literals (as strconv.Unquote) and separators.",
"P17": "Oracle: the three syntaxes written from one program tree by the harness; all must parse to that tree and edit alike.",
"P18": "Oracle: write, read back, compare trees with the harness' own equality; what cannot be represented has to be an error.",
"P19": "Oracle: the reference reader of P16, which says malformed or gives the list of words; the parsed program's words must be all of them. Files must be untouched on rejection.",
"P20": "Oracle: the content on disk before and after, and what evaluating the script on a buffer (checked by P01-P15) gives; the disk is the engine's file system model with faults, natively a scratch directory under RLIMIT_FSIZE.",
"P21": "Oracle: a table from flags to allowed effects in the harness; every file of the directory, stdout and the error are compared.",
"P22": "Oracle: the effects on files and the reported texts computed by the harness from the file contents, per file and pass.",
"P23": "Oracle: the function registry itself: each answer has to contain exactly its own entry, in alphabetical order, twice the same under different map iteration orders.",
"P24": "Oracle: a reference verdict in the harness from the case's own strings (which the harness writes as XML) and the evaluated script; exit status is taken from a child process natively.",
"P25": "Oracle: the same script, request or edit in a process of its own: `zv.Fork` runs it and takes all effects back (natively in a child process replayed to that point), then others run, then it runs again.",
"P26": "Oracle: structural comparison written in the harness, and copies of lists taken before the operation.",
"P27": "Oracle: utf8.ValidString and utf8.RuneStart at point and mark.",
"P28": "Oracle: the same instruction in a twin, a new buffer brought to the same text, point, mark and remembered match.",
"P29": "Oracle: the registered documentation (parameters, optional ones, types) and the tools' input schemas, against what the functions and handlers accept.",
}
WHY = {
"P01": "the tests start in range and run one or two instructions; here every state is a start state, so a stale mark after some deletion needs no lucky history",
"P02": "crashes sit at extreme counts, empty buffers, stale positions and malformed trees that no test lists",
"P03": "the tests look at the message of a failing call, not at the state behind it",
"P04": "off-by-one splices show only at particular point/mark/text combinations; padding harnesses reach size thresholds",
"P05": "every float64 is an argument, including those whose conversion to int is undefined",
"P06": "agreement of five commands over all texts is a relation between executions, not a value a test can list",
"P07": "as P06, for lines: last line without newline, empty lines, point on a newline",
"P08": "overlapping and touching matches, empty needles, every start position",
"P09": "about 3000 patterns against every short text at every position",
"P10": "the state kept between two instructions is attacked by an arbitrary instruction in between",
"P11": "point before mark, after it, equal, stale",
"P12": "a query that moves something is invisible to a test that checks its value",
"P13": "multi-byte characters, length-changing case pairs, clipped slices at extreme bounds",
"P14": "anchoring at point is a relation between pattern, text and position",
"P15": "evaluation order and the state in the error need programs as data, of every shape within the bound",
"P16": "the reader's state machine is driven through every string over its special characters",
"P17": "equality of three parsers over all programs within the bound",
"P18": "a round trip over all trees, and errors for all unrepresentable ones",
"P19": "a malformed script is any of exponentially many; the reference reader classifies all of them up to the bound",
"P20": "a fault after any number of bytes, at any file of a batch",
"P21": "all flag combinations times file states times write faults",
"P22": "shapes of untyped arguments, loops over files with failures in any pass",
"P23": "map iteration order and request history are adversarial inputs no test controls",
"P24": "a runner that passes wrongly makes every other test worthless; near misses are generated at every place",
"P25": "hidden shared state shows only between executions",
"P26": "laws over pairs and triples of values; aliasing needs spare capacity in the backing array",
"P27": "every valid UTF-8 text within the bound with point at every boundary",
"P28": "state kept on the side goes stale only after particular edits; here each pair and triple of instructions is tried on all short texts",
"P29": "documentation and checks are separate tables; all counts and kinds of arguments are tried for every function",
}
OUT = {
"P01": "texts longer than the bound that are not padding plus a short arbitrary part",
"P06": "backward-kill-word from a point inside a character",
"P07": "kill-line from inside a character with count 1",
"P09": "patterns of three and more atoms, named groups, Unicode classes; NaN arguments",
"P14": "look-back with context-dependent atoms (\\b, ^) inside the matched part",
"P16": "literals whose escapes need more than the bounded body",
"P18": "symbols that are not words (KF3)",
"P20": "atomicity of a single write (KF4); concurrent writers; crashes of the machine between write calls",
"P21": "two different targets that are the same file through links; --verbose wording; --backup files left by a script that fails",
"P22": "the JSON-RPC loop of the MCP server library (third party)",
"P23": "the wording of descriptions",
"P24": "json inputs (KF5), output next to an expected error (KF6), parsing by encoding/xml beyond the model's subset, the default tests/*.xml glob, which needs a working directory",
}
