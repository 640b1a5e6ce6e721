import json
E="edlisp/"
def B(*names): return [E+"builtin_%s.go"%n for n in names]
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

prop("P01","Point and mark always stay inside the buffer",
 "After every instruction of any script, successful or failed, 1 <= point <= buffer-size+1 and 1 <= mark <= buffer-size+1. This also holds when a script passes huge, negative, fractional or non-finite numbers, deletes text that mark or point lay in, swaps point and mark, or a Go caller sets either position to an arbitrary integer.",
 ["inputs","programs","histories"],"every buffer text, every start position, every sequence of instructions, every float64 argument",
 "Tests use in-range positions and one or two instructions; staleness of mark after a deletion and extreme counts need arbitrary histories and 64-bit values.",
 [E+"eval.go"]+B("backward_char","forward_char","goto_char","set_mark_command","exchange_point_and_mark","delete_region"),
 [("position clamping in the setters","edlisp/eval.go Buffer.SetPoint/SetMark"),("clamping when content shrinks","edlisp/eval.go")],
 ["Buffer.Point()","Buffer.Mark()","buffer-size"])
prop("P02","No script can crash or hang the editor",
 "Evaluating any program of instructions over the built-in functions, with any number and kind of arguments and any argument values, always returns a value or an error: it never panics and never loops without bound, whatever the buffer text and positions. In particular a wrong argument count or wrong argument kind is reported as an error naming the function.",
 ["inputs","programs"],"every built-in, every arity 0..4, every mix of string/number/symbol-valued/list arguments, every float64 value, every buffer text",
 "Tests call each function with a handful of well-formed arguments; panics hide at extreme counts, empty buffers and stale positions.",
 [E+"eval.go"]+B("delete_char","kill_word","delete_line","kill_line","mark_line","substring","buffer_substring","capitalize"),
 [("argument validation at the head of each builtin","edlisp/builtin_*.go"),("loop bounds on content length","edlisp/builtin_*line*.go")],
 ["return value/error of Eval"])
prop("P03","A failing instruction changes nothing",
 "When an instruction returns an error, the buffer text, point, mark and remembered search match are exactly what they were after the arguments of that instruction were evaluated: a failed search, a rejected argument or an invalid regexp never moves point or edits text.",
 ["inputs","programs"],"every built-in, every failing argument list, every buffer state",
 "Tests check the error message of a few failing calls, not the state left behind.",
 [E+"eval.go"]+B("search_forward","re_search_forward","replace_match"),
 [("error return before any mutation","edlisp/builtin_*.go")],["Buffer state after Eval returns an error","ExecutionError fields"])
prop("P04","Edits are local: text outside the edited span is untouched",
 "insert puts exactly the given text at point and leaves point after it; delete-char, delete-backward-char and delete-region remove exactly the count characters after or before point (clipped to the buffer, nothing for counts <= 0) or the text between point and mark; replace-region substitutes exactly that text, also when the region is empty. Everything before and after the span is preserved byte for byte, point ends at the edit (after inserted or replacement text, at the start of deleted text) and mark is unchanged unless it now lies beyond the end of the buffer, where it is clipped.",
 ["inputs","histories"],"every text, every point and mark, every count, every inserted string, single edits and sequences of edits",
 "Tests pin a few positions in fixed sentences; off-by-one and clipping mistakes appear at boundaries of arbitrary text.",
 [E+"eval.go"]+B("insert","delete_char","delete_backward_char","delete_region","replace_region"),
 [("prefix + middle + suffix reconstruction","edlisp/builtin_*.go")],["buffer text, point, mark after the instruction"])
prop("P05","Character and buffer motion lands exactly where asked",
 "goto-char moves to the given position, forward-char and backward-char move by exactly the given count (default 1, negative counts go the other way), and beginning-of-buffer/end-of-buffer move to 1 and buffer-size+1; fractional numbers truncate towards zero and targets outside the buffer, however extreme, clip to the nearest end. None of them changes the text or the mark.",
 ["inputs"],"every text length, every start, every float64",
 "Tests use small positive in-range integers.",
 B("goto_char","forward_char","backward_char","beginning_of_buffer","end_of_buffer")+[E+"number.go"],
 [("clamping","edlisp/builtin_goto_char.go")],["point, text, mark"])
prop("P06","Word commands agree on what a word is and where it ends",
 "A word is a maximal run of ASCII letters and digits: forward-word and backward-word move to the end of the count-th word ahead or the start of the count-th word behind (or the buffer end), kill-word deletes exactly the text forward-word would cross, and mark-word selects the word containing or ending at point, else the next word. backward-kill-word removes the text backward-word would cross plus, as its documented example does, the character at point, and removes nothing when there is nothing to cross or the count is not positive.",
 ["inputs"],"every text, every point, every count",
 "Tests cover single-space-separated ASCII words; punctuation runs, digits, buffer ends and counts beyond the text need all inputs.",
 B("forward_word","backward_word","kill_word","backward_kill_word","mark_word")+[E+"helpers.go"],
 [("shared isLetter predicate and scan loops","edlisp/helpers.go")],["point, mark, text"])
prop("P07","Line commands respect line boundaries",
 "Lines are delimited by newline characters: beginning-of-line and end-of-line stop exactly at the boundaries of the line containing point, goto-line N goes to the start of the N-th line (clipped to the first and last line), mark-line and delete-line with a count of at least 1 cover exactly that many whole lines from the current one including newlines (or up to the end of the buffer). kill-line never touches text before point; with count 1 it keeps the character at point and removes the rest of that line only (nothing if point is on the newline), with a larger count it removes from point through that many newlines, and non-positive counts delete nothing.",
 ["inputs"],"every text incl. empty lines, missing or trailing final newline, every point, every count",
 "Tests use three-line buffers with point inside a line; empty lines, point on a newline and end-of-buffer are not reached.",
 B("beginning_of_line","end_of_line","goto_line","mark_line","delete_line","kill_line"),
 [("newline scans","edlisp/builtin_*line*.go")],["point, mark, text"])
prop("P08","Literal search finds the nearest match and only the nearest match",
 "search-forward finds the first occurrence of its argument at or after point and search-backward the last occurrence lying wholly before point; both leave point at the end of that occurrence and remember it for replace-match. If there is no occurrence they return an error, and neither ever changes text or mark.",
 ["inputs","histories"],"every text, needle and point; repeated searches",
 "Tests search for one distinct word; overlapping, adjacent, repeated and point-straddling occurrences need all inputs.",
 B("search_forward","search_backward"),[("strings.Index/LastIndex on a slice at point","edlisp/builtin_search_*.go")],["point, error, following replace-match"])
prop("P09","Regexp search finds the leftmost or rightmost match relative to point",
 "re-search-forward finds the leftmost match of the Go regexp in the text from point to the end of the buffer, and re-search-backward the last of the successive non-overlapping matches in the text before point; both leave point at the match end and remember the matched text for replace-match. An invalid regexp or no match is an error; text and mark never change.",
 ["inputs"],"every text and point, for a broad family of regexps",
 "Tests use one digit pattern; greedy, alternation, empty and anchored patterns at arbitrary points are not reached.",
 B("re_search_forward","re_search_backward"),[("regexp on the slice at point with offset correction","edlisp/builtin_re_search_*.go")],["point, error, following replace-match"])
prop("P10","replace-match only ever replaces the text the last search matched",
 "replace-match substitutes exactly the text found by the most recent successful search, where that search found it, and leaves point after the replacement. If no search has succeeded, or edits since then mean the matched text is no longer at that place (including because it was already replaced), it returns an error and changes nothing rather than overwriting other text.",
 ["inputs","histories"],"every text, needle, replacement and every sequence of edits between search and replace",
 "Tests replace immediately after a search; the corruption needs an edit or second replacement in between.",
 B("replace_match","search_forward","search_backward","re_search_forward","re_search_backward")+[E+"eval.go"],
 [("remembered match text and bounds","edlisp/eval.go Buffer.lastSearch*")],["text, point, error"])
prop("P11","Mark and region commands describe the same region",
 "set-mark sets mark to point, set-mark-command sets it to the given position clipped to the buffer (or to point), exchange-point-and-mark swaps the two, mark-whole-buffer spans the whole text; none edits the text. region-beginning and region-end are always the smaller and larger of point and mark whatever their order, and buffer-substring between them is exactly the text delete-region removes and replace-region replaces.",
 ["inputs","histories"],"every text, point, mark and position argument",
 "Tests set mark before point in range; reversed, equal and out-of-range combinations need all pairs.",
 B("set_mark","set_mark_command","exchange_point_and_mark","mark_whole_buffer","region_beginning","region_end","buffer_substring","delete_region","replace_region"),
 [("normalisation of point/mark order","edlisp/builtin_*region*.go")],["point, mark, text, returned values"])
prop("P12","Queries report the real state and change nothing",
 "point, mark, point-min, point-max, buffer-size, line-number-at-pos, current-column, region-beginning/-end, buffer-substring, looking-at and looking-back never change text, point, mark or the remembered match. point-min is 1, point-max is buffer-size+1, line-number-at-pos is one more than the number of newlines before point, buffer-substring START END returns exactly the text between the clipped positions (END -1 meaning the end), and current-column is determined by the distance of point from the start of its line.",
 ["inputs"],"every text, point, mark, and position argument",
 "Tests query fixed positions only and do not compare state before and after.",
 B("point","mark","point_min","point_max","buffer_size","line_number_at_pos","current_column","buffer_substring"),
 [("read-only access","edlisp/builtin_*.go")],["returned values, state before/after"])
prop("P13","String functions compute what they say",
 "length is the byte length; concat joins its arguments in order; substring S START [END] is the 1-based half-open slice with both ends clipped to the string; upcase/downcase map letters and change nothing else; capitalize upcases the first character and downcases the rest without corrupting multi-byte characters. string functions never touch the buffer, and downcase(upcase(s)) equals downcase(s) for ASCII s.",
 ["inputs"],"every string, every index pair",
 "Tests use 'hello world' and in-range indices.",
 B("length","concat","substring","upcase","downcase","capitalize"),
 [("slice clipping","edlisp/builtin_substring.go")],["returned value"])
prop("P14","Pattern predicates agree with the regexp on the text around point",
 "looking-at is t exactly when a match of the pattern starts at point (its leftmost match in the rest of the text starts there) and looking-back is t exactly when some match ends at point; string-match returns the 0-based start of the leftmost match or nil, and replace-regexp-in-string replaces every successive match and nothing else. A pattern that is not a valid regexp is compared literally by looking-at, looking-back and string-match and is an error for replace-regexp-in-string.",
 ["inputs"],"every text, point and a broad family of patterns",
 "Tests use one match and one non-match; repeated candidates before point, end-of-buffer and empty matches are not reached.",
 B("looking_at","looking_back","string_match","replace_regexp_in_string"),
 [("regexp on text slices with anchoring","edlisp/builtin_looking_*.go")],["returned symbol/number/string"])
prop("P15","Evaluation is in order, stops at the first error and reports where",
 "Eval runs instructions strictly in order, evaluates arguments left to right before the call, returns the value of the last instruction (an empty string for an empty program) and calls the trace callback exactly once after each successful instruction. At the first failing instruction it stops: no later instruction has any effect, and the returned error carries that instruction, its 0-based index and the buffer text, point, mark and last match at that moment, and unwraps to the original error.",
 ["programs","inputs"],"every program up to a length, every failure position, nested calls",
 "Tests check one failing single-instruction program and one nested call.",
 [E+"eval.go",E+"error.go"],[("EvalWithTrace loop and ExecutionError","edlisp/eval.go")],["result, trace calls, ExecutionError fields"])
prop("P16","String literals and separators in scripts mean what they say",
 "Inside a double-quoted literal, semicolons, parentheses, spaces and escaped quotes are text, and the value is exactly the Go-unquoted literal; outside literals, semicolons and newlines separate instructions, blanks separate words, and empty instructions are skipped. A word is the number that strconv.ParseFloat reads in it, or else the symbol of that name. So any string written as a quoted literal is received by the called function byte for byte, at any place in any line of a script.",
 ["inputs"],"every string content, every placement in shell and s-expression lines",
 "Tests use a few literals; the interplay of escapes, quotes and separators needs every content.",
 [E+"parser/linebased.go"],[("splitOnSemicolons and tokenize share the quote/escape rules","edlisp/parser/linebased.go"),("strconv.Unquote","edlisp/parser/linebased.go")],["parsed values","result of ExecuteScript"])
prop("P17","The three script syntaxes mean the same thing",
 "The same instruction sequence written as shell lines, as s-expressions (one or several per line, in shell or sexp format) or as a JSON array of command arrays parses to equal programs and edits any input identically, with errors for the same inputs. Numbers, strings, symbols and nested calls denote the same values in each syntax.",
 ["programs","inputs"],"instruction sequences with arbitrary names, strings, numbers and nesting up to a bound",
 "Tests parse each syntax separately with fixed scripts and never compare them.",
 [E+"parser/linebased.go",E+"parser/json.go","texted.go"],[("shared value constructors","edlisp/parser")],["parsed programs via Equal","ExecuteScriptWithFormat output"])
prop("P18","Writing a program and parsing it back gives the same program",
 "For every program of instruction lists (nested at most 10000 deep), the s-expression writer's output parses back to an equal program; the same holds for the shell writer when no instruction is empty or nested, and for the JSON writer with valid UTF-8 strings and finite numbers (symbols in argument position become strings). What a writer cannot represent (nested lists in shell, non-finite numbers in JSON, non-list values in shell) is an error, never silently altered output.",
 ["programs"],"every program up to a bound with arbitrary string contents and numbers",
 "Tests compare writer output with fixed text; round trips over special characters and numbers are not tested.",
 [E+"writer/sexp.go",E+"writer/shell.go",E+"writer/json.go",E+"number.go",E+"string.go",E+"list.go",E+"parser/linebased.go",E+"parser/json.go"],
 [("strconv.Quote/Unquote symmetry, %g formatting","edlisp/writer, edlisp/string.go, edlisp/number.go")],["parse(write(p)) Equal p"])
prop("P19","Malformed scripts are rejected before anything is edited, and nothing is ignored",
 "A script with an unterminated string or list, a stray closing parenthesis, an invalid escape or invalid JSON yields an error and no instruction of it runs, even those before the mistake. In a script that is accepted, every word of the text is part of the parsed program: no trailing expression, argument or line is dropped.",
 ["inputs"],"every script text up to a bound",
 "Tests feed a few malformed scripts; dropped trailing input is invisible to tests that only check what was parsed.",
 [E+"parser/linebased.go",E+"parser/json.go","texted.go"],[("token consumption","edlisp/parser/linebased.go parseSExpression")],["error or complete program"])
prop("P20","File editing is all-or-nothing per file and reports honestly",
 "EditFile, EditFiles and their WithFormat variants write a file only after its whole script succeeded, and then write exactly what ExecuteScript returns for its content; when reading, parsing, evaluating or writing fails, that file's content is left as it was, its result says failure with the error, and the other files are still processed independently and in order. A result says success only if the file holds the edited text, and there is exactly one result per requested file, in request order.",
 ["inputs","fault_sequences"],"every content, script, list of files and every pattern of read/write failures",
 "Tests edit one or two good temp files; failures in the middle of a batch and write failures are not injected.",
 ["texted.go"],[("read - execute - write ordering","texted.go EditFile*")],["file contents after the call, EditResult list"])
prop("P21","The edit command touches only what the flags ask for",
 "With --dry-run no file is ever created or changed; without --in-place or --output no file is written and the result goes to stdout; --output writes only that file, and --in-place only the named files plus, when --backup SUFFIX is given, a byte-exact copy of the original at FILE+SUFFIX made before the file is changed. --expression never writes files and prints the value of each expression in order; an invalid flag combination, unreadable input, bad script or failing script leaves every target as it was and the command returns an error. It never says that a file was edited which was not.",
 ["configurations","inputs","fault_sequences"],"every combination of flags, 0-2 files, every file content and every pattern of read/write failures",
 "Tests run a few flag combinations; the full flag product and I/O faults are not explored.",
 ["commands/edit.go"],[("flag dispatch","commands/edit.go runEdit/processFiles*")],["files created/changed, stdout, returned error"])
prop("P22","The MCP tools do exactly what the library does",
 "texted_eval returns the text ExecuteScript returns (or, in expression mode, the last value in s-expression syntax) and flags an error result exactly when execution fails; edit_file applies the script to every listed file as EditFiles does and its report names each file once as edited or failed, truthfully. With loopUntilError it repeats whole passes over the files until a pass has a failure and reports the number of passes.",
 ["inputs","histories","fault_sequences"],"every input, script, file content, fault pattern, and request shape (missing or mistyped parameters)",
 "Tests call the handlers with a few scripts; mismatches with the library and multi-file reports under failures are not compared.",
 ["tools/edit_file.go","tools/texted_eval.go","texted.go"],[("delegation to texted.ExecuteScript/EditFiles","tools/*.go")],["CallToolResult text and IsError, files"])
prop("P23","Every function is documented and documentation output is deterministic",
 "Every function in the default environment has exactly one documentation entry under its own name and every documented function exists; related functions it names exist; lookups, categories and searches return exactly the matching entries. The texted_doc tool and doc command give the same output for the same request every time, whatever the order in which the runtime iterates maps.",
 ["inputs","schedules"],"every function name, every query string, every map iteration order",
 "Tests look up a few names; map order varies between runs so a single run cannot show determinism.",
 [E+"documentation_registry.go",E+"documentation.go",E+"eval.go","tools/texted_doc.go","commands/doc.go"],
 [("registration in init, sorting of names and categories","edlisp/documentation_registry.go")],["doc output, registry contents"])
prop("P24","The XML test runner never passes a test whose expectation fails",
 "A test case states an expectation by a non-empty output, or a result or error that is not blank. A case without one never passes, nor does one whose script (read in the language its input names) or stated result cannot be parsed. An expected error requires evaluation to fail with a message containing that text (surrounding parentheses aside), next to a stated output that must still match; without an expected error, evaluation must succeed, a stated output must be identical to the final buffer and a stated result equal to the last value. When these hold the case passes. A file that is missing or not well-formed fails; a well-formed one means the case its elements spell out, in any order. The test command reports each case by its verdict, counts them, and exits with 1 exactly when a case did not pass.",
 ["inputs"],"every combination of buffer, script outcome and expectation text",
 "The repository's tests are themselves run by this runner, so a runner that passes too much hides every other failure.",
 [E+"testing/testing.go",E+"equal.go","commands/test.go"],[("expectation checks","edlisp/testing/testing.go RunTestWithTrace")],["TestResult.Passed, report and exit code of the test command"])
prop("P25","Executions are isolated from each other and deterministic",
 "Running a script depends only on the script and the input text: no buffer, environment, remembered search or parsed program of one execution influences another, the program value passed to Eval is not modified, and repeating the same execution gives the same text, value and error.",
 ["histories","programs"],"every pair of scripts run one after the other, same or different environments",
 "Tests use a fresh buffer each and never run a script twice or check shared state.",
 [E+"eval.go","texted.go"]+B("search_forward","replace_match"),
 [("per-Buffer state, no package-level mutable state","edlisp/eval.go")],["result of second run vs fresh run, package-level writes"])
prop("P26","Value equality is an equivalence and lists are safe to share",
 "Equal is reflexive (for values without NaN), symmetric and transitive, holds exactly for structurally identical values of the same kind, and treats nil as equal only to nil. List operations never modify their receiver: append and rest return new lists and leave the original's elements unchanged, and get/first return nil out of range.",
 ["inputs"],"every pair and triple of values up to a nesting bound",
 "Tests compare a table of pairs.",
 [E+"equal.go",E+"list.go",E+"types.go"],[("kind dispatch and element-wise recursion","edlisp/equal.go")],["Equal results, list contents"])
prop("P27","Commands that work on words, lines and matches keep UTF-8 text valid",
 "When the buffer and all string arguments are valid UTF-8, searching, replacing matches, inserting, marking and deleting words, lines and regions positioned by searches, word or line motions (the region's mark being set since the last change to the text) leave valid UTF-8: no multi-byte character is ever split or mangled. Case conversion of valid UTF-8 yields valid UTF-8.",
 ["inputs","histories"],"every short text mixing ASCII with 2-, 3- and 4-byte characters, sequences of commands",
 "Tests are ASCII only.",
 [E+"helpers.go"]+B("kill_line","backward_kill_word","capitalize","search_backward","mark_word"),
 [("byte offsets only cut at match, word and line boundaries","edlisp/builtin_*.go")],["utf8.ValidString of buffer and results"])
prop("P28","A buffer's past shows only in its text, point, mark and last match",
 "Whatever instructions and Go calls led there, an instruction evaluated in a buffer gives the value or error, and leaves the text, point, mark and remembered match, that it would in a new buffer with the same text, point, mark and remembered match.",
 ["histories","inputs"],"every sequence of instructions and of calls to Insert, SetPoint and SetMark, then every instruction",
 "Tests start from new buffers; something a buffer keeps on the side (line tables, sizes, cached matches) goes stale only after particular sequences of edits.",
 [E+"eval.go"]+B("search_forward","replace_match","goto_line","line_number_at_pos"),
 [("all edits go through setContent and Insert","edlisp/eval.go"),("remembered match","edlisp/eval.go lastSearch fields")],["value, error and state after Eval, against a new buffer of the same state"])
prop("P29","What is documented and declared is what is accepted",
 "Every function accepts every argument list that its documentation lists (all required parameters, optional ones or not, each of its documented type) when it can succeed at all, and rejects every other count or kind of arguments without changing anything. Every MCP tool is named by the prefix and its own name, declares exactly the parameters it reads, and rejects a request exactly when a parameter it declares as required is missing or not of the declared type.",
 ["inputs"],"every function, every number and kind of arguments; every tool, prefix and subset of parameters",
 "Documentation tables and argument checks are written separately in each file; tests exercise one or two counts per function.",
 ["edlisp/documentation.go","tools/edit_file.go","tools/texted_eval.go","tools/texted_doc.go"]+B("substring","concat","set_mark_command","mark_line"),
 [("argument validation at the head of each builtin","edlisp/builtin_*.go"),("tool schemas","tools/*.go New*ToolWithPrefix")],["error of Eval", "IsError of the tool result", "InputSchema"])
json_lines="\n".join(json.dumps(p,ensure_ascii=False) for p in P)+"\n"
open("properties.jsonl","w").write(json_lines)
print(len(P))
