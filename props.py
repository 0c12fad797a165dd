"""The properties: what is stated, where it is anchored, how it is decided."""
HOOKS = None
SHELL = "ogma-shell/interface/"
SEQ = "exhaustive bounded enumeration of operation sequences on the real code against a reference model"
SCHED = "stateless model checking of the real code: all schedules within a preemption bound (controlled scheduler)"
TRUST_SEQ = ("Every sequence over the stated alphabet up to the stated length is run on the unmodified source file; "
             "trusted: the reference model, and that inputs outside of the alphabet behave alike.")
TRUST_SCHED = ("Every schedule with at most the stated number of preemptions is run on the unmodified source file; "
               "trusted: the scheduler's models of threads, channels and the scripted terminal, sequential consistency.")

def fill(prop, na):
    inp, his, cmp_, evs, thm = [SHELL + x for x in ("input.rs", "history.rs", "completions.rs", "events.rs", "theme.rs")]
    prop("C01", "The input line editor is text plus cursor",
         "Whatever sequence of insertions, deletions to either side, cursor movements and clears a user performs, the input line shows exactly the text those operations produce on an ideal text-with-cursor, with the cursor at the same character. Operations at either end of the line are harmless no-ops or stop at the end; nothing panics and no character is lost, duplicated or split.",
         ["inputs", "histories"], "all sequences of editing operations up to length 6 (7 thorough) over a 16-operation alphabet, from the empty line, from a set of start texts with every cursor position, and every Unicode scalar value in one editing context",
         "The unit tests apply about ten operations to one ASCII line; the guarantee is over every history and every character.",
         [inp], [("editing operations", "InputBuffer::{insert,insert_str,backspace,delete,clear,move_start,move_left,move_right}")],
         SEQ, TRUST_SEQ, [("buf, pos", "characters and cursor", "InputBuffer")], ["InputBuffer::chars(..)", "InputBuffer::ch_pos()"])
    prop("C02", "Word-wise cursor movement",
         "Moving by a word to the right skips any separators next to the cursor and then the run of word characters (letters and digits of any script, hyphen, underscore), stopping at its far end; moving to the left does the same in the other direction. The cursor never leaves the line and the text is never changed by a movement.",
         ["inputs", "histories"], "all texts of up to 7 (8) characters over an alphabet of word characters and separators with every cursor position, all sequences of 14 operations up to length 6 (7), every Unicode scalar value",
         "The tests check two literal strings in one direction only.",
         [inp], [("mv_magnitude", "input.rs")], SEQ, TRUST_SEQ)
    prop("C03", "Byte and character positions of the input line agree",
         "At every moment the byte offset reported for the cursor is the encoded length of exactly the characters left of it, always falls on a character boundary of the reported text, and corresponds to the reported character position. Any range of the line read back is the corresponding slice of the text.",
         ["inputs", "histories"], "all editing sequences up to length 5 (6) over an alphabet with 1- to 4-byte characters, start texts with every cursor position, every Unicode scalar value",
         "No test looks at the byte position, and all test texts are ASCII, where bytes and characters coincide.",
         [inp], [("buf_pos / ch_pos / buffer / chars", "input.rs")], SEQ, TRUST_SEQ, observe=["InputBuffer::buf_pos()", "InputBuffer::buffer(range)"])
    prop("C04", "The change flag of the input line is never stale",
         "Once an editing operation has changed the text, the line reports itself as changed until the flag is reset, whatever happens in between. Cursor movements and editing operations which had no effect do not report a change.",
         ["histories"], "all sequences of 15 operations including flag resets up to length 6 (7), from the empty line and from start texts",
         "No test reads the flag; the shell redraws its cached, decorated input only when it is raised, so a missed change shows wrong text.",
         [inp, "ogma-shell/interface/mod.rs"], [("buf_changed", "InputBuffer"), ("display cache", "TabState::input_disp")], SEQ, TRUST_SEQ)
    prop("C05", "History browsing walks a ring with a neutral position",
         "Browsing back from the neutral position shows the most recent line, then each earlier one, then the neutral position again; browsing forward is the exact inverse at every position. Adding a line at any point returns to the neutral position.",
         ["histories"], "all sequences of back/forward/add up to length 8 (10) from the empty history and 5 (7) from histories of 1 to 200 lines, plus every position of histories of every size up to 130",
         "One test walks one history of three lines.",
         [his], [("back / fwd / add / current", "History")], SEQ, TRUST_SEQ, [("items, idx", "kept lines and browsing position", "History")])
    prop("C06", "The history keeps exactly the last hundred lines in order",
         "After any number of lines has been entered, browsing shows exactly the most recent hundred of them (all, if fewer), each once per entry and in order, however entering and browsing were interleaved.",
         ["histories"], "every number of lines up to 350 (1200), and all interleavings of browsing and adding up to length 5 (6) around the limit, each followed by a full walk in both directions",
         "The only test adds 1000 equal lines and looks at the count, not at which lines were kept.",
         [his], [("truncation at LIM", "History::add")], SEQ, TRUST_SEQ)
    prop("C07", "Completions shown always belong to the current request",
         "However slowly completers answer and however their answers, new keystrokes and dismissals interleave, the completions shown are only ever answers to the most recent request. Answers to a superseded or dismissed request are never shown, and no answer is shown twice.",
         ["schedules", "histories"], "all user sessions of 4 to 5 steps (type, poll, dismiss, wait) with 1 and 2 completers, under all schedules of user, engine and completer threads with up to 2-3 preemptions",
         "There is no test of the completion threads at all; a stale answer needs a particular interleaving.",
         [cmp_], [("changeset filter", "Completions::recv"), ("changeset bump", "Completions::{request,reset}")], SCHED, TRUST_SCHED,
         [("changeset", "identity of the current request", "Completions")], ["Completions::items()"])
    prop("C08", "The latest completion request is always answered",
         "The last request made, provided it is not dismissed, is eventually answered by every completer which has something to offer, no matter how many requests precede it or when they arrive; intermediate requests may be skipped. The completion threads never deadlock or spin.",
         ["schedules", "histories"], "user sessions of 3 to 8 requests with 1 to 3 completers under all schedules within the preemption bound, each run to quiescence",
         "Skipping outdated requests can lose the last one only in a particular interleaving of user and engine threads.",
         [cmp_], [("skip of outdated requests", "run_engine"), ("fan-out to completers", "loop_completer")], SCHED, TRUST_SCHED)
    prop("C09", "Completers are isolated from each other",
         "Each completer contributes at most its first ten items, in its order and contiguously; a completer that panics, answers nothing or answers too much neither removes, reorders nor duplicates what the others contribute.",
         ["schedules", "fault_sequences"], "three completers with 0 to 25 items, a panic in each of them at the first or a later request, all schedules within the preemption bound",
         "No test runs more than zero completers.",
         [cmp_], [("CMPL_ITEMS_LIM", "loop_completer"), ("one thread and one channel per completer", "run_engine")], SCHED, TRUST_SCHED)
    prop("C10", "Dropping the completions ends their threads",
         "When the completions of a tab are dropped (tab closed or completions replaced), every thread they started ends, whatever requests and answers were under way.",
         ["schedules"], "drop at every point of all two-step sessions with 0 to 2 completers, all schedules with up to 2 (3) preemptions",
         "Thread leaks are invisible to tests which only look at results.",
         [cmp_], [("channel disconnection", "run_engine, loop_completer")], SCHED, TRUST_SCHED)
    prop("C11", "Completers are told the right text, cursor and word",
         "A completion request hands every completer the exact input text, the byte offset of the cursor and the byte offset where the word being completed starts: after the last separator (space, tab, line break, dot, slash, backslash) left of the cursor, or the cursor itself when it stands on a separator. The character position reported for the word is that same place.",
         ["inputs"], "all texts of up to 4 (6) characters over an alphabet of letters, separators and multi-byte characters with every cursor position, realistic lines, and every Unicode scalar value next to the cursor",
         "Seven literal ASCII cases of the word start are tested; multi-byte text and the agreement of byte and character positions are not.",
         [cmp_], [("word_start", "completions.rs"), ("request", "Completions")], SEQ, TRUST_SEQ, observe=["Completer::complete arguments", "Completions::word_pos()"])
    prop("C12", "Stepping through completions edits only the word",
         "Selecting completions back and forth, in any order and while further completions arrive, replaces exactly the word being completed by the selected item, leaves the rest of the line untouched, and passing the neutral position restores what was typed. Selection cycles through all items in order, once each.",
         ["inputs", "histories"], "0 to 3 (4) items of various lengths from one or two completers (the second with any number of them, arriving at any step), several texts and cursor positions, all sequences of 6 (7) next/previous/typing/arrival steps",
         "No test selects a completion.",
         [cmp_, "ogma-shell/interface/mod.rs"], [("highlight_next / highlight_prev / replace_with", "Completions")], SEQ, TRUST_SEQ)
    prop("C13", "Terminal events are delivered completely and in order",
         "Every key press and resize the terminal reports reaches the shell exactly once and in order, however polling and typing interleave; other terminal events are ignored, and a failed read loses nothing that follows.",
         ["schedules", "inputs", "fault_sequences"], "all scripts of up to 4 terminal events (keys, resizes, mouse, read errors), bursts between polls, backlogs of up to 3000 events, all schedules within the preemption bound",
         "events.rs has no tests.",
         [evs], [("reader thread and channel", "Events::new"), ("conversion", "Event::convert_xt")], SCHED, TRUST_SCHED)
    prop("C14", "Polling for terminal events never blocks",
         "Asking for the next event returns immediately with what is there, or with nothing if the user is idle, and an idle period never ends the delivery of later events.",
         ["schedules"], "polling before, between and after up to 2 (3) events under all schedules with up to 2 (3) preemptions; a blocking poll is a deadlock",
         "A blocking poll would hang a test rather than fail it, and events.rs has no tests.",
         [evs], [("try_recv", "Iterator for Events")], SCHED, TRUST_SCHED)
    prop("C15", "The terminal is left alone once its reader is no longer wanted",
         "After the event source has been dropped, at most one more key press or resize is taken from the terminal; later ones are left for whoever reads the terminal next, and the reading thread ends.",
         ["schedules"], "drop before, between and after up to 2 events (keys, resizes, mouse, errors) under all schedules with up to 2 (3) preemptions, then further key presses",
         "events.rs has no tests, and the leak is only visible from outside of the process.",
         [evs], [("send failure ends the thread", "Events::new")], SCHED, TRUST_SCHED)
    prop("C16", "Themes map colours totally, consistently and only where meant",
         "For every theme number and every style, even themes leave the style as it is and odd ones replace exactly the colours of the light palette, in foreground and background alike, keeping every other colour and all text modifiers. Stepping the theme twice gives the same look again, and applying a theme twice changes nothing more.",
         ["inputs", "configurations"], "all pairs of named and indexed colours with all 256 theme numbers, all 24-bit colours, all sets of added and removed modifiers",
         "theme.rs has no tests.",
         [thm], [("apply::<Light>", "theme.rs"), ("theme number modulo", "Theme for Style")], "exhaustive enumeration of the input space of the real code against a reference mapping", TRUST_SEQ)
    prop("C17", "The command line is understood independently of order",
         "Definition files, batch files and the quiet flag may be given in any order and spelling; each definition belongs to its own option, files and definitions keep their order, everything after a double dash is a file, and unknown options are refused rather than taken as files.",
         ["inputs"], "all command lines of up to 4 (5) pieces out of 15 (flags, both spellings of --def, files with spaces, dashes and non-ASCII names, --, unknown options)",
         "Seven literal command lines are tested, one of which mixes options and files.",
         ["bin/app.rs"], [("clap derive", "App")], "exhaustive enumeration of bounded command lines on the real code against a reference parser", TRUST_SEQ)
    lang(prop)

TRUST_LANG = ("Every program over the stated operations on every table of the stated families is run through the real language crate "
              "(lexer, compiler, evaluator and operations, unmodified source); trusted: the reference functions, the stand-ins for the "
              "four git dependencies (validated with the crate's own tests), and that programs outside of the families behave alike.")
TRUST_REPL = ("The unmodified sources of the shell and the language crate are built in place and run in full: event loop, threads, channels, "
              "clock and drawing; trusted: the stand-ins for crates which are missing offline (validated with the crates' own tests: 35 of 35 and 2 of 2), "
              "the terminal of the harness, and that inputs beyond the bounds behave alike.")
PIPE = "exhaustive bounded enumeration of pipelines and tables on the real code against a reference model"
IMPL = "ogma/src/lang/impls/intrinsics/"

def lang(prop):
    pip, mor, ari, cmp_, logic, iom, dia = [IMPL + x + ".rs" for x in ("pipeline", "morphism", "arithmetic", "cmp", "logic", "io", "diagnostics")]
    tab = "ogma/src/lang/types.rs"
    prop("C20", "Selecting rows keeps exactly the rows asked for, in order",
         "Taking, skipping, filtering, reversing, indexing and de-duplicating the rows of a table gives exactly the rows which the documentation says, unaltered, in their original (or exactly reversed) order and under the unchanged header, however these steps are combined. Filtering on a column keeps the rows whose cell has the type of the predicate and satisfies it; a predicate that fails for any row fails the whole; de-duplication removes exactly the rows equal to the kept row just before them.",
         ["inputs", "histories"], "all pipelines of 1, 2 and 3 (4) steps out of 18 row operations and 5 row readers on all tables of up to 4 (5) rows over mixed cells, and on tables without rows, with repeated or missing headers; each on a table held by nobody else and on a shared one",
         "The unit tests run each operation on one or two literal tables.",
         [mor, pip, tab], [("take / skip / filter / rev / dedup", "morphism.rs"), ("nth / len", "pipeline.rs")], PIPE, TRUST_LANG)
    prop("C21", "Mapping and appending compute every cell from its own row",
         "Mapping a column or appending columns evaluates the expression once for each row, with that row and that cell, and changes nothing but the target cells: number and order of rows, header, and all other cells stay as they were. If the expression fails for any row the whole operation fails; values from one row never reach another.",
         ["inputs", "histories"], "all pipelines of up to 3 (4) steps out of 12 map and append operations on all tables of up to 3 (4) rows, and on odd tables; owned and shared",
         "The unit tests look at one literal table per operation, without combinations.",
         [mor], [("map / append", "morphism.rs")], PIPE, TRUST_LANG)
    prop("C22", "Folds visit each row once, in order, with the running value",
         "A fold starts with its seed and replaces it for every row in table order by the result of the expression on the running value, with that row's columns; an empty table gives the seed. A fold with a condition stops before the first row for which the condition does not hold and evaluates nothing from there on.",
         ["inputs", "histories"], "17 folds of numbers, strings, booleans and tables on all tables of up to 4 (5) rows, and on the results of 1 and 2 (3) preceding steps; owned and shared",
         "Order and early stop are tested on a single literal table.",
         [mor], [("fold / fold-while", "morphism.rs")], PIPE, TRUST_LANG)
    prop("C23", "Column operations move whole columns and nothing else",
         "Picking, renaming, filtering and reversing columns gives exactly the named columns, complete and with their cells in the original row order; renames change only headers and take effect all at once, so names can be swapped. A name or index which does not exist is an error unless adding was asked for, in which case an empty column appears at that place.",
         ["inputs", "histories"], "all pipelines of up to 3 (4) steps out of 19 column operations on all tables of up to 2 (3) rows over mixed cells, and on tables with repeated, missing or non-text headers; owned and shared",
         "Unit tests run each flag once on one literal table.",
         [mor, pip, tab], [("pick / ren / ren-with / filter --cols / rev --cols", "morphism.rs"), ("ls / len --cols", "pipeline.rs, io.rs")], PIPE, TRUST_LANG)
    prop("C24", "Sorting is a stable permutation in the canonical order",
         "Sorting a table gives the same rows, each once, ordered by the key; rows with equal keys keep their order. Cells of different kinds are ordered by kind (booleans, numbers, text, others, nil, tables), sorting by several columns applies them one after the other, and sorting by an expression which fails for any row fails.",
         ["inputs", "histories"], "11 sorts and all pairs and triples of them on all tables of up to 4 to 5 (6) rows over cells of every kind with a numbering column, and tables of up to 100 rows with all arithmetic patterns of repeated keys; owned and shared",
         "Stability and mixed cells are not tested; the sorting algorithm changes with the size.",
         [mor, cmp_], [("sort / sort-by", "morphism.rs"), ("canonical order", "sort_by_col")], PIPE, TRUST_LANG)
    prop("C25", "Grouping partitions the rows",
         "Grouping puts every row of a table into exactly one group, the one of its key, in original order and under the original header; there is one group per key and the groups are in the order of their keys.",
         ["inputs", "histories"], "9 groupings on all tables of up to 4 (5) rows over mixed cells with a numbering column, and on what any row operation gives; owned and shared",
         "Three literal tables are tested.",
         [mor], [("grp / grp-by", "morphism.rs")], PIPE, TRUST_LANG)
    prop("C26", "Adding tables and rows keeps every cell in its place",
         "Adding tables by row or by column, as union or intersection, places every cell of both where the documentation says, fills the rest with nil, and keeps the result rectangular; appending a row extends the header only by fresh names. Ranges contain exactly the whole numbers from start to end, without the end.",
         ["inputs", "histories"], "all pipelines of up to 3 steps out of 23 additions on all tables of up to 6 (8) rows, tables without rows or columns; owned and shared; all ranges up to 12 (40)",
         "Tables of different shapes, in particular without rows, are barely tested.",
         [ari, mor, dia, tab], [("+ on tables", "arithmetic.rs"), ("append-row / range / Table", "morphism.rs, pipeline.rs")], PIPE, TRUST_LANG)
    com = "ogma/src/eng/comp/"
    prop("C27", "A value stays what it was, wherever it is used again",
         "A value bound to a variable, passed as a parameter or held in a tuple is unaffected by any operation applied to another use of it: reading it again gives what it was. This holds for every operation, and for tables held outside of the expression too.",
         ["inputs", "histories"], "every ordered pair out of 92 table operations in 11 ways of using a value twice (variables, tuples, conditions, expressions run per row), on 2 (3) tables; parameters used twice in definitions, strict and lazy",
         "Tables are shared and copied on write; a unit test sees a value only once.",
         [tab, mor, "ogma/src/eng/var.rs"], [("copy on write", "Table"), ("variables of an environment", "var.rs")], PIPE, TRUST_LANG)
    prop("C28", "Work spread over threads gives what one thread would give",
         "Operations which evaluate their expression for many rows at once give the same result, or fail alike, however the rows are divided among threads and in whatever order these run. Nothing deadlocks, and no row's values leak into another's.",
         ["schedules", "inputs"], "56 operations under every partition of tables of up to 4 (6) rows, in both orders, every ordered pair of them on 3 rows, and every division of 3 rows into up to 3 tasks under all schedules with up to 1 (2) preemptions",
         "The thread pool's division and order of work are not under a test's control.",
         [mor, IMPL + "mod.rs"], [("parallel evaluation over rows", "morphism.rs, impls/intrinsics/mod.rs"), ("one environment per worker", "Environment::clone")],
         "stateless model checking of the real code: all partitions, and all schedules within a preemption bound", TRUST_LANG)
    prop("C29", "Conditions evaluate in order and no further than needed",
         "'and', 'or' and 'if' look at their conditions from left to right and stop as soon as the outcome is decided: what comes after is not evaluated and cannot fail, what comes before is. The value is that of the logical operation, or of the branch chosen.",
         ["inputs"], "all programs of up to 7 (9) symbols over the operations and, or, not, if (one and two conditions), eq and \\\\ with true, false, numbers and failing expressions, nested in every way",
         "The tests evaluate a few literal conditions, none of which fails.",
         [logic, pip], [("and / or / not / if", "logic.rs, pipeline.rs")], "exhaustive bounded enumeration of programs on the real code against a reference interpreter", TRUST_LANG)
    prop("C30", "Variables are lexically scoped and never change",
         "A variable has the value and type it was given by the closest preceding 'let' of that name in its own pipeline or an enclosing one; a 'let' inside of an inner expression is invisible outside of it. Binding a name again affects only what follows, and a name not bound is an error.",
         ["inputs", "histories"], "all programs of up to 6 (7) symbols over let in all its forms, with one and two names, values, nested expressions and changes of type; up to 9 (11) symbols with one name",
         "Shadowing, nesting and rebinding combine in ways which the handful of literal tests do not reach.",
         ["ogma/src/eng/var.rs", "ogma/src/eng/graphs/locals_graph.rs", pip], [("let", "pipeline.rs"), ("locals graph", "locals_graph.rs"), ("slots of the environment", "var.rs")],
         "exhaustive bounded enumeration of programs on the real code against a reference interpreter", TRUST_LANG)
    prop("C31", "Comparisons form one consistent total order",
         "For two values of one kind exactly one of less, equal and greater holds, all comparison operations, minimum and maximum agree on it, it is the natural order of numbers, texts (by character) and booleans, and tuples are ordered field by field, the first difference deciding. It does not matter whether a value is given literally, by a variable or by an expression, and values of different kinds are refused.",
         ["inputs"], "all pairs of 20 (33) scalars of every kind and 28 (109) tuples, flat and nested, with all eight operations in four forms; minimum and maximum of all quadruples of 7 numbers",
         "A law over pairs of values, forms and operations cannot be seen in single comparisons.",
         [cmp_, ari, "ogma/src/lang/impls/intrinsics/mod.rs"], [("cmp / eq / < / > / <= / >= / !=", "cmp.rs"), ("min / max", "arithmetic.rs"), ("derived comparison of tuples", "types.rs, defs")],
         "exhaustive enumeration of bounded argument tuples on the real code against a reference order", TRUST_LANG)
    prop("C32", "Arithmetic applies its arguments in order",
         "Addition, subtraction, multiplication, division, remainder, root and rounding take the input and then each argument from left to right, evaluate every argument on the original input, and give what floating point arithmetic gives, infinities included. A result passes unchanged to the next command; booleans, numbers and texts do not mix, and nothing panics.",
         ["inputs", "histories"], "every operation with up to 3 arguments out of 8 (constants, infinity, the input, expressions) on 8 numbers, all pipelines of two and three of them, every pair of scalars of every kind",
         "Tests use small whole numbers, mostly with one argument.",
         [ari], [("arithmetic", "arithmetic.rs")], "exhaustive bounded enumeration of pipelines on the real code against a reference function", TRUST_LANG)
    prop("C33", "A definition means what its body means with the arguments put in",
         "Calling a definition gives what its body gives on the call's input with the parameters standing for the arguments: evaluated once in the caller's scope if strict, or evaluated at each use in the caller's scope if lazy. Names bound inside of the body and names of the caller never interfere; among definitions of the same name, the one for the input's type is chosen, then the one for any input, the last one given winning; a wrong number of arguments is refused.",
         ["inputs", "histories"], "all bodies of up to 5 (7) symbols with one or two parameters, strict or lazy, called in 24 contexts with 7 kinds of arguments (constants, variables of equal name, the input, expressions, failing ones); one definition calling another; all sequences of up to 4 (5) overloads on 3 input types",
         "Hygiene of names shows only in particular combinations of parameters, bindings and callers.",
         ["ogma/src/eng/arg.rs", com + "mod.rs", com + "params.rs", "ogma/src/lang/impls/mod.rs"], [("parameters", "params.rs, arg.rs"), ("choice of the definition", "impls/mod.rs")],
         "exhaustive bounded enumeration of programs on the real code against a reference interpreter", TRUST_LANG)
    bat = "ogma/src/rt/bat.rs"
    prop("C34", "A batch processes each item as asked, and stops when asked",
         "Processing a batch gives for each item what processing it alone would give: definitions first, in order, then the expressions, each seeing all definitions, whether they run one after another or in parallel. With fail-fast nothing new starts after a failure; after a cancellation nothing new starts either, and every item is reported exactly once or is left pending.",
         ["inputs", "schedules", "histories"], "all batches of up to 3 (4) items out of definitions, expressions, dependants and failing ones, fail-fast or not, sequential and parallel in both orders; a cancellation after every number of items; two batches after each other; all schedules of the workers and of a concurrent cancellation with up to 1 (2) preemptions",
         "The tests process literal batches once, without cancelling; the parallel order is up to the thread pool.",
         [bat], [("process / cancellation", "Batch"), ("order of definitions and expressions", "Batch::process_defs, process_exprs")],
         "stateless model checking of the real code: all batches, partitions and schedules within the bounds", TRUST_LANG)
    prop("C35", "A batch file is taken apart into exactly its items",
         "A batch file's directives, comments, definitions and expressions are recognised whatever blank lines, line endings and indentation stand between and in them: each item keeps its full text, its comments and its line number, in order, and nothing is lost or merged. Only the words 'def' and 'def-ty' themselves mark a definition.",
         ["inputs"], "all files of up to 2 (3) blocks out of definitions, expressions, continued and commented items with all separations (blank, whitespace only, none), line endings and headers",
         "Five literal files are tested, with one style of separation.",
         [bat], [("parse of batch files", "bat.rs")], "exhaustive enumeration of bounded files on the real code against a generating model", TRUST_LANG)
    prop("C36", "Files are found relative to, and only within, the root directory",
         "Opening, listing and saving take a path relative to the working directory (or to the root, if absolute), whichever directory the process is in, and reach exactly the file a user would expect; a path leading out of the root directory is refused, by any combination of parent steps, absolute paths and symbolic links. What is refused changes nothing on disk.",
         ["inputs", "configurations"], "all paths of up to 4 (5) pieces (names of files, directories, missing ones, links inside and outside, '.', '..', absolute or not) from every working directory, for each of the three commands, in a scratch folder",
         "Containment must hold for every path; two literal paths are tested.",
         [iom, "ogma/src/rt/mod.rs"], [("open / ls / save", "io.rs")], "exhaustive enumeration of bounded paths on the real code against a reference resolution", TRUST_LANG)
    prop("C37", "Opening a file again gives what the file contains now",
         "Opening a file gives its present content however often and as whatever type it has been opened before, after any sequence of edits, saves, renames and removals of files and directories, once the file system has reported them. A change while the file is being read is never missed for later openings; files whose names differ only in case are different files.",
         ["histories", "schedules"], "all sequences of 4 (5) steps out of 14 (opening, editing, saving, lost reports, renaming and removing files, exchanging directories) reported at once, 3 (4) steps reported with delay, each followed by every opening; unused for minutes; a change at every tenth millisecond of a slow read, alone and with a second reader, with up to 1 (2) preemptions; virtual time",
         "Whether a cached value is outdated depends on the whole history and on timing; one literal edit is tested.",
         ["ogma/src/rt/fscache.rs", iom], [("cache of opened files", "FsCache"), ("invalidation", "watch_fs"), ("open", "io.rs")], "stateless model checking of the real code under a controlled scheduler and clock: all histories and schedules within the bounds", TRUST_LANG)
    prop("C38", "A value of a user-defined type is what its constructor was given",
         "A constructor takes exactly one argument of the declared type per field, in order, evaluated on the input, and the value gives back each of them and nothing else, wherever it travels: through variables, other values, tables and definitions. Values of one type are ordered by variant and then field by field; a definition which clashes with an existing name is refused and changes nothing.",
         ["inputs", "histories"], "all types of up to 3 fields of 6 kinds with all lists of up to 4 (of 15) arguments; all choices of up to 3 variants; all pairs of values with all comparisons; values in cells of tables; all sequences of 3 (4) definitions of types with clashing names and constructors",
         "The tests make a handful of literal values; arity, order and types interact per position.",
         ["ogma/src/lang/defs.rs", "ogma/src/lang/types.rs", cmp_, "ogma/src/lang/impls/mod.rs"], [("types, constructors, field access", "types.rs, impls/mod.rs"), ("comparison derived for types", "types.rs")], "exhaustive enumeration of bounded types and values on the real code against a reference model", TRUST_LANG)
    prop("C39", "A session means the same after any history of definitions",
         "After any sequence of defining, redefining, loading from files and clearing, accepted or refused, every command does what the last definition for its input's type says, or what it always did, and the listings name exactly the definitions in force with their type, text and place. A refused definition changes nothing, clearing what files define keeps what was entered, and loading prints nothing.",
         ["histories"], "all sequences of 3 (4) out of 29 steps (definitions, types, redefinitions, files, clearing, refused ones) and of 5 (6) out of the first 9 (11), each followed by every call and listing",
         "Which definition is in force depends on the whole history; the tests look at one definition each.",
         ["ogma/src/lang/defs.rs", "ogma/src/lang/impls/mod.rs"], [("definitions", "lang/defs.rs"), ("choice of the definition", "impls/mod.rs")], "exhaustive enumeration of bounded histories on the real code against a reference model", TRUST_LANG)
    prop("C40", "Every text is answered with a value or an error which points into it",
         "Whatever is entered, as an expression or as a definition of a command or type, is answered in bounded time and memory: with a value, or with an error which describes itself and whose marked places lie within the text. Nothing entered, and no argument of any command however extreme, ends the session.",
         ["inputs"], "all texts of 3 (4) out of 34 characters and out of 35 words, as expressions and behind seven beginnings of definitions; 4 (5) out of 20 (34); all definitions of 4 (5) out of 23 pieces, then used; 27 pieces repeated up to 48 (200) times; every command (of those which stay within the process) with all pairs and many triples of 27 arguments on 11 values and 5 tables; extreme numbers; all sequences of 2 (3) out of 45 definitions which call each other",
         "A crash hides behind one combination of text, types and state out of very many; tests give the texts somebody thought of.",
         ["ogma/src/lang/syntax/parse/mod.rs", "ogma/src/lang/defs.rs", "ogma/src/eng/graphs/astgraph.rs", "ogma/src/eng/graphs/tygraph.rs", "ogma/src/eng/comp/mod.rs"], [("parser", "lang/syntax/parse"), ("compiler", "eng"), ("definitions", "lang/defs.rs"), ("commands", "lang/impls/intrinsics")], "exhaustive enumeration of bounded inputs on the real code under a supervisor which turns a crash, exhausted memory or endless run into a violation", TRUST_LANG)
    prop("C41", "How an expression is written does not change what it means",
         "Spaces, tabs and line breaks between the parts, no spaces where none are needed, the kind of quotes, leaving out the braces of a last argument and stating the types which hold anyway do not change the value of an expression nor how it is refused. Every expression built of well-typed parts is accepted, unless only stated types can tell what a table's cells are.",
         ["inputs"], "all programs of 2 blocks over commands with fixed, literal and computed arguments on numbers, text, conditions and tables, and nested to depth 2 (141 092 programs), each in all of the ways of writing with up to 1 or 2 (2 to 5) differences at once",
         "The parser treats each way of writing apart, in each place; the tests parse a few lines each way.",
         ["ogma/src/lang/syntax/parse/mod.rs", "ogma/src/eng/graphs/astgraph.rs", "ogma/src/eng/comp/infer.rs"], [("parser", "lang/syntax/parse"), ("type annotations", "eng/graphs/tygraph.rs")], "exhaustive enumeration of bounded programs and their writings on the real code, each compared with the first", TRUST_LANG)
    prop("C42", "The type told of an expression is the type of its value",
         "The output type which `typify` tells of an expression is the type of the value which the expression gives. What is refused as an expression is refused by `typify` and the other way round: an expression which has types fails, if at all, in its evaluation. No expression, however wrong, is refused as an internal bug.",
         ["inputs"], "all programs of C41; all expressions of 3 words out of 36 and of 4 out of 26 (36), commands, literals, variables, fields and types and commands of the user among them, on a number and a table",
         "The compiler infers the types of every part from every other; the tests check the types of a few expressions.",
         ["ogma/src/eng/comp/mod.rs", "ogma/src/eng/comp/infer.rs", "ogma/src/eng/comp/resolve_tg.rs", "ogma/src/lang/impls/intrinsics/diagnostics.rs"], [("inference", "eng/comp"), ("typify", "diagnostics.rs")], "exhaustive enumeration of bounded programs on the real code, the told type against the value", TRUST_LANG)
    prop("C43", "Printed tables show the ends and count what they leave out",
         "A table of at most 30 rows and 7 columns is printed in full, with every cell in its place. Of a larger one the header, the first five and last five rows, and the first three and last three columns are printed, each in its place, and the counts of rows and columns left out are exact.",
         ["inputs"], "all tables of 1 to 50 (130) rows and 1 to 16 (40) columns, with and without a header, with cells of each kind",
         "Off by one, a row goes missing or the count lies at some sizes; the test prints two tables.",
         ["ogma/src/output/print.rs"], [("tables", "print_table"), ("cells", "fmt_cell")], "exhaustive enumeration of bounded tables on the real code against a reference rendering", TRUST_LANG)
    prop("C44", "Printed errors mark exactly the text at fault",
         "A printed error shows every line which the text at fault touches, with marks beneath exactly that text and the column where it starts, whatever characters and lines come before. A command which does not exist is reported at its very place, wherever in an expression it stands.",
         ["inputs"], "all texts of 7 (8) out of 6 characters and 6 (7) out of 6 pieces of lines, with each span; marks up to column 100 000; an unknown command in the place of each command of all programs of C41",
         "The place of a mark depends on each character and line before it; the tests print a few lines of ASCII.",
         ["ogma/src/common/err.rs", "ogma/src/eng/graphs/astgraph.rs"], [("marks", "Trace::print, trace_code_lines"), ("unknown commands", "astgraph::init")], "exhaustive enumeration of bounded texts and programs on the real code against a reference rendering", TRUST_LANG)
    prop("C45", "Random numbers lie where they were asked for, whatever is drawn",
         "Whatever the source of random numbers gives, a random number lies between its bounds (up to rounding), is the same wherever it is used again, and every draw stands for its own place between the bounds. A table of random numbers has exactly as many rows as were asked for, each of a draw of its own. Bounds between which nothing lies, and lengths which are no counts, are refused.",
         ["environment"], "6 draws, the extremes among them, with 0 to 2 bounds out of 9, literal and computed; all sequences of up to 4 (6) draws for the rows of a table",
         "The draws which go wrong are the rarest; the tests draw a few at random.",
         ["ogma/src/lang/impls/intrinsics/pipeline.rs"], [("random numbers", "rand_intrinsic")], "exhaustive enumeration of a nondeterministic environment (the source of random numbers) around the real code", TRUST_LANG)
    prop("C46", "Timing an expression evaluates it once and tells the time it took",
         "Timing an expression evaluates it exactly once, on the input given, and fails as it does. The seconds, milliseconds and microseconds which are told make up exactly the time which passed within the evaluation, whatever it is, and none of what passed before or after.",
         ["environment"], "9 timed programs in which each of up to 3 draws takes any of 18 times between nothing and an hour, with 3 times of day to start at",
         "The time passed is not in the hands of a test.",
         ["ogma/src/lang/impls/intrinsics/diagnostics.rs"], [("timing", "benchmark_intrinsic, benchmark_table")], "exhaustive enumeration of a nondeterministic environment (the clock) around the real code", TRUST_LANG)
    # ---------------------------------------------------------------- the interactive shell, whole
    shl, ifc, inp, cmpl = "ogma-shell/lib.rs", "ogma-shell/interface/mod.rs", "ogma-shell/interface/input.rs", "ogma-shell/interface/completions.rs"
    prop("C50", "Each line entered is evaluated exactly once, as it was on screen",
         "Whatever keys are pressed, one by one or many at a time, with edits, history, completions, tabs and scrolling in between, each entered line is evaluated exactly once, in order, for the tab it was typed in, and is the text an editor would have after those keys. After every key the screen shows that tab's input, its cursor and its outputs.",
         ["inputs", "schedules"], "all sequences of 4 (5) out of up to 13 (15) keys, all ways of delivering them in batches, all texts of 4 (5) of further keys over words, characters, lines and history, completions which answer early, late or to outdated requests with up to 1 (2) deviations of the schedule",
         "Keys, batches, tabs, history and the completion thread interact; the tests press a few fixed keys one at a time.",
         [ifc, inp, cmpl, "ogma-shell/interface/history.rs", "ogma-shell/interface/events.rs"], [("event loop", "events_cycle, process_event"), ("evaluation", "eval")],
         "stateless model checking of the real shell under a controlled scheduler: all key sequences and batchings within bounds, against a reference editor", TRUST_REPL)
    prop("C51", "The shell draws at every size of the terminal",
         "However small, large or oddly shaped the terminal is, and however often it is resized, with whatever input, outputs, completions, tabs and title, the shell goes on: it draws within the terminal and never ends or writes outside of it.",
         ["configurations", "histories"], "all pairs of 11 (24) widths and heights from 0 to 80 (300) for each of a range of contents; all sequences of 3 (4) resizes and keys over 7 (5) sizes",
         "An arithmetic error at one size crashes the shell; the tests draw at one size.",
         [ifc, "ogma-shell/interface/outputs.rs"], [("drawing", "draw_frame"), ("outputs", "outputs.rs")],
         "exhaustive enumeration of bounded sizes and resize histories on the real shell", TRUST_REPL)
    prop("C52", "The screen shows all of the input and the outputs, in place",
         "The input is shown in full, broken at the width of the terminal, with the cursor exactly at the character it stands before, for wide, zero-width and tab characters, several lines and any width. Outputs are shown newest first, wrapped and not cut, the last hundred are kept, and scrolling reaches every line of them, after changes of the width too, with the scroll bar at the place of what is shown.",
         ["inputs", "configurations"], "all inputs of 6 (7) characters out of 4 (5) kinds at several widths with the cursor at every place; all sequences of outputs of 9 shapes with all amounts of scrolling; more outputs than are kept; outputs of up to 131 080 lines",
         "Where lines break and the cursor stands depends on each character and the width; the tests have a few literal screens.",
         [ifc, "ogma-shell/interface/outputs.rs"], [("cursor", "calculate_cursor_offset"), ("line breaking", "convert_coloured_str"), ("scrolling", "outputs.rs")],
         "exhaustive enumeration of bounded inputs and screens on the real shell against a reference rendering", TRUST_REPL)
    prop("C53", "Colours and completions never change or break the line typed",
         "The coloured line is, without its colours, exactly the text typed, whatever it is, and neither colouring nor completing ever fails. The completions offered are definitions which exist and go on with the word being typed, every command is offered where a command is expected, and paths offered are exactly the entries of the folder.",
         ["inputs"], "all lines of 4 (5) pieces of the language and 5 (6) characters; completions at every cursor of all lines of 2 (3) pieces, for every prefix of every command in several contexts, and for all partial paths in a scratch folder",
         "Every unfinished text passes through the colouring while it is typed; the tests have a few finished lines.",
         [shl, "ogma-ls/completion.rs", "ogma-ls/workspace.rs"], [("colouring", "syntax_highlight"), ("completion", "CompletionImpl, ogma-ls completion::get")],
         "exhaustive enumeration of bounded lines on the real code against a reference oracle", TRUST_REPL)
    prop("C54", "Evaluations that abort, fail or panic leave the shell usable",
         "An expression, definition or batch which fails, panics or is aborted with Ctrl+x gives an answer, and the lines entered afterwards are evaluated as ever: definitions are neither lost nor held up. Ctrl+x ends the running evaluation and no other, and keeps the order of the outputs.",
         ["histories", "schedules"], "all sequences of 3 (4) lines out of the kinds of evaluations (succeeding, failing, panicking, slow, aborted), with abortion at every time relevant, and 2 with up to 1 (2) deviations of the schedule, in virtual time",
         "The evaluation runs on another thread while the shell reads keys; the tests evaluate one line after the other.",
         [shl, ifc], [("evaluation thread", "process_seq"), ("waiting and aborting", "eval")],
         "stateless model checking of the real shell under a controlled scheduler and clock", TRUST_REPL)
    prop("C55", "A session's tabs, folders, definitions and files follow the lines",
         "After any sequence of lines in any tabs, each tab has the working directory its own cd's lead to, never outside of the root, files are saved and opened there, and definitions entered, loaded and cleared hold for all tabs. What a line prints is what it says given that state.",
         ["histories"], "all sequences of 4 (5) out of 12 (9) steps, and of 3 (4) of further ones: cd to existing, missing, outer and file paths, tabs, saving, opening, running batch files, defining, loading, clearing",
         "The state of a session is its whole history; the tests begin with a fresh workspace each.",
         [shl, ifc], [("cd, run, tabs", "lib.rs on_enter, change_working_dir, tab_wd")],
         "exhaustive enumeration of bounded sessions on the real shell against a reference model", TRUST_REPL)
    lsv = "ogma-ls/server/mod.rs"
    prop("C56", "The language server answers about the text the editor shows",
         "After any sequence of opening, closing, editing (whole or in part, several changes at once, any steps of the version) and saving, hover and completion answer as they would if the text were opened anew, and saved definitions are known. Every request is answered exactly once, those which are not supported or broken with an error, and the server goes on until the editor leaves.",
         ["histories", "schedules"], "every single change of 4 texts (any range, 6 replacements), all sequences of 2 (3) small changes; all sequences of 4 (5) out of 9 events; 2 (3) out of 6 with up to 2 deviations of the schedule",
         "The text the server holds is the sum of all edits, and requests are handled by many threads; its tests parse a few fixed texts.",
         [lsv, "ogma-ls/server/file_mgmt.rs", "ogma-ls/workspace.rs", "ogma-ls/lib.rs"], [("dispatch", "server/mod.rs run, handle_req, handle_notification"), ("edits", "workspace.rs File::add_changes, lib.rs lsp_range_to_range")],
         "stateless model checking of the real language server under a controlled scheduler: all edit and request histories within bounds, against a reference editor", TRUST_REPL)
    prop("C57", "Hover and completion are about what is under the cursor",
         "At every place of a document, hover shows exactly the word there and what kind of thing it is, with the help of a command or type which exists, and nothing where there is none; completion there offers what it would offer for the item's text up to that place. Neither fails on any text, finished or not.",
         ["inputs"], "all places of all documents of 9 items with 5 ways of separating up to 4 (6) words, of 2 (3) items with comments, blank lines and 4 ends of the file, and of every item cut anywhere",
         "Positions count UTF-16 units per line and the code counts bytes per item; the tests ask at a few ASCII places.",
         ["ogma-ls/server/hover.rs", "ogma-ls/server/completion.rs", "ogma-ls/workspace.rs", "ogma-ls/completion.rs", "ogma-ls/lib.rs"], [("place", "workspace.rs get_def_text, lib.rs linech_to_idx"), ("word", "completion.rs node_at_pos")],
         "exhaustive enumeration of bounded documents and all places in them on the real language server against a reference reading", TRUST_REPL)
    prop("C58", "The program runs the files given and tells by its exit how it went",
         "Given files to process, by name or by pattern, the program runs each of them once, in the order of their names and with the definitions given and no other file's, and every item of theirs exactly once. It ends with success if and only if every file was found and every item succeeded, tells of each failed item, runs no file after one that failed, and none if one is missing; --quiet leaves out nothing but progress.",
         ["inputs", "configurations"], "all files of 2 (3) items out of 5 kinds, failing fast or not, with 4 kinds of definitions, quiet or not; all pairs of files of 1 (2) items and triples of 1 item, in all orders of 3 to 8 kinds of arguments",
         "Order, failures, definitions and patterns combine; the tests of the program parse the command line only.",
         ["bin/main.rs", "ogma/src/rt/bat.rs"], [("files", "expand_globs"), ("processing", "process_files, process_and_print_batch")],
         "exhaustive enumeration of bounded files and command lines, each run by the real program as a process, against a reference model", TRUST_REPL)
