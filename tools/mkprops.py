#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the human-edited source of that file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })
S = "crates/seam/src/"
EXP, LEX, PAR, TOK, MAC, BIN, LIB = (S+"parse/expander.rs", S+"parse/lexer.rs", S+"parse/parser.rs", S+"parse/tokens.rs", S+"parse/macros.rs", S+"bin.rs", S+"lib.rs")
HTML, XML, CSS, SEXP, TEXT, ASM = (S+"assemble/"+x for x in ("html.rs", "xml.rs", "css.rs", "sexp.rs", "text.rs", "mod.rs"))
BASE = "The six unit tests expand fixed in-memory strings once each, on one heap layout, with one hash seed, no files, no I/O faults and no second thread; "

p("C01", "Same inputs give the same bytes",
  "Building the same sources with the same included files, command line, environment variables and clock readings always produces the same standard output, diagnostics and exit status. Hash seeds, where memory is allocated, how freed memory is reused, the order in which directories list their entries and how input is split into reads have no influence. No byte of the output ever comes from memory that was already released.",
  ["inputs", "schedules", "configurations"],
  "every document and file tree; every hash seed, heap placement and reuse policy, directory listing order and read segmentation",
  BASE + "a dependence on hash order, on heap reuse (nodes are kept alive by hand across unsafe references) or on listing order shows only on another layout or seed.",
  [EXP, MAC, HTML, XML, SEXP, TEXT, LIB],
  [("ordered collections wherever iteration reaches the output", EXP + " bind_list, expand_glob_macro"), ("parsers and call nodes kept alive behind unsafe references", EXP + " register_parser, register_invocation, create_subcontext"), ("nested formatters kept alive behind unsafe references", HTML + " register_formatter")],
  ["stdout, stderr and exit status of the seam command"],
  [("Expander.definitions", "hash map of macros in scope", EXP), ("Expander.subparsers / invocations / subcontexts", "owners behind 'a references", EXP)])

p("C02", "A document means the same however it arrives",
  "Reading a document from standard input, from a named file, or through a caller-supplied reader gives the same result whether its bytes arrive at once or in arbitrarily small pieces, with reads interrupted by signals, and with characters split between pieces. Interrupted reads are retried; only end of file ends the document. Nothing is lost, duplicated or reordered, and a read error in the middle is reported as a failure, not as a shorter document.",
  ["inputs", "schedules", "fault_sequences"],
  "every document, every segmentation of it into reads, every placement of interrupted and failing reads",
  BASE + "none reads from a stream, so segmentation, EINTR and mid-stream failure are never exercised.",
  [LIB, BIN, S+"parse/mod.rs", EXP],
  [("tree_builder_stream / tree_builder_file", LIB), ("parser_for_file", S+"parse/mod.rs"), ("%embed", EXP + " expand_embed_macro")],
  ["CLI stdout/exit status; result of tree_builder_stream for a caller's Read"])

p("C03", "Unreadable input fails the build",
  "If a source, every candidate for an included or embedded file, or a directory needed by a file listing cannot be opened, fails while being read, or is not valid UTF-8, the build ends with a non-zero exit status and a diagnostic on standard error. It never crashes, hangs, substitutes empty or partial content, or prints a document built without that input. Documents printed before the failing one stay as they were.",
  ["inputs", "fault_sequences"],
  "every document and file tree; every failing open, read, stat or listing call, with any error, transient or persistent, at any point",
  BASE + "no test opens a file, let alone one that fails.",
  [EXP, LIB, BIN, S+"parse/mod.rs"],
  [("include/embed candidate loop", EXP + " expand_include_macro, expand_embed_macro"), ("glob errors", EXP + " expand_glob_macro"), ("error exit", BIN + " main, generate_and_print")],
  ["CLI stdout/stderr/exit status under injected open/read/stat/readdir errors"])

p("C04", "Exit status 0 means the output was delivered",
  "The command exits with status 0 only if every byte of every generated document was accepted by standard output. Short writes and interrupted writes are continued until everything is written; a write error (full disk, closed pipe, I/O error) gives a non-zero exit status. Whatever happens, the bytes accepted so far are exactly a prefix of the output the same run produces without faults.",
  ["inputs", "fault_sequences"],
  "every document and every sequence of short, interrupted and failing writes to standard output",
  BASE + "output is compared as a string in memory; nothing is ever written to a descriptor.",
  [BIN], [("print of the generated document", BIN + " generate_and_print")],
  ["bytes accepted by fd 1 and exit status"])

p("C05", "Includes and embeds are searched in the stated order",
  "A file named by %include or %embed is looked for in the working directory first and then in each -I directory in the order given on the command line (or to the library), however those directories are named; the first readable candidate is used and later ones are not consulted. For %include each directory is tried with the exact name and then with `.sex` appended before moving on. Candidates that are missing or unreadable are passed over, and only if none is readable does the build fail.",
  ["inputs", "configurations", "fault_sequences"],
  "every set and order of include directories, every placement of same-named files in them, and every subset of candidates that cannot be read",
  BASE + "no test uses an include directory.",
  [EXP, BIN], [("candidate loop", EXP + " expand_include_macro, expand_embed_macro"), ("order of directories", EXP + " add_includes; " + BIN + " main")],
  ["which candidate's content appears in the output; the sequence of opens"],
  [("Expander.includes", "directories in order of search", EXP)])

p("C06", "Including a file equals writing its text there",
  "Including a file has the same effect as writing its current content at that point: the same output and the same macros defined for what follows, wherever the include stands (nested includes, macro bodies, loops, matches, namespaces) and however often it is repeated. Each evaluation reads the file anew, so a file replaced between two evaluations contributes its old content to the first and its new content to the second. Embedding a file yields exactly its bytes.",
  ["inputs", "schedules", "histories"],
  "every document and include graph without cycles; every schedule of other processes replacing, creating or deleting files between the build's own file operations",
  BASE + "no test includes a file or changes one during a build.",
  [EXP, S+"parse/mod.rs"], [("%include / %embed", EXP + " expand_include_macro, expand_embed_macro"), ("ownership of included sources", EXP + " register_parser")],
  ["CLI stdout against a reference evaluation of the file contents at the moments they were opened"])

p("C07", "Damaged input never crashes or hangs a build",
  "Whatever bytes a source or included file holds after truncation at any point, flipped bits, or lost, doubled or overwritten blocks, a build ends promptly, either with its output and status 0 or with a located diagnostic and status 1 and no output for that document. It never panics, dies by a signal, loops forever or prints a partial document. (Unbounded macro recursion, include cycles and nesting deep enough to exhaust the stack are excluded.)",
  ["inputs", "fault_sequences"],
  "every source or included file as left by a torn write, bit rot or truncation, in every output format",
  BASE + "all inputs are well formed.",
  [LEX, PAR, EXP, MAC, HTML, XML, CSS, ASM], [("lexer end-of-file handling", LEX), ("argument rules", MAC), ("generation errors", HTML + ", " + CSS)],
  ["exit status, signals and stderr of the seam command; CPU and call budget"])

p("C08", "A failing sink stops generation cleanly",
  "Generating HTML, XML, CSS, S-expressions or plain text into a caller's writer reports an error as soon as the writer refuses a piece, without panicking and without writing anything further to it. The pieces accepted before are exactly a prefix of the full output. The same formatter can afterwards generate again into a healthy writer and yields the complete, unchanged output.",
  ["inputs", "fault_sequences", "histories"],
  "every document and format, a writer failing at any write, repeatedly, interleaved with successful generations",
  BASE + "only in-memory strings, which cannot fail, are ever written to.",
  [HTML, XML, CSS, SEXP, TEXT, ASM], [("MarkupFormatter::generate", ASM), ("nested formatters", HTML + " generate_html_node")],
  ["MarkupFormatter::generate/display/document through the library API"])

p("C09", "Builds do not influence each other",
  "The result of building a document depends only on that document: not on which documents the same process built before, whether those failed, in which order the files were named on the command line, or what other threads are building at the same time. Macros, included files, formatter state and error state of one build are never visible in another. Building a document twice in one process gives the same result twice.",
  ["schedules", "histories", "inputs"],
  "every sequence of builds including failing ones, every interleaving of builds on several threads",
  BASE + "each test builds one thing and no interleaving of threads is controlled.",
  [LIB, EXP, BIN, ASM], [("one Expander per document", BIN + " main; " + LIB), ("scopes cloned per context", EXP + " create_subcontext")],
  ["stdout split per document; library results per build"])

p("C10", "File listings show exactly what exists",
  "%glob yields each path that matches the pattern and exists with the requested type exactly once, in the requested order (by name, by type, or by time with the most recent first; ties by name; reversed when descending), regardless of the order in which directories list their entries. Entries that vanish during the listing, and dangling links, are left out; a directory or entry that cannot be examined for any other reason fails the build. It never crashes or lists a path that does not exist.",
  ["inputs", "schedules", "fault_sequences"],
  "every file tree, listing order, pattern and option; every deletion during the listing and every stat, open-directory or listing error",
  BASE + "no test lists a directory.",
  [EXP], [("%glob", EXP + " expand_glob_macro")], ["CLI stdout/exit status over a simulated file system"])

p("C11", "Dates follow the clock and the requested time zone",
  "A date without an explicit time shows the clock reading at which it was evaluated, in the requested time-zone offset or else in the local time zone in force at that instant, and shows whole seconds correctly however the clock jumps between evaluations. A date or timestamp computed from an explicit time never depends on the clock. Invalid formats, times and offsets are reported as errors, never crashes.",
  ["inputs", "schedules", "configurations"],
  "every clock reading from 1970 on and every jump between readings, every local time zone and daylight-saving rule, every format and offset",
  BASE + "dates are checked for explicit times with explicit offsets only; the clock is never controlled.",
  [EXP], [("%date / %timestamp", EXP + " expand_date_macro, expand_timestamp_macro")], ["CLI stdout under a simulated clock and time-zone database"])

p("C12", "Failures name the file, line and column at fault",
  "Every failed build names, in its diagnostic, the file and the line and column at which the offending construct starts: the include path that could not be read, the macro call that failed, the unclosed string or list. This holds at any nesting of includes and after any preceding text: multi-line strings, comments, escapes and non-ASCII characters.",
  ["inputs", "fault_sequences"],
  "every document and include graph with one failing construct at any position, failing because of the text itself or because of an injected file-system fault",
  BASE + "no test looks at an error.",
  [LEX, TOK, EXP, PAR, ASM], [("Site arithmetic", TOK), ("line and offset tracking", LEX + " next_line, consume_char"), ("error construction", EXP + " expand_include_macro")],
  ["stderr of the seam command"])

p("C13", "Logging never affects the result",
  "Each evaluated %log message appears exactly once on standard error, in evaluation order, with its location, and nothing of it on standard output. Logging changes neither the generated document nor the exit status, even when standard error cannot be written. Messages not evaluated are not printed.",
  ["inputs", "fault_sequences"],
  "every document with log calls in loops, matches, macro bodies and includes; every short, interrupted or failing write to standard error",
  BASE + "no test logs.",
  [EXP], [("%log", EXP + " expand_log_macro")], ["bytes accepted by fd 2, stdout, exit status"])

p("C14", "A build only reads, and releases what it opens",
  "A build never creates, modifies, renames or deletes anything in the file system, starts no process, opens no network connection, and opens only its sources, candidates of the includes and embeds it evaluates, the directories it lists and the system's time-zone data. Every file and directory handle is closed again before the next document is built, on success and on failure, so any number of includes works with a small limit on open files.",
  ["inputs", "fault_sequences", "histories"],
  "every document and history of builds in one process, under any fault and a small limit on open handles",
  BASE + "system calls are never observed.",
  [EXP, LIB, BIN, S+"parse/mod.rs"], [("whole-file reads", EXP + ", " + LIB)], ["every system-call-level operation of the process"])

p("C15", "Documents come out whole, in order, or not at all",
  "Standard output carries the documents in order (standard input first if requested, then files as given on the command line), each complete and followed by one newline. A document whose build fails contributes no byte and ends the run with a non-zero status, after every earlier document came out complete. If the process is killed or memory runs out at any instant, what was written is a prefix of that sequence, and no document is started before it was completely generated.",
  ["inputs", "crash_points", "fault_sequences"],
  "every command line of several documents with failures at any of them; a kill or allocation failure at any instant",
  BASE + "the command-line program is never run.",
  [BIN], [("generate to string, then print", BIN + " generate_and_print")], ["bytes accepted by fd 1 at the instant of a kill; exit status"])

p("C16", "Environment variables are passed through exactly",
  "%os/env yields the exact value the variable has in the process environment, including empty values, any Unicode text and characters special to the output format (escaped as text there). A variable that is unset or is not valid Unicode fails the build with an error at that call. No other variable influences the document.",
  ["inputs", "configurations"],
  "every environment: names, values, order, unset and non-Unicode entries",
  BASE + "the environment is never varied.",
  [EXP], [("%os/env", EXP + " expand_os_env_macro")], ["CLI stdout/exit status under a generated environment"])

p("C17", "A torn data file imports completely or fails",
  "Importing YAML, JSON, TOML or Markdown front matter defines every variable the file holds, under its full nested name and with its exact value, or else fails the build. A file that is truncated or damaged so that it no longer parses is always reported as a failure and never leaves a document built from part of its definitions.",
  ["inputs", "fault_sequences", "crash_points"],
  "every data file, cut at every byte or damaged as a torn write would, imported directly or through front matter",
  BASE + "no test imports data.",
  [EXP], [("%yaml, %json, %toml, %markdown", EXP + " expand_yaml, expand_toml, expand_markdown_macro")], ["CLI stdout/exit status"])

p("C18", "The command line holds for the whole run",
  "The command line is examined completely before anything is built. The target format (the last one given), --nodocument and every -I directory apply to every document of the run, wherever they stand among the arguments, and each named source is built once for every time it is named. An unknown option, an argument that is not valid Unicode, a missing target format, or a named source that does not exist or cannot be examined at that moment ends the run with a diagnostic, status 1 and no output. Standard input is read if `-` is given or no source is named, and is never touched otherwise. A source that vanishes or changes after the command line was examined fails, or is built as it then is, when its turn comes; the documents before it come out. -v, when reached, prints the version on standard error and ends with status 0, building nothing.",
  ["inputs", "histories", "fault_sequences"],
  "every command line, every order of its arguments, every state of the named sources when it is examined and every change to them afterwards",
  BASE + "no test runs the command.",
  [BIN], [("argument loop, existence check, order of sources", BIN + " main")], ["stdout, stderr, exit status and reads of standard input of the seam command"])

p("C19", "The library hands every outcome to its caller",
  "Building through the library gives what the command gives for the same source, include directories and target: the same text, or an error value that says what the command prints. The library never ends, aborts or panics its caller's process, whatever the document and whatever input fails, and writes nothing itself except %log messages on standard error. The caller can go on building after any outcome.",
  ["inputs", "fault_sequences", "histories"],
  "every document, built from a path, a string or a reader, with any of its files missing, unreadable or damaged",
  BASE + "no test compares the library with the command, or makes a build fail on input.",
  [LIB, EXP, ASM, BIN], [("tree_builder, tree_builder_file, tree_builder_stream, add_includes, expand", LIB + ", " + EXP), ("document, display", ASM)], ["return values of the library's builders and formatters in a calling process; its stdout, stderr and exit status"])

# Properties that are pure functions of the document text: no fault, clock, schedule or I/O in them.
def na(id, title, statement, files, why):
    p(id, title, statement, ["inputs"], "every document", BASE + why, files, [("pure code", files[0])], ["output text"])
na("C30", "Text is escaped for the target format", "Text taken from the document appears in HTML and XML with <, >, quotes and & escaped so that it can never introduce markup. Raw text is passed through unchanged.", [ASM, HTML, XML], "no test generates markup.")
na("C31", "Generated markup is well nested", "Every element opened in generated HTML or XML is closed in the right order; void elements are not closed and have no children.", [HTML, XML], "no test generates markup.")
na("C32", "S-expression output reads back as the same tree", "Expanding a document to S-expressions and building the result again yields the same S-expressions.", [SEXP, PAR], "no round trip is tested.")
na("C33", "Sorting and reversing keep exactly the same items", "Sorting and reversing a list yields a permutation of its items; sorting is stable and orders numbers numerically.", [EXP], "three fixed lists are tested.")
na("C34", "Arguments bind by position and by name", "Calling a macro binds positional, named, default, rest and named-rest parameters as declared, and a call that does not fit is rejected.", [EXP, MAC], "no test calls a user macro with named arguments.")
na("C35", "Formatting and parsing a date are inverse", "For an unambiguous format, the timestamp of a formatted date is the original timestamp.", [EXP], "three fixed dates are tested.")
na("C36", "Definitions obey scope and namespace", "Definitions made inside a macro body, loop or match are not visible outside it; a namespace makes its definitions visible under its prefix only.", [EXP], "no test defines macros.")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
