#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WR = [("Ansi::write_str", "ansi/src/ansi.rs"), ("io::Ansi::write", "ansi/src/io.rs"), ("Html::write_str", "html/src/html.rs"), ("Plain::write_str", "plain/src/plain.rs")]

p("C01", "Every backend preserves exactly the text that was written",
  "For any sequence of styled writes, what a reader sees is exactly the concatenation of the written texts in order: the plain output itself, the ANSI output with its colour codes removed, the HTML output's text content, and the replay of an attributed string all equal it. Nothing is lost, duplicated, reordered or added, whatever the text (empty, multi-byte, very long) and whatever the styles. Style attributes never change plain output.",
  ["inputs", "histories"], "all texts, all styles, all sequences of writes, all backends (fmt and io)",
  "Tests write a handful of short ASCII fragments through each backend; none varies length, encoding or number of writes, and none compares the backends with each other over a history.",
  ["plain/src/plain.rs", "plain/src/io.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "core/src/string.rs", "core/src/io.rs"],
  WR + [("String::write_str / Display", "core/src/string.rs"), ("io::Write::write_all", "core/src/io.rs")],
  observe=["bytes received by the wrapped sink", "calls received by a recording stylish::Write"])

p("C02", "On an ANSI terminal every character is shown in exactly its style",
  "Feed the output of an ANSI writer (string or byte sink), at any point of any history of styled writes, to a terminal that interprets SGR codes cumulatively (bold and faint are independent attributes until code 22 or 0 clears them): every character is displayed with exactly the foreground, background and intensity it was written with. This holds for every transition between any two of the representable styles.",
  ["inputs", "histories"], "all histories of styled writes over all 17x17x3 styles; all transitions between two styles",
  "Tests cover about six transitions with two colours; correctness depends on the remembered style after an unbounded history and on 867x867 transitions.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "ansi/src/util.rs", "style/src/lib.rs"],
  [("diff of remembered style against new style, or full reset", "ansi/src/ansi.rs, ansi/src/io.rs"), ("SGR tables", "ansi/src/util.rs"), ("Style::diff_from", "style/src/lib.rs")],
  state=[("current", "style the terminal is believed to be in", "Ansi, io::Ansi")], observe=["bytes received by the wrapped sink after each write"])

p("C03", "Finishing an ANSI writer leaves the terminal reset; unstyled output is clean",
  "After finishing an ANSI writer (string or byte sink) the terminal is back in its default style, whatever was written before, and the wrapped sink is handed back with everything written to it. If everything written was in the default style, the output contains no escape codes at all, finishing included.",
  ["histories"], "all histories of styled writes followed by finish",
  "Tests finish only after one or two writes, nearly always styled the same way; reset depends on the whole history.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "ansi/src/format.rs"],
  [("finish", "ansi/src/ansi.rs, ansi/src/io.rs")],
  state=[("current", "style the terminal is believed to be in", "Ansi, io::Ansi")], observe=["bytes received by the wrapped sink"])

p("C04", "HTML output is balanced spans, each declaring exactly its text's style",
  "For any history of styled writes the HTML produced is text and non-nested span elements, every one of them closed once the writer is finished. Every character in a non-default style lies inside a span whose inline CSS declares exactly the non-default parts of its style (colour, background colour, font weight) and nothing else, and characters in the default style lie outside any span. Different styles never share the same declaration.",
  ["inputs", "histories"], "all histories of styled writes over all 17x17x3 styles; all transitions",
  "Tests cover a few fixed transitions; balance and attribution are invariants over unbounded histories.",
  ["html/src/html.rs", "html/src/util.rs"],
  [("Html::write_str, Html::finish", "html/src/html.rs"), ("CSS tables", "html/src/util.rs")],
  state=[("current", "style of the open span, default if none", "Html")], observe=["text received by the wrapped sink after each write and after finish"])

p("C05", "HTML output escapes text so that it can never become markup",
  "Whatever text is written, in whatever style, and however it is split over writes or produced by formatting, an HTML parser reads back from the output exactly that text as text: no written character ever becomes part of a tag, attribute, comment or character reference that changes what is read. In particular < > & and quotes in the input never appear as markup.",
  ["inputs"], "all strings (all Unicode, all arrangements of the special characters), all styles, all splittings",
  "No test of this repository writes any of < > & \" ' to the HTML writer.",
  ["html/src/html.rs"], [("askama escape in Html::write_str", "html/src/html.rs")], observe=["text received by the wrapped sink"])

p("C06", "Restyling and style differences obey their algebra",
  "Applying the difference from style A to style B onto A gives B, and that difference mentions exactly the components in which A and B differ. Setting one component leaves the others alone; a tuple or slice of restylings applies left to right so the last setting of a component wins; nothing, unit and the empty list change nothing; a whole style replaces everything; references and user-defined restylings act as what they wrap.",
  ["inputs"], "all pairs of styles, all compositions of restylings",
  "Doc-tests check one instance of each; the laws range over 867x867 pairs and arbitrary compositions.",
  ["style/src/lib.rs"], [("Style::with, Style::diff_from, impl Restyle for ...", "style/src/lib.rs")], observe=["Style and StyleDiff values returned"])

p("C07", "Style scopes nest: inner styles build on outer ones and never leak",
  "While values are displayed inside one another to any depth, text is written in the style obtained by applying the enclosing scopes' restylings from the outermost to the innermost, whether the scope came from the formatter or from attributes in a format string. When a scope ends, following text is in the enclosing style again, and each top-level write starts from the default style; a write that names a whole style uses exactly that style.",
  ["programs", "histories"], "all programs of nested scopes and writes (depth and length unbounded)",
  "Tests nest at most one level deep; the property quantifies over all trees of scopes.",
  ["core/src/formatter.rs", "core/src/arguments.rs", "core/src/write.rs", "core/src/display.rs", "macros/src/lib.rs"],
  [("Formatter::with, with_args, write_fmt", "core/src/formatter.rs"), ("generated format_args closure", "macros/src/lib.rs")],
  state=[("style", "style of the current scope", "Formatter")], observe=["(text, style) calls received by a recording stylish::Write"])

p("C08", "An attributed string replays exactly the styled text recorded in it",
  "Displaying an attributed string yields exactly the sequence of (character, style) pairs that were written to it, in order, however the writes were split, mixed with empty writes, appended later, or interleaved with displays and clones of the string. The recorded styles are reproduced unchanged in any enclosing style, and repeatedly.",
  ["histories", "inputs"], "all histories of writes, appends, clones and displays; all texts and styles",
  "Tests build strings of two runs; the run bookkeeping is an invariant over all histories and byte lengths.",
  ["core/src/string.rs", "core/src/to_string.rs", "core/src/format.rs"],
  [("run list keyed by byte offset", "core/src/string.rs")],
  state=[("styles", "start offsets of the style runs", "String")], observe=["(text, style) calls received by a recording stylish::Write"])

p("C09", "Short writes and interruptions of a byte sink are invisible in the output",
  "Whatever pattern of short writes and Interrupted errors a byte sink produces, writing whole buffers or formatted data through the byte-sink writers delivers exactly the bytes that a sink accepting everything at once would have received, each once and in order (the caller's bytes, however many, and the escape sequences around them), and reports success. This includes interruptions in the middle of a style change and while finishing.",
  ["fault_sequences", "histories"], "all schedules of short writes and interruptions at every sink call, all histories of styled writes",
  "Every test writes to a Vec or stdout, which never shortens or interrupts.",
  ["core/src/io.rs", "ansi/src/io.rs", "plain/src/io.rs"],
  [("io::Write::write_all retry loop", "core/src/io.rs"), ("write_all for escape codes", "ansi/src/io.rs"), ("write_all delegation", "plain/src/io.rs")],
  observe=["every call to the wrapped sink and its scripted answer", "results of the API calls"])

p("C10", "A fatal sink error is the one reported, and delivery stops there",
  "When a byte sink fails with anything but an interruption, or accepts nothing (reported as WriteZero), during whole-buffer or formatted writes or while finishing, the call returns that very error and makes no further attempt to write, as long as displayed values pass errors on. What the sink has received is then exactly a prefix of the fault-free output. If formatting itself fails without a sink error the call still returns an error.",
  ["fault_sequences", "crash_points"], "every point of failure, every error kind, combined with short writes and interruptions before it",
  "Only one test has a failing formatter and none has a failing sink.",
  ["core/src/io.rs", "ansi/src/io.rs", "plain/src/io.rs"],
  [("ErrorTrap, write_fmt, write_all", "core/src/io.rs"), ("io::Ansi::write / finish", "ansi/src/io.rs")],
  state=[("error", "first sink error seen while formatting", "ErrorTrap")], observe=["calls to the wrapped sink", "results of the API calls"])

p("C11", "A single byte-sink write is honest about what it wrote and can be retried",
  "A single styled write hands the caller's buffer to the wrapped sink at most once and returns exactly the number of its bytes the sink accepted, never more than the buffer's length. If it returns an error, none of the caller's bytes were delivered; calling it again with the same arguments continues correctly, so that finally every character is shown in its style, without repeating text. Flushing reaches the sink and reports its result.",
  ["fault_sequences", "histories"], "all caller-driven write loops with retry, all schedules of short writes, interruptions and other errors",
  "No test calls write against a sink that is short or fails.",
  ["ansi/src/io.rs", "plain/src/io.rs", "core/src/io.rs"],
  [("io::Ansi::write, io::Plain::write, flush", "ansi/src/io.rs, plain/src/io.rs"), ("&mut W forwarding", "core/src/io.rs")],
  state=[("current", "style the terminal is believed to be in", "io::Ansi")], observe=["calls to the wrapped sink", "results of write and flush"])

p("C12", "Format parameters reach the standard formatting traits exactly as written",
  "Every combination of alignment (with a space as fill), sign, #, 0, literal width, literal precision and trait selector is accepted, and the value's standard trait implementation of exactly that selector is called once with exactly those parameters (and no others), so the text produced equals that of the standard library's format! with the same parameters. No other trait is asked of the value, nor that it be copied, moved, sized, Send or 'static: it is borrowed. Style attributes on the same placeholder, parameters of neighbouring or enclosing placeholders, and the backend make no difference.",
  ["inputs", "configurations"], "all combinations of format parameters and trait selectors, all values",
  "Tests sample some numeric combinations in the plain backend only; the code expands to hundreds of parameter combinations and most are never executed.",
  ["core/src/std_compat.rs", "core/src/arguments.rs", "macros/src/format.rs", "macros/src/to_tokens.rs"],
  [("std_write! expansion", "core/src/std_compat.rs"), ("FormatSpec parser", "macros/src/format.rs"), ("token generation", "macros/src/to_tokens.rs")],
  state=[("format", "parameters of the current placeholder", "Formatter")], observe=["parameters seen by a probing std::fmt implementation", "text produced"])

p("C13", "Placeholders select the right argument and each argument is evaluated once",
  "Every placeholder of an accepted format string shows the argument that std's rules select: the next positional one, the one with the given index, the one with the given name (raw identifiers included), or else the variable of that name in scope, with explicit references not disturbing the automatic sequence. Every argument expression, of any syntactic form, is evaluated exactly once, in the order given and before any output, no matter how many placeholders refer to it.",
  ["programs", "inputs"], "all arrangements of implicit, indexed, named and captured references with any number of arguments; all expression forms",
  "Tests use at most two placeholders and one argument, and never an operator expression.",
  ["macros/src/lib.rs", "macros/src/format.rs"],
  [("argument resolution in format_args_impl", "macros/src/lib.rs"), ("FormatArgRef parser", "macros/src/format.rs")],
  observe=["order of evaluation and display events of probing arguments", "text produced"])

p("C14", "Style attributes in format strings mean what the documentation says",
  "Every attribute list of the documented grammar is accepted (fg and bg with any colour's lowercase name, bold, normal, faint; in any order and number, empty, with a trailing comma) and sets exactly the named components of the style for that placeholder, the last mention of a component winning. Setting a component to default or normal really resets it even inside a scope that set it, and components not mentioned are inherited. Attributes combine with any format parameters and trait selector and affect no other part of the output.",
  ["inputs", "programs"], "all attribute lists, all enclosing styles, all positions in a format string",
  "Tests use fg=blue/red/green, bg=red and bold; no test covers the other values, repeated attributes, resets or nesting.",
  ["macros/src/format.rs", "macros/src/to_tokens.rs", "README.md"],
  [("attribute parser", "macros/src/format.rs"), ("StyleDiff token generation", "macros/src/to_tokens.rs")],
  observe=["(text, style) calls received by a recording stylish::Write"])

p("C15", "Malformed format invocations are rejected at compile time",
  "An invocation whose format string is malformed (unbalanced braces, unknown attribute or value, junk in a placeholder), that refers to a missing argument, leaves an argument unused, repeats an argument name, or puts a positional argument after a named one does not compile. It is never accepted with some silently chosen meaning: what the standard library's macros accept beyond what is supported here (other fill characters, white space in placeholders, indices that run on into the named arguments) is either rejected or means what it means there.",
  ["inputs", "programs"], "all invalid format strings and argument lists",
  "No existing test exercises a rejected invocation.",
  ["macros/src/lib.rs", "macros/src/format.rs"],
  [("all_consuming parser and cut", "macros/src/format.rs"), ("unused/missing argument checks", "macros/src/lib.rs")],
  observe=["compile errors per invocation"])

p("C16", "All entry points to the same backend produce the same output",
  "The same formatted data gives the same output through every entry point of a backend: the backend's format macro and function, the to-string traits, write! on a writer, direct calls to the writer traits, references and trait objects to writers, an intermediate attributed string, character-by-character writes, and the string and byte variants of the backend. writeln! adds exactly one unstyled newline, cloned writers continue independently, and successive writes to one writer continue its output.",
  ["programs", "histories", "configurations"], "all programs of formatted data, all entry points",
  "Tests use one entry point per assertion and never compare them.",
  ["src/lib.rs", "core/src/write.rs", "core/src/io.rs", "core/src/format.rs", "core/src/to_string.rs", "ansi/src/format.rs", "ansi/src/to_string.rs", "html/src/format.rs", "html/src/to_string.rs", "plain/src/format.rs", "plain/src/to_string.rs"],
  [("write_fmt glue and forwarding impls", "core/src/write.rs, core/src/io.rs"), ("format functions and to_string traits", "*/src/format.rs, */src/to_string.rs"), ("format_args_nl", "macros/src/lib.rs")],
  observe=["final output of each entry point"])

p("C17", "Formatting errors stop output at once and reach the caller",
  "When a displayed value reports an error or a text sink rejects a write, nothing after that point is written and the formatting call (or finish) returns an error, through any nesting of values, attributes, standard traits and adaptors. What the sink has accepted is then a prefix of the error-free output. A displayed value that handles an inner error itself carries on in its own style, as if the inner value ended there.",
  ["fault_sequences", "programs"], "every failing position in every program of nested values; every failing sink call",
  "One test has a single failing value; none has a failing text sink or a nested failure.",
  ["core/src/formatter.rs", "core/src/std_compat.rs", "core/src/write.rs", "macros/src/lib.rs", "ansi/src/ansi.rs", "html/src/html.rs", "plain/src/plain.rs"],
  [("? after every piece", "macros/src/lib.rs"), ("StdProxy", "core/src/std_compat.rs"), ("Formatter::write_str/write_fmt", "core/src/formatter.rs")],
  observe=["sink calls and results per write"])

p("C18", "Literal text and brace escapes in format strings are reproduced exactly",
  "The literal parts of a format string (any Unicode, raw strings, escapes, concat!) appear unchanged and in the enclosing scope's style, {{ and }} appear as single braces however they are combined with each other and with placeholders, and each literal part appears between the same placeholders as in the format string.",
  ["inputs"], "all literal texts and all arrangements of escapes and placeholders",
  "No test uses an escaped brace, and literals are short ASCII.",
  ["macros/src/format.rs", "macros/src/lib.rs", "core/src/lib.rs"],
  [("Piece parser", "macros/src/format.rs"), ("literal emission", "macros/src/lib.rs"), ("concat! support", "core/src/lib.rs")],
  observe=["(text, style) calls received by a recording stylish::Write"])

p("C19", "Output does not depend on how same-styled text is split into writes",
  "Splitting a text into several consecutive writes of the same style, or inserting empty writes of any style anywhere, changes nothing in the output of the ANSI, HTML and plain writers or in what an attributed string replays to them. In particular no markup is emitted between adjacent texts of the same style or for empty text.",
  ["inputs", "histories"], "all histories, all splittings, all insertions of empty writes",
  "One test inserts one empty write; splitting is never varied.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "core/src/string.rs", "core/src/io.rs"],
  [("is_empty guard and comparison with the remembered style", "ansi/src/ansi.rs, html/src/html.rs"), ("write_all's empty-buffer rule", "core/src/io.rs"), ("run merging", "core/src/string.rs")],
  observe=["final output of the writer"])

p("C20", "Enabling or disabling features never changes what is output",
  "In every combination of the std, alloc and macros features that provides an item, a program using that item compiles and produces the same output as with all features enabled. Features only add items.",
  ["configurations"], "all feature combinations, all programs of writes available in them",
  "The tests only compile with all features enabled.",
  ["Cargo.toml", "src/lib.rs", "core/src/lib.rs", "ansi/src/lib.rs", "html/src/lib.rs", "plain/src/lib.rs", "style/src/lib.rs"],
  [("cfg(feature) gates", "*/src/lib.rs")],
  observe=["traces of the same programs recorded under each feature set"])

p("C21", "A panic in a displayed value leaves the writer consistent",
  "When a displayed value panics, the panic reaches the caller (or the displayed value around it that catches it), with everything written before it delivered and nothing after. Whoever goes on with the writer, or with the formatter of the value that caught the panic, does so in its own style as if the panicking value had ended there: later text keeps its style, the scopes the panic went through are gone, and the writer can be finished.",
  ["fault_sequences", "programs"], "a panic at every point of every program of nested values, caught at every level, followed by every continuation",
  "No test has a value that panics.",
  ["core/src/formatter.rs", "core/src/std_compat.rs", "core/src/arguments.rs", "ansi/src/ansi.rs", "html/src/html.rs", "core/src/string.rs", "core/src/io.rs"],
  [("scoped style of a Formatter, nothing to undo on unwinding", "core/src/formatter.rs"), ("remembered style updated with the output", "ansi/src/ansi.rs, html/src/html.rs"), ("StdProxy", "core/src/std_compat.rs")],
  state=[("current", "style the output is in", "Ansi, io::Ansi, Html")], observe=["what reached the sink per operation, and panics seen by the caller"])

p("C22", "Calls through references and trait objects are calls on the user's writer",
  "Whatever writer a user implements, overriding any of the provided methods of the writer traits or none, calling a method through mutable references of any depth, by_ref or trait objects calls that very method of it once, with the same arguments, and returns its result. A provided method that is not overridden delivers exactly what it is asked to through the ones it has: write_char the character, write_fmt the formatted runs in order up to the first failure, write_all every byte however many the writer accepts at a time, going on after interruptions and failing on the first other error or when nothing is accepted.",
  ["programs", "fault_sequences"], "all sets of overridden methods, all routes to the writer, all sequences of results of its methods",
  "No test implements a writer of its own that overrides provided methods, and none calls through references.",
  ["core/src/write.rs", "core/src/io.rs"],
  [("impl Write for &mut W", "core/src/write.rs, core/src/io.rs"), ("provided methods", "core/src/write.rs, core/src/io.rs"), ("by_ref", "core/src/write.rs, core/src/io.rs")],
  observe=["calls received by a recording writer, and results returned to the caller"])

p("C23", "A format invocation compiles and means the same wherever it is written",
  "Whether a format macro invocation compiles and what it does depend only on the invocation and on what it names. They do not depend on what else is in scope (types, functions, constants, statics, traits, modules, macros or local variables that are named like something the macro uses, or shadow the prelude, or no prelude at all), on denied warnings or forbidden unsafe code, on the edition of the crate, on the name under which it depends on this one, on whether format strings are expanded by the macros or by the compiler (--cfg stylish_proc_macro_expand), or on whether the invocation is written directly or comes through other macros: names in the format string refer to what is visible where the format string was written. The arguments made by format_args can be kept in variables, moved, and displayed any number of times, always with the same result.",
  ["programs", "configurations"], "all scopes, editions, dependency names and enclosing macros; all invocations",
  "The tests are one crate of one edition with ordinary scopes.",
  ["macros/src/to_tokens.rs", "macros/src/lib.rs", "src/lib.rs", "core/src/lib.rs"],
  [("paths through the export token", "macros/src/to_tokens.rs"), ("spans of captured identifiers", "macros/src/format.rs"), ("$crate in the exported macros", "src/lib.rs, core/src/lib.rs")],
  observe=["whether generated crates compile; events of the running programs"])

p("C24", "Uses of the library at the same time are independent of one another",
  "What a use of the library (a writer and everything written to it, an attributed string, a call that makes a string) outputs and returns depends only on what it is asked to do itself. Other uses that go on at the same time never change it: uses that are interleaved operation by operation, uses within one another (a value that uses the library while it is displayed, a sink that uses it while it is written to), also when one of them fails or panics, and uses in other threads, however they are scheduled, or that move from one thread to another: styles and attributed strings can be sent to and shared with other threads, and a writer wherever its sink can.",
  ["schedules", "programs"], "all interleavings and nestings of several sessions, down to every call of a sink; several threads",
  "Every test uses one writer at a time in one thread.",
  ["core/src/formatter.rs", "core/src/arguments.rs", "core/src/std_compat.rs", "core/src/format.rs", "core/src/string.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "ansi/src/format.rs", "html/src/html.rs", "html/src/format.rs", "plain/src/plain.rs"],
  [("state only in the writer and the formatter that borrows it", "core/src/formatter.rs, ansi/src/ansi.rs, html/src/html.rs"), ("a writer of its own for every call", "*/src/format.rs, */src/to_string.rs")],
  state=[("current", "style the output is in, per writer", "Ansi, io::Ansi, Html")], observe=["the trace of every session of a woven run"])

p("C25", "Displaying format arguments allocates no memory",
  "Making the arguments of a format invocation and displaying them to a writer of the user's that needs no memory itself, or through the library's plain, ANSI and HTML writers to a sink that needs none, directly, through references, trait objects, formatters or other displayed values, never allocates on the heap, with whatever features the library is built and whatever the format string, its parameters and its attributes; memory is used only by what is there to make a string, and by the arguments' own code.",
  ["programs", "inputs"], "all invocations whose arguments' own formatting needs no memory",
  "The tests never look at allocations.",
  ["core/src/arguments.rs", "core/src/formatter.rs", "core/src/std_compat.rs", "core/src/write.rs", "core/src/io.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "plain/src/plain.rs", "plain/src/io.rs", "macros/src/lib.rs", "macros/src/to_tokens.rs"],
  [("format_args!, \"avoids heap allocations\"", "core/src/lib.rs"), ("arguments by reference on the stack", "macros/src/lib.rs"), ("parameters passed on to std", "core/src/std_compat.rs")],
  observe=["allocations counted by the program's global allocator while a value is displayed"])

p("C26", "The surroundings of a program never change its output",
  "What the library writes and returns for what it is told to display depends on nothing else: not on environment variables or on whether standard streams are terminals, not on the build profile (debug assertions, overflow checks, optimisation), not on where in a program it is used (in the main thread or another one, while a panic unwinds, while what belongs to an ended thread is dropped), not on what was displayed before, and not on when, or how often, it is run. This holds for all writers, functions and macros, for the expansion of the macros as for running what they expand to.",
  ["configurations", "programs", "histories"], "all environments, build profiles, places in a program, earlier uses",
  "The tests run in one build profile and one environment, each in a process that does little else.",
  ["core/src/formatter.rs", "core/src/std_compat.rs", "core/src/io.rs", "core/src/string.rs", "core/src/format.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "ansi/src/util.rs", "html/src/html.rs", "html/src/util.rs", "plain/src/plain.rs", "plain/src/io.rs", "macros/src/lib.rs"],
  [("writers whose state is the current style only", "ansi/src/ansi.rs, ansi/src/io.rs, html/src/html.rs"), ("no statics and no queries of the environment", "all crates"), ("expansion from the tokens alone", "macros/src/lib.rs")],
  observe=["outputs and results of the same history in different surroundings"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
