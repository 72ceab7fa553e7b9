#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one edit per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V, S, G, VA, T = "kfparser/visitor.go", "schema/schema.go", "kfgrammar/kuneiform_parser.go", "schema/validator.go", "schema/types.go"
PA = "kfparser/parser.go"
EX = "The existing tests compile some forty hand-written programs and compare a few fixed JSON texts; "

prop("C01", "Compiled tables and columns are exactly those of the source",
 "For every valid program, the compiled schema has the database name of the source and exactly its tables, in source order, each with exactly its columns, in source order. Every column has its declared name and type and exactly its declared attributes, in order, each with the literal written for it, unchanged (strings keep their quotes and escapes, numbers every digit). Nothing is added, lost, merged, reordered or taken from another table or column, whatever the number and length of the declarations.",
 ["programs"], "all valid programs: any number of tables and columns, any names (keyword-like, mixed case), any attribute combinations and literals, any layout",
 EX + "none has more than a handful of columns, unusual names, or unusual literals.",
 [V, S, G], [("table, column and attribute visitors", V), ("JSON tags", S), ("keyword constants", T)],
 observe=["JSON of the parse result"])
prop("C02", "Compiled indexes and foreign keys are exactly those of the source",
 "For every valid program, each compiled table has exactly the indexes of its source, in order, with their names (without the hash sign), kinds and column lists in the written order. It has exactly its foreign keys, in order, each with its child columns, parent table and parent columns in the written order. Each foreign key has exactly its triggers, in order, with the event and the reaction written, for every spelling the language allows.",
 ["programs"], "all valid programs: any number of indexes and foreign keys, single and composite, interleaved in any way, self references and forward references, all trigger combinations and spellings",
 EX + "few index and foreign key shapes occur, never several of each interleaved.",
 [V, S, G, T], [("index and foreign key visitors", V), ("event and reaction constants", T)], observe=["JSON of the parse result"])
prop("C03", "Compiled action signatures are exactly those of the source",
 "For every valid program, the compiled actions are exactly those of the source in source order (an init block comes after them), each with its name and its parameters in the written order, dollar signs included. An action is public exactly if declared so, a view exactly if declared so (otherwise it may update), and is marked owner-only exactly if declared so, in whatever order these words are written. None of these leaks from one action to another.",
 ["programs"], "all valid programs: any number of actions and parameters, every legal set and order of modifiers",
 EX + "modifiers are tried in few orders and mostly on a single action; a leak between actions or a wrong default for a rare combination would show only elsewhere.",
 [V, S, T], [("action, parameter and modifier visitors", V), ("modifier constants", T)], observe=["JSON of the parse result"])
prop("C04", "Action bodies keep every statement, in order and in meaning",
 "For every valid program, each compiled action and the init action has exactly the statements of its source body, in order. A SQL statement is the source text byte for byte (including inner white space, comments, literals and letter case) with its semicolon. A call has the same receivers, the same target and the same arguments, token for token, as in the source, and its text can be parsed again to the same call.",
 ["programs"], "all valid bodies: any mix and number of SQL statements and action and extension calls, nested expressions, word operators, strings with any content",
 EX + "calls are tried with a handful of arguments and one operator; two words or two literals fused by re-spelling, or SQL text changed by an unusual character, show only on other inputs.",
 [V, "kfgrammar/kuneiform_lexer.go", S], [("statement visitors", V), ("SQL token", "kfgrammar/kuneiform_lexer.go")], observe=["JSON of the parse result"])
prop("C05", "Compiled extensions are exactly those of the source",
 "For every valid program, the compiled extensions are exactly the use directives of the source, in order, each with its extension name, its alias and exactly its settings in the written order. Each setting keeps its key and its literal value unchanged. The same extension may be used several times under different aliases without any mixing of settings.",
 ["programs"], "all valid programs: any number of directives and settings, equal extension names under different aliases, hostile names and values",
 EX + "extensions appear with at most a few settings, once.",
 [V, S], [("extension visitors", V)], observe=["JSON of the parse result"])
prop("C06", "Annotations are kept exactly and can be read back",
 "For every valid program, each compiled action has exactly the annotations written before it, in order, each as the canonical text target(name=value,...) with values unchanged. Reading such a text back with the exported annotation reader gives exactly the target, attribute names and values of the source, in order, for every string content the language allows. Annotations never move to another action.",
 ["programs", "inputs"], "all valid programs and all annotation literals, including quotes, escapes, parentheses, commas and equals signs inside strings, and many annotations on many actions",
 "The annotation reader is tested on nine plain strings and the compiler on a few annotations; which characters inside a string confuse writer or reader cannot be sampled by hand.",
 [V, "utils/annotation.go"], [("annotation visitor", V), ("annotation reader", "utils/annotation.go")], observe=["JSON of the parse result", "result of the annotation reader"])
prop("C07", "An init block becomes exactly one private last init action",
 "For every valid program with an init block, wherever it stands among the declarations, the compiled schema has exactly one additional action, named init, last, private, updating, with no parameters, annotations or owner mark, and with exactly the statements of the block. A program without an init block gets none. More than one init block is rejected.",
 ["programs"], "all valid programs, all positions of the block, with and without other actions and tables; all programs with several blocks",
 EX + "init is tried alone and at one position.",
 [V, S, T], [("source unit and init visitors", V)], observe=["JSON of the parse result"])
prop("C08", "Texts outside the language are rejected as syntax errors",
 "A text that the grammar does not derive is never accepted, and is reported as a syntax error. This includes text before, between and after otherwise complete declarations, missing or doubled separators and brackets, unclosed strings and comments, characters that belong to no token, and keywords, signs or clauses in the wrong place. No part of such a text is silently skipped or repaired into a schema.",
 ["inputs"], "all texts outside the language: every small edit of every program, truncations, and arbitrary bytes",
 "A few malformed programs are tested; the generated parser recovers from errors by itself, so only the wiring of its error reports keeps a repaired program from being accepted, for each of unboundedly many inputs.",
 [PA, "kfgrammar/kuneiform_lexer.go", G, "utils/error_listener.go"], [("error listener wired to lexer and parser", PA), ("check between parsing and visiting", PA), ("end of file in the start rule", G)], observe=["error of the parse"])
prop("C09", "Every valid program is accepted, without hidden limits",
 "Every text of the documented language that satisfies its semantic rules compiles without an error and keeps all its declarations. This holds for any names (including ones that look like keywords with other letters around them), any literals, any layout and any declaration order, and for forward, self and mutual references. It holds for any number of declarations and any length of names, literals, lists and statements.",
 ["programs"], "all valid programs, from empty ones to thousands of declarations and megabytes of text",
 EX + "all small and in one style.",
 [PA, V, G, VA], [("grammar", G), ("validator", VA)], observe=["error of the parse", "JSON of the parse result"])
prop("C10", "Names that must be unique are unique",
 "A program is rejected if two tables, two actions (counting init), two extension aliases, two columns of a table, two indexes of a table or two parameters of an action have the same name, wherever the two stand. A schema built by hand with such a clash is rejected by validation in the same way. Equal names in different scopes, and names that differ only in letter case or by a prefix, are not clashes.",
 ["programs", "inputs"], "all programs and hand-built schemas: every kind of clash at every pair of positions, and near-clashes that are legal",
 "One example per kind is tested, with adjacent duplicates in small programs.",
 [VA], [("per-scope tables of seen names", VA)], state=[("seen names", "tables, columns, indexes, actions, parameters and aliases met so far", VA)], observe=["error of the parse", "error of validating a schema"])
prop("C11", "Indexes and foreign keys refer only to what exists",
 "A program is accepted only if every column of every index is a column of the same table, every child column of a foreign key is a column of the same table, its parent table exists (declared before or after) and every parent column is a column of that parent. The rule holds for every position in every list and for hand-built schemas. A reference that satisfies it is never refused.",
 ["programs", "inputs"], "all programs and hand-built schemas: a dangling reference at any position of any list of any index or foreign key of any table, and all legal reference graphs",
 "Each kind is tested once, in a table with one such list; a check that looks only at first entries, only at earlier tables or at another table's names passes.",
 [VA], [("column and table lookups", VA)], observe=["error of the parse", "error of validating a schema"])
prop("C12", "Calls refer only to declared actions, extensions and variables in scope",
 "A program is accepted only if every called action is declared (anywhere), every called extension alias is declared, and every variable anywhere inside the arguments of a call, at any depth, is a parameter of the same action or a receiver of an earlier extension call in the same body; the only block variable is the caller. One call may not receive the same variable twice. Variables of other actions or of later statements are not in scope, and a legal reference is never refused.",
 ["programs", "inputs"], "all programs and hand-built schemas: undeclared targets and variables at every position and depth of any call of any action or init, later receivers, other actions' parameters",
 "Tested with single calls and top-level arguments only.",
 [VA], [("argument walk with scope", VA)], state=[("scope", "parameters and receivers known so far in an action", VA)], observe=["error of the parse", "error of validating a schema"])
prop("C13", "Conflicting or repeated attributes, modifiers and triggers are rejected",
 "A program is rejected if a column repeats an attribute, an integer column has a length bound, a text column has a value bound, a foreign key has two triggers for the same event, or an action repeats or contradicts its visibility, mutability or owner words. This holds for every attribute, every position and every order, and, where a schema can express the fault, for hand-built schemas. Every legal combination is accepted.",
 ["programs", "inputs"], "all programs: every attribute and modifier sequence and every trigger pair; hand-built schemas for column and foreign key faults",
 "A few combinations are tested, mostly adjacent and in one order.",
 [VA, V], [("seen-attribute and type checks", VA), ("modifier counting", V)], observe=["error of the parse", "error of validating a schema"])
prop("C14", "Statements with invalid SQL never get into a schema",
 "A program is accepted only if every SQL statement of every action and of init is valid SQL of the supported dialect; one invalid statement anywhere, also after valid ones, makes it be rejected. The same holds for hand-built schemas. Valid SQL statements of every kind are accepted.",
 ["programs", "inputs"], "all programs and hand-built schemas: invalid statements of many kinds at every position of every body; valid select, insert, update, delete and with statements",
 "Two or three invalid statements are tested, each alone in the only action.",
 [VA, "kfgrammar/kuneiform_lexer.go"], [("SQL parsing and formatting of every statement", VA)], observe=["error of the parse", "error of validating a schema"])
prop("C15", "Layout and spelling variants do not change the outcome",
 "Changing only the white space, line ends and comments between the tokens of a text changes neither whether it is accepted, nor the kind of error, nor the schema. Neither do the alternative spellings of the language (long and short foreign key and reference words, the optional word before a reaction, a trailing comma) nor the interleaving of tables, actions and the init block while each kind keeps its order. Comments never contribute to the schema.",
 ["inputs"], "all texts, valid or not, and all re-layouts and re-spellings of them",
 "Metamorphic over pairs of texts; the tests have single texts in one layout.",
 ["kfgrammar/kuneiform_lexer.go", V, G], [("hidden channel tokens", "kfgrammar/kuneiform_lexer.go"), ("re-spelling of calls and annotations", V)], observe=["JSON and error of two parses"])
prop("C16", "Compilation is a function of the text, and results are independent",
 "Compiling a text gives the same schema, byte for byte, and the same error message whenever and wherever it is done: again, after any other texts, after failures, in another process, environment or directory, and after a caller has changed earlier results. No two results share state, a result does not change after it was returned, and validating or serialising a schema does not change it. Nothing accumulates: goroutines and memory do not grow with the number of compilations.",
 ["histories"], "all sequences of compilations of all texts, with changes to results in between",
 "Each test compiles one text and looks at it once; state kept between compilations shows only in histories.",
 [PA, V, VA, S], [("fresh lexer, parser, visitor and validator per call", PA)], state=[("parser caches", "shared prediction caches and static data", G)], observe=["JSON and error of every parse", "earlier results", "goroutine count and heap"])
prop("C17", "Concurrent use is race-free and equals sequential use",
 "Any number of goroutines may compile texts, validate and serialise shared results, look keywords up and read annotations at the same time, also when these are the first uses in the process, without a data race, deadlock or crash. Each gets exactly what it would get alone. A goroutine may change its own result while others go on.",
 ["schedules"], "all schedules of concurrent uses, cold and warm, over all texts",
 "No test uses two goroutines.",
 [PA, G, V, VA, S, "utils/annotation.go"], [("no shared mutable state outside the parser runtime's guarded caches", PA), ("one-time initialisation of static parser data", G)],
 state=[("static data", "deserialised automata and prediction caches", G)], observe=["race detector reports", "outcomes of all goroutines", "phases of every compilation"], hook="an optional callback at the phases of a compilation, to inject delays and to record interleavings")
prop("C18", "The JSON artifact is a lossless, stable encoding of the schema",
 "The JSON of every accepted program decodes, strictly and without unknown or missing fields, to a schema equal to the compiled one, encodes again to the same bytes, and passes validation. It uses the documented field names and the documented words for types, attributes, index kinds, events, reactions, mutability and owner, with all consumer-required fields present even when empty or false; optional lists (tables, actions, extensions, indexes, foreign keys, attributes, annotations) are left out when they are empty, and so is the value of an attribute that has none. Encoding any part alone gives what the whole contains.",
 ["programs"], "all accepted programs, all parts",
 "A few fixed JSON texts are compared; a field dropped when empty, or a word changed for one kind, shows only on programs that have it.",
 [S, T], [("JSON tags and marshalling", S), ("constants", T)], observe=["JSON of the result and of its parts", "decoded schema"])
prop("C19", "The command writes exactly the artifact and reports by exit code",
 "Over any history of runs, compiling an input file with the command leaves in the output directory (created if needed, by default build) a file named after the input with its extension replaced by json that holds exactly the artifact of the current input, whatever was there before, and exits with 0. A missing input argument or several, an unreadable input and an invalid program end with their own distinct non-zero exit codes and a message (for an invalid program, the diagnostic), and leave earlier artifacts as they were. Version, help and trace options work as documented, trace changes only what is printed, and no other file is ever touched.",
 ["histories", "configurations"], "all histories of edits and runs in a directory, all spellings of the options, all input names and paths, several runs at once",
 "The command has no tests.",
 ["cmd/root.go", "main.go"], [("run function and exit codes", "cmd/root.go"), ("open flags", "cmd/root.go")], state=[("output directory", "artifacts of earlier runs", "cmd/root.go")], observe=["exit code, output, all files of the directory"])
prop("C20", "No I/O fault is reported as success, and none does other damage",
 "Whatever reading, creating, writing or closing goes wrong, and whenever the process is killed, the command exits with 0 only if the complete artifact is in place. Failures to make the output directory, to read the input and to write the output end with their own distinct exit codes and a message. No file but the artifact is changed, and the next run without the fault succeeds.",
 ["fault_sequences", "crash_points"], "every system call on input, output directory and output failing or being the last, and environment faults: full devices, permissions, limits, loops, closed streams, signals",
 "The command has no tests, and faults do not occur in them.",
 ["cmd/root.go"], [("checked errors of every file operation", "cmd/root.go")], observe=["exit code, output, all files of the directory", "system calls"])
prop("C21", "The browser build behaves as the native compiler",
 "For every text, the function exported to JavaScript returns the native compiler's JSON, byte for byte, and no error, or the native error message and empty JSON. This holds for every call of a long sequence in one instance, also after failures and misuse. A wrong number of arguments gets the documented message and leaves the instance working.",
 ["inputs", "histories"], "all sequences of calls with all texts in one instance",
 "The browser build is only compiled, never run, by the tests.",
 ["wasm/wasm.go", PA], [("wrapper function", "wasm/wasm.go")], observe=["return values under node"])
prop("C22", "No input crashes, hangs or confuses the compiler",
 "For every byte sequence, the compiler returns, without an escaping panic, process death, unbounded time or an internal failure in place of a diagnostic. It returns either no error and a schema that serialises to a JSON object, or an error with a message. The annotation reader likewise never panics on any string; all this includes invalid UTF-8, control characters and deep or long constructs.",
 ["inputs"], "all byte sequences",
 "Tests use well-formed text and a few plain errors.",
 [PA, V, "utils/annotation.go"], [("recovery of panics", PA), ("annotation reader's checks", "utils/annotation.go")], observe=["result, error, panics, process exit"])
prop("C23", "Diagnostics are right: place, kind and name",
 "For a text outside the language, the earliest reported position is the line and column of the first token or character after which no program can continue, and every message of a syntax error has its position. For a semantic fault, the error is of the exported kind of a fault that the program really has, of exactly one kind, and its message has the name at fault. The kind can be tested with the standard error matching on the returned error.",
 ["inputs", "programs"], "all texts outside the language and all programs with one or more semantic faults, in any layout",
 "Tests compare a few error kinds, no positions on several lines, and no names.",
 ["utils/error_listener.go", VA, "schema/errors.go", PA], [("position formatting", "utils/error_listener.go"), ("wrapped exported errors", VA)], observe=["returned error", "listener's diagnostics"])
prop("C24", "Tracing does not change the outcome, and nothing prints unasked",
 "For every text, trace mode gives the same schema and the same error as the default mode. The default mode writes nothing to the standard streams. Trace mode writes a trace.",
 ["inputs", "configurations"], "all texts, both modes",
 "Tests never compare the modes.",
 [PA, V, "utils/error_listener.go"], [("mode checks around prints", V)], observe=["captured standard streams", "outcomes"])
prop("C25", "Keyword lookups are total, case-insensitive and agree with the compiler",
 "The exported lookups of column types, attributes and index kinds know exactly the keywords of the language, in any letter case, and give for each the same word that the compiler puts into a schema. Every other string is an error and gives an empty value.",
 ["inputs"], "all strings; all keywords in all letter cases",
 "Not tested beyond a few values.",
 [T], [("lookup tables", T)], observe=["lookup results", "JSON of the parse result"])
prop("C26", "Only the structure of names and declarations matters",
 "Renaming all names of a program consistently to other legal names changes neither whether it is accepted nor the kind of error, and changes the schema by exactly that renaming. Declaring tables, actions or extensions in another order changes neither whether it is accepted nor the schema beyond that order. No name has a special meaning beyond the keywords, init and the caller variable.",
 ["programs"], "all programs, valid or with semantic faults, all renamings and permutations",
 "Metamorphic over pairs of programs; the tests have single programs.",
 [V, VA], [("visitors and validator treat names as opaque", VA)], observe=["outcomes of pairs of programs"])
prop("C27", "A caller's error listener gets exactly the diagnostics",
 "Compiling with a listener of the caller's gives the same outcome as without one. If the text is rejected, the listener afterwards holds every diagnostic once, the returned error says the first of them and how many there are, and is of its kind; if it is accepted, the listener is empty. Diagnostics of the syntax and of the semantic stage are not mixed.",
 ["inputs"], "all texts",
 "Tests never pass a listener and look at it.",
 ["utils/error_listener.go", PA], [("listener", "utils/error_listener.go"), ("adding the error of later stages", PA)], observe=["listener's list", "returned error"])

prop("C28", "Any schema value can be validated and serialised, by the rules",
 "Validating any schema value, however it was made (any strings; nil, empty or missing lists), and any part of it alone, gives an error or none, without panic, output or change of the value; with a new validator, the answer is the same each time and does not depend on whether a list is nil or empty. A part that breaks none of its own rules is accepted alone, one with repeated names or forbidden attributes is refused. A part that is asked to accept a caller's own validator calls exactly the method of its kind, once, with itself, and returns what that says. A schema of valid UTF-8 serialises to JSON that reads back equal.",
 ["programs", "inputs"], "all values of the exported schema types, not only those that come from a text",
 "Tests only validate schemas that the parser made, never a part alone, and never with another validator.",
 [VA, S], [("validator's methods", VA), ("Accept and ToJSON of each part", S)], observe=["verdicts, panics, calls seen by a caller's validator, JSON"])
prop("C29", "The exported stages agree with each other, with the text and the compiler",
 "Running the exported lexer, parser, visitor and validator by hand gives the outcome of the compiler, also when one visitor serves several texts. The subtree of a part of an accepted text visited alone, and the text of a declaration, column, index, key or annotation given alone to the parser's rule for it, give that part of the schema. The tokens lie in the text in order and without overlap; each has exactly the text, line, column and offsets of its place, and the type of its word; between them is only white space, comments or what was reported. The parse tree of an accepted text has each token exactly once, in order.",
 ["inputs", "histories"], "all texts, and all sequences of texts given to one visitor",
 "Tests only call the compiler as a whole and look at the schema.",
 ["kfgrammar/kuneiform_lexer.go", "kfgrammar/kuneiform_parser.go", V], [("lexer and parser", "kfgrammar/kuneiform_lexer.go"), ("visitor's state", V)], observe=["tokens, parse tree, outcome of the stages run by hand"])
prop("C30", "Error lists and listeners keep every error and stand for the first",
 "After any sequence of additions and reports, an error list holds exactly the added errors in the order of addition. It is an error just when it is not empty; then its message is that of the first error, with how many there are besides if there are more, and it matches (errors.Is, errors.As) what the first error matches. A syntax error given to a listener is added once, of the syntax error kind, with its line, column and message unchanged; reports of ambiguity add nothing. Lists do not influence each other, and the zero value works.",
 ["histories"], "all sequences of calls on any number of lists and listeners",
 "Tests never use a listener directly.",
 ["utils/error_listener.go"], [("list and listener", "utils/error_listener.go")], observe=["list's contents, message, unwrapping after each call"])

prop("C31", "Reading an annotation is total, exact and stable",
 "For any string, the annotation reader gives exactly one of a result and an error with a message, and never panics. A text without an opening bracket, or that does not end with a closing one, is an error. An annotation target(name=value, ...), with any white space around names, values, equals signs and commas, reads as exactly its target and its attributes, in order, each with its name and its literal unchanged (strings keep quotes and escapes). Of any other text, a result says only what stands in the text, in that order, with literals as values, and written again it reads the same. A result serialises with its target and its attributes, and is independent of every other: changing it changes no later reading.",
 ["inputs"], "all strings: any number and length of attributes, any literals (escaped quotes, brackets, line breaks, text that looks like attributes), any white space, and any malformed text",
 "The tests read ten or so short annotations.",
 ["utils/annotation.go"], [("annotation reader", "utils/annotation.go")], observe=["result, error and JSON of every reading"])

prop("C32", "A parse tree gives exactly what it holds and dispatches by rule",
 "For every text, accepted or not, every node of the tree the exported parser builds is of the type of its grammar rule and gives through its accessors exactly its children: the accessor of a rule or token gives the first such child or none, the list accessor all of them in order, the accessor by place the one at that place or none, the same each time, whatever a caller does to a list. A node's text is that of its tokens in order, and in accepted texts it begins and ends with the first and last of them and has an accessor for everything in it. Accepting a visitor calls exactly the method of the node's rule, once, with the node, and returns what that returns. Lexer and parser agree on the names of tokens, and ones that were given another text do as new ones do.",
 ["inputs"], "all texts, valid, faulty or random; all nodes, accessors and places; visitors of the grammar and of none",
 "Tests never look at the tree; the compiler itself uses a small part of the generated accessors.",
 ["kfgrammar/kuneiform_parser.go", "kfgrammar/kuneiformparser_base_visitor.go", "kfgrammar/kuneiformparser_visitor.go", "kfgrammar/kuneiform_lexer.go"], [("contexts, accessors and Accept", G)], observe=["answers of accessors, calls of a recording visitor, diagnostics and tree of reused stages"])

prop("C33", "Declarations compile independently of each other",
 "In an accepted program, any of the declarations together with all that they refer to (tables by foreign keys, actions and extensions by calls) are an accepted program by themselves, and compile to exactly the same parts of the schema. The declarations of two accepted programs, without a common name of a table, action or extension and with at most one init, are accepted together, in any order, and each compiles to the same part as alone. Declarations with a semantic fault are refused with the same kind of error among any other declarations that are not at fault.",
 ["programs"], "all accepted programs, all choices of their declarations, all pairs of programs; programs with one semantic fault",
 "Metamorphic over programs and parts of them; the tests have single programs.",
 [V, VA], [("a visit of a declaration must not depend on the earlier ones", V), ("validator's name tables", VA)], observe=["outcomes and schema parts of programs, of their parts and of their unions"])

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p, sch)
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
