#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that the two stay in step.

A property is claimed when its check vlib/checks/<id>.py exists."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The six stable tests tokenize a few fixed lines and match a few fixed inputs of small fixed grammars. "


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note)


N = "nessaid_cli/"
PROPS = [
    P("C01", "Command lines split into the same tokens the lexical rules define",
      "Every command line either splits into exactly the words and quoted strings the lexical rules define (blanks separate, a quoted string "
      "may hold blanks and escape sequences, an unterminated quote runs to the end of the line) or is reported as invalid; nothing is lost, merged, "
      "reordered or altered. Each token carries its exact text and its position in the line, whatever lines were split before.",
      ["inputs", "histories"], "all character sequences, as single lines and as sequences of lines given to one tokenizer",
      TESTS + "Tokenizing is a function of every character sequence, including half-typed quotes, escapes at the end and tokens glued together.",
      [N + "tokenizer/tokenizer.py", N + "lex_yacc_common.py", N + "cli.py"],
      [("line lexer and parser", N + "tokenizer/tokenizer.py"), ("line tokenizing of the command loop", N + "cli.py tokenize")],
      "property-based testing (hypothesis) against a reference scanner",
      "Generated lines (structured and arbitrary) compared token by token with an independent reference scanner; trusts the scanner."),
    P("C02", "Quoted text reaches the program as exactly the string it stands for",
      "Writing any string in the quoted command-line notation and reading it back gives the same string, and each escape sequence stands for one fixed "
      "character wherever it appears. A string typed in quotes reaches an action as the text between the quotes with its escape sequences replaced "
      "exactly once, and is not affected by values converted earlier.",
      ["inputs", "histories"], "all strings over the full character set, in any order of conversion on one interface",
      TESTS + "No test covers escapes; the round trip is over all strings, and a shared conversion cache makes the result depend on history.",
      [N + "utils.py", N + "tokens.py", N + "interface.py"],
      [("conversion both ways", N + "utils.py"), ("conversion of action arguments", N + "interface.py evaluate")],
      "property-based testing (hypothesis): round trip and reference unescape",
      "Round-trip and differential search over generated strings, conversion histories and every way a string of a grammar or a line can take to a handler."),
    P("C03", "Integer and decimal range tokens accept and suggest exactly their range",
      "An integer range token accepts a number exactly when it lies between the two bounds (inclusive, whichever way round they are written) and hands it on "
      "as that integer; its completions for typed leading characters are exactly the numbers of the range that start with them, or only the help text when there "
      "are more than the suggestion limit. A decimal range token accepts exactly the numbers within its bounds and hands them on as that number.",
      ["inputs", "configurations"], "all bounds and suggestion limits, and all typed texts",
      TESTS + "The completion of integers works digit length by digit length, so errors sit at particular bounds and prefixes.",
      [N + "tokens.py"], [("integer range", N + "tokens.py RangedIntToken"), ("decimal range", N + "tokens.py RangedDecimalToken")],
      "property-based testing (hypothesis) against brute-force enumeration of the range",
      "Ranges up to a few thousand wide and inputs in and around them, against enumeration; non-canonical numerals (leading zeros, plus signs) are only checked for consistency."),
    P("C04", "Text tokens accept and complete exactly their texts",
      "A keyword is accepted when typed in full or abbreviated to any non-empty prefix and always hands on the full keyword; a choice among fixed strings accepts any "
      "option in full and any prefix of exactly one option, and hands on that option. A free string hands on what was typed without its quotes, a length-limited string "
      "accepts exactly the lengths allowed, and a boolean accepts any prefix of true or false in any letter case and hands on the truth value.",
      ["inputs", "configurations"], "all option lists, lengths and typed texts",
      TESTS + "Acceptance is a relation between every option list and every typed text, quoted or not.",
      [N + "tokens.py", N + "interface.py"], [("token classes", N + "tokens.py"), ("matching of one token", N + "interface.py match")],
      "property-based testing (hypothesis) against a reference model of each token class",
      "Generated option lists, bounds and inputs, directly and through a grammar, against a reference model."),
    P("C05", "Path tokens complete to and accept what exists in the file system",
      "For a quoted path typed in part, the suggestions are exactly the existing entries of the typed folder whose names continue what was typed. A path closed in quotes is accepted "
      "exactly when it names something that exists, and is handed on as typed without its quotes; one with the wildcards *, ? and [..] that exactly one entry fits is handed on as that entry's path. The answers follow the file system as it is at the time of asking, not as it was before.",
      ["inputs", "histories"], "all directory trees, typed path prefixes, and file changes between questions",
      TESTS + "Nothing tests path tokens; the answer depends on the tree, the prefix and earlier queries.",
      [N + "tokens.py", N + "interface.py"], [("path lookup and completion", N + "tokens.py PathToken")],
      "property-based testing (hypothesis) of generated directory trees in a scratch folder against a reference listing",
      "Generated small trees in scratch folders and every kind of prefix; POSIX separators only."),
    P("C06", "A command is accepted exactly when its tokens form a sentence of the grammar",
      "For any grammar built from sequences, alternatives, optional parts, sets in any order, repetitions and references to other grammars, a completed line succeeds when and only when "
      "its tokens spell out one of the sequences the grammar describes. A line that is a proper beginning of such a sequence is reported as incomplete, anything else as a failure, naming the first offending token.",
      ["programs", "inputs"], "all grammars over the documented operators (nesting included) and all token sequences",
      TESTS + "The matcher is an interpreter: its correctness is over every nesting of operators, not the handful of shapes in the tests.",
      [N + "compiler.py", N + "elements.py", N + "interface.py"],
      [("grammar compilation", N + "compiler.py"), ("walk over the grammar tree", N + "elements.py"), ("matching", N + "interface.py match")],
      "property-based testing (hypothesis): random grammars and inputs against a derivative-based reference recognizer",
      "Random grammars (depth up to 4) and inputs near their language, against an independent recognizer; bodies that may be empty are not repeated by a range."),
    P("C07", "Suggestions are exactly the tokens that can come next",
      "After any sequence of tokens that begins a valid command, the suggestions are exactly the tokens with which some valid command continues, each with its help text, and the end of the command is offered exactly when the "
      "tokens typed so far already are a command. Suggestions for a partly typed token are exactly those next tokens whose text starts with what was typed; after a sequence that begins no valid command there are none.",
      ["programs", "inputs"], "all grammars and all command beginnings, at a token boundary and inside a token",
      TESTS + "No test looks at suggestions; they must be right at every point of every grammar.",
      [N + "elements.py", N + "interface.py"], [("follow sets", N + "elements.py next/first"), ("suggestion list", N + "interface.py set_next_tokens")],
      "property-based testing (hypothesis): suggestions compared with the next-token sets of a reference recognizer",
      "Same grammar generator and recognizer as C06; every prefix of every generated sentence is asked."),
    P("C08", "Abbreviations and ambiguity resolve by fixed rules",
      "A token may be abbreviated whenever only one reading of the whole line remains; an exactly typed keyword takes precedence over longer keywords it begins and over free text. "
      "When more than one reading remains the line is reported as ambiguous and none of them is executed; the outcome never depends on the order in which alternatives are written.",
      ["programs", "inputs"], "all grammars with keywords that begin one another or overlap with free text, and all abbreviations",
      TESTS + "The tests type every keyword in full.",
      [N + "interface.py", N + "tokens.py"], [("choice between readings", N + "interface.py fix_sequences"), ("keyword matching", N + "tokens.py")],
      "property-based testing (hypothesis) against a reference resolution of all readings, and a metamorphic reordering of alternatives",
      "Random alternatives of sequences over keywords sharing prefixes and typed-value tokens, against an enumerating reference."),
    P("C09", "Actions run in reading order with the values that were matched",
      "When a command succeeds, exactly the actions attached to the parts of the grammar that were matched run, each once per time its part was matched, in the order of the input: actions before a part before it, "
      "actions after a part after it. Inside an action each numbered variable is the value matched at that place of the enclosing sequence: the typed value for a single token, a list of values for a larger part.",
      ["programs", "inputs"], "all grammars with actions at every place, and all commands they accept",
      TESTS + "Only one grammar with actions is exercised; order and values depend on nesting, repetition and which optional parts were typed.",
      [N + "interface.py", N + "compiler.py"], [("replaying the match", N + "interface.py execute_success_sequence, ExecContext"), ("attaching actions", N + "compiler.py")],
      "property-based testing (hypothesis): recorded action traces against a reference interpreter",
      "Random unambiguous grammars decorated with recording actions; traces compared with a reference interpreter of the derivation."),
    P("C10", "Variables and parameters pass between grammars as written",
      "A grammar called with arguments receives them by position, by name or by default value, and assignments it makes to its parameters are seen by the caller's variables when it was given variables, and by nobody else. "
      "Local variables of one use of a grammar never leak into another use and are not lost when an action enters a further line; wrong argument lists are rejected.",
      ["programs", "histories"], "all call structures between grammars, argument lists and assignments",
      TESTS + "One fixed call is tested; the binding rules quantify over all argument lists and call chains.",
      [N + "elements.py", N + "interface.py", N + "binding_parser/binding_objects.py"],
      [("argument mapping", N + "elements.py map_grammar_arguments"), ("variables by reference", N + "binding_parser/binding_objects.py"), ("entering a grammar", N + "interface.py ExecContext")],
      "property-based testing (hypothesis): generated call graphs against a reference interpreter of variables",
      "Random chains of grammars with parameters, defaults, keyword arguments and assignments, against a reference environment model."),
    P("C11", "The action language computes what it says",
      "Literals, variables, nested calls and assignments in an action have their written values, statements run in the order written, and the built-in functions (list, dict, set, append, update, add, inc, dec, print) do what the documentation "
      "says for every argument. Calls to the application get exactly the evaluated arguments and their results are usable as values; a call that raises is reported on the error stream and the rest of the actions still run.",
      ["programs", "inputs"], "all action programs over the documented statements, functions and literals",
      TESTS + "Only list, append and print appear in tests, with fixed arguments.",
      [N + "interface.py", N + "binding_parser/binding_text_parser.py"],
      [("built-in functions", N + "interface.py resolve_local_function_call"), ("evaluation", N + "interface.py ExecContext"), ("action parser", N + "binding_parser/binding_text_parser.py")],
      "property-based testing (hypothesis): random action programs against a reference evaluator",
      "Random statement lists with nested expressions, compared with a Python evaluator of the documented semantics."),
    P("C12", "Only accepted commands have effects",
      "Asking for suggestions or completions never runs an action, and neither does a line that fails, is incomplete or is ambiguous; an accepted command runs its actions exactly once. "
      "Asking for suggestions for the same text any number of times gives the same answer each time and does not change what executing the line does.",
      ["programs", "inputs", "histories"], "all grammars with actions, all texts, and all interleavings of suggestion requests with executions",
      TESTS + "No test asks for suggestions, and none observes that failed input has no effect.",
      [N + "interface.py", N + "cli.py"], [("dry run", N + "interface.py match"), ("completion", N + "cli.py complete")],
      "property-based testing (hypothesis): random histories of suggestion requests and executions with every action recorded",
      "Recorded calls and variables over generated histories; suggestion requests both through matching and through the TAB handler."),
    P("C13", "What a line does never depends on the lines before it",
      "On one interface, the result, error, matched values, suggestions and action calls for a line are the same after any history of other lines, suggestion requests, failures, interrupted commands and cache turnover as on a fresh interface. "
      "Values built by the actions of one line are never shared with a later one.",
      ["histories", "programs"], "all grammars, histories and cache sizes",
      TESTS + "Each test matches on an interface with a short fixed history; caches and the parse tree are shared between lines.",
      [N + "interface.py", N + "elements.py", N + "utils.py"],
      [("value and string caches", N + "interface.py"), ("reused walk tree", N + "elements.py TreeNode"), ("state reset after an action run", N + "interface.py ExecContext.exit")],
      "stateful property-based testing (hypothesis): the same line after a random history versus on a fresh interface",
      "Random histories on one interface, each step compared with a fresh interface of the same grammar; cache sizes 0 to 128."),
    P("C14", "Rewriting a grammar without changing its meaning changes nothing",
      "Adding blanks, line breaks and comments to a grammar, adding parentheses around a part, splitting or merging token definitions, moving a part into a named grammar of its own, or writing a repetition out leaves every result and suggestion unchanged. "
      "Layout rewrites leave the executed actions unchanged too.",
      ["programs", "inputs"], "all grammars, all meaning-preserving rewrites, and all inputs",
      TESTS + "Every tested grammar is written in one layout.",
      [N + "compiler.py", N + "lex_yacc_common.py", N + "elements.py"], [("grammar parser", N + "compiler.py"), ("comments and layout", N + "lex_yacc_common.py")],
      "metamorphic property-based testing (hypothesis)",
      "Random grammars under random rewrites; results, next tokens and action traces of both versions are compared on generated inputs."),
    P("C15", "Faulty grammar definitions are rejected, and never corrupt later ones",
      "Defining a name twice (as token, as grammar, or as both), repeating a parameter, calling a grammar with arguments it cannot take, or repeating something zero times is rejected with an error when the grammar is compiled, as is text that is not a grammar; compiling always ends and never hangs. "
      "A rejected grammar leaves nothing behind: the next grammar compiled behaves as if it were the first.",
      ["programs", "histories"], "all grammar texts, well-formed or mutated, in any order of compilation",
      TESTS + "One duplicate-definition path is touched; malformed text is not.",
      [N + "compiler.py", N + "elements.py", N + "lex_yacc_common.py"], [("definition tables", N + "elements.py GrammarSpecification"), ("parser errors", N + "lex_yacc_common.py")],
      "property-based testing and mutation fuzzing (hypothesis) of grammar texts",
      "Planted definition errors of each kind in generated grammars, and token-level mutation of valid texts, with differential recompilation of a valid grammar afterwards."),
    P("C16", "Each command runs exactly its own handler with its own arguments",
      "In a command class, entering a line runs exactly the one handler whose documented syntax the line matches, with each parameter holding the value its grammar assigned for this line, or the empty string where the line assigned none; the exit code is 0. "
      "A line no handler's syntax matches runs none and yields a non-zero exit code, and hooks without a syntax or with other prefixes are never run.",
      ["programs", "inputs", "configurations"], "all sets of handlers with their syntaxes, class hierarchies, options and lines",
      TESTS + "Command classes are not tested at all.",
      [N + "cmd.py", N + "cli.py", N + "interface.py"], [("grammar generated from handlers", N + "cmd.py __init__"), ("single-line execution", N + "cmd.py exec_line, cli.py exec_line")],
      "property-based testing (hypothesis): generated command classes against a reference dispatcher",
      "Random command classes built from a set of syntax shapes, with inheritance, prefixes and built-in hooks on or off; every call is recorded and compared with a reference dispatcher."),
    P("C17", "Arguments from the operating system arrive whole",
      "Executing a list of arguments gives the same result as typing them on one line, each argument being one token: an argument containing blanks, quotes or other special characters is not split and arrives with all of them intact. "
      "The exit code is 0 when the command was accepted and not 0 otherwise.",
      ["inputs", "programs"], "all lists of arguments that are not blank and not written in quotes already, and all command syntaxes",
      TESTS + "Argument execution is not tested.",
      [N + "cmd.py", N + "cli.py"], [("argument quoting", N + "cmd.py exec_args"), ("argument joining", N + "cli.py exec_args")],
      "property-based testing (hypothesis): arguments in, recorded handler arguments out",
      "Generated argument lists executed on commands that take any number of strings, compared with the arguments themselves and with the equivalent typed line."),
    P("C18", "The command loop runs every line of a script once and in order",
      "Lines of a command file are executed one by one, in order, each exactly once, before input is read from the terminal; a line ending in a backslash continues on the next one, lines starting with # and empty lines do nothing, and a prompt made by a command takes the next line as its answer. "
      "A failing line or a handler that raises is reported on the error stream and never stops or alters the lines after it; a file executed from within a file runs completely before the rest of the outer one.",
      ["histories", "fault_sequences", "inputs"], "all command files, nestings of files, and commands that fail or raise",
      TESTS + "The command loop is not run by any test.",
      [N + "cli.py", N + "cmd.py"], [("command loop", N + "cli.py cmdloop"), ("pending file lines", N + "cli.py file_line, add_file_to_execute"), ("prompts", N + "cli.py input")],
      "stateful property-based testing (hypothesis): generated scripts against a reference loop",
      "Generated scripts of every line kind, also nested and typed at the terminal, run through the real loop and compared with a reference model of it."),
    P("C19", "Nested contexts nest",
      "A command that opens a context hands the following lines to that context until it exits, after which the outer context continues with the next line; each context's exit hook runs once per exit, innermost first. "
      "Where a context is set to fall back on its parent, a line with which none of its own commands begins but one of its parent's does closes it and is handed once to the parent; any other line it does not accept is reported as an error and the context stays open.",
      ["histories", "configurations"], "all sequences of lines over nested contexts up to any depth, with fallback on or off in each",
      TESTS + "Contexts are not tested.",
      [N + "cmd.py", N + "cli.py"], [("entering a context", N + "cmd.py enter_context, context_loop"), ("fallback to the parent", N + "cmd.py match"), ("context stack", N + "cli.py cmdloop")],
      "stateful property-based testing (hypothesis): line histories against a stack model",
      "Generated line histories over a tree of contexts, run through the real loop and compared with a stack machine."),
    P("C20", "The TAB key only ever completes what was typed",
      "Pressing TAB never changes characters already typed other than the letter case of values matched regardless of case, and only adds text that every valid continuation of the line shares; pressing it where several continuations exist lists exactly those. "
      "Completing a line with TAB and entering it does what entering the full text does.",
      ["inputs", "programs", "histories"], "all grammars, typed beginnings and sequences of TAB presses mixed with typing",
      TESTS + "No test presses TAB.",
      [N + "cli.py", N + "interface.py"], [("TAB handler", N + "cli.py complete"), ("common prefix of the suggestions", N + "interface.py ParsingResult")],
      "stateful property-based testing (hypothesis): key sequences through the real line editor",
      "Keys are fed to the real line editor; the edited buffer and the listed suggestions are compared with the reference recognizer."),
    P("C21", "An application's token classes decide what their tokens accept and hand on",
      "A token class supplied by the application is made with exactly the arguments its definition gives, by position and by name, and its answers alone decide which inputs the token accepts, which completions and help are shown "
      "and which value reaches the action, whether its methods are plain or coroutines. A class that says its answers must not be kept is asked again every time, and it can look at the values matched before it on the same line.",
      ["inputs", "configurations", "histories"], "all token classes, definitions, grammars over them and sequences of lines",
      TESTS + "No test defines a token class whose answers vary; the guarantee covers every answer such a class can give at every place of a grammar.",
      [N + "interface.py", N + "tokens.py", N + "elements.py"], [("making and asking tokens", N + "interface.py get_token, match_token"), ("base class", N + "tokens.py CliToken")],
      "property-based testing (hypothesis): token classes that answer from generated tables, against a reference recognizer over the same tables",
      "Generated tables, definitions and grammars; a raising method is part of the tables. Which class is asked how often is not judged."),
    P("C22", "A prompt gets exactly one answer, as it was given, and leaves no traces",
      "Asking for input from an action or a handler, in any context, gives the next line of the running command file, or the line typed at the terminal when there is none or the terminal is asked for, exactly as it is written; an interrupted "
      "or closed prompt gives the empty answer, and the command goes on. An answer to be hidden never appears on the screen. Answers are not completed, not remembered among the commands and not run as commands, and completion and history work afterwards as before.",
      ["inputs", "histories", "fault_sequences"], "all sequences of prompts and answers, typed with corrections or read from files, and every place of an interrupt or end of input",
      TESTS + "No test asks for input; which line a prompt gets depends on the whole history of files, contexts and prompts before it.",
      [N + "cli.py", N + "interface.py"], [("asking", N + "cli.py input"), ("input in actions", N + "interface.py execute_local_function"), ("completion while asking", N + "cli.py complete")],
      "stateful property-based testing (hypothesis) against a model of files, keyboard, screen and history",
      "Keys are fed to the real line editor and the screen output is interpreted; corrections of the editor package itself are trusted."),
    P("C23", "A command loop starts once, ends once and can be started again",
      "Starting a command loop calls the application's start hook, shows the introduction and calls the hook after it, once and in this order, and however the loop ends - told to exit, by a failing hook or cancelled - the exit hook is called exactly once. "
      "The loop is running from start to end and not after it, and starting it while it runs is refused without disturbing it; afterwards it can be started again as if it were new. Interrupts and ends of input at the prompt reach the application's handlers, once each, and the loop ends only if told to.",
      ["histories", "fault_sequences", "schedules"], "all sequences of lines, interrupts, failing hooks and handlers, nested contexts and restarts, in a running event loop or not",
      TESTS + "No test starts a command loop.",
      [N + "cli.py", N + "cmd.py"], [("loop", N + "cli.py cmdloop"), ("starting it", N + "cli.py run, cmd.py run"), ("nested contexts", N + "cmd.py context_loop")],
      "stateful property-based testing (hypothesis): lives of loops against a model, on an event loop with a simulated clock",
      "Hooks, handlers, screen and running state are compared with a model; real signals are not sent."),
    P("C24", "An interface works by the grammar entered last",
      "Lines and suggestion requests are answered by the grammar entered last, exactly as on an interface that has entered only that one, whether the program or a command entered it; leaving it returns to the grammar before, whatever was tried, refused or interrupted meanwhile. "
      "A command that enters or leaves a grammar still runs the rest of its own actions, and the next line goes to the other grammar. Entering an unknown name is refused and changes nothing.",
      ["histories"], "all sequences of entering and leaving grammars of one set, from outside and from commands, with any lines in between",
      TESTS + "The tests enter one grammar once.",
      [N + "interface.py"], [("grammar stack", N + "interface.py enter_grammar, exit_grammar"), ("execution", N + "interface.py execute_success_sequence")],
      "stateful property-based testing (hypothesis), differential against an interface made for each line alone",
      "The single-grammar behaviour it is compared with is judged by C06 to C11."),
    P("C25", "Interfaces made from one grammar or class do not affect each other",
      "Any number of interfaces may be made from one compiled grammar, or of one command class, and work at the same time: each line, suggestion request and command on one of them does exactly what it would do if the others did not exist, "
      "however their handlers and token checks interleave and whatever grammars are compiled meanwhile.",
      ["histories", "schedules"], "all interleavings of lines, suggestion requests and interrupted commands of several interfaces",
      TESTS + "The tests use one interface at a time.",
      [N + "interface.py", N + "elements.py", N + "cli.py"], [("shared definitions", N + "elements.py GrammarWalkTree"), ("execution state", N + "interface.py ExecContext")],
      "schedule-controlled property-based testing (hypothesis): interleaved coroutines, differential against interfaces running alone",
      "Interleavings switch at calls of handlers and token classes, which are the only places where the code lets others run."),
    P("C26", "An interface talks only through its own streams, and complains on one",
      "Whatever an interface, the actions and handlers of its commands and the contexts entered from it put out or report goes to the output and error streams it was given, and nothing of it to those of the program or of another interface; "
      "one that was given none uses those of the program. What is printed, prompts, the introduction, echoed lines and suggestions go to the output; refused lines, failing handlers and functions, unusable files, tokens that fail or cannot be made "
      "and warnings go to the error stream, each time they occur, and a line that is accepted and does none of this puts nothing there.",
      ["inputs", "programs", "configurations"], "all sequences of lines, suggestion requests and contexts, on interfaces with and without streams of their own, one after another and at the same time",
      TESTS + "No test looks at where an interface writes.",
      [N + "cli.py", N + "cmd.py", N + "interface.py", N + "tokens.py", N + "utils.py"],
      [("streams", N + "utils.py StdStreamsHolder"), ("error reports", N + "cli.py process_cli_response"), ("contexts", N + "cmd.py enter_context")],
      "property-based testing (hypothesis): marked output against a model, differential between given and program-wide streams",
      "Output is recognised by marks the commands put into it and compared as a whole between runs; the streams of the program are replaced while a case runs."),
    P("C27", "Nothing that is typed breaks a session",
      "Whatever lines and keys are entered, in whatever order, including text that no grammar expects, unfinished quotes and any character, each line is answered by executing exactly one command or by a report without any effect (blank and comment lines by nothing), "
      "never by an internal failure, and the session goes on. "
      "A valid command entered afterwards does exactly what it would do in a new session, and so do suggestions at its every place.",
      ["inputs", "histories"], "all sequences of lines of any characters, and of keys the line editor knows, in the command loop, through exec_line and from command files",
      TESTS + "No test enters anything unexpected.",
      [N + "cli.py", N + "cmd.py", N + "tokenizer", N + "interface.py", N + "tokens.py"],
      [("command loop", N + "cli.py cmdloop"), ("exec_line", N + "cli.py exec_line"), ("tokenizing", N + "tokenizer/tokenizer.py"), ("TAB", N + "cli.py complete")],
      "property-based testing (hypothesis): grammar-aware fuzzing of lines and keys, differential against a new session",
      "Lines mix words of generated grammars with fragments and arbitrary characters; keys include control and cursor keys, not the history search of the line editor's package."),
    P("C28", "A long session needs no more memory than a short one",
      "Entering the same lines, asking for the same suggestions, opening and leaving the same contexts, running the same files and starting and ending the loop over and over keeps no more than doing so a few times does, apart from the history of typed lines. "
      "Of ever new values on accepted, refused and suggested lines no more are kept than the caches are configured to hold. "
      "An interface that nobody uses any more is released, with the contexts opened from it.",
      ["histories", "configurations"], "all histories of lines, suggestion requests, contexts, files and loops, of any length, and all cache sizes",
      TESTS + "No test looks at what is kept, or runs long enough for it to matter.",
      [N + "interface.py", N + "cli.py", N + "cmd.py", N + "utils.py"],
      [("caches", N + "interface.py clear_caches"), ("grammars entered", N + "cmd.py exec_line"), ("contexts", N + "cmd.py enter_context")],
      "property-based testing (hypothesis): invariant over repeated generated rounds, counted objects and traced bytes",
      "Objects known to the garbage collector and what they hold are counted after every round, bytes of values with tracemalloc."),
    P("C29", "The history keys bring back the lines that were entered",
      "The history keys bring back exactly the lines that were typed and entered, in order, without surrounding blanks and repeats in a row and the configured number of them at most, from whatever context and whatever they did, and neither lines of command files nor answers to questions; "
      "a line that was being typed is restored on the way back. A context may change what is kept while it lasts, and no longer. "
      "A line called back and entered does what it does when typed.",
      ["histories", "configurations"], "all sequences of lines and history keys, in plain interfaces and nested contexts, among questions and command files, and all history sizes",
      TESTS + "No test presses a key.",
      [N + "cli.py", N + "cmd.py"],
      [("settings", N + "cli.py NessaidCli"), ("leaving a context", N + "cli.py ParentBackup"), ("questions", N + "cli.py input"), ("contexts", N + "cmd.py context_loop")],
      "stateful property-based testing (hypothesis): key sequences into the line editor, against a model of line and history",
      "What the keys do within the line editor is modelled after its package; the history search is left out."),
    P("C30", "The same program and input give the same answers on every run",
      "What a session answers depends only on the program and on what is entered: two runs give the same results, errors, values, calls, suggestions with their help, completions and screens, however the interpreter happens to order what is in a set or lay out objects in memory. "
      "So does the grammar made of a command class.",
      ["schedules", "inputs"], "all grammars, command classes and input sequences, under all orders in which a set may list its elements and all hash seeds",
      TESTS + "A test runs under one order of its sets, mostly one in which nothing shows.",
      [N + "interface.py", N + "tokens.py", N + "cli.py", N + "cmd.py"],
      [("set_next_tokens", N + "interface.py ParsingResult"), ("match", N + "interface.py match"), ("help of alternatives", N + "tokens.py AlternativeStringsToken"),
       ("suggestions shown", N + "cli.py process_completion_tokens"), ("class grammar", N + "cmd.py NessaidCmd")],
      "property-based testing (hypothesis): metamorphic runs of one session with sets in other orders, and in interpreters of other hash seeds",
      "Within a run of the harness, sets made by the code under test are replaced by sets that list their elements in seeded orders; files and folders do not change between runs."),
]

PENDING = "its check is still being built"


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fd:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fd.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if not os.path.exists(os.path.join(VERIF, "vlib", "checks", p["id"] + ".py")):
            na.append({"property": p["id"], "reason": PENDING})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check.py %s quick" % p["id"], "thorough_cmd": "./check.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fd:
        json.dump({"version": 1, "setup_cmd": "./check.py selftest", "checks": checks, "not_applicable": na,
                   "notes": "Nothing is compiled; every check imports /repo's working tree. Replay a violation with ./check.py <id> replay <file>."},
                  fd, indent=1)
        fd.write("\n")


main()
