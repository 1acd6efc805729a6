#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Kept as a script so that the text stays readable."""
import json, os
B = "src/liboak/back/"
M = "src/liboak/middle/"
R = "runtime/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "Generated recognizers decide exactly the PEG language of the grammar",
 "For every accepted grammar, rule and input, the generated recognizer of that rule succeeds exactly when the rule matches a prefix of the input under parsing-expression-grammar semantics (ordered committed choice, greedy possessive repetition, backtracking only to the alternative's start), and then it has consumed exactly that prefix. On success the remaining input is untouched, whatever alternatives were tried and abandoned on the way.",
 ["programs", "inputs"], "all grammars the macro accepts, all rules of them, all input strings",
 "data/test and tests/ hold some 30 fixed grammars with a handful of inputs each; the operators' interactions (choice inside repetition inside predicate, backtracking over partly consumed alternatives) are combinatorial and only sampled.",
 [B+"compiler/choice.rs", B+"compiler/sequence.rs", B+"compiler/repeat.rs", B+"compiler/optional.rs", B+"compiler/str_literal.rs", B+"compiler/any_single_char.rs", R+"parse_state.rs"],
 [("continuation-passing compilation of every operator", B+"compiler"), ("mark / restore of the stream position", R+"parse_state.rs")],
 [("ParseState.current / failed", "stream position and outcome of the parse so far", R+"parse_state.rs")],
 ["return value of recognize_<rule>"])

prop("P02", "A rule's parser and its recognizer always agree",
 "For every accepted grammar, rule and input, the generated parser of a rule succeeds exactly when the generated recognizer of the same rule does, stops at the same position, and leaves the same furthest-failure position and expected items. A successful parser always delivers a value and a failed one never does.",
 ["programs", "inputs"], "all accepted grammars, rules and input strings",
 "The two functions are produced by two different compilation paths for every operator; existing tests mostly call one of the two per input and never compare them systematically.",
 [B+"compiler/mod.rs", B+"compiler/rule.rs", B+"compiler/choice.rs", B+"compiler/optional.rs", B+"compiler/repeat.rs", B+"compiler/non_terminal.rs"],
 [("recognizer_compiler / parser_compiler pair", B+"compiler/mod.rs")], (), ["return values of parse_<rule> and recognize_<rule>"])

prop("P03", "The value a parser delivers is the one the grammar determines for the match",
 "For every accepted grammar, rule and matching input, the delivered value is the grammar-determined one: characters, repetition lists (one element per iteration, in input order), options (present exactly when the optional part matched), tuples (one component per value-carrying part, in grammar order, nested sequences flattened), spans and action results each come from the matched text at their own place. Values built on abandoned alternatives never appear in the result.",
 ["programs", "inputs"], "all accepted grammars, rules and matching inputs",
 "The value plumbing depends on the nesting of operators and on name allocation; tests check the values of very few shapes.",
 [B+"context.rs", B+"compiler/sequence.rs", B+"compiler/choice.rs", B+"compiler/repeat.rs", B+"compiler/optional.rs", B+"compiler/non_terminal.rs", B+"compiler/value.rs", B+"compiler/spanned_expr.rs", B+"compiler/semantic_action.rs"],
 [("free-variable stack, scopes and fresh names", B+"context.rs"), ("tuple construction and destructuring", B+"compiler/value.rs")],
 (), ["data delivered by parse_<rule>"])

prop("P04", "Inferred result types follow the documented inference rules",
 "For every accepted grammar, the result type of each rule's parser is the one the documented inference rules give: literals, predicates and (^)-marked parts are invisible, unit and invisible parts vanish from tuples, one-element tuples are unwrapped, nested tuples are flattened, lists and options of invisible are invisible while lists and options of unit are kept, choices take their branches' common type, actions take their function's (boxed) return type, and ascriptions impose theirs. A rule whose type would be recursive is reduced to unit with a warning naming the cycle, and is not rejected.",
 ["programs"], "all accepted grammars and rules",
 "Type inference is a whole-grammar fixpoint over recursive rules; tests only ever see the types that their action functions happen to need, in about a dozen grammars.",
 [M+"typing/surface.rs", M+"typing/depth.rs", M+"typing/type_rewriting.rs", M+"typing/ast.rs", B+"compiler/rtype.rs", "doc/src/type-inference.md"],
 [("bottom-up surface inference", M+"typing/surface.rs"), ("rewriting rules", M+"typing/type_rewriting.rs"), ("top-down unit and ascription propagation", M+"typing/depth.rs")],
 (), ["static type of parse_<rule>, compiler diagnostics"])

prop("P05", "Semantic actions run exactly when, with what and in the order the grammar says",
 "During a parse, each semantic action in value position is called exactly once each time its expression matches, immediately after that match, with the matched parts' values as arguments in grammar order; its result is what the enclosing expression receives (boxed when so declared). Actions are never called by recognizers, inside predicates, or under expressions whose value is declared or inferred as unit.",
 ["programs", "inputs", "histories"], "all accepted grammars with actions, all inputs, the whole sequence of calls of one parse",
 "Tests observe only the final value, never the call history; duplicated, missing or reordered calls, and calls inside predicates, are invisible to them.",
 [B+"compiler/semantic_action.rs", B+"compiler/choice.rs", B+"compiler/syntactic_predicate.rs", M+"typing/depth.rs", B+"compiler/mod.rs"],
 [("action call emitted in the success continuation", B+"compiler/semantic_action.rs"), ("unit-typed expressions compiled as recognizers", B+"compiler/mod.rs"), ("unit propagation", M+"typing/depth.rs")],
 (), ["calls received by the user's action functions"])

prop("P06", "Lookahead predicates never consume input and decide by their operand alone",
 "For every expression and input, &e succeeds exactly when e would match at the current position and !e exactly when it would not; whichever way they end, the stream position is that of before the predicate. In particular !!e and &e, and !&e and !e, can replace each other everywhere without changing what is matched.",
 ["programs", "inputs"], "all accepted grammars containing predicates at any nesting, all inputs",
 "Predicates are tested on two or three fixed grammars; position leaks only show when the operand partly consumes, or ends in particular states, before what follows the predicate.",
 [B+"compiler/syntactic_predicate.rs", R+"parse_state.rs"],
 [("mark, recognize, restore", B+"compiler/syntactic_predicate.rs")], (), ["outcome of rules with predicates, stream positions after them"])

prop("P07", "Every accepted grammar parses every input in finite, PEG-bounded work, no panic",
 "For every accepted grammar, every rule of it terminates on every input without panicking, with no more terminal tests than plain recursive-descent evaluation of the grammar performs (up to a constant factor). Repetition needs constant stack: inputs of any length under e* or e+ do not deepen the call stack.",
 ["programs", "inputs"], "all accepted grammars (the termination side of well-formedness), all inputs including long ones",
 "Termination and cost are universally quantified over inputs and grammars; a test suite can only show that its own parses ended.",
 [M+"analysis/well_formedness.rs", B+"compiler/repeat.rs", B+"compiler/choice.rs", R+"parse_state.rs"],
 [("static well-formedness analysis", M+"analysis/well_formedness.rs"), ("iterative repetition", B+"compiler/repeat.rs"), ("runtime state assertions", R+"parse_state.rs")],
 (), ["number of stream operations per parse, panics"])

prop("P08", "Every well-formed, consistently typed grammar is accepted and its code compiles",
 "Every syntactically valid grammar that is well-formed (no left recursion, no repetition of possibly-empty expressions, no unreachable or hopeless expressions) and consistently typed is accepted without error diagnostics, and the generated Rust code compiles. This holds for every nesting of operators, actions, boxed actions, spans, ranges, ascriptions, external rules and user items.",
 ["programs"], "all well-formed, consistently typed grammars",
 "Only about 45 grammars are ever compiled by the tests; code generation has context-dependent parts (fresh names, value moves, shared continuations) that fail only for particular nestings.",
 [B+"context.rs", B+"compiler/choice.rs", B+"compiler/semantic_action.rs", B+"name_factory.rs", M+"analysis/well_formedness.rs", M+"typing/depth.rs", "src/liboak/front/parser.rs"],
 [("macro front end, analyses and code generation", "src/liboak/lib.rs")], (), ["compiler diagnostics of the crate using the macro"])

prop("P09", "Failed and partial parses report the furthest failure and what was expected",
 "After every parse, the reported failure position is the furthest input position at which any terminal (literal, character class or any-character) failed to match, lookaheads included, and the expected items are exactly the descriptions of all terminals that failed at that position: the literal itself, the class as written, or the any-character marker. Abandoned alternatives, finished repetitions and skipped options contribute, and successful parsing afterwards never erases them.",
 ["programs", "inputs", "histories"], "all accepted grammars, rules and inputs; the set of failures of the whole parse",
 "tests compare expected sets for fixed inputs of a few grammars; merging over backtracking is history-dependent.",
 [R+"parse_state.rs", B+"compiler/str_literal.rs", B+"compiler/character_class.rs", B+"compiler/any_single_char.rs", B+"compiler/choice.rs", B+"compiler/optional.rs", B+"compiler/repeat.rs"],
 [("furthest-failure accumulation", R+"parse_state.rs")], [("farthest_read, expected", "furthest failure so far", R+"parse_state.rs")],
 ["failure position and expected items of the final state"])

prop("P10", "Error rendering never panics and points at the right line, column and text",
 "For every input text (any Unicode, any line ends) and every position in it, the rendered location is the 1-based line and 1-based byte column of that position, where lines end at each newline character, and the snippet is a non-empty prefix of the remaining text (or the end-of-file marker exactly at the end). Rendering any parse result for display is total: it never panics and shows location, snippet and every expected item.",
 ["inputs", "histories"], "all input texts, all positions in them, all expected sets",
 "The unit tests use short ASCII strings with \\n only; multi-byte characters at the snippet boundary, CRLF text and final positions are never exercised.",
 [R+"str_stream.rs", R+"parse_state.rs", R+"file_map_stream.rs"],
 [("line/column computation and snippet cut", R+"str_stream.rs"), ("message formatting", R+"parse_state.rs")], (), ["Location, CodeSnippet and Debug output"])

prop("P11", "Span and range captures cover exactly the text their sequence matched",
 "For every match of a span-captured sequence, the captured span or range starts at the position where that sequence began matching and ends where it stopped, so that slicing the input with it gives the matched text; a span capture also yields the sequence's own value unchanged after the span, and a range capture yields the range alone. This holds at any nesting, in choices, repetitions, options, under actions and after backtracking.",
 ["programs", "inputs"], "all accepted grammars with .. and ... captures, all inputs",
 "one grammar of tests/grammars/stream_span.rs with four inputs; captures interact with fresh-name scopes and shared continuations.",
 [B+"compiler/spanned_expr.rs", B+"context.rs", R+"str_stream.rs", R+"file_map_stream.rs", M+"typing/surface.rs"],
 [("mark before, span after", B+"compiler/spanned_expr.rs"), ("skipped free variable for the capture", B+"context.rs")], (), ["span and range values delivered by parsers"])

prop("P12", "Input streams behave like a cursor over the characters of the text",
 "Every history of operations on clones of a stream behaves as cursors over the text's characters: reading yields the characters in order, a prefix is consumed exactly when the remaining text starts with it and otherwise nothing moves, end-of-input is reported exactly at the end, clones move independently, and comparison orders cursors by position. Strings, string references and source-file streams all give the same behaviour, with file streams reporting spans shifted by the file's start position.",
 ["histories", "inputs"], "all texts, all interleavings of operations on any number of clones",
 "runtime unit tests run a few scripted operations on short ASCII strings.",
 [R+"str_stream.rs", R+"file_map_stream.rs", R+"stream.rs"],
 [("byte offset cursor", R+"str_stream.rs"), ("delegation", R+"file_map_stream.rs")], [("bytes_offset", "cursor position", R+"str_stream.rs")], ["stream operations"])

prop("P13", "Parse states classify results correctly and keep failures across any history",
 "For every history of state operations, a finished state is classified as full match exactly when it holds a value and no input remains, as partial match when it holds a value and input remains, and as failure otherwise, carrying the recorded furthest failure. Recording a failure keeps the furthest position and accumulates the items recorded there, restoring rewinds the position but never the record, and misuse (marking a failed state, restoring over data) is refused rather than silently accepted.",
 ["histories"], "all sequences of operations on parse states over all positions",
 "No unit test drives ParseState directly beyond fixed parses.",
 [R+"parse_state.rs"], [("ParseState transitions and guards", R+"parse_state.rs")], [("ParseState", "position, failure record, value", R+"parse_state.rs")], ["public API of ParseState and ParseResult"])

prop("P14", "Literals and character classes match exactly the characters they denote",
 "A character class matches a character exactly when it is one of the listed characters or lies in one of the listed inclusive ranges, over all Unicode scalar values, with a hyphen first or last standing for itself and string escapes denoting the escaped character; a literal matches exactly its own character sequence, case and code points included. Malformed classes (empty, stray hyphens) are refused at compile time.",
 ["inputs", "programs"], "all Unicode scalar values, all class and literal texts",
 "Tests use a few ASCII classes; range bounds, escapes, hyphen placement and non-ASCII members are unexplored, and 1.1 million scalar values cannot be enumerated by hand-written cases.",
 ["src/liboak/front/parser.rs", B+"compiler/character_class.rs", B+"compiler/str_literal.rs", R+"str_stream.rs", "src/liboak/ast.rs"],
 [("class parsing", "src/liboak/front/parser.rs"), ("class condition", B+"compiler/character_class.rs")], (), ["outcome of one-class rules on each scalar value"])

prop("P15", "Ill-formed grammars are rejected with a diagnostic, and nothing is generated",
 "Every grammar with a left-recursive cycle (direct, through other rules, or hidden behind parts that may match nothing), a repetition whose body may succeed without consuming, an alternative that can never be reached, an expression that can never succeed or that always succeeds without consuming, a duplicated rule or function, no rule at all, an uninferrable rule type, a syntax error, or (where a value is delivered) mismatched branch types, an action without a result or an ascription its expression contradicts, is rejected. The rejection is an error diagnostic at compile time, located inside the offending grammar, and never a compiler hang.",
 ["programs"], "all grammars with such a fault, at any depth and in any surrounding grammar",
 "data/test holds about 40 compile-fail grammars with the fault in plain sight; faults hidden behind nullable prefixes, several rules or nested operators are not covered.",
 [M+"analysis/well_formedness.rs", M+"analysis/duplicate.rs", M+"typing/surface.rs", M+"typing/depth.rs", M+"typing/ast.rs", M+"mod.rs", "src/liboak/front/parser.rs"],
 [("well-formedness fixpoint", M+"analysis/well_formedness.rs"), ("duplicate detection", M+"analysis/duplicate.rs"), ("branch type check", M+"typing/type_rewriting.rs")], (), ["compiler diagnostics"])

prop("P16", "Redundant-chaining warnings are exact and their advice keeps the language",
 "A warning about redundantly chained predicates or repetitions is issued for every directly nested redundant pair (such as !(!e), (e?)?, (e+)*) that does not itself stand inside one already reported, and never where there is no such pair, looking through parentheses, ascriptions, actions, captures and rule calls. The rewriting it suggests always recognizes exactly the same inputs as the expression it replaces.",
 ["programs", "inputs"], "all accepted grammars; all inputs for the equivalence of the advice",
 "data/test lists one fixture per pair and does not check that the suggested expression is equivalent or that other expressions stay silent.",
 [M+"analysis/useless_chaining.rs"], [("chain detection and advice table", M+"analysis/useless_chaining.rs")], (), ["compiler warnings, behaviour of both expressions"])

prop("P17", "Rules compose across grammars and with hand-written rules transparently",
 "Calling a rule of another grammar or a hand-written rule function that follows the calling convention behaves exactly as if its expression stood in the calling grammar: same matches, values, action calls, consumption and failure report. Parsing may start from any position of a stream and a parse can be continued from where another stopped.",
 ["programs", "inputs", "histories"], "all splits of a grammar over modules, all inputs, all start positions",
 "tests/grammars/calc3.rs and the external-rule fixtures use one composition each.",
 [B+"compiler/non_terminal.rs", M+"analysis/resolve_non_terminal.rs", M+"typing/surface.rs", R+"parse_state.rs"],
 [("call convention of recognize_/parse_ functions", B+"compiler/non_terminal.rs"), ("path resolution", M+"analysis/resolve_non_terminal.rs")], (), ["outcome of rules calling external rules"])

prop("P18", "How a grammar is written down does not change what it means",
 "Re-layout of the same grammar (white space, comments, redundant parentheses, order of rules and of user items, consistent renaming of rules, escaped or raw spelling of string literals, regrouping of sequences and choices, an ascription on either side of the rule's equals sign) changes no rule's language, consumption, value, type or failure report. Operators bind as documented: postfix tighter than prefix, prefix tighter than sequence, sequence tighter than an action, an action tighter than choice.",
 ["programs", "inputs"], "all pairs of presentations of one grammar, all inputs",
 "No test compares two presentations of a grammar.",
 ["src/liboak/front/parser.rs", M+"typing/type_rewriting.rs", M+"analysis/duplicate.rs", B+"compiler/grammar.rs"],
 [("recursive-descent front end", "src/liboak/front/parser.rs"), ("tuple flattening", M+"typing/type_rewriting.rs")], (), ["outcome of corresponding rules of both presentations"])

prop("P19", "Generated code stays proportional to the grammar",
 "The amount of code generated for a rule grows at most proportionally to the size of its expression, for every way of composing operators (successive and nested choices, options, repetitions, predicates, actions, spans): what follows an alternative is never duplicated per alternative combination. Compiling a grammar therefore never blows up with the number of alternatives in sequence.",
 ["programs"], "all families of growing grammars built by repeating or nesting operator contexts",
 "No test measures generated code; a blow-up only shows as a compile that never ends.",
 [B+"context.rs", B+"compiler/choice.rs", B+"compiler/semantic_action.rs", B+"continuation.rs"],
 [("single copy of the success continuation of a choice", B+"compiler/choice.rs")], (), ["size of the expanded code"])

prop("P20", "Parsing depends only on grammar and text: any stream type, any order, any time",
 "The outcome of a rule on a text (match, consumption, value, failure position and expected items) is the same whichever stream type carries the text (string slice, string, source file, or a user-defined stream obeying the stream traits), and the same on every repetition and under any interleaving with other parses. Neither parsing nor the generated functions keep state between calls or alter the text.",
 ["programs", "inputs", "histories", "configurations"], "all grammars, texts, conforming stream types and call histories",
 "tests use one stream type per grammar and never run the same grammar over two.",
 ["src/liboak/ast.rs", M+"mod.rs", B+"context.rs", R+"stream.rs", R+"str_stream.rs", R+"file_map_stream.rs"],
 [("stream type alias and generics", "src/liboak/ast.rs"), ("stream traits", R+"stream.rs")], (), ["outcome of the same rule over several stream types"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
