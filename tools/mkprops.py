#!/usr/bin/env python3
# writes /verif/properties.jsonl (the list lives here so that it is easy to edit)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
UNIT = "The 7 unit tests cover four bounded/unbounded repetition NFAs and three escape forms of the bootstrap parser; none of them runs "
p("C01", "Generated Rust lexers follow longest match and precedence",
  "For every set of token rules a lexer can be generated for, and every input text without NUL characters, the generated Rust lexer returns (also while other lexers are in use) exactly the tokens obtained by repeatedly reading the longest run of characters with which some token text begins: the run is a token if some rule matches all of it, named after the matching rule with the highest precedence (explicit precedence; otherwise a literal counts twice its length and a regex the length of its shortest match). "
  "The span and slice reported for each token are exactly its text, tokens are contiguous, the end of the input is reported once everything is consumed and stays reported, and an error (never a wrong or an empty token) is returned where no rule matches the whole run, which describes the character at which the run could not be continued (0 at the end), if need be by a range of characters none of which could have continued it.",
  ["inputs", "programs"], "all token rule sets (literals and regexes over Unicode, explicit and implicit precedences) x all input texts without NUL characters",
  UNIT + "a generated lexer, and no finite sample of inputs settles a claim about every automaton state and every character class.",
  ["lapex-lexer/src/lib.rs", "lapex-lexer/src/alphabet.rs", "lapex-lexer/src/nfa/mod.rs", "lapex-automaton/src/lib.rs", "lapex-rust-codegen/src/lexer/mod.rs", "lapex-input/src/lib.rs"],
  [("alphabet partition", "lapex-lexer/src/alphabet.rs"), ("Thompson construction", "lapex-lexer/src/nfa/mod.rs"), ("powerset construction", "lapex-automaton/src/lib.rs"), ("precedence resolution", "lapex-lexer/src/lib.rs apply_precedence_to_dfa"), ("longest-match loop", "lapex-rust-codegen/src/lexer/mod.rs")],
  ["DFA returned by the library", "Lexer::next/span/slice of the generated code"],
  [("automaton state", "set of rules still matchable", "generated next()"), ("start/position", "span of the current token", "generated Lexer")])
p("C02", "Generated C++ lexers follow longest match and precedence",
  "For every set of token rules a lexer can be generated for, and every UTF-8 input text without NUL characters, the generated C++ lexer returns (also while other lexers are in use) exactly the sequence of tokens given by reading the longest run of characters with which some token text begins and taking the rule of highest precedence that matches all of it, each with the correct start and end position counted in characters. "
  "It reports the end of the input once everything is consumed and keeps reporting it, and reports an error where no rule matches the whole run. In an input that is not UTF-8 it reports an error where the malformed part begins (or at the token in front of it), never a token of it or the end of the input.",
  ["inputs", "programs"], "all token rule sets x all UTF-8 input texts without NUL characters",
  UNIT + "any C++ output; decoding, state switching and position tracking must be right for every state and every character class.",
  ["lapex-cpp-codegen/src/lexer/mod.rs", "lapex-lexer/src/lib.rs", "lapex-lexer/src/alphabet.rs", "lapex-lexer/src/nfa/mod.rs", "lapex-automaton/src/lib.rs"],
  [("generated next()", "lapex-cpp-codegen/src/lexer/mod.rs")], ["Lexer::next/start/end of the generated C++ code"])
p("C03", "Ambiguous token rules are rejected, and only those",
  "Generating a lexer fails with a precedence error exactly when some input text is matched in full by two or more token rules that share the highest precedence among all rules matching that text; otherwise it succeeds. "
  "The rules named by the error (with their locations in the grammar file) are rules that really tie, with that precedence, on some common text.",
  ["inputs", "programs"], "all token rule sets",
  UNIT + "precedence resolution at all, and absence of a tie is a statement about all texts.",
  ["lapex-lexer/src/lib.rs", "lapex-input/src/lib.rs", "lapex/src/errors.rs"],
  [("apply_precedence_to_dfa", "lapex-lexer/src/lib.rs"), ("TokenRule::precedence", "lapex-input/src/lib.rs")],
  ["result of apply_precedence_to_dfa", "CLI exit status and message"])
p("C04", "Desugaring keeps the language and meaning of every rule",
  "The context-free grammar built from a set of production rules (sequence, alternative, `?`, `*`, `+`, grouping, empty) derives exactly the same sentences as the rules as written, from the entry rule and from every other production. "
  "Each written production corresponds to exactly one rule of its non-terminal, whose right-hand side describes exactly the sequences of tokens and named productions that the written pattern describes.",
  ["inputs", "programs"], "all production rule sets, all nestings of the pattern operators, all sentences",
  UNIT + "the grammar builder.",
  ["lapex-parser/src/grammar_builder.rs", "lapex-parser/src/grammar.rs", "lapex-parser/src/util.rs"],
  [("GrammarBuilder", "lapex-parser/src/grammar_builder.rs")], ["Grammar::rules()/entry_rule()/entry_point()"])
p("C05", "LL(1) generation succeeds exactly for LL(1) grammars with the right table",
  "For every grammar, LL(1) parser generation succeeds if and only if the grammar is LL(1), and otherwise reports a conflict that exists: two productions of one non-terminal sharing a predicting token, or a nullable one with a token both at its beginning and behind it. "
  "When it succeeds, the prediction for every non-terminal and every lookahead token (including the end of the input) is exactly the production whose FIRST/FOLLOW predict set contains that token, or none.",
  ["programs"], "all grammars x all non-terminals x all lookahead tokens",
  UNIT + "the LL(1) table generator (lapex-parser's ll_parser/tests.rs is empty).",
  ["lapex-parser/src/ll_parser/mod.rs", "lapex-parser/src/util.rs"],
  [("FIRST/FOLLOW fixpoints", "lapex-parser/src/ll_parser/mod.rs")], ["ll_parser::generate_table result", "CLI result"])
p("C06", "LR conflicts are reported exactly when and where they exist",
  "For every grammar, LR(0), LALR(1) and LR(1) parser generation succeeds if and only if the grammar has no shift/reduce or reduce/reduce conflict in that class. "
  "Otherwise every conflict is reported - for each state and symbol at which actions compete, the competing reductions or the one reduction and the symbol - and every reported conflict is one: its items and symbol really compete in that state.",
  ["programs"], "all grammars x {LR(0), LALR(1), LR(1)}",
  UNIT + "the LR generators; missing a conflict silently drops one of the parses.",
  ["lapex-parser/src/lr_parser/mod.rs", "lapex-parser/src/lr_parser/item.rs"],
  [("find_conflicts", "lapex-parser/src/lr_parser/mod.rs"), ("LALR merging", "lapex-parser/src/lr_parser/mod.rs merge_into_state")],
  ["lr_parser::generate_table result", "CLI result"])
p("C07", "Action/goto tables encode exactly the LR automaton of the grammar",
  "For every grammar and each of LR(0), LALR(1), LR(1) and the GLR table, the generated action/goto table is, up to renaming of states, exactly that of the canonical automaton of that class: every shift, reduction (on exactly its lookaheads), goto and acceptance is present, and there is no other entry.",
  ["programs"], "all grammars x {LR(0), LALR(1), LR(1), LALR(1) with conflicts kept} x all states x all symbols",
  UNIT + "the LR table generator.",
  ["lapex-parser/src/lr_parser/mod.rs", "lapex-parser/src/lr_parser/item.rs", "lapex-parser/src/util.rs"],
  [("item set expansion", "lapex-parser/src/lr_parser/mod.rs expand_item"), ("automaton construction", "lapex-parser/src/lr_parser/mod.rs generate_parser_graph"), ("table filling", "lapex-parser/src/lr_parser/mod.rs")],
  ["ActionGotoTable::get_entry"])
p("C08", "Generated Rust LR parsers accept exactly the grammar's language",
  "For every grammar for which Rust LR(0), LALR(1) or LR(1) generation succeeds, and every token sequence, the generated parser succeeds if and only if the sequence is a sentence of the grammar as written. "
  "Otherwise, in a grammar all of whose productions can be completed, it returns an error naming the first token (or the end of the input) at which the tokens read so far stop being the beginning of some sentence; it never panics or loops.",
  ["inputs", "programs"], "all conflict-free grammars x all finite token sequences",
  UNIT + "a generated parser.",
  ["lapex-rust-codegen/src/lr_parser/mod.rs", "lapex-parser/src/lr_parser/mod.rs", "lapex-parser/src/grammar_builder.rs"],
  [("generated step/parse", "lapex-rust-codegen/src/lr_parser/mod.rs")], ["Parser::parse result of the generated code"],
  [("state stack", "viable prefix read so far", "generated Parser")])
p("C09", "Generated C++ LR parsers accept exactly the grammar's language",
  "For every grammar for which C++ LR(0), LALR(1) or LR(1) generation succeeds, and every token sequence, the generated C++ parser returns normally if and only if the sequence is a sentence of the grammar as written, and otherwise throws at the first token at which no sentence can be continued.",
  ["inputs", "programs"], "all conflict-free grammars x all finite token sequences",
  UNIT + "any C++ output.",
  ["lapex-cpp-codegen/src/lr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/action_goto.rs", "lapex-parser/src/lr_parser/mod.rs"],
  [("action/goto functions", "lapex-cpp-codegen/src/lr_parser/action_goto.rs")], ["Parser::parse of the generated C++ code"])
p("C10", "Generated C++ LL(1) parsers accept the language and report the parse tree",
  "For every LL(1) grammar and every token sequence, the generated C++ LL(1) parser returns normally if and only if the sequence is a sentence of the grammar as written, and otherwise throws at the first token at which no sentence can be continued. "
  "The visitor is called with exactly the pre-order walk of the parse tree: enter and exit of each named production, properly nested, and every token with its data in input order (the end of the input last).",
  ["inputs", "programs"], "all LL(1) grammars x all finite token sequences",
  UNIT + "any C++ output.",
  ["lapex-cpp-codegen/src/ll_parser/mod.rs", "lapex-parser/src/ll_parser/mod.rs"],
  [("prediction stack", "lapex-cpp-codegen/src/ll_parser/mod.rs")], ["visitor calls and outcome of the generated C++ parser"])
p("C11", "Generated Rust GLR parsers accept exactly the language of any grammar",
  "For every grammar without infinitely ambiguous or hidden left-recursive rules, conflicts and ambiguity included, and every token sequence, the generated GLR parser succeeds if and only if the sequence is a sentence, and its visitor then sees exactly one complete derivation of it: each token once, in order, and reductions that form a reverse rightmost derivation. "
  "For every other sequence it returns an error at the first token at which no sentence can be continued, having shown the visitor only steps that belong to the derivation of some sentence beginning with the tokens before it.",
  ["inputs", "programs", "schedules"], "all such grammars x all finite token sequences x all interleavings of the forked parse stacks the algorithm produces",
  UNIT + "a generated parser; forks and merges only appear with particular inputs.",
  ["lapex-rust-codegen/src/glr_parser/mod.rs", "lapex-parser/src/lr_parser/mod.rs"],
  [("forked stacks, delayed visitor calls", "lapex-rust-codegen/src/glr_parser/mod.rs")], ["visitor calls and Parser::parse result of the generated code"],
  [("forks", "set of live parse stacks and their pending visitor calls", "generated Parser")])
p("C12", "Rust LR visitors see the exact reverse rightmost derivation",
  "On every token sequence the visitor of a generated Rust LR parser sees every token accepted so far exactly once, in order and with the data supplied for it, interleaved with reductions that form the reverse of the rightmost derivation; each reduction calls the method of exactly the applied rule (its tag or its number). "
  "On a sentence the calls describe the complete parse tree, and on an error they are the beginning of the calls for some sentence that starts with the tokens accepted so far.",
  ["inputs", "programs", "histories"], "all conflict-free grammars (tagged and untagged, anonymous sub-rules) x all finite token sequences",
  UNIT + "a generated parser.",
  ["lapex-rust-codegen/src/lr_parser/mod.rs", "lapex-parser/src/lr_parser/mod.rs"],
  [("reduction dispatch", "lapex-rust-codegen/src/lr_parser/mod.rs")], ["Visitor trait calls"])
p("C13", "C++ LR visitors see the exact reverse rightmost derivation",
  "On every token sequence the visitor of a generated C++ LR parser sees every token accepted so far exactly once, in order and with its data, interleaved with reductions that form the reverse of the rightmost derivation, each calling the method of exactly the applied rule; on a sentence the calls describe the complete parse tree.",
  ["inputs", "programs", "histories"], "all conflict-free grammars x all finite token sequences",
  UNIT + "any C++ output.",
  ["lapex-cpp-codegen/src/lr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/action_goto.rs"],
  [("reduction dispatch", "lapex-cpp-codegen/src/lr_parser/action_goto.rs")], ["visitor virtual methods"])
p("C14", "Expected-token lists of parse errors are correct",
  "When a generated parser rejects a token, the list of expected tokens in its error is exactly the set of tokens (end of the input included) acceptable in the state that detects the error: the state of the canonical LR(0), LALR(1) or LR(1) automaton, for GLR one such list for each of the stacks that end there, for LL(1) the tokens predicting the production to be expanded or the one token to be matched. "
  "It never contains the rejected token; for canonical LR(1) it is exactly the set of tokens with which the tokens read so far could have continued to a sentence, and for LR(0) it contains all of them.",
  ["inputs", "programs"], "all grammars x all rejected token sequences x all generated Rust parsers and the messages of all generated C++ parsers",
  UNIT + "a generated parser, let alone its error values.",
  ["lapex-rust-codegen/src/lr_parser/mod.rs", "lapex-rust-codegen/src/glr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/action_goto.rs", "lapex-cpp-codegen/src/ll_parser/mod.rs"],
  [("error arms of the generated tables", "lapex-rust-codegen/src/lr_parser/mod.rs")], ["ParserError::UnexpectedToken", "what() of the C++ exception"])
p("C15", "Grammar files are read as written",
  "For every well-formed grammar file, whatever its layout, the rules read from it are exactly the written ones: every token with its name, precedence and literal or regex (matching exactly the texts the regex denotes), every production with its name, tag and pattern structure (with `?`, `*`, `+` binding tighter than sequence, and sequence tighter than `|`), and the entry rule. "
  "A file that is not well-formed is never accepted as some other grammar.",
  ["inputs"], "all grammar file texts",
  "The three bootstrap tests parse one escaped character each; no test parses a grammar file.",
  ["lapex-input-gen/src/lib.rs", "lapex-input-gen/src/lapex.lapex", "lapex-input/src/lib.rs"],
  [("self-hosted parser and its visitor", "lapex-input-gen/src/lib.rs")], ["LapexInputParser::parse_lapex"])
p("C16", "Both grammar-file front ends agree",
  "For every grammar file in the subset the hand-written bootstrap parser reads (no tags or precedences; regexes of ASCII characters, its escapes, character sets, the dot, groups, `?`, `*` and `+`; literals without backslashes), it and the self-hosted parser denote the same grammar: the same tokens with the same languages, the same entry rule and, for each production, the same patterns.",
  ["inputs"], "all grammar files of the bootstrap subset (no tags, no explicit precedences)",
  "The bootstrap tests parse one escaped character each; nothing compares the two parsers, although the self-hosted one is generated through the other.",
  ["lapex-input-bootstrap/src/lib.rs", "lapex-input-gen/src/lib.rs", "lapex-input-gen/build.rs"],
  [("nom parser", "lapex-input-bootstrap/src/lib.rs"), ("self-hosted parser", "lapex-input-gen/src/lib.rs")], ["LapexInputParser::parse_lapex of both"])
p("C17", "Reported source locations are exact",
  "Every rule read from a grammar file carries the position (line and column counted in characters) and extent of exactly the text that defines it, and every error about a rule (token precedence, LR conflict) quotes that text and its line and column in the grammar file.",
  ["inputs"], "all grammar files (layout, multi-line rules, non-ASCII text) and all errors they cause",
  UNIT + "anything that uses spans.",
  ["lapex-input/src/lib.rs", "lapex-input-gen/src/lib.rs", "lapex/src/errors.rs"],
  [("SourcePos/SourceSpan", "lapex-input/src/lib.rs"), ("Location::from_span", "lapex/src/errors.rs")], ["Spanned rules", "CLI error output"])
p("C18", "Generation is deterministic",
  "For a given grammar file and options, generation always gives the same outcome: byte-identical output files or the same error text, independent of the process, of earlier generations in the same process and of the names of the paths involved.",
  ["inputs", "histories", "configurations"], "all grammar files x options x repeated and interleaved runs in new and in the same process",
  "No test generates anything twice; hash seeds differ in every process.",
  ["lapex-parser/src/lr_parser/mod.rs", "lapex-automaton/src/lib.rs", "lapex/src/lib.rs", "lapex-rust-codegen/src", "lapex-cpp-codegen/src"],
  [("ordered maps on every path that reaches the output", "lapex-parser/src/lr_parser/mod.rs")], ["generated files", "error text"])
p("C19", "The command line tool reports failure and writes exactly the right files",
  "For every invocation, `generate` exits with status 0 exactly when the grammar was readable, well-formed, resolvable and free of conflicts for the chosen algorithm, language and algorithm go together, and every file could be written; it has then written exactly the files of the chosen language, algorithm and options, completely, whatever was there before. In every other case it exits with a failure status and a message; unless the failure was one of writing, no parser file is written or changed. "
  "Options that only select outputs (no lexer, table) do not change the other files.",
  ["inputs", "configurations", "fault_sequences"], "all grammar files (including unreadable, malformed and conflicting ones) x algorithm x language x --no-lexer x --table x target directory state",
  "No test runs the command line tool or lapex::generate.",
  ["lapex-cli/src/main.rs", "lapex/src/lib.rs", "lapex-codegen/src/lib.rs"],
  [("generate_lexer_and_parser", "lapex/src/lib.rs"), ("main", "lapex-cli/src/main.rs")], ["exit status, stderr, target directory"])
p("C20", "The printed parser table is the table",
  "For every grammar and LR-family algorithm, the file written by `--table` lists exactly the rules of the grammar and, for every state and symbol, exactly the action of the automaton used by the generated parser, or the conflict mark where there are several.",
  ["inputs", "programs"], "all grammars x {LR(0), LALR(1), LR(1), GLR}",
  UNIT + "the table printer.",
  ["lapex-parser/src/lr_parser/mod.rs", "lapex/src/lib.rs"],
  [("output_table", "lapex-parser/src/lr_parser/mod.rs")], ["the file `table`"])
p("C21", "Generated parsers never read past the token they need",
  "Every generated parser requests tokens strictly in order and one at a time: at any point it has requested at most one token more than it has accepted, it never requests a token after the end of the input was delivered, and on a rejected sequence it has requested nothing beyond the offending token.",
  ["inputs", "programs", "histories"], "all grammars x all token sequences x all generated parsers",
  UNIT + "a generated parser.",
  ["lapex-rust-codegen/src/lr_parser/mod.rs", "lapex-rust-codegen/src/glr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/mod.rs", "lapex-cpp-codegen/src/ll_parser/mod.rs"],
  [("token pull", "generated parse loops")], ["calls of the token function"])
p("C22", "Every name in a grammar resolves to its rule, or generation fails",
  "A grammar is accepted only if its entry rule and every name used in a production are defined; each use then refers to exactly the token or production of that name. "
  "A grammar that uses an undefined name or entry, or defines a token's name twice or also as a production, is always refused, and the error names an undefined name or the places of two definitions of one name.",
  ["inputs"], "all grammar files",
  UNIT + "name resolution.",
  ["lapex-parser/src/grammar_builder.rs", "lapex-parser/src/grammar.rs"],
  [("symbol lookup", "lapex-parser/src/grammar_builder.rs")], ["Grammar::from_rule_set result"])
p("C23", "Lexer and parser together read exactly the language of the grammar file",
  "For every grammar file, the generated lexer connected to the generated parser (for GLR, with the grammar's restrictions) accepts a text without NUL characters if and only if the text divides, by longest match and precedence, into tokens that form a sentence of the productions as written. "
  "In a grammar all of whose productions can be completed, any other text is refused at the first token (or the end) with which no sentence can be continued, or where there is no token, whichever comes first in the text; and the visitor sees exactly the tokens before that place, in order, each with its position in the text (after a refusal, a GLR visitor the first of them only).",
  ["inputs", "programs"], "all grammar files a parser can be generated for x {Rust LR(0), LALR(1), LR(1), GLR; C++ LR(0), LALR(1), LR(1), LL(1)} x all texts without NUL characters",
  "The tests never run generated code; that lexer, token type and parser fit together (numbering, end of input, errors) only shows when they run together.",
  ["lapex/src/lib.rs", "lapex-rust-codegen/src", "lapex-cpp-codegen/src", "lapex-lexer/src", "lapex-parser/src"],
  [("TokenType shared by lexer and parser", "lapex-rust-codegen/src/lib.rs, lapex-cpp-codegen/src/lib.rs")], ["outcome and visitor calls of generated parsers fed by generated lexers"])
p("C24", "Generated code compiles and offers exactly the names of the grammar",
  "For every grammar a parser can be generated for, whatever its names, the generated files compile (together with the generated lexer, or without it) and their interface has exactly one token enumerator per token (Rust: Tk and the parts of the name between underscores, each with its first letter in upper and the others in lower case, besides EndOfFile; C++: TK_ and the name, besides TK_ERR and TK_EOF), which shows itself by that name (Rust Debug) or the name of the token (C++ get_token_name), "
  "and exactly one visitor method per rule: reduce_ and the name of its production, followed by _ and its tag (Rust) or number if the production has several rules; anonymous sub-rules count as productions; the LL(1) visitor has one enter_ and one exit_ method per production of the file instead.",
  ["inputs", "programs"], "all grammars (all names, tags, numbers of rules) x all algorithms and languages x {with, without lexer}",
  "The tests never compile generated code; whether names collide or come out as an illegal identifier depends on the names of the grammar.",
  ["lapex-rust-codegen/src", "lapex-cpp-codegen/src"],
  [("get_token_enum_name", "lapex-rust-codegen/src/lib.rs"), ("NonTerminalType, ReducedRule, Visitor", "lapex-rust-codegen/src/lr_parser/mod.rs")], ["the interface of the generated files"])
p("C25", "A failing token source stops the parser with its own error",
  "When the function that supplies tokens fails at a request (an error result for the Rust GLR parser, an exception for the C++ parsers), parsing ends there with exactly that failure: the parser has requested nothing afterwards, and the visitor has seen no more than the calls that belong to the tokens delivered before (all of those tokens, except that a GLR parser may still hold some back).",
  ["inputs", "programs", "fault_sequences"], "all grammars x {Rust GLR, C++ LR(0), LALR(1), LR(1), LL(1)} x all token sequences x the request that fails",
  "No test runs a generated parser, let alone one with a failing source.",
  ["lapex-rust-codegen/src/glr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/mod.rs", "lapex-cpp-codegen/src/ll_parser/mod.rs"],
  [("ParserError::LexerError", "lapex-rust-codegen/src/glr_parser/mod.rs")], ["Parser::parse result, calls of the token function and the visitor"])
p("C26", "The debug command tells whether a source file is a sentence, and how",
  "For every grammar without lexical conflict and every text without NUL characters, `debug` reports success with exit status 0 exactly when the text divides into tokens that form a sentence of the productions, and failure with a non-zero status otherwise; what it prints before is, in order, the tokens it read (at least all when it succeeds) and, when it succeeds, the rules of a derivation of that sentence. If the grammar file or the text cannot be read, or the grammar is malformed or has a lexical conflict, the command fails; it leaves no files behind.",
  ["inputs", "programs"], "all grammar files x all source texts (and unreadable ones)",
  "No test runs the debug command.",
  ["lapex-cli/src/main.rs", "lapex-rust-codegen/src/glr_parser/mod.rs"],
  [("debug_grammar", "lapex-cli/src/main.rs"), ("DebugVisitor", "lapex-rust-codegen/src/glr_parser/mod.rs")], ["exit status and output of lapex-cli debug"])
p("C27", "The subset construction keeps what an automaton accepts and with which labels",
  "For every nondeterministic automaton (any number of states, silent edges in cycles, parallel edges, several accepting states with equal or different labels, any entry state), powerset_construction yields a deterministic automaton whose first state is the start: after every word it has one state exactly if the nondeterministic automaton can read that word, this state is accepting exactly if the word is accepted, and it then carries the labels of all accepting states the word leads to, each as often as there are such states. It contains no other states, and at most one transition per state and symbol.",
  ["inputs"], "all nondeterministic automata x all words",
  "The tests build a few lexers; automata that no regular expression of a test yields (silent cycles, shared labels, other entry states) are never seen.",
  ["lapex-automaton/src/lib.rs"],
  [("Nfa, Dfa", "lapex-automaton/src/lib.rs")], ["states and transitions of the resulting automaton"])
p("C28", "Templates and code targets write all of the text or report why not",
  "Writing a code template yields exactly its text, with each marker /*{ key }*/ (on one line, blanks around the key ignored, the nearest end counts) replaced by what the supplier registered last for the key writes, unchanged and not searched again; it can be repeated. A request for a code file goes to the target registered last for its name, otherwise to one newly opened file of that name, and nowhere else. "
  "Both report success exactly if everything has been taken (also by destinations that take few bytes at a time, or are buffered) and no supplier has failed; otherwise they fail (for a key without supplier, by a panic), and a destination then holds no more than a beginning of what was due.",
  ["inputs", "fault_sequences"], "all templates and suppliers x all destinations (capacity, portions, buffers) x all sequences of requests",
  "No test writes a template or injects a failing destination; a lost tail of a file looks like success.",
  ["lapex-codegen/src/templating.rs", "lapex-codegen/src/lib.rs"],
  [("TemplateWriter::substitutions", "lapex-codegen/src/templating.rs"), ("GeneratedCodeWriter::targets", "lapex-codegen/src/lib.rs")], ["bytes written, results"])
p("C29", "Alphabet and rule automata of a lexer mean what the token rules say",
  "For every set of token rules, however it was read, the alphabet's ranges divide all characters (NUL alone in the first), find_range gives the range each character is in, and no rule tells two characters of one range apart; the nondeterministic automaton of the rules accepts, with the label of each rule, exactly the texts of that rule, and can be continued exactly along the beginnings of texts of rules.",
  ["inputs"], "all sets of token rules (from either front end) x all texts",
  "The tests look at a few ranges; characters at the edge of a range, negated classes and bounded repetitions need all characters and texts.",
  ["lapex-lexer/src/alphabet.rs", "lapex-lexer/src/nfa/mod.rs"],
  [("Alphabet::ranges", "lapex-lexer/src/alphabet.rs"), ("build_nfa_from_pattern", "lapex-lexer/src/nfa/mod.rs")], ["ranges, find_range, states and transitions of the automaton"])
p("C30", "A parser object can be used again, and besides others",
  "For every generated parser and every history of parses on one parser object (accepted, rejected or ended by a failing token source, in any order, and with parses of another parser object in the middle of one), each parse behaves as the first one of a new object: it begins by requesting a token, and its outcome, its requests and its visitor calls are those due for the tokens delivered to it.",
  ["inputs", "programs", "histories"], "all grammars x all sequences of token sequences given to one parser object, with any ending x all points at which another parser is run",
  "No test parses twice with one object; what one parse leaves behind shows only for some endings of it followed by some words.",
  ["lapex-rust-codegen/src/lr_parser/mod.rs", "lapex-rust-codegen/src/glr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl", "lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl"],
  [("lr_parser::CodeWriter::write_parser", "lapex-rust-codegen/src/lr_parser/mod.rs"), ("glr_parser::CodeWriter::write_parser", "lapex-rust-codegen/src/glr_parser/mod.rs")], ["requests, visitor calls and outcome of each parse"])
if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(d + "/properties.jsonl", "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties", [x["id"] for x in P if len(x["title"]) > 80])
