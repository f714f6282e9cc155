#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ model checked with TLC, bound to the code by %s"
TRUST = " Trusted: TLC, the TLA+ reading of the documented semantics, and the small recorder in harness/. Bounds are the generated grammars and inputs of the run (evidence lists them); within a case the model is explored exhaustively."
CLAIMED = {
    "C01": ("replay of specification-chosen texts through generated Rust lexers", "Generated lexers are compiled and run on a transition cover of the specified lexer automaton extended by characterising tails (plus random and multi-byte texts); every token, text, span and error of the recorded run is a step of LexTrace."),
    "C02": ("replay of specification-chosen texts through generated C++ lexers", "As C01 for the C++ back end."),
    "C17": ("checking of every quoted position in recorded error messages", "Error messages of parse, resolution, conflict and precedence errors are split into quotes; each quoted region has to be, in the specification's reading of the file, the production, name or rule the message is about, in files padded by blank lines, comments, tabs and multi-byte characters."),
    "C18": ("checking of recorded generation histories", "Every grammar is generated again and again (same process after others, reverse order, fresh processes, other paths and environments) and the history machine accepts one outcome per key only."),
    "C19": ("checking of recorded histories of invocations against a specified tool", "Sequences of real invocations on one target directory with every option and with read and write faults (missing, unreadable, directory, not UTF-8, blocked file, full device); exit status, message and directory contents are a step of Cli, which decides well-formedness, resolution and conflicts itself."),
    "C20": ("reading of real table files against the specified automaton", "The written table is parsed back and walked in product with the specification's automaton: rules, every cell, the conflict marks."),
    "C03": ("exhaustive tie search in the specified lexer and comparison with the real decision", "TLC explores every state of the product of the rules' derivative automata, finds all ties and compares them with the real precedence errors (rules, precedence, and a common text)."),
    "C08": ("replay of specification-chosen words through generated Rust parsers", "Generated parsers are compiled and run on tries of words that the specification (Earley chart of the written grammar) classifies step by step."),
    "C09": ("replay of specification-chosen words through generated C++ parsers", "As C08 for the C++ back end."),
    "C10": ("replay of words and checking of recorded visitor traces", "Generated C++ LL(1) parsers are run on word tries; acceptance is decided by the Earley specification, the recorded enter/exit/token trace by a bracket machine over the written productions."),
    "C11": ("replay of words and checking of recorded visitor traces", "Generated Rust GLR parsers (ambiguous grammars included) are run; acceptance against the Earley specification, calls against the LR(0) stack machine and the derivability of the pending tokens."),
    "C12": ("checking of recorded visitor traces", "Every recorded shift/reduce event of generated Rust LR parsers is a step of the specification's LR(0) stack machine."),
    "C13": ("checking of recorded visitor traces", "As C12 for the C++ back end."),
    "C14": ("comparison of reported expected lists with the specified automaton", "The stack of the specified LR/LL machine is advanced along each word, and the expected list of the real error compared with the tokens acceptable there; for LR(1) also with the viable continuations of the Earley chart."),
    "C21": ("checking of recorded token requests", "Every request, shift and return of the generated parsers is recorded and replayed on the pull machine of the specification."),
    "C04": ("conformance of the real BNF dump", "The rules of the real BNF are read back and each written pattern is compared with the denotation TLC computes from the EBNF specification (bounded-language equality plus structural correspondence)."),
    "C05": ("conformance of the real LL(1) tables", "Predict sets are recomputed by the specification's least fixpoint and compared cell by cell with the table or the conflict of the real generator."),
    "C06": ("conformance of the real conflict reports", "The canonical automaton is built by the specification; the product walk compares conflicts of every state with those reported by the real generator."),
    "C07": ("product walk of real tables with the specified LR automaton", "Every state of the specified automaton is paired with the real table's state and every cell compared, for LR(0), LALR(1), LR(1) and the GLR table."),
    "C15": ("reading generated grammar files with the specification's own grammar-file parser", "A TLA+ specification of the file format parses each file character by character and regex languages are compared by derivative product; malformed files must be refused."),
    "C16": ("comparison of both front ends through the grammar-file specification", "Both real readers are run on each file and their results are each compared with the specification's reading."),
    "C23": ("replay of specification-chosen texts through generated lexers and parsers connected to each other", "Grammar files are generated, compiled with lexer and parser together and run on texts; module Pipeline (specified lexer feeding the Earley chart) decides outcome, place, tokens and positions."),
    "C25": ("fault injection into the token source and checking of the recorded run", "The token source of every generated parser fails before, in or behind many words; outcome, requests and shown tokens are a step of ParserCheck (MODE fail), the calls a beginning of a derivation (VisitCheck)."),
    "C24": ("compilation of programs written against the interface the specification derives from the grammar", "For grammars with names of every kind and all languages and algorithms, Interface computes the names, a program that uses exactly these (an exhaustive match over the tokens, every visitor method implemented and no other) is compiled with the generated files and run, and the outcome judged by Interface. Grammars whose specified names coincide are listed findings."),
    "C26": ("checking of recorded runs of the debug command", "The real command is run on grammar files and texts (sentences, broken ones, missing and unreadable files); exit status, messages, printed tokens and rules are judged by Pipeline (specified lexer feeding the Earley chart)."),
    "C27": ("product walk of real automata with the specified subset automaton", "Automata of any shape (all of two states, samples and families of larger ones) are built through the public interface and converted by the real code; TLC explores the product of the specified subset automaton and the result completely."),
    "C28": ("checking of recorded writes against the specified writer", "Templates and sequences of requests are written through the real library into sinks that take few bytes at once, fill up or are refused; every byte found and every outcome is a step of module Codegen."),
    "C29": ("product walk of the real rule automata with the specified ones", "Module LexParts checks the real division of the characters and the range found for each, and explores the product of the real nondeterministic automaton with the derivative automata of all rules completely, for rules from both front ends."),
    "C30": ("trace checking of histories of one parser object", "One object of each generated parser reads many words (sentences, rejected ones, failing sources), some with another parser's run in the middle; every parse is a run of the specified stack machine from its initial state."),
    "C22": ("conformance of name resolution", "The specification resolves names and decides refusal; real result compared for every generated grammar, with undefined, duplicate and mutated names."),
}
LEVEL = {}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            how, note = CLAIMED[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=T % how, level=LEVEL.get(i, "model_checking"), level_note=note + TRUST))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not yet built")))
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: everything the checks need is public API of the crates or the generated code itself.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
