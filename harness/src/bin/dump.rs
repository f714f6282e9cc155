//! Dumps what the library computes for a grammar file, as JSON.
//! job: {"id", "path", "want": [..]}; want: ast, boot, lex, bnf, ll, lr0, lr1, lalr
use lapex_automaton::AutomatonState;
use lapex_input::{
    Characters, LapexInputParser, Pattern, ProductionPattern, RuleSet, SourceSpan, TokenPattern,
};
use lapex_parser::grammar::{Grammar, Rule, Symbol};
use lapex_parser::ll_parser::LLParserError;
use lapex_parser::lr_parser::{ActionGotoTable, Conflict, GenerationResult, TableEntry};
use lapex_verif_harness::{catch, run_jobs};
use serde_json::{json, Value};

fn chars(c: &Characters) -> Value {
    match c {
        Characters::Single(c) => json!([*c as u32, *c as u32]),
        Characters::Range(a, b) => json!([*a as u32, *b as u32]),
    }
}

fn regex(p: &Pattern) -> Value {
    match p {
        Pattern::Sequence { elements } => json!(["seq", elements.iter().map(regex).collect::<Vec<_>>()]),
        Pattern::Alternative { elements } => json!(["alt", elements.iter().map(regex).collect::<Vec<_>>()]),
        Pattern::Repetition { min, max, inner } => {
            json!(["rep", min, max.map(|m| m as i64).unwrap_or(-1), regex(inner)])
        }
        Pattern::CharSet { chars: cs, negated } => {
            json!(["set", cs.iter().map(chars).collect::<Vec<_>>(), negated])
        }
        Pattern::Char { chars: c } => json!(["set", [chars(c)], false]),
    }
}

fn pattern(p: &ProductionPattern) -> Value {
    match p {
        ProductionPattern::Sequence { elements } => json!(["seq", elements.iter().map(pattern).collect::<Vec<_>>()]),
        ProductionPattern::Alternative { elements } => json!(["alt", elements.iter().map(pattern).collect::<Vec<_>>()]),
        ProductionPattern::OneOrMany { inner } => json!(["plus", pattern(inner)]),
        ProductionPattern::ZeroOrMany { inner } => json!(["star", pattern(inner)]),
        ProductionPattern::Optional { inner } => json!(["opt", pattern(inner)]),
        ProductionPattern::Rule { rule_name } => json!(["sym", rule_name]),
        ProductionPattern::Epsilon => json!(["eps"]),
    }
}

fn span(s: &SourceSpan) -> Value {
    json!([s.start.line, s.start.col, s.end.line, s.end.col])
}

fn ast(rules: &RuleSet, text: &str) -> Value {
    let sub = |s: &SourceSpan| s.substring(text).map(|t| t.chars().map(|c| c as u32).collect::<Vec<_>>()).unwrap_or(vec![]);
    json!({
        "status": "ok",
        "entry": rules.entry_rule.inner.name,
        "entry_span": span(&rules.entry_rule.span),
        "tokens": rules.token_rules.iter().map(|t| {
            let (kind, chars, re) = match &t.inner.pattern {
                TokenPattern::Literal { characters } =>
                    ("lit", characters.iter().map(|c| *c as u32).collect::<Vec<_>>(), json!(["eps"])),
                TokenPattern::Pattern { pattern } => ("re", vec![], regex(pattern)),
            };
            json!({"name": t.inner.name, "prec": t.inner.precedence.map(|p| p as i64).unwrap_or(-1),
                   "eff": t.inner.precedence(),
                   "kind": kind, "chars": chars, "re": re, "span": span(&t.span), "src": sub(&t.span)})
        }).collect::<Vec<_>>(),
        "prods": rules.production_rules.iter().map(|p| json!({
            "name": p.inner.name, "tag": p.inner.tag.unwrap_or(""), "pat": pattern(&p.inner.pattern),
            "span": span(&p.span), "src": sub(&p.span)
        })).collect::<Vec<_>>(),
    })
}

fn sym(s: &Symbol) -> i64 {
    match s {
        Symbol::End => 0,
        Symbol::Epsilon => -1,
        Symbol::Terminal(i) => 1 + *i as i64,
        Symbol::NonTerminal(i) => 1000 + *i as i64,
    }
}

fn rule_index(g: &Grammar, r: &Rule) -> i64 {
    // 1-based index of the rule in the grammar, 0 for the entry rule
    if r.lhs().is_none() {
        return 0;
    }
    for (i, x) in g.rules().iter().enumerate() {
        if std::ptr::eq(x as *const Rule as *const u8, r as *const Rule as *const u8) {
            return i as i64 + 1;
        }
    }
    -1
}

fn bnf(g: &Grammar) -> Value {
    json!({
        "status": "ok",
        "entry": sym(g.entry_point()),
        "entry_text": g.get_symbol_name(g.entry_point()),
        "entry_rhs": g.entry_rule().rhs().iter().map(sym).collect::<Vec<_>>(),
        "terminals": g.terminals().map(|s| json!([sym(&s), match s { Symbol::Terminal(i) => g.get_token_name(i).to_string(), _ => String::new() }])).collect::<Vec<_>>(),
        "nts": g.non_terminals().map(|s| json!([sym(&s), g.get_production_name(&s).unwrap_or("")])).collect::<Vec<_>>(),
        "rules": g.rules().iter().map(|r| json!({
            "lhs": r.lhs().map(|s| sym(&s)).unwrap_or(-2),
            "rhs": r.rhs().iter().map(sym).collect::<Vec<_>>(),
            "span": span(&r.rule().span),
            "tag": r.rule().inner.tag.unwrap_or(""),
            "text": format!("{}", r.display(g)),
        })).collect::<Vec<_>>(),
    })
}

fn entry(g: &Grammar, e: &TableEntry) -> Value {
    match e {
        TableEntry::Shift { target } => json!(["s", target]),
        TableEntry::Reduce { rule } => json!(["r", rule_index(g, rule)]),
        TableEntry::Error => json!(["e", 0]),
        TableEntry::Accept => json!(["a", 0]),
    }
}

fn table(g: &Grammar, t: &ActionGotoTable) -> Value {
    let syms: Vec<Symbol> = g.symbols().chain(std::iter::once(Symbol::End)).collect();
    json!({
        "entry": t.entry_state(),
        "syms": syms.iter().map(sym).collect::<Vec<_>>(),
        "rows": (0..t.states()).map(|s| syms.iter().map(|x| match t.get_entry(s, *x) {
            None => json!([]),
            Some(es) => json!(es.iter().map(|e| entry(g, e)).collect::<Vec<_>>()),
        }).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}

fn conflicts(g: &Grammar, cs: &[Conflict]) -> Value {
    json!(cs.iter().map(|c| match c {
        Conflict::ShiftReduce { state, item_to_reduce, shift_symbol } =>
            json!({"kind": "sr", "state": state, "items": [rule_index(g, item_to_reduce.rule())],
                   "complete": item_to_reduce.symbol_after_dot().is_none(), "sym": sym(shift_symbol)}),
        Conflict::ReduceReduce { state, items } =>
            json!({"kind": "rr", "state": state, "items": items.iter().map(|i| rule_index(g, i.rule())).collect::<Vec<_>>(),
                   "complete": items.iter().all(|i| i.symbol_after_dot().is_none()), "sym": -1}),
    }).collect::<Vec<_>>())
}

fn lr<const N: usize>(g: &Grammar, lalr: bool) -> Value {
    let plain = match lapex_parser::lr_parser::generate_table::<N>(g, false, lalr) {
        GenerationResult::NoConflicts(t) => json!({"kind": "table", "table": table(g, &t), "conflicts": []}),
        GenerationResult::BadConflicts(cs) => json!({"kind": "conflicts", "conflicts": conflicts(g, &cs)}),
        GenerationResult::AllowedConflicts { .. } => json!({"kind": "allowed", "conflicts": []}),
    };
    let allowed = match lapex_parser::lr_parser::generate_table::<N>(g, true, lalr) {
        GenerationResult::NoConflicts(t) => json!({"kind": "table", "table": table(g, &t), "conflicts": []}),
        GenerationResult::AllowedConflicts { table: t, conflicts: cs } => {
            json!({"kind": "allowed", "table": table(g, &t), "conflicts": conflicts(g, &cs)})
        }
        GenerationResult::BadConflicts(cs) => json!({"kind": "conflicts", "conflicts": conflicts(g, &cs)}),
    };
    json!({"status": "ok", "plain": plain, "allowed": allowed})
}

fn ll(g: &Grammar) -> Value {
    match lapex_parser::ll_parser::generate_table(g) {
        Ok(t) => {
            let syms: Vec<Symbol> = g.terminals().chain(std::iter::once(Symbol::End)).collect();
            json!({"status": "ok", "conflict": [], "syms": syms.iter().map(sym).collect::<Vec<_>>(),
                "rows": g.non_terminals().map(|nt| json!({"nt": sym(&nt), "cells": syms.iter().map(|s| match t.get_production(nt, s) {
                    None => json!([]),
                    Some(p) => json!([p.iter().map(sym).collect::<Vec<_>>()]),
                }).collect::<Vec<_>>()})).collect::<Vec<_>>()})
        }
        Err(LLParserError::ParserTableConflict { non_terminal, terminal, production, existing_production }) => {
            json!({"status": "ok", "conflict": [{"nt": sym(&non_terminal), "t": sym(&terminal),
                "p1": production.iter().map(sym).collect::<Vec<_>>(),
                "p2": existing_production.iter().map(sym).collect::<Vec<_>>()}], "syms": [], "rows": []})
        }
        Err(e) => json!({"status": "error", "msg": format!("{:?}", e)}),
    }
}

fn lex(rules: &RuleSet) -> Value {
    let alphabet = lapex_lexer::generate_alphabet(&rules.token_rules);
    let (entry, nfa) = lapex_lexer::generate_nfa(&alphabet, &rules.token_rules);
    let ranges = alphabet.get_ranges();
    let rs: Vec<Value> = ranges.iter().map(|r| json!([r.start(), r.end()])).collect();
    match lapex_lexer::apply_precedence_to_dfa(nfa.powerset_construction(entry)) {
        Err(e) => json!({"status": "ok", "tie": e.rules.iter().map(|r| r.inner.clone()).collect::<Vec<_>>(),
            "spans": e.rules.iter().map(|r| span(&r.span)).collect::<Vec<_>>(),
            "prec": e.precedence, "ranges": rs, "states": []}),
        Ok(dfa) => {
            let states: Vec<Value> = dfa.states().map(|(i, s)| {
                let acc = match s { AutomatonState::Accepting(r) => r.name.to_string(), _ => String::new() };
                let mut tr: Vec<Value> = vec![];
                for (w, t) in dfa.transitions_from(i) {
                    let r = &ranges[*w];
                    tr.push(json!([r.start(), r.end(), t.index()]));
                }
                json!({"id": i.index(), "acc": acc, "tr": tr})
            }).collect();
            json!({"status": "ok", "tie": [], "spans": [], "prec": 0, "ranges": rs, "states": states})
        }
    }
}

fn job(j: &Value) -> Value {
    let path = j["path"].as_str().unwrap();
    let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap().into_boxed_str());
    let want: Vec<&str> = j["want"].as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
    let has = |w: &str| want.contains(&w);
    let mut r = json!({"id": j["id"]});
    if has("boot") {
        r["boot"] = catch(|| match (lapex_input_bootstrap::BootstrapLapexInputParser {}).parse_lapex(text) {
            Ok(rules) => ast(&rules, text),
            Err(e) => json!({"status": "error", "msg": format!("{:?}", e)}),
        });
    }
    let parsed = std::panic::catch_unwind(|| {
        if has("ast") {
            (lapex_input_gen::GeneratedLapexInputParser {}).parse_lapex(text)
        } else {
            lapex_verif_harness::AnyInputParser.parse_lapex(text)
        }
    });
    match parsed {
        Err(e) => {
            let v = catch(|| std::panic::resume_unwind(e));
            r["ast"] = v;
        }
        Ok(Err(e)) => r["ast"] = json!({"status": "error", "msg": format!("{:?}", e)}),
        Ok(Ok(rules)) => {
            if has("ast") {
                r["ast"] = catch(|| ast(&rules, text));
            } else {
                r["ast"] = json!({"status": "ok"});
            }
            if has("lex") {
                r["lex"] = catch(|| lex(&rules));
            }
            if has("bnf") || has("ll") || has("lr0") || has("lr1") || has("lalr") {
                let rules: &'static RuleSet<'static> = Box::leak(Box::new(rules));
                match std::panic::catch_unwind(|| Grammar::from_rule_set(rules)) {
                    Err(e) => r["bnf"] = catch(|| std::panic::resume_unwind(e)),
                    Ok(Err(e)) => {
                        use lapex_parser::grammar::GrammarError as E;
                        r["bnf"] = match &e {
                            E::MissingSymbol(name) => json!({"status": "error", "kind": "missing", "name": name, "spans": []}),
                            E::ConflictingRules { rules } => {
                                json!({"status": "error", "kind": "double", "name": "", "spans": rules.iter().map(span).collect::<Vec<_>>()})
                            }
                            e => json!({"status": "error", "msg": format!("{:?}", e)}),
                        }
                    }
                    Ok(Ok(g)) => {
                        let g: &'static Grammar<'static> = Box::leak(Box::new(g));
                        r["bnf"] = catch(|| bnf(g));
                        if has("ll") {
                            r["ll"] = catch(|| ll(g));
                        }
                        if has("lr0") {
                            r["lr0"] = catch(|| lr::<0>(g, false));
                        }
                        if has("lr1") {
                            r["lr1"] = catch(|| lr::<1>(g, false));
                        }
                        if has("lalr") {
                            r["lalr"] = catch(|| lr::<1>(g, true));
                        }
                    }
                }
            }
        }
    }
    r
}

fn main() {
    run_jobs(job);
}
