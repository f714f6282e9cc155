From e288ff40fd8d3eb24d328cd7e9f3bd76bc350e52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 01/22] fix: LR/GLR parsers accept only at the end of the input

The entry symbol was accepted as soon as it was reduced in the entry state,
so left-recursive entry rules accepted a prefix and LR(0) accepted trailing
tokens. The GLR parser additionally panicked on ambiguous inputs, since every
accepting stack popped the shared entry node.
---
 .../src/lr_parser/action_goto.rs              |  17 +--
 .../src/lr_parser/parser.cpp.tpl              |   2 +-
 .../src/lr_parser/parser_impl.h.tpl           |  26 ++---
 lapex-parser/src/lr_parser/mod.rs             |  36 +++---
 lapex-rust-codegen/src/glr_parser/mod.rs      | 105 +++++++++---------
 lapex-rust-codegen/src/lr_parser/mod.rs       |  40 +++----
 6 files changed, 104 insertions(+), 122 deletions(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..198ce3d 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -39,7 +39,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Accept => {
+            TableEntry::Shift { target: _ } => {
                 write!(output, "case ")?;
 
                 if let Symbol::NonTerminal(_) = symbol {
@@ -67,12 +67,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         writeln!(output, "{{")?;
         match entry {
             TableEntry::Shift { target } => {
-                writeln!(output, "Transition transition{{{}, false}};", target)?;
-                writeln!(output, "return transition;")?;
-            }
-            TableEntry::Accept => {
-                writeln!(output, "Transition transition{{0, true}};")?;
-                writeln!(output, "return transition;")?;
+                writeln!(output, "return {};", target)?;
             }
             _ => (),
         }
@@ -137,6 +132,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 writeln!(output, "Action act{{ActionType::Reduce, {}}};", rule_index)?;
                 writeln!(output, "return act;")?;
             }
+            TableEntry::Accept => {
+                writeln!(output, "Action act{{ActionType::Accept, 0}};")?;
+                writeln!(output, "return act;")?;
+            }
             _ => (),
         }
         writeln!(output, "}}")
@@ -149,7 +148,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => {
                 write!(output, "case ")?;
 
                 match symbol {
diff --git a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
index 493da7e..79c30ec 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
@@ -20,7 +20,7 @@ namespace parser
         /*{stack_reduce_table}*/
     }
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol)
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol)
     {
         /*{goto_table}*/
     }
diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..6145beb 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -30,6 +30,7 @@ namespace parser
     {
         Shift,
         Reduce,
+        Accept,
     };
 
     struct Action
@@ -38,17 +39,11 @@ namespace parser
         uint16_t reduced_rule;
     };
 
-    struct Transition
-    {
-        uint32_t next_state;
-        bool is_accepting;
-    };
-
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
 
     void reduce_stack(uint32_t rule, std::vector<Symbol> &parse_stack, std::vector<Symbol> &rev_reduced_symbols);
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol);
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol);
 
     template <class T>
     void reduce_visitor(Visitor<T> &visitor, const std::vector<Symbol> &rev_reduced_symbols, uint32_t rule)
@@ -91,19 +86,14 @@ namespace parser
                 reduce_stack(action.reduced_rule, parse_stack, rev_reduced_symbols);
                 reduce_visitor(this->visitor, rev_reduced_symbols, action.reduced_rule);
             }
-            Symbol current_symbol = parse_stack.back();
-            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
-            Transition transition = retrieve_next_state(stack_state, current_symbol);
-            if (transition.is_accepting)
+            else if (action.action_type == ActionType::Accept)
             {
-                parse_stack.pop_back();
-                parse_stack.pop_back();
-            }
-            else
-            {
-                Symbol next_state_symbol{SymbolKind::State, transition.next_state};
-                parse_stack.push_back(next_state_symbol);
+                return;
             }
+            Symbol current_symbol = parse_stack.back();
+            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
+            Symbol next_state_symbol{SymbolKind::State, retrieve_next_state(stack_state, current_symbol)};
+            parse_stack.push_back(next_state_symbol);
         }
     }
 }
diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..10b762c 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -188,15 +188,13 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
         for item in item_set {
             if let Some(transition_symbol) = item.symbol_after_dot() {
                 let mut target_item = item.clone();
-                if target_item.rule().lhs().is_some() {
-                    target_item.advance_dot();
-                    let target_item_set =
-                        expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
-                    let transition_set = transition_map
-                        .entry(transition_symbol)
-                        .or_insert(ItemHashSet::new());
-                    transition_set.extend(target_item_set.iter().map(|i| i.clone()));
-                }
+                target_item.advance_dot();
+                let target_item_set =
+                    expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
+                let transition_set = transition_map
+                    .entry(transition_symbol)
+                    .or_insert(ItemHashSet::new());
+                transition_set.extend(target_item_set.iter().map(|i| i.clone()));
             }
         }
         for (edge, item_set) in transition_map {
@@ -314,7 +312,8 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else {
+                    } else if reducing_items[0].rule().lhs().is_some() {
+                        // the entry rule is exempt, as it is only accepted at the end of the input
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -492,6 +491,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
         for item in item_set {
             // we can continue after this since there can be at most one reducable (conflicts already checked)
             if item.symbol_after_dot().is_none() {
+                // the entry symbol was completely parsed, only the end of the input may follow
+                if item.rule().lhs().is_none() {
+                    table.insert_accept(*state, Symbol::End);
+                    continue;
+                }
                 match N {
                     0 => {
                         for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
@@ -511,15 +515,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
             .map(|e| (*e.weight(), e.target()))
             .collect();
         for symbol in grammar.symbols() {
-            if symbol == *grammar.entry_point() && state.index() == entry_state {
-                table.insert_accept(*state, symbol);
+            if let Some(target) = reachable_states.get(&symbol) {
+                table.insert_shift(*state, symbol, *target);
             } else {
-                if let Some(target) = reachable_states.get(&symbol) {
-                    table.insert_shift(*state, symbol, *target);
-                } else {
-                    if table.get_entry(state.index(), symbol).is_none() {
-                        table.insert_error(*state, symbol);
-                    }
+                if table.get_entry(state.index(), symbol).is_none() {
+                    table.insert_error(*state, symbol);
                 }
             }
         }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..407b80c 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -212,12 +212,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Some(Goto::State { state_id: #target }),
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Some(Goto::Accept),
+                        #condition => Some(#target),
                     });
                 }
                 _ => (),
@@ -302,6 +297,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: ReducedRule::#rule_name }
                         });
                     }
+                    TableEntry::Accept => {
+                        actions_for_entry.push(quote! {
+                           Action::Accept
+                        });
+                    }
                     _ => (),
                 }
             }
@@ -320,7 +320,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut BTreeSet<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.insert(Some(token_index));
                 }
@@ -433,12 +435,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
+                Reduce { rule: ReducedRule },
                 Accept,
-                State { state_id: usize }
             }
 
             type StateId = usize;
@@ -516,7 +514,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<Goto> {
+                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<StateId> {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => None,
@@ -543,52 +541,51 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let stack = root.push(Some(#entry), None);
                     let mut stacks = vec![stack];
 
-                    while !(stacks.len() == 1 && stacks[0].is_root()) {
+                    loop {
                         let (next_token, next_data) = lookahead.front().unwrap();
                         let reduced = self
                             .apply_reduces(stacks, next_token, next_data)
                             .map_err(combine_errors)?;
 
+                        // if there are multiple derivations for the input, the first one is used
+                        if let Some(accepted) = reduced.iter().find(|s| s.is_root()) {
+                            self.visit_recorded(accepted);
+                            return Ok(());
+                        }
+
                         let (next_token, next_data) = lookahead.pop_front().unwrap();
                         let new_symbol = StackSymbol::Terminal { token: next_token };
                         lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
-                        let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
-                            reduced
-                        } else {
-                            let mut new_stacks = Vec::new();
-                            for stack in reduced {
-                                let state = *stack.top().unwrap();
-                                match self.next_goto(&state, &new_symbol) {
-                                    Some(Goto::State { state_id }) => {
-                                        stack.record(RecordedVisit::Shift {
-                                            token: next_token,
-                                            data: next_data.clone(),
-                                        });
-                                        let new_node = stack.push(Some(state_id), Some(new_symbol));
-                                        new_stacks.push(new_node);
-                                    }
-                                    Some(Goto::Accept) => unreachable!(),
-                                    None => (),
+                        let mut new_stacks = Vec::new();
+                        for stack in reduced {
+                            let state = *stack.top().unwrap();
+                            match self.next_goto(&state, &new_symbol) {
+                                Some(state_id) => {
+                                    stack.record(RecordedVisit::Shift {
+                                        token: next_token,
+                                        data: next_data.clone(),
+                                    });
+                                    let new_node = stack.push(Some(state_id), Some(new_symbol));
+                                    new_stacks.push(new_node);
                                 }
+                                None => (),
                             }
-                            new_stacks
-                        };
+                        }
                         if new_stacks.len() == 1 {
-                            let stack = new_stacks.pop().unwrap();
-                            let recorded = stack.pop_recorded();
-                            for record in recorded {
-                                match record {
-                                    RecordedVisit::Reduce { rule } => self.do_visit(&rule),
-                                    RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
-                                }
-                            }
-                            stacks = vec![stack];
-                        } else {
-                            stacks = new_stacks;
+                            self.visit_recorded(&new_stacks[0]);
+                        }
+                        stacks = new_stacks;
+                    }
+                }
+
+                fn visit_recorded(&mut self, stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>) {
+                    for record in stack.pop_recorded() {
+                        match record {
+                            RecordedVisit::Reduce { rule } => self.do_visit(&rule),
+                            RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
                         }
                     }
-                    Ok(())
                 }
 
                 fn apply_reduces(
@@ -613,13 +610,15 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
-                                                    &mut reduced,
                                                     &mut new_to_reduce,
                                                 );
                                             }
                                             Action::Shift => {
                                                 reduced.push(stack.clone_and_fork_record());
                                             }
+                                            Action::Accept => {
+                                                reduced.push(stack.accepted_root());
+                                            }
                                         };
                                     }
                                 }
@@ -641,7 +640,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
-                    accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
@@ -657,15 +655,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         }
                         let state = *stack.top().unwrap();
                         match self.next_goto(&state, &reduced_symbol) {
-                            Some(Goto::State { state_id }) => {
+                            Some(state_id) => {
                                 // push new non-terminal
                                 let new_node = stack.push(Some(state_id), Some(reduced_symbol));
                                 new_to_reduce.push(new_node);
                             }
-                            Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
-                            }
                             None => (),
                         }
                     }
@@ -714,6 +708,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         }
                     }
 
+                    pub fn accepted_root(&self) -> Self {
+                        GraphNode {
+                            recorded: Rc::new(RefCell::new(self.recorded.borrow().clone())),
+                            ..GraphNode::root()
+                        }
+                    }
+
                     pub fn unwind_stacks(&self, depth: usize) -> Vec<Self> {
                         if depth == 0 {
                             return vec![self.clone_and_fork_record()];
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..079a992 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -159,12 +159,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Goto::State { state_id: #target },
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Goto::Accept,
+                        #condition => #target,
                     });
                 }
                 _ => (),
@@ -244,6 +239,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Ok(Action::Reduce { rule: ReducedRule::#rule_name }),
                     });
                 }
+                TableEntry::Accept => {
+                    actions.push(quote! {
+                        #condition => Ok(Action::Accept),
+                    });
+                }
                 _ => (),
             }
         }
@@ -256,7 +256,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut Vec<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.push(Some(token_index));
                 }
@@ -370,12 +372,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
+                Reduce { rule: ReducedRule },
                 Accept,
-                State { state_id: usize }
             }
 
             #[derive(Debug)]
@@ -415,7 +413,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: usize, symbol: StackSymbol) -> Goto {
+                fn next_goto(&self, state: usize, symbol: StackSymbol) -> usize {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => unreachable!()
@@ -443,7 +441,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut stack = Vec::new();
                     stack.push(StackSymbol::State { state_id: #entry });
 
-                    while !stack.is_empty() {
+                    loop {
                         let (next_token, _) = lookahead.front().unwrap();
                         let state = match stack.last().unwrap() {
                             StackSymbol::State { state_id } => *state_id,
@@ -461,24 +459,16 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: reduced_rule } => {
                                 self.reduce_stack_and_visit(reduced_rule, &mut stack);
                             }
+                            Action::Accept => return Ok(()),
                         }
                         let current_symbol = stack.last().unwrap();
                         let state = match &stack[stack.len() - 2] {
                             StackSymbol::State { state_id } => *state_id,
                             _ => unreachable!()
                         };
-                        let goto = self.next_goto(state, *current_symbol);
-                        match goto {
-                            Goto::Accept => {
-                                stack.pop();
-                                stack.pop();
-                            }
-                            Goto::State { state_id } => {
-                                stack.push(StackSymbol::State { state_id })
-                            }
-                        }
+                        let state_id = self.next_goto(state, *current_symbol);
+                        stack.push(StackSymbol::State { state_id });
                     }
-                    Ok(())
                 }
             }
         };
-- 
2.43.0


From dcae03fcf11173180f222b47f2aa350e85192410 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 02/22] fix: epsilon inside of a sequence produces nothing

---
 lapex-parser/src/grammar_builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..1e38dbf 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -142,7 +142,14 @@ impl<'rules> GrammarBuilder<'rules> {
                     .into_iter()
                     .map(|pattern| self.transform_pattern(pattern, parent_rule))
                     .collect();
-                let symbols: Vec<Symbol> = symbols?.into_iter().flat_map(|v| v).collect();
+                let mut symbols: Vec<Symbol> = symbols?
+                    .into_iter()
+                    .flat_map(|v| v)
+                    .filter(|s| *s != Symbol::Epsilon)
+                    .collect();
+                if symbols.is_empty() {
+                    symbols.push(Symbol::Epsilon);
+                }
                 Ok(symbols)
             }
             ProductionPattern::Alternative { elements } => {
-- 
2.43.0


From 8f8b717680371853fa8c0eea6904dc0e45d9ba54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 03/22] fix: do not apply the tag of a rule to its anonymous
 sub-rules

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 13 ++++++++++---
 lapex-rust-codegen/src/lr_parser/mod.rs  | 11 +++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 407b80c..8d2df03 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -62,6 +62,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    fn get_rule_tag<'rule>(&self, rule: &Rule<'rule>) -> Option<&'rule str> {
+        // anonymous non-terminals are not tagged, even though they stem from a tagged rule
+        let non_terminal = rule.lhs()?;
+        self.grammar.get_production_name(&non_terminal)?;
+        rule.rule().inner.tag
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -72,7 +79,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +121,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -365,7 +372,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 079a992..60ce2e1 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -58,6 +58,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    fn get_rule_tag<'rule>(&self, rule: &Rule<'rule>) -> Option<&'rule str> {
+        // anonymous non-terminals are not tagged, even though they stem from a tagged rule
+        let non_terminal = rule.lhs()?;
+        self.grammar.get_production_name(&non_terminal)?;
+        rule.rule().inner.tag
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -68,7 +75,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -301,7 +308,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From 10a1ca4ed84ab24dc1aa40fc8695194460cdb744 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 04/22] fix: support repetitions with an exact count in regexes

---
 lapex-lexer/src/nfa/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..3a8f585 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -105,6 +105,9 @@ fn build_nfa_from_pattern<'rules>(
                             nfa.add_epsilon_transition(inner_end, previous);
                             nfa.add_epsilon_transition(inner_end, end);
                         }
+                        Some(max) if max == min => {
+                            nfa.add_epsilon_transition(inner_end, end);
+                        }
                         Some(max) => {
                             let additional_until_max = max - min;
                             let max_start = nfa.add_intermediate_state();
-- 
2.43.0


From 624b500e7a79a5b747e46b6aa7031e0a46181feb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 05/22] fix: LR(0) reductions do not conflict with gotos on
 non-terminals

---
 lapex-parser/src/lr_parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 10b762c..c89c9a4 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -312,7 +312,9 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else if reducing_items[0].rule().lhs().is_some() {
+                    } else if reducing_items[0].rule().lhs().is_some()
+                        && matches!(edge.weight(), Symbol::Terminal(_))
+                    {
                         // the entry rule is exempt, as it is only accepted at the end of the input
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
@@ -498,7 +500,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
                 }
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From 42c99632fc2986ea69b2826e70cf2d354338823b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 06/22] fix: substitute the entry non-terminal in the C++ LL
 parser template

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From 571b5d36aa46d2c90e81d8b5a283d56dc9c1fe21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 07/22] fix: exit with a failure status if the generation
 failed

---
 lapex-cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index 9f3d6f5..f7972ec 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -66,6 +66,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    std::process::exit(1);
                 }
                 _ => {}
             }
@@ -93,6 +94,8 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    target_dir.close().unwrap();
+                    std::process::exit(1);
                 }
                 _ => {
                     assert!(
-- 
2.43.0


From 5fbef886f3f44ed09a8b5134d7da1f27d3fcfe63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 08/22] fix: support names with trailing and repeated
 underscores

---
 lapex-rust-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..f55cc5c 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -75,7 +75,7 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
         .map(|s| {
-            let (head, tail) = s.split_at(1);
+            let (head, tail) = s.split_at(s.len().min(1));
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
         })
         .collect::<Vec<String>>()
-- 
2.43.0


From 713d6b4f4b4541c4f82d5b56a9b0c905b7536cf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 09/22] fix: count columns of grammar tokens in characters

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..9a9b0d6 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().chars().count() as u16;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 2d9092cc0f0d65c8f4a6399cbf5ff6ccc097d5ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 10/22] fix: C++ LL parser selects productions by the
 non-terminal enum

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..f941ec4 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -151,14 +151,14 @@ impl<'parser> CodeWriter<'parser> {
     }
 
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
-        writeln!(output, "switch(non_terminal.identifier) {{")?;
+        writeln!(
+            output,
+            "switch(static_cast<NonTerminalType>(non_terminal.identifier)) {{"
+        )?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From 9608f25c3f8689202be65d9b3f469c8f5c9f1a84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 11/22] fix: C++ LL parser allows nullable productions at the
 end of the input

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index f941ec4..adb52f8 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -160,7 +160,13 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            // the end of the input is a valid lookahead as well, its token is named TK_EOF
+            let lookaheads = || {
+                self.grammar
+                    .terminals_with_names()
+                    .chain(std::iter::once((Symbol::End, "EOF")))
+            };
+            for (terminal, token_name) in lookaheads() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -172,8 +178,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                lookaheads()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
-- 
2.43.0


From 87ce3b221abdbab59104d29d23d0e9ff9221df59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 12/22] fix: generated lexers do not produce empty tokens

---
 lapex-cpp-codegen/src/lexer/mod.rs  | 3 ++-
 lapex-rust-codegen/src/lexer/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lapex-cpp-codegen/src/lexer/mod.rs b/lapex-cpp-codegen/src/lexer/mod.rs
index 800e74a..342a775 100644
--- a/lapex-cpp-codegen/src/lexer/mod.rs
+++ b/lapex-cpp-codegen/src/lexer/mod.rs
@@ -72,7 +72,8 @@ impl<'lexer> LexerCodeWriter<'lexer> {
                 }
             }
             writeln!(output, "default:")?;
-            if let AutomatonState::Accepting(accept) = node {
+            // a token cannot be empty, as the lexer would never advance
+            if let (AutomatonState::Accepting(accept), true) = (node, index.index() != 0) {
                 writeln!(output, "// ACCEPT: {:?}", accept)?;
                 writeln!(output, "this->end_pos = this->position;")?;
                 writeln!(output, "return TokenType::TK_{};", accept.name)?;
diff --git a/lapex-rust-codegen/src/lexer/mod.rs b/lapex-rust-codegen/src/lexer/mod.rs
index da34992..012f8da 100644
--- a/lapex-rust-codegen/src/lexer/mod.rs
+++ b/lapex-rust-codegen/src/lexer/mod.rs
@@ -74,7 +74,8 @@ impl<'grammar> LexerCodeWriter<'grammar> {
                     });
                 }
             }
-            if let AutomatonState::Accepting(accept) = node {
+            // a token cannot be empty, as the lexer would never advance
+            if let (AutomatonState::Accepting(accept), true) = (node, state_id != 0) {
                 let name: TokenStream = get_token_enum_name(accept.name).parse().unwrap();
                 automaton_cases.push(quote! {
                     (#state_id, _) => {
-- 
2.43.0


From 999c112e5033e3af0ace8f5013009aeb56d32e93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 13/22] fix: the dot of the bootstrap parser does not match
 newlines

---
 lapex-input-bootstrap/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-input-bootstrap/src/lib.rs b/lapex-input-bootstrap/src/lib.rs
index b18c40d..782972b 100644
--- a/lapex-input-bootstrap/src/lib.rs
+++ b/lapex-input-bootstrap/src/lib.rs
@@ -118,7 +118,7 @@ fn parse_regex_element(input: &[u8]) -> IResult<&[u8], Pattern> {
         parse_regex_group,
         parse_char_set,
         map(tag("."), |_| Pattern::CharSet {
-            chars: Vec::new(),
+            chars: vec![Characters::Single('\n')],
             negated: true,
         }),
         map(parse_char, |ch| Pattern::Char {
-- 
2.43.0


From a2e08def90aed1c6a2421d40219a45058ddbea66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 14/22] fix: productions of more than 255 symbols no longer
 abort the LR generator

---
 lapex-parser/src/lr_parser/item.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 43e8d6b..9de5d84 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -8,7 +8,7 @@ use lapex_input::{ProductionRule, Spanned};
 
 use crate::grammar::{Grammar, Rule, Symbol};
 
-type DotIdx = u8;
+type DotIdx = u32;
 
 struct RuleRef<'grammar, 'rules>(pub &'grammar Rule<'rules>);
 
-- 
2.43.0


From 25c3058e65944ea60d7cc4b0ae424ef879919523 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:43 +0000
Subject: [PATCH 15/22] fix: grammar files with more than 65535 lines or
 columns aborted the reader

---
 lapex-input-gen/src/lib.rs | 8 ++++----
 lapex-input/src/lib.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 9a9b0d6..511f333 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -514,8 +514,8 @@ impl LapexInputParser for GeneratedLapexInputParser {
         let mut lexer = lexer::Lexer::new(source);
         let mut stack = Vec::new();
         let visitor = LapexAstVisitor { stack: &mut stack };
-        let mut col: u16 = 1;
-        let mut line: u16 = 1;
+        let mut col: u32 = 1;
+        let mut line: u32 = 1;
         let token_fun = || {
             let mut next_tk = lexer.next().unwrap();
             loop {
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().chars().count() as u16;
+                        col += lexer.slice().chars().count() as u32;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().chars().count() as u16;
+            col += lexer.slice().chars().count() as u32;
 
             let token_data = TokenData {
                 text: lexer.slice(),
diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..84bd361 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -2,8 +2,8 @@ use std::fmt::{Display, Formatter};
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
 pub struct SourcePos {
-    pub line: u16,
-    pub col: u16,
+    pub line: u32,
+    pub col: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
-- 
2.43.0


From 2358588ffbc38cec47cc958f2bfc71871d1ebcb2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 16/22] fix: the C++ LL parser requested a token behind the end
 of the input

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index 8d733c1..82e1f73 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -81,6 +81,10 @@ namespace parser
                     throw_unexpected_token_error(static_cast<lexer::TokenType>(current.identifier), lookahead_tk);
                 }
                 this->visitor.token(lookahead_tk, lookahead_token_and_data.second);
+                if (lookahead_tk == lexer::TokenType::TK_EOF)
+                {
+                    return; // there is no token behind the end of the input
+                }
                 lookahead.pop();
                 lookahead.push(this->token_function());
             }
-- 
2.43.0


From 09003cc7c68b04462c3bb473011c4b51a5751130 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 17/22] fix: GLR errors left out the stacks that ended in an
 earlier round of reductions

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 8d2df03..6650339 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -603,9 +603,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 ) -> Result<Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>, Vec<ParserError<T, E>>> {
                     let mut to_reduce = stacks;
                     let mut reduced = Vec::new();
+                    let mut errors = Vec::new();
                     while !to_reduce.is_empty() {
-                        let mut errors = Vec::new();
-                        let all_error_count = to_reduce.len();
                         let mut new_to_reduce = Vec::new();
                         for stack in to_reduce {
                             let state = *stack.top().unwrap();
@@ -634,12 +633,12 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                 }
                             }
                         }
-                        // if all reduces errored, the parser must have encountered an error
-                        if reduced.is_empty() && errors.len() == all_error_count {
-                            return Err(errors);
-                        }
                         to_reduce = new_to_reduce;
                     }
+                    // if no stack is left, the parser must have encountered an error
+                    if reduced.is_empty() {
+                        return Err(errors);
+                    }
                     Ok(reduced)
                 }
 
-- 
2.43.0


From 0595e9d396b4d654726723134ff78d49d42577a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 18/22] fix: errors of buffered writes were ignored

---
 lapex-codegen/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lapex-codegen/src/lib.rs b/lapex-codegen/src/lib.rs
index cd9a4ae..c4c5514 100644
--- a/lapex-codegen/src/lib.rs
+++ b/lapex-codegen/src/lib.rs
@@ -46,7 +46,9 @@ impl<'writer> GeneratedCodeWriter<'writer> {
             code_generator(writer)
         } else {
             let mut sink = (self.default_writer_fun)(key)?;
-            code_generator(&mut sink)
+            code_generator(&mut sink)?;
+            // a buffered writer ignores errors when it is dropped
+            sink.flush()
         }
     }
 }
-- 
2.43.0


From ca921ab40867a5bc54de9e1d3d5fb52601b8105f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 19/22] fix: the order of LR items depended on the address of
 the entry rule

---
 lapex-parser/src/lr_parser/item.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 9de5d84..0c92c23 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -39,15 +39,23 @@ impl<'grammar, 'rules> PartialEq for RuleRef<'grammar, 'rules> {
 }
 impl<'grammar, 'rules> Eq for RuleRef<'grammar, 'rules> {}
 
+impl<'grammar, 'rules> RuleRef<'grammar, 'rules> {
+    // The rules of a grammar lie behind each other in memory, but the entry rule is stored on its own.
+    // It has to be ordered independently of its address, otherwise the order differs from run to run.
+    fn sort_key(&self) -> (bool, *const Rule<'rules>) {
+        (self.lhs().is_none(), self.0 as *const Rule)
+    }
+}
+
 impl<'grammar, 'rules> PartialOrd for RuleRef<'grammar, 'rules> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        (self.0 as *const Rule).partial_cmp(&(other.0 as *const Rule))
+        Some(self.cmp(other))
     }
 }
 
 impl<'grammar, 'rules> Ord for RuleRef<'grammar, 'rules> {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        (self.0 as *const Rule).cmp(&(other.0 as *const Rule))
+        self.sort_key().cmp(&other.sort_key())
     }
 }
 
-- 
2.43.0


From e7952c4279548eebde0a85495b7735ea7a3501da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 20/22] fix: generated GLR parsers overflow the call stack when
 a deep parse stack is released

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 6650339..0679507 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -814,6 +814,18 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     node_value: Option<N>,
                     neighbors: Vec<(Option<E>, GraphNode<N, E, R>)>,
                 }
+
+                // deep stacks are released in a loop, because the recursion of the default would overflow the call stack
+                impl<N, E, R> Drop for GraphNodeInner<N, E, R> {
+                    fn drop(&mut self) {
+                        let mut pending = std::mem::take(&mut self.neighbors);
+                        while let Some((_, node)) = pending.pop() {
+                            if let Ok(inner) = Rc::try_unwrap(node.inner) {
+                                pending.append(&mut inner.into_inner().neighbors);
+                            }
+                        }
+                    }
+                }
             }
         };
         write!(output, "{}", tokens)
-- 
2.43.0


From 20b09292c77af0c932bb2ed3f1daa99cb531ebb9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 21/22] fix: the debug command exits with status 0 when the
 source file is not parsed

---
 lapex-cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index f7972ec..df98ae4 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -158,6 +158,9 @@ fn main() {
                         eprintln!("Failed to parse {}", source_path.display());
                     }
                     target_dir.close().unwrap();
+                    if !exit_code.success() {
+                        std::process::exit(1);
+                    }
                 }
             }
         }
-- 
2.43.0


From 470c4b098f4204ca4b8f8bd896efa4922dab5c6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 22/22] fix: non-terminals whose names only differ in case (or
 underscores) broke the generated code

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 16 ++++++++--------
 lapex-cpp-codegen/src/lr_parser/mod.rs | 16 ++++++++--------
 lapex-rust-codegen/src/lib.rs          | 16 +++++++++-------
 3 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index adb52f8..144c672 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -71,16 +71,16 @@ impl<'parser> CodeWriter<'parser> {
         non_terminal: Symbol,
         output: &mut dyn Write,
     ) -> Result<(), Error> {
-        if let Some(name) = self.grammar.get_production_name(&non_terminal) {
-            write!(output, "NT_{}", name.to_uppercase())?;
+        if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
+            // the index keeps apart non-terminals whose names only differ in case
+            let name = self
+                .grammar
+                .get_production_name(&non_terminal)
+                .unwrap_or("anon");
+            write!(output, "NT_{}_{}", name.to_uppercase(), non_terminal_index)
         } else {
-            if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
-                write!(output, "NT_ANON{}", non_terminal_index)?;
-            } else {
-                unreachable!()
-            }
+            unreachable!()
         }
-        Ok(())
     }
 
     fn write_non_terminal_enum_variants(&self, output: &mut dyn Write) -> Result<(), Error> {
diff --git a/lapex-cpp-codegen/src/lr_parser/mod.rs b/lapex-cpp-codegen/src/lr_parser/mod.rs
index e1ac36a..8f5d60e 100644
--- a/lapex-cpp-codegen/src/lr_parser/mod.rs
+++ b/lapex-cpp-codegen/src/lr_parser/mod.rs
@@ -63,16 +63,16 @@ impl<'grammar: 'rules, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal: Symbol,
         output: &mut dyn Write,
     ) -> Result<(), Error> {
-        if let Some(name) = self.grammar.get_production_name(&non_terminal) {
-            write!(output, "NT_{}", name.to_uppercase())?;
+        if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
+            // the index keeps apart non-terminals whose names only differ in case
+            let name = self
+                .grammar
+                .get_production_name(&non_terminal)
+                .unwrap_or("anon");
+            write!(output, "NT_{}_{}", name.to_uppercase(), non_terminal_index)
         } else {
-            if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
-                write!(output, "NT_ANON{}", non_terminal_index)?;
-            } else {
-                unreachable!()
-            }
+            unreachable!()
         }
-        Ok(())
     }
 
     fn write_non_terminal_enum_variants(&self, output: &mut dyn Write) -> Result<(), Error> {
diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index f55cc5c..e8a92f8 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -61,14 +61,16 @@ fn get_token_enum_name(name: &str) -> String {
 }
 
 fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String {
-    if let Some(name) = grammar.get_production_name(&non_terminal) {
-        format!("Nt{}", convert_snake_to_upper_camel(name))
+    if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
+        // the index keeps apart non-terminals whose names only differ in case or underscores
+        let name = grammar.get_production_name(&non_terminal).unwrap_or("anon");
+        format!(
+            "Nt{}N{}",
+            convert_snake_to_upper_camel(name),
+            non_terminal_index
+        )
     } else {
-        if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
-            format!("NtAnon{}", non_terminal_index)
-        } else {
-            unreachable!()
-        }
+        unreachable!()
     }
 }
 
-- 
2.43.0

