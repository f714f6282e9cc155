--------------------------------- MODULE Cfg ---------------------------------
(***************************************************************************)
(* Plain context-free grammars: nullable, FIRST, FOLLOW.                   *)
(* Symbols: 0 end of input; 1..999 terminals; 1000.. non-terminals.        *)
(* A grammar: [rules: sequence of [lhs, rhs], entry, terms, nts] (sets).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

End == 0
IsNT(s) == s >= 1000
One(S) == CHOOSE x \in S : TRUE     \* (binding through sets makes TLC evaluate things once)

RECURSIVE NullFix(_, _)
NullFix(rules, N) ==
  LET M == N \cup {rules[r].lhs : r \in {r \in DOMAIN rules : \A i \in DOMAIN rules[r].rhs : rules[r].rhs[i] \in N}}
  IN IF M = N THEN N ELSE NullFix(rules, M)

\* FIRST of a sequence, given FIRST of the non-terminals
RECURSIVE FirstSeq(_, _, _)
FirstSeq(s, null, first) ==
  IF s = <<>> THEN {}
  ELSE IF ~IsNT(Head(s)) THEN {Head(s)}
  ELSE first[Head(s)] \cup (IF Head(s) \in null THEN FirstSeq(Tail(s), null, first) ELSE {})
NullSeq(s, null) == \A i \in DOMAIN s : s[i] \in null

RECURSIVE FirstFix(_, _, _, _)
FirstFix(rules, nts, null, F) ==
  LET G == TLCEval([n \in nts |-> F[n] \cup UNION {FirstSeq(rules[r].rhs, null, F) : r \in {r \in DOMAIN rules : rules[r].lhs = n}}])
  IN IF G = F THEN F ELSE FirstFix(rules, nts, null, G)

RECURSIVE FollowFix(_, _, _, _, _)
FollowFix(rules, nts, null, first, F) ==
  LET Add(n) == UNION {UNION {LET rest == SubSeq(rules[r].rhs, i + 1, Len(rules[r].rhs))
                              IN FirstSeq(rest, null, first) \cup (IF NullSeq(rest, null) THEN F[rules[r].lhs] ELSE {})
                              : i \in {i \in DOMAIN rules[r].rhs : rules[r].rhs[i] = n}}
                       : r \in DOMAIN rules}
      G == TLCEval([n \in nts |-> F[n] \cup Add(n)])
  IN IF G = F THEN F ELSE FollowFix(rules, nts, null, first, G)

Analyse(g) ==
  One({One({[null |-> null, first |-> first,
             follow |-> FollowFix(g.rules, g.nts, null, first, [n \in g.nts |-> IF n = g.entry THEN {End} ELSE {}])]
            : first \in {FirstFix(g.rules, g.nts, null, [n \in g.nts |-> {}])}}) : null \in {NullFix(g.rules, {})}})

\* the tokens that predict rule r
Predict(g, an, r) ==
  FirstSeq(g.rules[r].rhs, an.null, an.first)
    \cup (IF NullSeq(g.rules[r].rhs, an.null) THEN an.follow[g.rules[r].lhs] ELSE {})

RulesFor(g, n) == {r \in DOMAIN g.rules : g.rules[r].lhs = n}

\* a dump of the implementation's grammar as such a record (an epsilon symbol is -1 there)
FromDump(d) ==
  [rules |-> TLCEval([r \in DOMAIN d.rules |-> [lhs |-> d.rules[r].lhs, rhs |-> SelectSeq(d.rules[r].rhs, LAMBDA s : s # -1)]]),
   entry |-> d.entry,
   terms |-> {d.terminals[i][1] : i \in DOMAIN d.terminals},
   nts |-> {d.nts[i][1] : i \in DOMAIN d.nts}]
=============================================================================
