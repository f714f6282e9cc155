------------------------------- MODULE LexSpec -------------------------------
(***************************************************************************)
(* What a lexer for a set of token rules has to do.                        *)
(*                                                                         *)
(* The rules of a grammar file are turned into one automaton each; the     *)
(* state of the lexer inside of a run of characters is, for each rule, the *)
(* set of states its automaton can be in.  Characters are handled in       *)
(* blocks that no character class of any rule cuts.                        *)
(*                                                                         *)
(* A run is continued as long as it is the beginning of some text of some  *)
(* rule; then the rule of highest precedence that matches all of it names  *)
(* the token.  Two such rules are a tie.                                   *)
(***************************************************************************)
EXTENDS GrammarFile, CharLang, SequencesExt

\* [n: number of rules, names, eff, spans, reps: sequence of block representatives (ascending),
\*  delta[r][q][k]: successor states, acc[r][q]]
Ascending(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

LexerFrom(toks, auts, reps) ==
  [n |-> Len(toks),
   names |-> TLCEval([r \in DOMAIN toks |-> toks[r].name]),
   eff |-> TLCEval([r \in DOMAIN toks |-> toks[r].eff]),
   spans |-> TLCEval([r \in DOMAIN toks |-> toks[r].span]),
   reps |-> reps,
   acc |-> TLCEval([r \in DOMAIN toks |-> auts[r].acc]),
   delta |-> TLCEval([r \in DOMAIN toks |-> TLCEval([q \in 1..auts[r].n |->
               TLCEval([k \in DOMAIN reps |-> {e[2] : e \in {e \in auts[r].trans[q] : InClass(reps[k], e[1])}}])])])]

Lexer(toks, extraCuts) ==
  One({LexerFrom(toks, x[1], x[2]) : x \in {<<a, TLCEval(Ascending(RepsOf(UNION {Cuts(a[r]) : r \in DOMAIN a} \cup extraCuts)))>> :
        a \in {TLCEval([r \in DOMAIN toks |-> Automaton(toks[r].re)])}}})

\* the block of a character
Block(L, ch) == LET S == {k \in DOMAIN L.reps : L.reps[k] <= ch} IN CHOOSE k \in S : \A j \in S : j <= k

Start(L) == [r \in 1..L.n |-> {1}]
After(L, v, k) == TLCEval([r \in 1..L.n |-> UNION {L.delta[r][q][k] : q \in v[r]}])
Dead(v) == \A r \in DOMAIN v : v[r] = {}

Matching(L, v) == {r \in 1..L.n : \E q \in v[r] : L.acc[r][q]}
Best(L, v) == LET M == Matching(L, v) IN {r \in M : \A s \in M : L.eff[s] <= L.eff[r]}
\* name of the token a run ending in v is, or "" if no rule matches all of it
TokenName(L, v) == LET B == Best(L, v) IN IF B = {} THEN "" ELSE L.names[CHOOSE r \in B : TRUE]
\* two rules of the same precedence match a text (and none of a higher one)
RECURSIVE Reach(_, _, _)
Reach(lx, done, todo) ==
  IF todo = {} THEN done
  ELSE LET d == done \cup todo
           n == UNION {{After(lx, v, b) : b \in {b \in DOMAIN lx.reps : lx.reps[b] # 0}} : v \in todo}
       IN Reach(lx, d, {v \in n : ~Dead(v)} \ d)
HasTie(toks) == toks # <<>> /\ \E lx \in {Lexer(toks, {1})} : \E v \in Reach(lx, {}, {Start(lx)}) : Cardinality(Best(lx, v)) > 1
=============================================================================
