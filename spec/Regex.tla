------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions over arbitrary atoms, and their automata.           *)
(*                                                                         *)
(* A node is  <<"atm", a>>            one letter described by the atom a   *)
(*            <<"seq", <<r1..rn>>>>   concatenation (n = 0: empty word)    *)
(*            <<"alt", <<r1..rn>>>>   alternatives                         *)
(*            <<"rep", m, n, r>>      m to n times r; n = -1: no bound     *)
(*                                                                         *)
(* The atoms are left open: Lexing uses character classes, Ebnf uses the   *)
(* symbols of a grammar.  A residual is a sequence of nodes: what is still *)
(* to be matched (Antimirov's partial derivatives).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eps == <<"seq", <<>>>>
Opt(r) == <<"rep", 0, 1, r>>
Star(r) == <<"rep", 0, -1, r>>
Plus(r) == <<"rep", 1, -1, r>>

RECURSIVE Nullable(_)
Nullable(r) ==
  CASE r[1] = "atm" -> FALSE
    [] r[1] = "seq" -> \A i \in DOMAIN r[2] : Nullable(r[2][i])
    [] r[1] = "alt" -> \E i \in DOMAIN r[2] : Nullable(r[2][i])
    [] r[1] = "rep" -> r[2] = 0 \/ Nullable(r[4])

NullableSeq(l) == \A i \in DOMAIN l : Nullable(l[i])

One(S) == CHOOSE x \in S : TRUE     \* (binding through sets makes TLC evaluate things once)

\* Length of a shortest matching word.
SumSeq(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Shortest(_)
Shortest(r) ==
  CASE r[1] = "atm" -> 1
    [] r[1] = "seq" -> SumSeq([i \in DOMAIN r[2] |-> Shortest(r[2][i])])
    [] r[1] = "alt" -> MinOf({Shortest(r[2][i]) : i \in DOMAIN r[2]})
    [] r[1] = "rep" -> r[2] * Shortest(r[4])

\* Linear form: the set of <<atom, residual>> such that reading a letter of the atom
\* leaves the residual to be matched.
RECURSIVE LF(_)
LF(l) ==
  IF l = <<>> THEN {}
  ELSE LET h == Head(l)
           t == Tail(l)
           first == CASE h[1] = "atm" -> {<<h[2], <<>>>>}
                      [] h[1] = "seq" -> LF(h[2])
                      [] h[1] = "alt" -> UNION {LF(<<h[2][i]>>) : i \in DOMAIN h[2]}
                      [] h[1] = "rep" ->
                           IF h[3] = 0 THEN {}
                           ELSE LET more == IF h[3] = 1 THEN <<>>
                                            ELSE << <<"rep", IF h[2] = 0 THEN 0 ELSE h[2] - 1,
                                                       IF h[3] = -1 THEN -1 ELSE h[3] - 1, h[4]>> >>
                                IN {<<x[1], x[2] \o more>> : x \in LF(<<h[4]>>)}
       IN {<<x[1], x[2] \o t>> : x \in first} \cup (IF Nullable(h) THEN LF(t) ELSE {})

----------------------------------------------------------------------------
\* The automaton of residuals: states 1..n, 1 is initial;
\* trans[q] is a set of <<atom, state>>, acc[q] tells whether q is final.
RECURSIVE Residuals(_, _)
Residuals(done, todo) ==
  IF todo = {} THEN done
  ELSE LET next == UNION {{x[2] : x \in LF(l)} : l \in todo}
           done2 == done \cup todo
       IN Residuals(done2, next \ done2)

RECURSIVE Enumerate(_)
Enumerate(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Enumerate(S \ {x})

AutomatonOf(order, idx) ==
  [n |-> Len(order),
   trans |-> TLCEval([i \in DOMAIN order |-> {<<x[1], idx[x[2]]>> : x \in LF(order[i])}]),
   acc |-> TLCEval([i \in DOMAIN order |-> NullableSeq(order[i])])]
Automaton(r) ==
  One({AutomatonOf(order, TLCEval([l \in {order[i] : i \in DOMAIN order} |-> CHOOSE i \in DOMAIN order : order[i] = l]))
       : order \in {<<<<r>>>> \o Enumerate(S \ {<<r>>}) : S \in {Residuals({}, {<<r>>})}}})

----------------------------------------------------------------------------
\* Declarative meaning, for the design-level check (MCRegex): letters are the atoms themselves.
RECURSIVE Matches(_, _)
Matches(r, w) ==
  CASE r[1] = "atm" -> w = <<r[2]>>
    [] r[1] = "seq" -> IF r[2] = <<>> THEN w = <<>>
                       ELSE \E k \in 0..Len(w) : /\ Matches(Head(r[2]), SubSeq(w, 1, k))
                                                 /\ Matches(<<"seq", Tail(r[2])>>, SubSeq(w, k+1, Len(w)))
    [] r[1] = "alt" -> \E i \in DOMAIN r[2] : Matches(r[2][i], w)
    [] r[1] = "rep" ->
         \/ r[2] = 0 /\ w = <<>>
         \/ r[2] > 0 /\ w = <<>> /\ Matches(r[4], <<>>)
         \/ /\ r[3] # 0
            /\ \E k \in 1..Len(w) :
                 /\ Matches(r[4], SubSeq(w, 1, k))
                 /\ Matches(<<"rep", IF Matches(r[4], <<>>) THEN 0 ELSE IF r[2] = 0 THEN 0 ELSE r[2] - 1,
                               IF r[3] = -1 THEN -1 ELSE r[3] - 1, r[4]>>, SubSeq(w, k+1, Len(w)))

RunSet(a, S, x) == UNION {{e[2] : e \in {e \in a.trans[q] : e[1] = x}} : q \in S}
RECURSIVE RunWord(_, _, _)
RunWord(a, S, w) == IF w = <<>> THEN S ELSE RunWord(a, RunSet(a, S, Head(w)), Tail(w))
Accepts(a, w) == \E q \in RunWord(a, {1}, w) : a.acc[q]
=============================================================================
