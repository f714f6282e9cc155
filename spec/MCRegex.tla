------------------------------- MODULE MCRegex -------------------------------
(***************************************************************************)
(* Design-level check of module Regex: for every regular expression up to  *)
(* a nesting depth, and every word up to a length, the automaton of        *)
(* residuals accepts the word exactly if it matches (declaratively), and   *)
(* Shortest is the length of a shortest matching word.                     *)
(***************************************************************************)
EXTENDS Regex
CONSTANTS Letters, MaxLen, Depth

Counts == {<<0, 1>>, <<0, -1>>, <<1, -1>>, <<2, 2>>, <<1, 3>>, <<0, 2>>, <<2, -1>>, <<0, 0>>}
Level0 == {<<"atm", x>> : x \in Letters} \cup {Eps}
Over(S) == {<<"rep", c[1], c[2], r>> : c \in Counts, r \in S}
Pairs(S, T) == {<<k, <<a, b>>>> : k \in {"seq", "alt"}, a \in S, b \in T}
Level1 == Level0 \cup Over(Level0) \cup Pairs(Level0, Level0)
Level2 == Over(Level1) \cup Pairs(Level1, Level0) \cup Pairs(Level0, Level1)
Level3 == Over(Pairs(Level0, Over(Level0)) \cup Over(Level1))

RECURSIVE WordsUpTo(_)
WordsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET W == WordsUpTo(n - 1) IN W \cup {Append(w, x) : w \in W, x \in Letters}
AllWords == TLCEval(WordsUpTo(MaxLen))

VARIABLE r
Init == r \in (IF Depth = 1 THEN Level1 ELSE IF Depth = 2 THEN Level1 \cup Level2 ELSE Level3)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r

Agree == \A a \in {Automaton(r)} : \A w \in AllWords : Accepts(a, w) = Matches(r, w)
ShortestRight == LET L == {Len(w) : w \in {w \in AllWords : Matches(r, w)}}
                 IN IF L # {} THEN Shortest(r) = MinOf(L) ELSE Shortest(r) > MaxLen
=============================================================================
