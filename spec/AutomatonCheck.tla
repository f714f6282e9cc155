--------------------------- MODULE AutomatonCheck ---------------------------
(***************************************************************************)
(* The subset construction of lapex-automaton.  A case: [id, nfa, dfa]: an *)
(* automaton of any shape, and what the construction made of it.  One step *)
(* looks at one pair of the product of the deterministic automaton that    *)
(* the specification means and the real one: all words of any length.      *)
(***************************************************************************)
EXTENDS Automaton, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, seen, todo, verdict
vars == <<c, seen, todo, verdict>>
N(i) == Cases[i].nfa
D(i) == Cases[i].dfa
Ids(i) == {D(i).states[s].id : s \in DOMAIN D(i).states}
State(i, id) == D(i).states[CHOOSE s \in DOMAIN D(i).states : D(i).states[s].id = id]
Targets(i, id, x) == {j \in DOMAIN State(i, id).tr : State(i, id).tr[j][1] = x}
Fits(i, p) ==
  LET S == p[1]
      r == State(i, p[2])
      A == Accepting(N(i), S)
  IN IF r.acc # (A # {}) THEN "accepts other words"
     ELSE IF \/ Len(r.labels) # Cardinality(A)
             \/ \E j \in DOMAIN r.labels : Cardinality({k \in DOMAIN r.labels : r.labels[k] = r.labels[j]}) # Count(N(i), S, r.labels[j])
     THEN "the labels of an accepted word"
     ELSE IF \E j \in DOMAIN r.tr : r.tr[j][1] \notin Symbols(N(i)) THEN "a symbol from nowhere"
     ELSE IF \E x \in Symbols(N(i)) : Cardinality(Targets(i, p[2], x)) # (IF After(N(i), S, x) = {} THEN 0 ELSE 1)
     THEN "goes on with other symbols"
     ELSE "ok"
Succ(i, p) == {<<After(N(i), p[1], x), State(i, p[2]).tr[CHOOSE j \in Targets(i, p[2], x) : TRUE][2]>> : x \in {x \in Symbols(N(i)) : After(N(i), p[1], x) # {}}}

Say(v) == v # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, v>>))
Init == /\ c \in DOMAIN Cases /\ seen = {}
        /\ IF D(c).status # "ok" THEN todo = {} /\ verdict = <<"bad", "no result">>
           ELSE IF Cardinality(Ids(c)) # Len(D(c).states) \/ 0 \notin Ids(c) THEN todo = {} /\ verdict = <<"bad", "states">>
           ELSE todo = {<<Start(N(c)), 0>>} /\ verdict = <<"todo">>
        /\ Say(verdict)
Visit == /\ verdict = <<"todo">> /\ todo # {}
         /\ LET p == CHOOSE p \in todo : TRUE
                why == Fits(c, p)
            IN /\ seen' = seen \cup {p}
               /\ todo' = IF why = "ok" THEN (todo \cup Succ(c, p)) \ seen' ELSE {}
               /\ verdict' = IF why = "ok" THEN verdict ELSE <<"bad", why, p[2]>>
         /\ UNCHANGED c
\* nothing else is in the real automaton
Finish == /\ verdict = <<"todo">> /\ todo = {}
          /\ verdict' = IF {p[2] : p \in seen} # Ids(c) THEN <<"bad", "states that no word leads to">> ELSE <<"ok", "all words">>
          /\ UNCHANGED <<c, seen, todo>>
Next == (Visit \/ Finish) /\ Say(verdict')
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
