------------------------------ MODULE LexParts ------------------------------
(***************************************************************************)
(* The parts a lexer is made of, before the automaton is made              *)
(* deterministic and precedences decide: the alphabet, a division of all   *)
(* characters, and one nondeterministic automaton for all rules.  A case:  *)
(* [id, text, parts]: the grammar file, and the real ranges, the real      *)
(* answers to which range a character is in, the real automaton (symbols:  *)
(* ranges counted from 0; labels: positions in names counted from 0).      *)
(***************************************************************************)
EXTENDS LexSpec, Json, IOUtils
A == INSTANCE Automaton

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, seen, todo, verdict
vars == <<c, seen, todo, verdict>>
P == Cases[c].parts
N == P.nfa
L == TLCGet(c)

\* the ranges are non-empty, ascending, and leave no character out
Divides == /\ P.ranges # <<>> /\ P.ranges[1][1] = 0 /\ P.ranges[Len(P.ranges)][2] = MaxChar
           /\ \A j \in DOMAIN P.ranges : P.ranges[j][1] <= P.ranges[j][2]
           /\ \A j \in 1..(Len(P.ranges) - 1) : P.ranges[j + 1][1] = P.ranges[j][2] + 1
RangeOf(ch) == CHOOSE j \in DOMAIN P.ranges : P.ranges[j][1] <= ch /\ ch <= P.ranges[j][2]
FindsRight == \A j \in DOMAIN P.finds : P.finds[j][2] = IF P.finds[j][1] > MaxChar THEN -1 ELSE RangeOf(P.finds[j][1]) - 1
\* the characters of one range are alike for every rule (the end of the text has the first range for its own)
Blocks(j) == {Block(L, IF P.ranges[j][1] = 0 THEN 1 ELSE P.ranges[j][1])} \cup {k \in DOMAIN L.reps : P.ranges[j][1] <= L.reps[k] /\ L.reps[k] <= P.ranges[j][2] /\ L.reps[k] # 0}
Alike == /\ P.ranges[1] = <<0, 0>>
         /\ \A j \in 2..Len(P.ranges) : \E k0 \in Blocks(j) : \A k \in Blocks(j) \ {k0} :
              \A r \in 1..L.n : \A q \in DOMAIN L.delta[r] : L.delta[r][q][k] = L.delta[r][q][k0]

\* a pair: what the rules may be in, what the real automaton may be in
Names(S) == {P.names[N.states[s + 1] + 1] : s \in A!Accepting(N, S)}
Fits(p) == IF Names(p[2]) # {L.names[r] : r \in Matching(L, p[1])} THEN "other rules match"
           ELSE IF Dead(p[1]) # (p[2] = {}) THEN "goes on otherwise" ELSE "ok"
Succ(p) == {<<After(L, p[1], Block(L, P.ranges[j][1])), A!After(N, p[2], j - 1)>> : j \in 2..Len(P.ranges)}

Usable(f) == f.status = "ok" /\ Len(f.tokens) > 0 /\ Cardinality({f.tokens[j].name : j \in DOMAIN f.tokens}) = Len(f.tokens)
Say(v) == v # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, v>>))
Init == /\ c \in DOMAIN Cases /\ seen = {}
        /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} :
           IF ~Usable(f) THEN todo = {} /\ verdict = <<"ok", "outside">>
           ELSE IF P.status # "ok" THEN todo = {} /\ verdict = <<"bad", "no result">>
           ELSE /\ TLCSet(c, Lexer(f.tokens, {1}))
                /\ verdict = IF ~Divides THEN <<"bad", "the ranges do not divide the characters">>
                             ELSE IF ~FindsRight THEN <<"bad", "a character is found in another range">>
                             ELSE IF ~Alike THEN <<"bad", "a rule tells characters of one range apart">>
                             ELSE <<"todo">>
                /\ todo = {<<Start(L), A!Start(N)>>}
        /\ Say(verdict)
Visit == /\ verdict = <<"todo">> /\ todo # {}
         /\ LET p == CHOOSE p \in todo : TRUE
                why == Fits(p)
            IN /\ seen' = seen \cup {p}
               /\ verdict' = IF why = "ok" THEN verdict ELSE <<"bad", why>>
               /\ todo' = IF why # "ok" THEN {} ELSE IF p[2] = {} THEN todo \ seen' ELSE (todo \cup Succ(p)) \ seen'
         /\ UNCHANGED c
Finish == /\ verdict = <<"todo">> /\ todo = {} /\ verdict' = <<"ok", "parts">> /\ UNCHANGED <<c, seen, todo>>
Next == (Visit \/ Finish) /\ Say(verdict')
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
