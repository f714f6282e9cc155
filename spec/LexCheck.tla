------------------------------ MODULE LexCheck ------------------------------
(***************************************************************************)
(* The generated automaton of a lexer, and the decision whether there is   *)
(* one, against LexSpec.  A case: [id, text, lex]: the grammar file, and   *)
(* what the generator made of it: an automaton, or the rules that tie.     *)
(* One step looks at one state of the specification (MODE = tie), or at    *)
(* one pair of states of the product with the automaton (MODE = automaton).*)
(***************************************************************************)
EXTENDS LexSpec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Mode == IOEnv.MODE

Real(i) == Cases[i].lex
\* register i: [L, id -> index of the real state, next[s][k]: real successor (index, 0: none)]
Setup(i, f) ==
  \E L \in {Lexer(f.tokens, {1})}, R \in {Real(i)} :
    TLCSet(i, [L |-> L,
       ids |-> TLCEval([x \in {R.states[s].id : s \in DOMAIN R.states} |-> CHOOSE s \in DOMAIN R.states : R.states[s].id = x]),
       next |-> TLCEval([s \in DOMAIN R.states |-> TLCEval([k \in DOMAIN L.reps |->
                  {R.states[s].tr[j][3] : j \in {j \in DOMAIN R.states[s].tr :
                        R.states[s].tr[j][1] <= L.reps[k] /\ L.reps[k] <= R.states[s].tr[j][2]}}])]),
       \* the boundaries of the ranges of the real alphabet
       bounds |-> TLCEval(Ascending({x \in UNION {{R.ranges[j][1], R.ranges[j][2]} : j \in DOMAIN R.ranges} : IsScalar(x)}))])
L(i) == TLCGet(i).L

VARIABLES c, seen, todo, ties, verdict
vars == <<c, seen, todo, ties, verdict>>

\* A pair is <<specification state, real state (0: none), whether nothing has been read>>
RealOn(i, p, ch) == LET r == Real(i).states[p] IN
  {r.tr[j][3] : j \in {j \in DOMAIN r.tr : r.tr[j][1] <= ch /\ ch <= r.tr[j][2]}}

PairOk(i, x) ==
  LET name == TokenName(L(i), x[1]) IN
  /\ ~x[3] => Real(i).states[x[2]].acc = name
  /\ \A k \in DOMAIN L(i).reps :
       LET v == After(L(i), x[1], k)
           t == TLCGet(i).next[x[2]][k]
       IN L(i).reps[k] # 0 => (IF Dead(v) THEN t = {} ELSE Cardinality(t) = 1)

Succ(i, x) ==
  {<<After(L(i), x[1], k), IF Mode = "tie" THEN 0 ELSE TLCGet(i).ids[CHOOSE t \in TLCGet(i).next[x[2]][k] : TRUE], FALSE>> :
     k \in {k \in DOMAIN L(i).reps : L(i).reps[k] # 0 /\ ~Dead(After(L(i), x[1], k))}}

\* every boundary of the real alphabet behaves as its block does: then so does every character
BoundsOk(i) ==
  \A s \in DOMAIN Real(i).states : \A j \in DOMAIN TLCGet(i).bounds :
    LET ch == TLCGet(i).bounds[j] IN ch # 0 => RealOn(i, s, ch) = TLCGet(i).next[s][Block(L(i), ch)]

Start1(i) == CHOOSE s \in DOMAIN Real(i).states : Real(i).states[s].id = 0

\* the text of the rules a reported tie is about
RuleNamed(i, n) == CHOOSE r \in 1..L(i).n : L(i).names[r] = n
TieReport(i, T) ==
  LET R == Real(i)
      S == {R.tie[j] : j \in DOMAIN R.tie}
  IN IF Len(R.tie) < 2 \/ Cardinality(S) # Len(R.tie) \/ ~(S \subseteq {L(i).names[r] : r \in 1..L(i).n})
     THEN <<"bad", "the reported tie does not name rules">>
     ELSE IF ~\E t \in T : t[2] = R.prec /\ S \subseteq {L(i).names[r] : r \in t[1]}
     THEN <<"bad", "the reported rules do not tie">>
     ELSE IF \E j \in DOMAIN R.tie : R.spans[j] # L(i).spans[RuleNamed(i, R.tie[j])]
     THEN <<"bad", "position of a reported rule">>
     ELSE <<"ok", "tie">>

Usable(i, f) == f.status = "ok" /\ Len(f.tokens) > 0 /\ Cardinality({f.tokens[j].name : j \in DOMAIN f.tokens}) = Len(f.tokens)

Init == /\ c \in DOMAIN Cases
        /\ seen = {} /\ ties = {}
        /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} :
           IF ~Usable(c, f) THEN todo = {} /\ verdict = <<"ok", "outside">>
           ELSE IF Real(c).status # "ok" THEN todo = {} /\ verdict = <<"bad", "no result">>
           ELSE /\ Setup(c, f)
                /\ todo = IF Mode = "automaton" /\ Real(c).tie # <<>> THEN {}
                          ELSE {<<Start(L(c)), IF Mode = "tie" THEN 0 ELSE Start1(c), TRUE>>}
                /\ verdict = IF Mode = "automaton" /\ Real(c).tie # <<>> THEN <<"ok", "tie">> ELSE <<"todo">>
        /\ verdict # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))

Visit == /\ verdict = <<"todo">> /\ todo # {}
         /\ LET x == CHOOSE x \in todo : TRUE
                good == Mode = "tie" \/ PairOk(c, x)
                B == Best(L(c), x[1])
            IN /\ seen' = seen \cup {x}
               /\ ties' = IF Cardinality(B) > 1 THEN ties \cup {<<B, L(c).eff[CHOOSE r \in B : TRUE]>>} ELSE ties
               /\ todo' = IF good THEN (todo \cup Succ(c, x)) \ seen' ELSE {}
               /\ verdict' = IF good THEN verdict ELSE <<"bad", "the automaton differs", Real(c).states[x[2]].id>>
         /\ UNCHANGED c
Finish == /\ verdict = <<"todo">> /\ todo = {}
          /\ verdict' = IF Mode = "tie"
                        THEN (IF ties = {} THEN (IF Real(c).tie = <<>> THEN <<"ok", "no tie">> ELSE <<"bad", "refused without a tie">>)
                              ELSE IF Real(c).tie = <<>> THEN <<"bad", "a tie is accepted">> ELSE TieReport(c, ties))
                        ELSE IF ties # {} THEN <<"ok", "a tie; see C03">>
                        ELSE IF ~BoundsOk(c) THEN <<"bad", "characters of one block differ">>
                        ELSE <<"ok", "automaton">>
          /\ UNCHANGED <<c, seen, todo, ties>>
Next == /\ (Visit \/ Finish)
        /\ verdict' # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
