------------------------------ MODULE VisitCheck ------------------------------
(***************************************************************************)
(* What the visitor of a generated parser sees.                            *)
(*                                                                         *)
(* LR and GLR: shifts and reductions are replayed on a stack of the LR(0)  *)
(* automaton of the grammar, which accepts exactly the viable prefixes: a  *)
(* reduction needs its right-hand side on top of the stack, and what is on *)
(* the stack always is the beginning of a right sentential form.           *)
(* LL: enter, exit and tokens are replayed on a stack of open productions, *)
(* each with what may still follow in it as written.                       *)
(*                                                                         *)
(* A case: [id, text, bnf, cls, meths, runs]; meths: what each visitor     *)
(* method stands for: <<"rule", numbers>>, <<"enter", name>>, <<"exit",    *)
(* name>>.  One step is one event of one run (see ParserCheck).            *)
(***************************************************************************)
EXTENDS GrammarFile, Ebnf, Json, IOUtils

A == INSTANCE LR
Elems(s) == {s[i] : i \in DOMAIN s}

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, w, k, stack, shown, verdict
vars == <<c, w, k, stack, shown, verdict>>

Written(f) == MakeGrammar("<start>", f.entry, ProdNames(f),
                          TLCEval([i \in DOMAIN f.prods |-> [lhs |-> f.prods[i].name, re |-> PatRe(f.prods[i].pat)]]))
TokNames(b) == TLCEval([s \in {b.terminals[i][1] : i \in DOMAIN b.terminals} |->
                  LET i == CHOOSE i \in DOMAIN b.terminals : b.terminals[i][1] = s IN b.terminals[i][2]])
\* the plain grammar as one of module Ebnf; the start symbol is -5
Plain(g) == MakeGrammar(-5, g.entry, g.nts, TLCEval([r \in DOMAIN g.rules |->
              [lhs |-> g.rules[r].lhs, re |-> <<"seq", [i \in DOMAIN g.rules[r].rhs |-> <<"atm", g.rules[r].rhs[i]>>]>>]]))

Setup(i) ==
  IF Cases[i].cls = "ll1"
  THEN \E f \in {TLCEval(ReadFile(Cases[i].text))} : TLCSet(i, [w |-> Written(f), nm |-> TokNames(Cases[i].bnf)])
  ELSE \E g \in {TLCEval(A!FromDump(Cases[i].bnf))} :
       TLCSet(i, TLCEval([g |-> g, a |-> A!Canonical(g, TLCEval(A!Analyse(g)), 0),
                          p |-> IF Cases[i].cls = "glr" THEN Plain(g) ELSE <<>>]))
W == TLCGet(c).w
G == TLCGet(c).g
Aut == TLCGet(c).a
Cls == Cases[c].cls
Run == Cases[c].runs[w]
Ev == Run.ev[k]

\* the method table of the case is as it should be: one method for each rule, described by the rule's text
Methods(i) ==
  LET K == Cases[i] IN
  /\ K.named
  /\ K.cls # "ll1" => \A r \in DOMAIN K.bnf.rules : \E m \in DOMAIN K.meths : K.meths[m][1] = "rule" /\ r \in Elems(K.meths[m][2])
  /\ \A m \in DOMAIN K.meths : K.meths[m][1] = "rule" =>
        K.docs[m] = "" \/ \E r \in Elems(K.meths[m][2]) : K.docs[m] = K.bnf.rules[r].text

----------------------------------------------------------------------------
\* A token is shown: it is the next one of the word, with its own data.
NextToken == shown < Len(Run.w) /\ Ev[2] = Run.w[shown + 1] /\ Ev[3] = shown + 1

\* LR: elements of the stack are <<state, symbol>>
Top == stack[Len(stack)]
LRShift == /\ NextToken
           /\ Ev[2] \in DOMAIN Aut.go[Top[1]]
           /\ stack' = Append(stack, <<Aut.go[Top[1]][Ev[2]], Ev[2]>>)
           /\ shown' = shown + 1
Rules == LET m == Cases[c].meths[Ev[2] + 1] IN IF m[1] = "rule" THEN Elems(m[2]) ELSE {}
LRReduce == \E r \in Rules :
  /\ \E it \in Aut.items[Top[1]] : it[1] = r /\ A!Complete(G, it)
  /\ LET base == SubSeq(stack, 1, Len(stack) - Len(G.rules[r].rhs))
         q == base[Len(base)][1]
     IN G.rules[r].lhs \in DOMAIN Aut.go[q] /\ stack' = Append(base, <<Aut.go[q][G.rules[r].lhs], G.rules[r].lhs>>)
  /\ shown' = shown

LRDone == Len(stack) = 2 /\ Top[2] = G.entry /\ shown = Len(Run.w)
Requests == Len(SelectSeq(Run.ev, LAMBDA e : e[1] = 0))

\* GLR on an error: the tokens accepted but not shown have to be derivable behind the stack.
\* (left of the top of the stack nothing is expanded or completed any more)
P == TLCGet(c).p
RECURSIVE PClose(_, _, _)
PClose(j, done, todo) ==
  IF todo = {} THEN done
  ELSE LET next == UNION {UNION {{<<r, 1, j>> : r \in P.of[e[1]]} : e \in {e \in P.prods[x[1]].a.trans[x[2]] : e[1] \in P.nts}} : x \in todo}
       IN PClose(j, done \cup todo, next \ (done \cup todo))
RECURSIVE OnStack(_, _)
OnStack(ch, s) ==
  IF s = <<>> THEN ch
  ELSE LET moved == UNION {{<<x[1], e[2], x[3]>> : e \in {e \in P.prods[x[1]].a.trans[x[2]] : e[1] = Head(s)}} : x \in ch[Len(ch)]}
       IN OnStack(Append(ch, IF Len(s) = 1 THEN EClose(P, ch, Len(ch), {}, moved) ELSE PClose(Len(ch), {}, moved)), Tail(s))
Symbols == [i \in 1..(Len(stack) - 1) |-> stack[i + 1][2]]
\* the place of the token (or the failure of the token source) that ended the run
EndedAt == IF Run.out[1] = "fail" THEN Run.out[2] ELSE Run.out[2][1][2]
Pending == SubSeq(Run.w, shown + 1, EndedAt - 1)
Derivable ==
  LET s == Symbols
      ch0 == IF s = <<>> THEN EInit(P) ELSE OnStack(<<PClose(0, {}, {<<1, 1, 0>>})>>, s)
  IN IF EndedAt > Len(Run.w) + 1 THEN FALSE   \* no token has that place
     ELSE LET ch == ERun(P, ch0, Pending) IN ch[Len(ch)] # {}

----------------------------------------------------------------------------
\* LL: elements of the stack are <<name, set of <<production, state>>>>
Advance(S, sym) == UNION {{<<x[1], e[2]>> : e \in {e \in W.prods[x[1]].a.trans[x[2]] : e[1] = sym}} : x \in S}
Final(S) == \E x \in S : W.prods[x[1]].a.acc[x[2]]
AtEnd == Len(stack) = 1 /\ Final(Top[2]) /\ shown = Len(Run.w)
LLToken == \/ /\ NextToken
              /\ LET S == Advance(Top[2], TLCGet(c).nm[Ev[2]]) IN S # {} /\ stack' = [stack EXCEPT ![Len(stack)] = <<Top[1], S>>]
              /\ shown' = shown + 1
           \/ /\ Ev[2] = 0 /\ AtEnd /\ Ev[3] = Len(Run.w) + 1   \* the end of the input, shown last
              /\ IF k = Len(Run.ev) THEN TRUE ELSE Run.ev[k + 1][1] = 0
              /\ UNCHANGED <<stack, shown>>
LLVisit ==
  LET m == Cases[c].meths[Ev[2] + 1] IN
  /\ shown' = shown
  /\ \/ /\ m[1] = "enter" /\ m[2] \in W.nts /\ Advance(Top[2], m[2]) # {}
        /\ stack' = Append(stack, <<m[2], {<<p, 1>> : p \in W.of[m[2]]}>>)
     \/ /\ m[1] = "exit" /\ Len(stack) > 1 /\ Top[1] = m[2] /\ Final(Top[2])
        /\ LET below == stack[Len(stack) - 1]
           IN stack' = Append(SubSeq(stack, 1, Len(stack) - 2), <<below[1], Advance(below[2], m[2])>>)

----------------------------------------------------------------------------
Request == Ev[1] = 0 /\ UNCHANGED <<stack, shown>>
Show == Ev[1] = 1 /\ IF Cls = "ll1" THEN LLToken ELSE LRShift
Visit == Ev[1] = 2 /\ IF Cls = "ll1" THEN LLVisit ELSE LRReduce

\* (parsers of grammars with productions that cannot be completed may run in circles inside of them)
Reduced == IF Cls = "ll1" THEN W.reduced ELSE Plain(G).reduced
Outcome ==
  CASE Run.out[1] = "ok" -> IF (IF Cls = "ll1" THEN AtEnd ELSE LRDone) THEN "" ELSE "the calls do not describe a complete derivation"
    [] Run.out[1] \in {"err", "fail"} ->
         IF Cls # "glr" THEN (IF shown = Requests - 1 THEN "" ELSE "not every accepted token was shown")
         ELSE IF (IF Run.out[1] = "fail" THEN TRUE ELSE Run.out[2] # <<>>) /\ EndedAt > shown /\ P.reduced /\ ~Derivable THEN "the calls lead to no sentence with the accepted tokens" ELSE ""
    [] OTHER -> IF Reduced THEN "the parser does not come to an end" ELSE ""

StartStack(i) == IF Cases[i].cls = "ll1" THEN << <<"<start>", {<<1, 1>>}>> >> ELSE << <<1, 0>> >>
Init == /\ c \in DOMAIN Cases
        /\ k = 1 /\ shown = 0
        /\ IF Cases[c].state # "ok" THEN w = 0 /\ stack = <<>> /\ verdict = <<"bad", "there is no parser", Cases[c].state>>
           ELSE IF ~Methods(c) THEN w = 0 /\ stack = <<>> /\ verdict = <<"bad", "the visitor's methods">>
           ELSE /\ Setup(c)
                /\ IF Cases[c].cls = "ll1" /\ ~TLCGet(c).w.reduced
                   THEN w = 0 /\ stack = <<>> /\ verdict = <<"ok", "productions that cannot be completed">>
                   ELSE /\ w \in DOMAIN Cases[c].runs
                        /\ stack = StartStack(c)
                        /\ verdict = <<"todo">>
        /\ verdict # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))

More == verdict = <<"todo">> /\ k <= Len(Run.ev)
Step == /\ More
        /\ (Request \/ Show \/ Visit)
        /\ k' = k + 1
        /\ UNCHANGED <<c, w, verdict>>
Stuck == /\ More
         /\ ~ENABLED (Request \/ Show \/ Visit)
         /\ verdict' = <<"bad", CASE Ev[1] = 1 -> "a wrong token is shown" [] Ev[1] = 2 -> "a wrong call" [] OTHER -> "?", [run |-> w, event |-> k]>>
         /\ UNCHANGED <<c, w, k, stack, shown>>
End == /\ verdict = <<"todo">> /\ k > Len(Run.ev)
       /\ verdict' = LET o == Outcome IN IF o = "" THEN <<"ok", Run.out[1]>> ELSE <<"bad", o, [run |-> w, event |-> k]>>
       /\ UNCHANGED <<c, w, k, stack, shown>>
Next == /\ (Step \/ Stuck \/ End)
        /\ verdict' # verdict => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
