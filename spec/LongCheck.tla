------------------------------ MODULE LongCheck -------------------------------
(***************************************************************************)
(* Generated parsers on long inputs and deep stacks: tens of thousands of  *)
(* tokens.  The stack machine of the specified automaton (or predict       *)
(* table) runs over the whole word in one step of this model; its stack is *)
(* a linked list, <<top, rest>>.                                           *)
(*                                                                         *)
(* A case: [id, state, bnf, cls, meths, runs].  A run: [seg, bound, req,   *)
(* shown, inorder, calls, out]: the word as repeated segments <<tokens,    *)
(* times>>, an upper bound for the machine's steps, and of the recording   *)
(* the number of requests, of tokens shown to the visitor, whether these   *)
(* were the tokens of the word with their data, the calls of each method,  *)
(* and the outcome.                                                        *)
(***************************************************************************)
EXTENDS LR, SequencesExt, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, w, verdict
vars == <<c, w, verdict>>

Elems(s) == {s[i] : i \in DOMAIN s}

----------------------------------------------------------------------------
\* the word
RECURSIVE Total(_, _)
Total(seg, i) == IF i > Len(seg) THEN 0 ELSE Len(seg[i][1]) * seg[i][2] + Total(seg, i + 1)
\* token at place p (1-based) of the word; 0 behind it
RECURSIVE At(_, _, _)
At(seg, i, p) ==
  IF i > Len(seg) THEN 0
  ELSE LET n == Len(seg[i][1]) * seg[i][2]
       IN IF p <= n THEN seg[i][1][((p - 1) % Len(seg[i][1])) + 1] ELSE At(seg, i + 1, p - n)

----------------------------------------------------------------------------
\* tables: LR: [act: state -> token -> <<>> or the action, go]; LL: non-terminal -> token -> rule or 0
Setup(i) ==
  \E g \in {TLCEval(FromDump(Cases[i].bnf))} : \E an \in {TLCEval(Analyse(g))} :
    IF Cases[i].cls = "ll1"
    THEN TLCSet(i, TLCEval([g |-> g, act |-> [n \in g.nts |->
           LET P == TLCEval([r \in RulesFor(g, n) |-> Predict(g, an, r)])
           IN [t \in g.terms \cup {0} |-> LET rs == {r \in DOMAIN P : t \in P[r]} IN IF rs = {} THEN 0 ELSE CHOOSE r \in rs : TRUE]]]))
    ELSE \E a \in {TLCEval(BuildClass(g, an, IF Cases[i].cls = "glr" THEN "lr1" ELSE Cases[i].cls))} :
         TLCSet(i, TLCEval([g |-> g, go |-> a.go, one |-> ConflictCells(g, a) = {},
                            act |-> [q \in DOMAIN a.items |-> [t \in g.terms \cup {0} |->
                                      LET A == Actions(g, a, q, t) IN IF A = {} THEN <<"e", 0>> ELSE CHOOSE x \in A : TRUE]]]))
G == TLCGet(c).g
Act == TLCGet(c).act
Go == TLCGet(c).go
Run == Cases[c].runs[w]

RECURSIVE Below(_, _)
Below(s, n) == IF n = 0 THEN s ELSE Below(s[2], n - 1)

\* one action; m: [s, at: place of the next token, n: how often each rule was used, o]
Tick(m, f) == [r \in DOMAIN m |-> IF r = f THEN m[r] + 1 ELSE m[r]]
LRStep(m, seg) ==
  LET t == At(seg, 1, m.at)
      a == Act[m.s[1]][t]
  IN CASE a[1] = "s" -> [m EXCEPT !.s = <<a[2], @>>, !.at = @ + 1]
       [] a[1] = "r" -> LET b == Below(m.s, Len(G.rules[a[2]].rhs))
                        IN [m EXCEPT !.s = <<Go[b[1]][G.rules[a[2]].lhs], b>>, !.n = Tick(@, a[2])]
       [] a[1] = "a" -> [m EXCEPT !.o = "ok"]
       [] OTHER -> [m EXCEPT !.o = "err"]
RECURSIVE PushAll(_, _, _)
PushAll(rhs, k, s) == IF k = 0 THEN s ELSE PushAll(rhs, k - 1, <<rhs[k], s>>)
LLStep(m, seg) ==
  LET t == At(seg, 1, m.at)
      x == m.s[1]
  IN IF x < 1000
     THEN IF x = t THEN IF t = 0 THEN [m EXCEPT !.o = "ok"] ELSE [m EXCEPT !.s = @[2], !.at = @ + 1]
          ELSE [m EXCEPT !.o = "err"]
     ELSE LET r == Act[x][t]
          IN IF r = 0 THEN [m EXCEPT !.o = "err"]
             ELSE [m EXCEPT !.s = PushAll(G.rules[r].rhs, Len(G.rules[r].rhs), @[2]), !.n = Tick(@, r)]

Machine ==
  LET seg == Run.seg
      zero == [r \in DOMAIN G.rules |-> 0]
      first == [s |-> IF Cases[c].cls = "ll1" THEN <<G.entry, <<0, <<>>>>>> ELSE <<1, <<>>>>, at |-> 1, n |-> zero, o |-> ""]
      end == FoldLeft(LAMBDA m, i : IF m.o # "" THEN m ELSE IF Cases[c].cls = "ll1" THEN LLStep(m, seg) ELSE LRStep(m, seg),
                      first, [i \in 1..Run.bound |-> i])
  IN <<end.o, end.at, end.n>>

----------------------------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN f[r] + Sum(f, S \ {r})
Calls(n, m) == LET d == Cases[c].meths[m]
               IN IF d[1] = "rule" THEN Sum(n, Elems(d[2]))
                  ELSE Sum(n, {r \in DOMAIN n : \E i \in DOMAIN Cases[c].bnf.nts : Cases[c].bnf.nts[i] = <<G.rules[r].lhs, d[2]>>})
LL == IF Cases[c].cls = "ll1" THEN 1 ELSE 0
Judge(e) ==
  LET o == e[1] at == e[2] n == e[3] IN
  CASE o = "" -> <<"bad", "the bound is too small", w>>
    [] o = "ok" -> IF Run.out[1] # "ok" THEN <<"bad", "a sentence is not accepted", w, Run.out[1]>>
                   ELSE IF Run.req # at \/ Run.shown # at - 1 + LL \/ ~Run.inorder THEN <<"bad", "tokens requested or shown", w>>
                   ELSE IF \E m \in DOMAIN Cases[c].meths : Run.calls[m] # Calls(n, m) THEN <<"bad", "number of calls", w>>
                   ELSE <<"ok", "accepted">>
    [] OTHER -> IF Run.out[1] # "err" THEN <<"bad", "no rejection", w, Run.out[1]>>
                ELSE IF \E i \in DOMAIN Run.out[2] : Run.out[2][i][1] \notin {-1, At(Run.seg, 1, at)} \/ Run.out[2][i][2] \notin {-1, at}
                     THEN <<"bad", "not rejected where it should be", w, at>>
                ELSE IF Run.req # at \/ ~Run.inorder \/ (IF Cases[c].cls = "glr" THEN Run.shown >= at ELSE Run.shown # at - 1)
                     THEN <<"bad", "tokens requested or shown before an error", w, at>>
                ELSE <<"ok", "rejected">>

Init == /\ c \in DOMAIN Cases
        /\ IF Cases[c].state # "ok" THEN w = 0 /\ verdict = <<"bad", "there is no parser", Cases[c].state>>
           ELSE /\ Setup(c)
                /\ IF Cases[c].cls = "glr" /\ ~TLCGet(c).one THEN w = 0 /\ verdict = <<"ok", "not deterministic">>
                   ELSE w \in DOMAIN Cases[c].runs /\ verdict = <<"todo">>
        /\ verdict # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))
Next == /\ verdict = <<"todo">>
        /\ verdict' = Judge(Machine)
        /\ UNCHANGED <<c, w>>
        /\ PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
