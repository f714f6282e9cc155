------------------------------- MODULE LLCheck -------------------------------
(***************************************************************************)
(* The LL(1) table of a grammar: it exists iff the predict sets of the     *)
(* rules of every non-terminal are disjoint, and then maps every           *)
(* non-terminal and lookahead to the predicted right-hand side.            *)
(* A case: [id, bnf, ll], the grammar and the generator's result.          *)
(***************************************************************************)
EXTENDS Cfg, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Plain(rhs) == SelectSeq(rhs, LAMBDA s : s # -1)

JudgeOf(k, g, an, pred) ==
  LET clash == {p \in (DOMAIN g.rules) \X (DOMAIN g.rules) :
                  p[1] < p[2] /\ g.rules[p[1]].lhs = g.rules[p[2]].lhs /\ pred[p[1]] \cap pred[p[2]] # {}}
  IN IF k.ll.conflict # <<>>
     THEN IF clash = {} THEN <<"bad", "an LL(1) grammar is refused">>
          ELSE LET x == k.ll.conflict[1] IN
               IF \/ \* a nullable right-hand side with a token both in it and after it
                     /\ Plain(x.p1) = Plain(x.p2) /\ NullSeq(Plain(x.p1), an.null)
                     /\ \E r \in RulesFor(g, x.nt) : g.rules[r].rhs = Plain(x.p1)
                     /\ x.t \in FirstSeq(Plain(x.p1), an.null, an.first) \cap an.follow[x.nt]
                  \/ \E p \in clash : /\ g.rules[p[1]].lhs = x.nt
                                   /\ x.t \in pred[p[1]] \cap pred[p[2]]
                                   /\ {g.rules[p[1]].rhs, g.rules[p[2]].rhs} = {Plain(x.p1), Plain(x.p2)}
               THEN <<"ok", "conflict">> ELSE <<"bad", "the reported conflict is none">>
     ELSE IF clash # {} THEN <<"bad", "a grammar that is not LL(1) is accepted">>
     ELSE LET cell(n, t) == LET rs == {r \in RulesFor(g, n) : t \in pred[r]}
                            IN IF rs = {} THEN <<>> ELSE << g.rules[CHOOSE r \in rs : TRUE].rhs >>
              wrong == {p \in (DOMAIN k.ll.rows) \X (DOMAIN k.ll.syms) :
                          [i \in DOMAIN k.ll.rows[p[1]].cells[p[2]] |-> Plain(k.ll.rows[p[1]].cells[p[2]][i])]
                            # cell(k.ll.rows[p[1]].nt, k.ll.syms[p[2]])}
          IN IF {k.ll.rows[i].nt : i \in DOMAIN k.ll.rows} # g.nts THEN <<"bad", "rows">>
             ELSE IF {k.ll.syms[i] : i \in DOMAIN k.ll.syms} # g.terms \cup {End} THEN <<"bad", "columns">>
             ELSE IF wrong # {} THEN LET p == CHOOSE p \in wrong : TRUE IN
                  <<"bad", "wrong prediction", k.ll.rows[p[1]].nt, k.ll.syms[p[2]]>>
             ELSE <<"ok", "table">>

Judge(k) ==
  IF k.ll.status # "ok" THEN <<"bad", "no result">>
  ELSE One({One({One({JudgeOf(k, g, an, pred) : pred \in {TLCEval([r \in DOMAIN g.rules |-> Predict(g, an, r)])}})
                 : an \in {TLCEval(Analyse(g))}}) : g \in {TLCEval(FromDump(k.bnf))}})

Init == c \in DOMAIN Cases /\ verdict = <<"todo">>
Next == /\ verdict = <<"todo">>
        /\ verdict' = Judge(Cases[c])
        /\ PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict[1] # "bad"
=============================================================================
