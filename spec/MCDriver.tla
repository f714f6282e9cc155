------------------------------- MODULE MCDriver -------------------------------
(***************************************************************************)
(* The parsers lapex generates, as state machines that draw their tokens   *)
(* from a source: LR (a deterministic automaton), GLR (all stacks of the   *)
(* LALR(1) automaton, each with the visits it has not made yet) and LL     *)
(* (predictions).  The source delivers any token at any time, so that TLC  *)
(* goes through all words up to MaxLen, the end included, and through all  *)
(* prefixes that are rejected.                                             *)
(*                                                                         *)
(* Checked: the invariants that the checks of real parsers (ParserCheck,   *)
(* VisitCheck) look for in recorded histories - the design keeps them -    *)
(* and that every parse comes to an end.                                   *)
(***************************************************************************)
EXTENDS LR
CONSTANTS MaxLen

E == INSTANCE Ebnf

S == 1000
P == 1001
Q == 1002
R(l, s) == [lhs |-> l, rhs |-> s]
Grammars == <<
  << R(S, <<S, 1, P>>), R(S, <<P>>), R(P, <<P, 2, Q>>), R(P, <<Q>>), R(Q, <<3>>), R(Q, <<1, S, 2>>) >>,   \* operators
  << R(S, <<1, S, 2>>), R(S, <<>>) >>,                                     \* nested
  << R(S, <<P, Q>>), R(P, <<1, P>>), R(P, <<>>), R(Q, <<2, Q>>), R(Q, <<>>) >>,  \* chains
  << R(S, <<S, 1>>), R(S, <<2>>) >>,                                       \* left recursion (LR(0))
  << R(S, <<1, S>>), R(S, <<1, S, 2, S>>), R(S, <<3>>) >>,                 \* dangling else
  << R(S, <<S, 1, S>>), R(S, <<2>>) >>,                                    \* ambiguous
  << R(S, <<1, S, 1>>), R(S, <<2, S, 2>>), R(S, <<>>) >>,                  \* palindromes
  << R(S, <<P, 1>>), R(S, <<Q, 2>>), R(P, <<3>>), R(P, <<3, P>>), R(Q, <<3>>), R(Q, <<3, Q>>) >>,  \* unbounded lookahead
  << R(S, <<1, P, 1>>), R(S, <<2, Q, 1>>), R(S, <<1, Q, 2>>), R(S, <<2, P, 2>>), R(P, <<3>>), R(Q, <<3>>) >>,  \* LR(1), not LALR(1)
  << R(S, <<P, S>>), R(S, <<2>>), R(P, <<1>>) >>,                          \* right recursion
  << R(S, <<P>>), R(P, <<Q>>), R(Q, <<1>>), R(Q, <<1, 2>>) >>,             \* unit rules
  << R(S, <<P, P>>), R(P, <<1>>), R(P, <<1, 1>>), R(P, <<>>) >>            \* ambiguous with empty rules
>>
Toks == 1..3
Kinds == {"lr0", "lalr", "lr1", "glr", "ll1"}

G(i) == [rules |-> Grammars[i], entry |-> S, terms |-> Toks, nts |-> {Grammars[i][r].lhs : r \in DOMAIN Grammars[i]}]
An(i) == Analyse(G(i))
Written(i) == E!MakeGrammar(-5, S, G(i).nts, TLCEval([r \in DOMAIN Grammars[i] |->
             [lhs |-> Grammars[i][r].lhs, re |-> <<"seq", [j \in DOMAIN Grammars[i][r].rhs |-> <<"atm", Grammars[i][r].rhs[j]>>]>>]]))
LLFree(i) == \E an \in {An(i)} : \A n \in G(i).nts : \A r, q \in RulesFor(G(i), n) : r # q => Predict(G(i), an, r) \cap Predict(G(i), an, q) = {}

\* tables, computed once
Table(i, k) == IF k = "ll1" THEN [n \in G(i).nts |-> [r \in RulesFor(G(i), n) |-> Predict(G(i), An(i), r)]] ELSE BuildClass(G(i), An(i), k)
ASSUME \A i \in DOMAIN Grammars : TLCSet(i, TLCEval([w |-> Written(i), ll |-> LLFree(i), t |-> [k \in Kinds |-> Table(i, k)]]))
Tab(i, k) == TLCGet(i).t[k]
Able(i, k) == CASE k = "ll1" -> TLCGet(i).ll [] k = "glr" -> TRUE [] OTHER -> ConflictCells(G(i), Tab(i, k)) = {}

VARIABLES i, kind, got, shown, stacks, chart, visits, out
vars == <<i, kind, got, shown, stacks, chart, visits, out>>
\* got: tokens requested so far (0: the end);  shown: how many of them were handled;
\* stacks: a sequence of [s: states (LL: symbols, top first), rec: visits not made yet];
\* visits: <<1, token>>, <<2, rule>>;  chart: Earley's, for the tokens requested so far;
\* out: "", "ok", "err"

Init == /\ i \in DOMAIN Grammars /\ kind \in Kinds /\ Able(i, kind)
        /\ got = <<>> /\ shown = 0 /\ visits = <<>> /\ out = ""
        /\ stacks = << [s |-> IF kind = "ll1" THEN <<S, 0>> ELSE <<1>>, rec |-> <<>>] >>
        /\ chart = E!EInit(TLCGet(i).w)

A == Tab(i, kind)
Top(s) == s[Len(s)]
Pending == Len(got) > shown
Tok == got[shown + 1]
Ended == got # <<>> /\ got[Len(got)] = 0

\* The source: delivers anything, and nothing after the end.
Request ==
  /\ out = "" /\ ~Pending
  /\ \E t \in {0} \cup (IF Len(got) < MaxLen THEN Toks ELSE {}) :
       /\ got' = Append(got, t)
       /\ chart' = IF t = 0 THEN chart ELSE E!EScan(TLCGet(i).w, chart, t)
  /\ UNCHANGED <<i, kind, shown, stacks, visits, out>>

Acts(s) == Actions(G(i), A, Top(s), Tok)
Reduced(st, r) == LET base == SubSeq(st.s, 1, Len(st.s) - Len(Grammars[i][r].rhs))
                  IN [s |-> Append(base, A.go[Top(base)][Grammars[i][r].lhs]), rec |-> Append(st.rec, <<2, r>>)]

LR ==
  /\ kind \in {"lr0", "lalr", "lr1"} /\ out = "" /\ Pending
  /\ LET st == stacks[1]  as == Acts(st.s) IN
     IF as = {} THEN out' = "err" /\ UNCHANGED <<shown, stacks, visits>>
     ELSE LET a == One(as) IN
       CASE a[1] = "s" -> /\ stacks' = <<[s |-> Append(st.s, a[2]), rec |-> <<>>]>>
                          /\ visits' = Append(visits, <<1, Tok>>) /\ shown' = shown + 1 /\ UNCHANGED out
         [] a[1] = "r" -> /\ stacks' = <<[Reduced(st, a[2]) EXCEPT !.rec = <<>>]>>
                          /\ visits' = Append(visits, <<2, a[2]>>) /\ UNCHANGED <<shown, out>>
         [] a[1] = "a" -> out' = "ok" /\ UNCHANGED <<shown, stacks, visits>>
  /\ UNCHANGED <<i, kind, got, chart>>

RECURSIVE SeqOf(_)
SeqOf(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o SeqOf(T \ {x})
\* all reductions, in rounds: [acc: stacks that accept, keep: stacks that can shift]
RECURSIVE Rounds(_, _, _)
Rounds(todo, acc, keep) ==
  IF todo = {} THEN [acc |-> acc, keep |-> keep]
  ELSE Rounds(UNION {{Reduced(st, a[2]) : a \in {a \in Acts(st.s) : a[1] = "r"}} : st \in todo},
              acc \cup {st \in todo : \E a \in Acts(st.s) : a[1] = "a"},
              keep \cup {st \in todo : \E a \in Acts(st.s) : a[1] = "s"})
GLR ==
  /\ kind = "glr" /\ out = "" /\ Pending
  /\ \E x \in {Rounds({stacks[j] : j \in DOMAIN stacks}, {}, {})} :
     IF x.acc # {}
     THEN \E st \in x.acc : /\ visits' = visits \o st.rec /\ out' = "ok" /\ UNCHANGED <<shown, stacks>>
     ELSE IF x.keep = {} THEN out' = "err" /\ UNCHANGED <<shown, stacks, visits>>
     ELSE LET next == {[s |-> Append(st.s, One({a \in Acts(st.s) : a[1] = "s"})[2]), rec |-> Append(st.rec, <<1, Tok>>)] : st \in x.keep}
          IN /\ shown' = shown + 1 /\ UNCHANGED out
             /\ IF Cardinality(next) = 1
                THEN visits' = visits \o One(next).rec /\ stacks' = <<[One(next) EXCEPT !.rec = <<>>]>>
                ELSE stacks' = SeqOf(next) /\ UNCHANGED visits
  /\ UNCHANGED <<i, kind, got, chart>>

LL ==
  /\ kind = "ll1" /\ out = "" /\ Pending
  /\ LET s == stacks[1].s IN
     IF Head(s) < 1000
     THEN IF Head(s) = Tok
          THEN /\ stacks' = <<[s |-> Tail(s), rec |-> <<>>]>> /\ shown' = shown + 1
               /\ visits' = Append(visits, <<1, Tok>>)
               /\ out' = IF Tail(s) = <<>> THEN "ok" ELSE ""
          ELSE out' = "err" /\ UNCHANGED <<shown, stacks, visits>>
     ELSE LET rs == {r \in DOMAIN A[Head(s)] : Tok \in A[Head(s)][r]} IN
          IF rs = {} THEN out' = "err" /\ UNCHANGED <<shown, stacks, visits>>
          ELSE /\ stacks' = <<[s |-> Grammars[i][One(rs)].rhs \o Tail(s), rec |-> <<>>]>>
               /\ visits' = Append(visits, <<2, One(rs)>>) /\ UNCHANGED <<shown, out>>
  /\ UNCHANGED <<i, kind, got, chart>>

Next == Request \/ LR \/ GLR \/ LL
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Words(v) == [j \in DOMAIN SelectSeq(v, LAMBDA x : x[1] = 1) |-> SelectSeq(v, LAMBDA x : x[1] = 1)[j][2]]
Word == SelectSeq(got, LAMBDA t : t # 0)

OneAhead == Len(got) <= shown + 1
NothingBehindEnd == \A j \in 1..(Len(got) - 1) : got[j] # 0
TokensInOrder == LET w == Words(visits) IN Len(w) <= Len(got) /\ w = SubSeq(got, 1, Len(w))
AllShown == out = "ok" => Words(visits) = IF kind = "ll1" THEN got ELSE Word
EagerlyShown == out # "ok" /\ kind # "glr" => Words(visits) = SubSeq(got, 1, shown)
Sound == out = "ok" => Ended /\ E!EAccepts(TLCGet(i).w, chart)
ErrorRight == out = "err" => LET c == chart IN IF Ended THEN ~E!EAccepts(TLCGet(i).w, c) ELSE c[Len(c)] = {}
ErrorInTime == out = "" /\ Len(Word) <= shown => chart[Len(chart)] # {}

\* the reductions, read backwards, are a rightmost derivation of the word; the predictions of LL a leftmost one
RECURSIVE Backwards(_, _)
LastNT(f) == LET D == {j \in DOMAIN f : f[j] >= 1000} IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A k \in D : k <= j
FirstNT(f) == LET D == {j \in DOMAIN f : f[j] >= 1000} IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A k \in D : j <= k
Subst(f, j, s) == SubSeq(f, 1, j - 1) \o s \o SubSeq(f, j + 1, Len(f))
Backwards(form, rs) ==
  IF rs = <<>> THEN form
  ELSE LET j == IF kind = "ll1" THEN FirstNT(form) ELSE LastNT(form)
           r == IF kind = "ll1" THEN Head(rs) ELSE rs[Len(rs)]
       IN IF j = 0 \/ form[j] # Grammars[i][r].lhs THEN <<"no derivation">>
          ELSE Backwards(Subst(form, j, Grammars[i][r].rhs), IF kind = "ll1" THEN Tail(rs) ELSE SubSeq(rs, 1, Len(rs) - 1))
RulesSeen == LET v == SelectSeq(visits, LAMBDA x : x[1] = 2) IN [j \in DOMAIN v |-> v[j][2]]
Derivation == out = "ok" => Backwards(<<S>>, RulesSeen) = Word
\* a reduction comes directly behind what it derives: the tokens and reductions are a post-order walk
RECURSIVE Replay(_, _)
Replay(st, v) ==
  IF v = <<>> THEN st
  ELSE IF Head(v)[1] = 1 THEN Replay(Append(st, Head(v)[2]), Tail(v))
  ELSE LET r == Grammars[i][Head(v)[2]]  n == Len(r.rhs) IN
       IF Len(st) >= n /\ SubSeq(st, Len(st) - n + 1, Len(st)) = r.rhs THEN Replay(Append(SubSeq(st, 1, Len(st) - n), r.lhs), Tail(v)) ELSE <<-1>>
PostOrder == kind # "ll1" => LET x == Replay(<<>>, visits) IN x # <<-1>> /\ (out = "ok" => x = <<S>>)

Ends == <>(out # "")
=============================================================================
