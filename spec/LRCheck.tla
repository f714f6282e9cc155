------------------------------- MODULE LRCheck -------------------------------
(***************************************************************************)
(* The generated action/goto table against the canonical automaton of the  *)
(* grammar: the product of the two is explored from the start states; in   *)
(* every reachable pair of states the entries have to be the same.         *)
(* A case: [id, bnf, cls, res]; res.plain is the result of the generator,  *)
(* res.allowed the one with conflicts kept (as used for GLR).              *)
(* MODE = table: the table;  MODE = conflict: the decision and its report. *)
(***************************************************************************)
EXTENDS LR, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Mode == IOEnv.MODE

\* The grammar and canonical automaton of case i, computed once (by Init) and kept in a TLC register.
Setup(i) == LET g == TLCEval(FromDump(Cases[i].bnf))
            IN TLCSet(i, TLCEval([g |-> g, a |-> BuildClass(g, TLCEval(Analyse(g)), Cases[i].cls)]))
G(i) == TLCGet(i).g
A(i) == TLCGet(i).a

VARIABLES c, pairs, todo, verdict
vars == <<c, pairs, todo, verdict>>

Bad(n) == Cases[n].res.status # "ok"
Tab(n) == LET r == Cases[n].res IN
          IF r.allowed.kind \in {"table", "allowed"} THEN r.allowed.table ELSE [entry |-> 0, syms |-> <<>>, rows |-> <<>>]

\* The entries of real state p for the symbol in column j, as spec actions
Entries(n, p, j) == Tab(n).rows[p + 1][j]
IsEntry(e, a, q) ==
  \/ a[1] = "s" /\ e[1] = "s"
  \/ a[1] = "r" /\ e[1] = "r" /\ e[2] = a[2]
  \/ a[1] = "a" /\ e[1] = "a"

\* spec actions of state q for any symbol
Acts(n, q, s) == IF s >= 1000 THEN (IF s \in DOMAIN A(n).go[q] THEN {<<"s", A(n).go[q][s]>>} ELSE {})
                 ELSE Actions(G(n), A(n), q, s)

CellOk(n, q, p, j) ==
  LET es == SelectSeq(Entries(n, p, j), LAMBDA e : e[1] # "e")
      as == Acts(n, q, Tab(n).syms[j])
  IN /\ Len(es) = Cardinality(as)
     /\ \A a \in as : \E i \in DOMAIN es : IsEntry(es[i], a, q)

WrongCells(n, q, p) == {j \in DOMAIN Tab(n).syms : ~CellOk(n, q, p, j)}
Succ(n, q, p) ==
  {<<a[2], e[2]>> : <<a, e>> \in UNION {
       {<<a, Entries(n, p, j)[i]>> : a \in {a \in Acts(n, q, Tab(n).syms[j]) : a[1] = "s"},
                                     i \in {i \in DOMAIN Entries(n, p, j) : Entries(n, p, j)[i][1] = "s"}}
       : j \in DOMAIN Tab(n).syms}}

SymsOk(n) == {Tab(n).syms[j] : j \in DOMAIN Tab(n).syms} = G(n).terms \cup G(n).nts \cup {End}

----------------------------------------------------------------------------
\* conflicts: every state with one is reported, every report is right
ItemsWith(n, q, r) == {it \in A(n).items[q] : it[1] = r /\ Complete(G(n), it)}
Las(n, its) == IF \E it \in its : it[3] = -1 THEN Lookable(G(n)) ELSE {it[3] : it \in its}
Genuine(n, q, x) ==
  IF x.kind = "sr"
  THEN /\ x.complete
       /\ x.sym \in DOMAIN A(n).go[q] /\ ~IsNT(x.sym)
       /\ x.sym \in Las(n, ItemsWith(n, q, x.items[1]))
  ELSE /\ x.complete /\ Len(x.items) > 1
       /\ \A i \in DOMAIN x.items : \E j \in DOMAIN x.items :
            i # j /\ x.items[i] # x.items[j] /\ Las(n, ItemsWith(n, q, x.items[i])) \cap Las(n, ItemsWith(n, q, x.items[j])) # {}

\* every symbol of a state at which actions compete is covered by a report for that state: one of all the reductions
\* that compete, or, if there is only one, one of it and that symbol.  (Where an LR(0) state has several reductions, they
\* compete on all symbols, and a shift is not mentioned in addition.)
Ending(n, q, t) == {a[2] : a \in {a \in Actions(G(n), A(n), q, t) : a[1] \in {"r", "a"}}}
Covered(n, q, t, reps) ==
  LET E == Ending(n, q, t) IN
  IF Cardinality(E) > 1 \/ (Cases[n].cls = "lr0" /\ \E x \in reps : x.kind = "rr" /\ E \subseteq {x.items[i] : i \in DOMAIN x.items})
  THEN \E x \in reps : x.kind = "rr" /\ E \subseteq {x.items[i] : i \in DOMAIN x.items}
  ELSE \E x \in reps : x.kind = "sr" /\ x.sym = t

ConflictVerdict(n, ps) ==
  LET r == Cases[n].res.plain
      cells == ConflictCells(G(n), A(n))
      states == {x[1] : x \in cells}
      SpecOf(p) == {q[1] : q \in {q \in ps : q[2] = p}}
      reported == UNION {SpecOf(r.conflicts[i].state) : i \in DOMAIN r.conflicts}
  IN IF cells = {} THEN (IF r.kind = "table" THEN <<"ok", "no conflict">> ELSE <<"bad", "refused without a conflict">>)
     ELSE IF r.kind # "conflicts" THEN <<"bad", "a conflict is not reported">>
     ELSE IF \E i \in DOMAIN r.conflicts : ~\E q \in SpecOf(r.conflicts[i].state) : Genuine(n, q, r.conflicts[i])
          THEN <<"bad", "a reported conflict is none">>
     ELSE IF states # reported THEN <<"bad", "a state with a conflict is not reported">>
     ELSE IF \E x \in cells : ~Covered(n, x[1], x[2], {r.conflicts[i] : i \in {i \in DOMAIN r.conflicts : x[1] \in SpecOf(r.conflicts[i].state)}})
          THEN <<"bad", "a conflict of a state is not reported">>
     ELSE <<"ok", "conflicts">>

TableVerdict(n) ==
  IF ~SymsOk(n) THEN <<"bad", "symbols">>
  ELSE IF Cases[n].res.plain.kind = "table" /\ Cases[n].res.plain.table # Tab(n) THEN <<"bad", "tables of one grammar differ">>
  ELSE <<"ok", IF ConflictCells(G(n), A(n)) = {} THEN "table" ELSE "table with conflicts">>

----------------------------------------------------------------------------
\* One step handles one pair of states of the product.
Init == /\ c \in DOMAIN Cases
        /\ Setup(c)
        /\ pairs = {}
        /\ todo = IF Bad(c) THEN {} ELSE {<<1, Tab(c).entry>>}
        /\ verdict = IF Bad(c) \/ Tab(c).rows = <<>> THEN <<"bad", "no result">> ELSE <<"todo">>

Visit == /\ verdict = <<"todo">> /\ todo # {}
         /\ LET x == CHOOSE x \in todo : TRUE
                w == WrongCells(c, x[1], x[2])
            IN /\ pairs' = pairs \cup {x}
               /\ todo' = (todo \cup Succ(c, x[1], x[2])) \ pairs'
               /\ verdict' = IF Mode = "table" /\ w # {}
                             THEN <<"bad", "wrong entry", x[2], Tab(c).syms[CHOOSE j \in w : TRUE]>>
                             ELSE IF Mode = "table" /\ ~SymsOk(c) THEN <<"bad", "symbols">> ELSE verdict
         /\ UNCHANGED c
Finish == /\ verdict = <<"todo">> /\ todo = {}
          /\ verdict' = IF Mode = "table" THEN TableVerdict(c) ELSE ConflictVerdict(c, pairs)
          /\ UNCHANGED <<c, pairs, todo>>
Next == /\ (Visit \/ Finish)
        /\ verdict' # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
