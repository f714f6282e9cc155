------------------------------- MODULE TableText -------------------------------
(***************************************************************************)
(* The printed parser table (--table).  A case is one of LRCheck with the  *)
(* text of the file taken apart: printed = [rules, head, rows]:            *)
(*   rules: sequence of [index, lhs, rhs] with names of symbols            *)
(*   head: names of the columns;  rows: sequence of <<state, cells>>       *)
(*   a cell: <<kind, number>>, kind one of "", s, r, a, e, c               *)
(* The table of the library (used for the generated parser) is walked      *)
(* together with the canonical automaton, as in LRCheck; in every pair the *)
(* printed cells have to say the same.                                     *)
(***************************************************************************)
EXTENDS LRCheck

P(n) == Cases[n].printed
B(n) == Cases[n].bnf

\* symbols are shown with their numbers
Name(n, s) ==
  IF s = 0 THEN "<end>" ELSE IF s = -1 THEN "<eps>"
  ELSE IF s < 1000 THEN LET i == CHOOSE i \in DOMAIN B(n).terminals : B(n).terminals[i][1] = s IN B(n).terminals[i][2] \o "(" \o ToString(s - 1) \o ")"
  ELSE LET i == CHOOSE i \in DOMAIN B(n).nts : B(n).nts[i][1] = s
       IN (IF B(n).nts[i][2] = "" THEN "<anon>" ELSE B(n).nts[i][2]) \o "(" \o ToString(s - 1000) \o ")"
Names(n) == TLCEval([s \in G(n).terms \cup G(n).nts \cup {0, -1} |-> Name(n, s)])

Shape(n, nm, r) == <<nm[B(n).rules[r].lhs], [j \in DOMAIN B(n).rules[r].rhs |-> nm[B(n).rules[r].rhs[j]]]>>
PShape(n, i) == <<P(n).rules[i].lhs, P(n).rules[i].rhs>>
RulesOk(n, nm) ==
  LET S == {Shape(n, nm, r) : r \in DOMAIN B(n).rules} IN
  /\ Len(P(n).rules) = Len(B(n).rules)
  /\ Cardinality({P(n).rules[i].index : i \in DOMAIN P(n).rules}) = Len(P(n).rules)
  /\ {PShape(n, i) : i \in DOMAIN P(n).rules} = S
  /\ \A s \in S : Cardinality({i \in DOMAIN P(n).rules : PShape(n, i) = s}) = Cardinality({r \in DOMAIN B(n).rules : Shape(n, nm, r) = s})

Frame(n, nm) ==
  /\ RulesOk(n, nm)
  /\ Len(P(n).head) = Len(Tab(n).syms)
  /\ {P(n).head[j] : j \in DOMAIN P(n).head} = {nm[Tab(n).syms[j]] : j \in DOMAIN Tab(n).syms}
  /\ Len(P(n).rows) = Len(Tab(n).rows)
  /\ {P(n).rows[i][1] : i \in DOMAIN P(n).rows} = 0..(Len(Tab(n).rows) - 1)
  /\ \A i \in DOMAIN P(n).rows : Len(P(n).rows[i][2]) = Len(P(n).head)

\* what is printed for the symbol in column j of the library's table, in state p
Cell(n, nm, p, j) ==
  LET i == CHOOSE i \in DOMAIN P(n).rows : P(n).rows[i][1] = p
      k == CHOOSE k \in DOMAIN P(n).head : P(n).head[k] = nm[Tab(n).syms[j]]
  IN P(n).rows[i][2][k]

CellSays(n, nm, p, j) ==
  LET es == SelectSeq(Entries(n, p, j), LAMBDA e : e[1] # "e")
      x == Cell(n, nm, p, j)
  IN IF es = <<>> THEN x[1] \in {"", "e"}
     ELSE IF Len(es) > 1 THEN x[1] = "c"
     ELSE /\ x[1] = es[1][1]
          /\ es[1][1] = "s" => x[2] = es[1][2]
          /\ es[1][1] = "r" => \E i \in DOMAIN P(n).rules : P(n).rules[i].index = x[2] /\ PShape(n, i) = Shape(n, nm, es[1][2])

\* every state, also those the walk does not reach
AllSaid(n) == \E nm \in {Names(n)} : Frame(n, nm) /\ \A p \in 0..(Len(Tab(n).rows) - 1) : \A j \in DOMAIN Tab(n).syms : CellSays(n, nm, p, j)

InitT == /\ Init
         /\ verdict[1] = "bad" => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))
FinishT == /\ verdict = <<"todo">> /\ todo = {}
           /\ verdict' = IF ~SymsOk(c) THEN <<"bad", "symbols">> ELSE IF AllSaid(c) THEN <<"ok", Cases[c].cls>> ELSE <<"bad", "the printed table differs">>
           /\ UNCHANGED <<c, pairs, todo>>
NextT == /\ (Visit \/ FinishT)
         /\ verdict' # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
SpecT == InitT /\ [][NextT]_vars
=============================================================================
