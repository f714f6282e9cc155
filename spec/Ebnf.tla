-------------------------------- MODULE Ebnf --------------------------------
(***************************************************************************)
(* Grammars whose right-hand sides are regular expressions over symbols,   *)
(* and the set of their sentences, by Earley's algorithm.  A rule set as   *)
(* written in a grammar file is such a grammar (names as symbols), and so  *)
(* is a plain context-free grammar (numbers as symbols).                   *)
(*                                                                         *)
(* A grammar record:                                                       *)
(*   nts    the set of non-terminals      entry   the start symbol         *)
(*   prods  sequence of [lhs, a]: left-hand side, automaton of the         *)
(*          right-hand side (see Regex!Automaton)                          *)
(* PRODUCTION 1 IS THE START PRODUCTION, for a fresh symbol.               *)
(***************************************************************************)
EXTENDS Regex

ProdsOf(g, s) == {p \in DOMAIN g.prods : p > 1 /\ g.prods[p].lhs = s}

\* states of automaton a from which a final state can be reached through atoms in A
RECURSIVE CoReach(_, _, _)
CoReach(a, A, S) ==
  LET T == S \cup {q \in 1..a.n : \E e \in a.trans[q] : e[1] \in A /\ e[2] \in S}
  IN IF T = S THEN S ELSE CoReach(a, A, T)
Finals(a) == {q \in 1..a.n : a.acc[q]}

\* Least set N of non-terminals having a production whose automaton accepts a word over base \cup N.
RECURSIVE Closed(_, _, _)
Closed(g, base, N) ==
  LET M == N \cup {g.prods[p].lhs : p \in {p \in 2..Len(g.prods) : g.prods[p].lhs \notin N
                                              /\ 1 \in CoReach(g.prods[p].a, base \cup N, Finals(g.prods[p].a))}}
  IN IF M = N THEN N ELSE Closed(g, base, M)

Atoms(a) == UNION {{e[1] : e \in a.trans[q]} : q \in 1..a.n}
TerminalsOf(g) == (UNION {Atoms(g.prods[p].a) : p \in DOMAIN g.prods}) \ g.nts

NullableNTs(g) == Closed(g, {}, {})
ProductiveNTs(g) == Closed(g, TerminalsOf(g), {})

\* Removes everything that cannot be part of a complete derivation, and notes the nullable symbols.
TrimTo(g, good, null) ==
  LET TrimA(a) == One({[a EXCEPT !.trans = TLCEval([q \in 1..a.n |-> {e \in a.trans[q] : e[1] \in good /\ e[2] \in live}])]
                       : live \in {CoReach(a, good, Finals(a))}})
  IN [nts |-> g.nts, entry |-> g.entry, null |-> null,
      reduced |-> g.nts \subseteq good,
      empty |-> g.entry \notin good,
      of |-> TLCEval([s \in g.nts |-> {p \in ProdsOf(g, s) : s \in good /\ 1 \in CoReach(g.prods[p].a, good, Finals(g.prods[p].a))}]),
      prods |-> TLCEval([p \in DOMAIN g.prods |-> [lhs |-> g.prods[p].lhs, a |-> TrimA(g.prods[p].a)]])]
Trim(g) == One({TrimTo(g, good, null) : good \in {TerminalsOf(g) \cup ProductiveNTs(g)}, null \in {NullableNTs(g)}})

\* start is any value different from all symbols, of the same type
MakeGrammar(start, entry, nts, rules) ==
  One({Trim(g) : g \in {TLCEval([nts |-> nts, entry |-> entry,
        prods |-> <<[lhs |-> start, a |-> Automaton(<<"atm", entry>>)]>>
                  \o TLCEval([i \in DOMAIN rules |-> [lhs |-> rules[i].lhs, a |-> Automaton(rules[i].re)]])])}})

----------------------------------------------------------------------------
\* Earley: a chart is a sequence of item sets; chart[j+1] belongs to the position after j letters.
\* An item <<p, q, i>>: production p in state q, started after i letters.

EStep(g, chart, j, item) ==
  LET p == item[1]  q == item[2]  i == item[3]
      a == g.prods[p].a
      predict == UNION {{<<r, 1, j>> : r \in g.of[e[1]]} \cup (IF e[1] \in g.null THEN {<<p, e[2], i>>} ELSE {})
                        : e \in {e \in a.trans[q] : e[1] \in g.nts}}
      complete == IF a.acc[q] /\ i < j
                  THEN UNION {{<<x[1], e[2], x[3]>> : e \in {e \in g.prods[x[1]].a.trans[x[2]] : e[1] = g.prods[p].lhs}}
                              : x \in chart[i + 1]}
                  ELSE {}
  IN predict \cup complete

RECURSIVE EClose(_, _, _, _, _)
EClose(g, chart, j, done, todo) ==
  IF todo = {} THEN done
  ELSE LET done2 == done \cup todo
           next == UNION {EStep(g, chart, j, x) : x \in todo}
       IN EClose(g, chart, j, done2, next \ done2)

EInit(g) == IF g.empty THEN <<{}>> ELSE <<EClose(g, <<>>, 0, {}, {<<1, 1, 0>>})>>

EScan(g, chart, t) ==
  LET last == chart[Len(chart)]
      moved == UNION {{<<x[1], e[2], x[3]>> : e \in {e \in g.prods[x[1]].a.trans[x[2]] : e[1] = t}} : x \in last}
  IN Append(chart, EClose(g, chart, Len(chart), {}, moved))

\* terminals with which the letters read so far can be continued to a sentence
EViable(g, chart) ==
  UNION {{e[1] : e \in {e \in g.prods[x[1]].a.trans[x[2]] : e[1] \notin g.nts}} : x \in chart[Len(chart)]}

EAccepts(g, chart) == \E x \in chart[Len(chart)] : x[1] = 1 /\ x[3] = 0 /\ g.prods[1].a.acc[x[2]]

RECURSIVE ERun(_, _, _)
ERun(g, chart, w) == IF w = <<>> THEN chart ELSE ERun(g, EScan(g, chart, Head(w)), Tail(w))

\* number of letters of w read before the first one that no sentence can continue with (Len(w)+1: none)
RECURSIVE EFailAt(_, _, _, _)
EFailAt(g, chart, w, k) ==
  IF k > Len(w) THEN k
  ELSE IF w[k] \notin EViable(g, chart) THEN k
  ELSE EFailAt(g, EScan(g, chart, w[k]), w, k + 1)

----------------------------------------------------------------------------
\* Declarative meaning for the design-level check: derivable within a bounded number of rounds.
RECURSIVE DerivesA(_, _, _, _, _), DerivesN(_, _, _, _)
DerivesA(g, p, q, w, d) ==   \* production p from state q derives exactly w
  \/ w = <<>> /\ g.prods[p].a.acc[q]
  \/ d > 0 /\ \E e \in g.prods[p].a.trans[q] :
        IF e[1] \in g.nts
        THEN \E k \in 0..Len(w) : /\ DerivesN(g, e[1], SubSeq(w, 1, k), d - 1)
                                  /\ DerivesA(g, p, e[2], SubSeq(w, k + 1, Len(w)), d - 1)
        ELSE w # <<>> /\ Head(w) = e[1] /\ DerivesA(g, p, e[2], Tail(w), d - 1)
DerivesN(g, s, w, d) == d > 0 /\ \E p \in g.of[s] : DerivesA(g, p, 1, w, d - 1)
=============================================================================
