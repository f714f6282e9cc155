---------------------------------- MODULE LR ----------------------------------
(***************************************************************************)
(* Canonical LR(0), LALR(1) and LR(1) automata of a context-free grammar.  *)
(*                                                                         *)
(* Item: <<r, d, l>>: rule, position of the dot, lookahead.  Rule 0 is the *)
(* start rule S' -> entry.  For LR(0) the lookahead is always -1.          *)
(* Automaton: [items: sequence of item sets, go: sequence of functions     *)
(* from symbols to states]; state 1 is the start state.                    *)
(***************************************************************************)
EXTENDS Cfg

Rhs(g, r) == IF r = 0 THEN <<g.entry>> ELSE g.rules[r].rhs
Sym(g, it) == LET s == Rhs(g, it[1]) IN IF it[2] < Len(s) THEN s[it[2] + 1] ELSE -1
Complete(g, it) == it[2] = Len(Rhs(g, it[1]))
Rest(g, it) == LET s == Rhs(g, it[1]) IN SubSeq(s, it[2] + 2, Len(s))

Lookaheads(g, an, k, it) ==
  IF k = 0 THEN {-1}
  ELSE LET rest == Rest(g, it) IN
       FirstSeq(rest, an.null, an.first) \cup (IF NullSeq(rest, an.null) THEN {it[3]} ELSE {})

Expand(g, an, k, it) ==
  LET s == Sym(g, it) IN
  IF s < 1000 THEN {}
  ELSE LET las == Lookaheads(g, an, k, it) IN {<<r, 0, l>> : r \in RulesFor(g, s), l \in las}

RECURSIVE Closure(_, _, _, _, _)
Closure(g, an, k, done, todo) ==
  IF todo = {} THEN done
  ELSE LET done2 == done \cup todo
           next == UNION {Expand(g, an, k, it) : it \in todo}
       IN Closure(g, an, k, done2, next \ done2)

NextSyms(g, I) == {Sym(g, it) : it \in I} \ {-1}
Kernel(g, I, s) == {<<it[1], it[2] + 1, it[3]>> : it \in {it \in I : Sym(g, it) = s}}

\* Canonical construction.  ks: kernels found so far, in order; items/go of those processed (i-1 of them).
IndexOf(ks, K) == LET S == {j \in DOMAIN ks : ks[j] = K} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

RECURSIVE AddKernels(_, _)
AddKernels(ks, S) == IF S = {} THEN ks
                     ELSE LET K == CHOOSE K \in S : TRUE
                          IN AddKernels(IF IndexOf(ks, K) = 0 THEN Append(ks, K) ELSE ks, S \ {K})

RECURSIVE Build(_, _, _, _, _, _, _)
Build(g, an, k, ks, i, items, go) ==
  IF i > Len(ks) THEN [items |-> items, go |-> go]
  ELSE LET I == TLCEval(Closure(g, an, k, {}, ks[i]))
           syms == NextSyms(g, I)
           kern == TLCEval([s \in syms |-> Kernel(g, I, s)])
           ks2 == AddKernels(ks, {kern[s] : s \in syms})
       IN Build(g, an, k, ks2, i + 1, Append(items, I), Append(go, TLCEval([s \in syms |-> IndexOf(ks2, kern[s])])))

Canonical(g, an, k) == Build(g, an, k, << {<<0, 0, IF k = 0 THEN -1 ELSE End>>} >>, 1, <<>>, <<>>)

Core(I) == {<<it[1], it[2]>> : it \in I}

\* LALR(1): the LR(1) states with the same core, merged.
Merge(A) ==
  LET cores == TLCEval([q \in DOMAIN A.items |-> Core(A.items[q])])
      firsts == {q \in DOMAIN cores : \A p \in 1..(q - 1) : cores[p] # cores[q]}
      RECURSIVE Sorted(_)
      Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
      reps == Sorted(firsts)
      ix == TLCEval([q \in DOMAIN cores |-> CHOOSE j \in DOMAIN reps : cores[reps[j]] = cores[q]])
  IN [items |-> TLCEval([j \in DOMAIN reps |-> UNION {A.items[q] : q \in {q \in DOMAIN cores : ix[q] = j}}]),
      go |-> TLCEval([j \in DOMAIN reps |-> TLCEval([s \in DOMAIN A.go[reps[j]] |-> ix[A.go[reps[j]][s]]])])]

\* cls: "lr0", "lr1", "lalr" (or "glr", which uses the LALR(1) automaton)
BuildClass(g, an, cls) ==
  IF cls = "lr0" THEN Canonical(g, an, 0)
  ELSE IF cls = "lr1" THEN Canonical(g, an, 1)
  ELSE Merge(Canonical(g, an, 1))

----------------------------------------------------------------------------
\* Actions of state q on terminal t (End included): set of <<"s", target>>, <<"r", rule>>, <<"a", 0>>.
Actions(g, A, q, t) ==
  (IF t \in DOMAIN A.go[q] THEN {<<"s", A.go[q][t]>>} ELSE {})
  \cup {<<"r", it[1]>> : it \in {it \in A.items[q] : Complete(g, it) /\ it[1] # 0 /\ (it[3] = -1 \/ it[3] = t)}}
  \cup (IF t = End /\ \E it \in A.items[q] : it[1] = 0 /\ Complete(g, it) THEN {<<"a", 0>>} ELSE {})

Lookable(g) == g.terms \cup {End}
ConflictCells(g, A) == {<<q, t>> \in (DOMAIN A.items) \X Lookable(g) : Cardinality(Actions(g, A, q, t)) > 1}
=============================================================================
