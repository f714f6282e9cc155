------------------------------- MODULE MCGrammar -------------------------------
(***************************************************************************)
(* Design-level check of modules Cfg, LR and Ebnf, on all grammars of two  *)
(* non-terminals (1000, the entry, and 1001) and two tokens (1, 2) with    *)
(* one or two rules each and right-hand sides up to length 2 (of these,    *)
(* every Every-th, from From on): the theory on which the checks of the    *)
(* implementation rest.                                                    *)
(*                                                                         *)
(* The meaning of a grammar is given declaratively: lang[n], the words up  *)
(* to length MaxLen that non-terminal n derives, is the least solution of  *)
(* the rules read as equations.                                            *)
(***************************************************************************)
EXTENDS LR
CONSTANTS MaxLen, Every, From

E == INSTANCE Ebnf

Toks == {1, 2}
NTs == {1000, 1001}
Syms == Toks \cup NTs
RHS == {<<>>} \cup {<<a>> : a \in Syms} \cup {<<a, b>> : a \in Syms, b \in Syms}
RhsSeq == E!Enumerate(RHS)
N == Len(RhsSeq)
\* a pair of numbers i <= j is a set of one or two right-hand sides
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i <= j}

VARIABLES half, g
vars == <<half, g>>

RulesOf(n, p) == IF p[1] = p[2] THEN <<[lhs |-> n, rhs |-> RhsSeq[p[1]]]>>
                 ELSE <<[lhs |-> n, rhs |-> RhsSeq[p[1]]], [lhs |-> n, rhs |-> RhsSeq[p[2]]]>>
Key(p, q) == (p[1] * 31 + p[2]) * 1009 + q[1] * 37 + q[2]
Grammar(p, q) == [rules |-> RulesOf(1000, p) \o RulesOf(1001, q), entry |-> 1000, terms |-> Toks, nts |-> NTs]
Init == half \in Pairs /\ g = <<>>
Next == /\ g = <<>> /\ half' = half
        /\ \E q \in Pairs : Key(half, q) % Every = From /\ g' = Grammar(half, q)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* declarative meaning
Concat(A, B) == {w \in {a \o b : a \in A, b \in B} : Len(w) <= MaxLen}
RECURSIVE SeqLang(_, _)
SeqLang(L, s) == IF s = <<>> THEN {<<>>}
                 ELSE Concat(IF IsNT(Head(s)) THEN L[Head(s)] ELSE {<<Head(s)>>}, SeqLang(L, Tail(s)))
RECURSIVE LangFix(_, _)
LangFix(rules, L) ==
  LET M == TLCEval([n \in NTs |-> L[n] \cup UNION {SeqLang(L, rules[r].rhs) : r \in {r \in DOMAIN rules : rules[r].lhs = n}}])
  IN IF M = L THEN L ELSE LangFix(rules, M)
Lang == LangFix(g.rules, [n \in NTs |-> {}])

\* the beginnings, up to length MaxLen, of all words a non-terminal derives
Cut(w) == IF Len(w) > MaxLen THEN SubSeq(w, 1, MaxLen) ELSE w
RECURSIVE SeqCut(_, _)
SeqCut(L, s) == IF s = <<>> THEN {<<>>}
                ELSE {Cut(a \o b) : a \in (IF IsNT(Head(s)) THEN L[Head(s)] ELSE {<<Head(s)>>}), b \in SeqCut(L, Tail(s))}
RECURSIVE CutFix(_, _)
CutFix(rules, L) ==
  LET M == TLCEval([n \in NTs |-> L[n] \cup UNION {SeqCut(L, rules[r].rhs) : r \in {r \in DOMAIN rules : rules[r].lhs = n}}])
  IN IF M = L THEN L ELSE CutFix(rules, M)
CutLang == CutFix(g.rules, [n \in NTs |-> {}])

RECURSIVE WordsUpTo(_)
WordsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET W == WordsUpTo(n - 1) IN W \cup {Append(w, x) : w \in W, x \in Toks}
AllWords == TLCEval(WordsUpTo(MaxLen))
IsPrefixOf(u, w) == Len(u) <= Len(w) /\ SubSeq(w, 1, Len(u)) = u
Prefixes(L) == UNION {{SubSeq(w, 1, i) : i \in 0..Len(w)} : w \in L}

Written == E!MakeGrammar(-5, g.entry, g.nts, TLCEval([r \in DOMAIN g.rules |->
             [lhs |-> g.rules[r].lhs, re |-> <<"seq", [i \in DOMAIN g.rules[r].rhs |-> <<"atm", g.rules[r].rhs[i]>>]>>]]))

----------------------------------------------------------------------------
\* Earley's charts decide the language, and know exactly the tokens that can follow.
EarleyRight(w, L, C) ==
  LET P == Prefixes(C) IN
  \A u \in AllWords : \E ch \in {E!ERun(w, E!EInit(w), u)} :
     /\ E!EAccepts(w, ch) = (u \in L)
     /\ Len(u) < MaxLen => E!EViable(w, ch) = {t \in Toks : Append(u, t) \in P}

----------------------------------------------------------------------------
\* nullable, FIRST and FOLLOW
SetsRight(an, L, C) ==
  /\ \A n \in NTs : (n \in an.null) = (<<>> \in L[n])
  /\ \A n \in NTs : {Head(w) : w \in C[n] \ {<<>>}} \subseteq an.first[n]

\* where all productions can be completed
SetsExact(an, C) ==
  /\ \A n \in NTs : an.first[n] = {Head(w) : w \in C[n] \ {<<>>}}
  \* a token follows a non-terminal exactly if it does so in a sentential form (those with a few steps are looked at)
  /\ \A n \in NTs : \A r \in DOMAIN g.rules : \A i \in DOMAIN g.rules[r].rhs :
       g.rules[r].rhs[i] = n /\ g.rules[r].lhs = 1000 =>
         {Head(w) : w \in SeqCut(C, SubSeq(g.rules[r].rhs, i + 1, Len(g.rules[r].rhs))) \ {<<>>}} \subseteq an.follow[n]

----------------------------------------------------------------------------
\* The deterministic LR machine: number of tokens shifted, and whether it accepts; "loop" if it reduces forever.
Top(s) == s[Len(s)]
RECURSIVE LRRun(_, _, _, _, _)
LRRun(A, s, w, k, fuel) ==
  IF fuel = 0 THEN <<"loop", k>>
  ELSE LET t == IF k < Len(w) THEN w[k + 1] ELSE End
           as == Actions(g, A, Top(s), t)
       IN IF as = {} THEN <<"reject", k>>
          ELSE LET a == One(as) IN
               IF a[1] = "a" THEN <<"accept", k>>
               ELSE IF a[1] = "s" THEN LRRun(A, Append(s, a[2]), w, k + 1, fuel)
               ELSE LET base == SubSeq(s, 1, Len(s) - Len(g.rules[a[2]].rhs))
                    IN LRRun(A, Append(base, A.go[Top(base)][g.rules[a[2]].lhs]), w, k, fuel - 1)

\* where Earley's chart becomes empty: tokens that can be read before the first impossible one
RECURSIVE GoodLen(_, _, _, _)
GoodLen(w, ch, u, k) == IF k = Len(u) \/ u[k + 1] \notin E!EViable(w, ch) THEN k ELSE GoodLen(w, E!EScan(w, ch, u[k + 1]), u, k + 1)

LRRight(w, L, A, cls) ==
  ConflictCells(g, A) = {} =>
    \A u \in AllWords : \E x \in {LRRun(A, <<1>>, u, 0, 60)} :
      /\ (x[1] = "accept") = (u \in L)
      /\ x[1] = "loop" => ~w.reduced /\ cls = "lr0"
      /\ w.reduced /\ x[1] = "reject" => x[2] = GoodLen(w, E!EInit(w), u, 0)

\* the tokens a canonical LR(1) machine can act on are exactly the possible continuations
RECURSIVE LRState(_, _, _, _)
LRState(A, s, w, k) ==   \* stack after reading a viable prefix w
  IF k = Len(w) THEN s
  ELSE LET a == One(Actions(g, A, Top(s), w[k + 1])) IN
       IF a[1] = "s" THEN LRState(A, Append(s, a[2]), w, k + 1)
       ELSE LET base == SubSeq(s, 1, Len(s) - Len(g.rules[a[2]].rhs))
            IN LRState(A, Append(base, A.go[Top(base)][g.rules[a[2]].lhs]), w, k)
ExpectRight(w, A, cls) ==
  ConflictCells(g, A) = {} /\ w.reduced =>
    \A u \in {u \in AllWords : Len(u) < MaxLen} : \E ch \in {E!ERun(w, E!EInit(w), u)} :
      GoodLen(w, E!EInit(w), u, 0) = Len(u) =>
        LET q == Top(LRState(A, <<1>>, u, 0))
            can == {t \in Toks \cup {End} : Actions(g, A, q, t) # {}}
            want == E!EViable(w, ch) \cup (IF E!EAccepts(w, ch) THEN {End} ELSE {})
        IN /\ want \subseteq can
           /\ cls = "lr1" => can = want

----------------------------------------------------------------------------
\* LL(1)
LLFree(an) == \A n \in NTs : \A r, q \in RulesFor(g, n) : r # q => Predict(g, an, r) \cap Predict(g, an, q) = {}
RECURSIVE LLRun(_, _, _, _, _)
LLRun(an, s, w, k, fuel) ==
  LET t == IF k < Len(w) THEN w[k + 1] ELSE End IN
  IF fuel = 0 THEN <<"loop", k>>
  ELSE IF s = <<>> THEN <<"accept", k>>
  ELSE IF ~IsNT(Head(s)) THEN (IF Head(s) = t THEN (IF t = End THEN <<"accept", k>> ELSE LLRun(an, Tail(s), w, k + 1, fuel)) ELSE <<"reject", k>>)
  ELSE LET rs == {r \in RulesFor(g, Head(s)) : t \in Predict(g, an, r)} IN
       IF rs = {} THEN <<"reject", k>> ELSE LLRun(an, g.rules[One(rs)].rhs \o Tail(s), w, k, fuel - 1)
LLRight(w, L, an) ==
  LLFree(an) =>
    \A u \in AllWords : \E x \in {LLRun(an, <<1000, End>>, u, 0, 60)} :
      /\ (x[1] = "accept") = (u \in L)
      /\ w.reduced => x[1] # "loop" /\ (x[1] = "reject" => x[2] = GoodLen(w, E!EInit(w), u, 0))

----------------------------------------------------------------------------
\* GLR: all stacks of the LALR(1) automaton, for grammars without cycles and hidden left recursion
Nul(an, s) == NullSeq(s, an.null)
UnitStep(an) == {<<g.rules[r].lhs, g.rules[r].rhs[i]>> : <<r, i>> \in {<<r, i>> \in (DOMAIN g.rules) \X (1..2) :
                   i <= Len(g.rules[r].rhs) /\ IsNT(g.rules[r].rhs[i]) /\ \A j \in DOMAIN g.rules[r].rhs : j # i => g.rules[r].rhs[j] \in an.null}}
LeftStep(an) == {<<g.rules[r].lhs, g.rules[r].rhs[i]>> : <<r, i>> \in {<<r, i>> \in (DOMAIN g.rules) \X (1..2) :
                   i <= Len(g.rules[r].rhs) /\ IsNT(g.rules[r].rhs[i]) /\ \A j \in 1..(i - 1) : g.rules[r].rhs[j] \in an.null}}
HiddenStep(an) == {<<g.rules[r].lhs, g.rules[r].rhs[2]>> : r \in {r \in DOMAIN g.rules :
                   Len(g.rules[r].rhs) = 2 /\ g.rules[r].rhs[1] \in an.null /\ IsNT(g.rules[r].rhs[2])}}
Trans(R) == R \cup {<<x[1], y[2]>> : <<x, y>> \in {<<x, y>> \in R \X R : x[2] = y[1]}}
Tame(an) == /\ \A x \in Trans(UnitStep(an)) : x[1] # x[2]
            /\ \A x \in HiddenStep(an) : x[1] # x[2] /\ <<x[2], x[1]>> \notin Trans(LeftStep(an))

RECURSIVE RedClose(_, _, _, _)
RedClose(A, done, todo, t) ==
  IF todo = {} THEN done
  ELSE LET next == UNION {{LET base == SubSeq(s, 1, Len(s) - Len(g.rules[a[2]].rhs)) IN Append(base, A.go[Top(base)][g.rules[a[2]].lhs])
                           : a \in {a \in Actions(g, A, Top(s), t) : a[1] = "r"}} : s \in todo}
       IN RedClose(A, done \cup todo, next \ (done \cup todo), t)
RECURSIVE GLRRun(_, _, _, _)
GLRRun(A, S, w, k) ==
  IF k = Len(w)
  THEN IF \E s \in RedClose(A, {}, S, End) : <<"a", 0>> \in Actions(g, A, Top(s), End) THEN <<"accept", k>> ELSE <<"reject", k>>
  ELSE LET next == UNION {{Append(s, a[2]) : a \in {a \in Actions(g, A, Top(s), w[k + 1]) : a[1] = "s"}} : s \in RedClose(A, {}, S, w[k + 1])}
       IN IF next = {} THEN <<"reject", k>> ELSE GLRRun(A, next, w, k + 1)
GLRRight(w, L, A, an) ==
  Tame(an) /\ w.reduced =>
    \A u \in {u \in AllWords : Len(u) < MaxLen} : \E x \in {GLRRun(A, {<<1>>}, u, 0)} :
      /\ (x[1] = "accept") = (u \in L)
      /\ x[1] = "reject" => x[2] = GoodLen(w, E!EInit(w), u, 0)

----------------------------------------------------------------------------
Theory == g = <<>> \/
  \E an \in {TLCEval(Analyse(g))}, L \in {TLCEval(Lang)}, C \in {TLCEval(CutLang)}, w \in {TLCEval(Written)} :
   \E a0 \in {TLCEval(BuildClass(g, an, "lr0"))}, a1 \in {TLCEval(BuildClass(g, an, "lr1"))} :
    \E al \in {TLCEval(Merge(a1))} :
     /\ SetsRight(an, L, C)
     /\ w.reduced => SetsExact(an, C)
     /\ EarleyRight(w, L[1000], C[1000])
     /\ LRRight(w, L[1000], a0, "lr0") /\ LRRight(w, L[1000], al, "lalr") /\ LRRight(w, L[1000], a1, "lr1")
     /\ ExpectRight(w, a0, "lr0") /\ ExpectRight(w, a1, "lr1")
     /\ LLRight(w, L[1000], an)
     /\ GLRRight(w, L[1000], al, an)
     \* the classes contain each other
     /\ ConflictCells(g, a0) = {} => ConflictCells(g, al) = {}
     /\ ConflictCells(g, al) = {} => ConflictCells(g, a1) = {}
     /\ LLFree(an) /\ w.reduced => ConflictCells(g, a1) = {}
     \* merging states keeps the LR(0) states (a lookahead no word begins with loses items)
     /\ w.reduced => {Core(al.items[q]) : q \in DOMAIN al.items} = {Core(a0.items[q]) : q \in DOMAIN a0.items}
=============================================================================
