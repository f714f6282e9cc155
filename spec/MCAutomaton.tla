---------------------------- MODULE MCAutomaton ----------------------------
(***************************************************************************)
(* Design-level check of Automaton: every automaton of NStates states over *)
(* one symbol and silent edges.  The machine walks through the automaton   *)
(* as a token does, one edge at a time, and logs the symbols; wherever it  *)
(* may be, the set of states says so, and every member of the set is a     *)
(* place a walk leads to.                                                  *)
(***************************************************************************)
EXTENDS Automaton, SequencesExt
CONSTANTS NStates, NSyms, MaxLen
VARIABLES a, at, word
vars == <<a, at, word>>
Sts == 0..(NStates - 1)
All == Sts \X Sts \X ((0..(NSyms - 1)) \cup {-1})
Init == /\ \E E \in SUBSET All : a = [states |-> [s \in 1..NStates |-> -1], edges |-> SetToSeq(E), entry |-> 0]
        /\ at = 0 /\ word = <<>>
Walk == \E e \in Edges(a) : /\ e[1] = at /\ at' = e[2] /\ (e[3] # -1 => Len(word) < MaxLen)
                            /\ word' = IF e[3] = -1 THEN word ELSE Append(word, e[3])
                            /\ UNCHANGED a
Spec == Init /\ [][Walk]_vars
RECURSIVE Told(_, _)
Told(S, w) == IF w = <<>> THEN S ELSE Told(After(a, S, Head(w)), Tail(w))
\* no walk is missed
Complete == at \in Told(Start(a), word)
\* every member is there for a reason: a walk, in as many steps as there are pairs of states and positions
RECURSIVE Leads(_, _, _, _)
Leads(s, w, t, fuel) == \/ s = t /\ w = <<>>
                        \/ fuel > 0 /\ \E e \in Edges(a) : e[1] = s /\ (IF e[3] = -1 THEN Leads(e[2], w, t, fuel - 1)
                                                                      ELSE w # <<>> /\ e[3] = Head(w) /\ Leads(e[2], Tail(w), t, fuel - 1))
Sound == \A t \in Told(Start(a), word) : Leads(0, word, t, (Len(word) + 1) * NStates)
=============================================================================
