------------------------------ MODULE Automaton ------------------------------
(***************************************************************************)
(* Automata: a nondeterministic automaton with silent edges and labels at  *)
(* its accepting states, and the deterministic automaton it denotes, whose *)
(* states are what is known of the nondeterministic one after a word: the  *)
(* set of states it may be in.                                             *)
(*                                                                         *)
(* An automaton: [states: label of each state (-1: not accepting), edges:  *)
(* <<from, to, symbol>> (symbol -1: silent), entry]; states count from 0.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Edges(a) == {a.edges[j] : j \in DOMAIN a.edges}
Symbols(a) == {e[3] : e \in {e \in Edges(a) : e[3] # -1}}
RECURSIVE Silent(_, _)
Silent(a, S) == LET T == S \cup {e[2] : e \in {e \in Edges(a) : e[3] = -1 /\ e[1] \in S}} IN IF T = S THEN S ELSE Silent(a, T)
Start(a) == Silent(a, {a.entry})
After(a, S, x) == Silent(a, {e[2] : e \in {e \in Edges(a) : e[3] = x /\ e[1] \in S}})
Accepting(a, S) == {s \in S : a.states[s + 1] # -1}
\* how often a label is there: once for every state that has it
Count(a, S, l) == Cardinality({s \in S : a.states[s + 1] = l})
=============================================================================
