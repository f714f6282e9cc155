------------------------------ MODULE CharLang ------------------------------
(***************************************************************************)
(* Automata whose atoms are character classes: stepping, the elementary    *)
(* intervals that no class cuts, and equality of languages.                *)
(***************************************************************************)
EXTENDS Regex, Text

Step(a, S, c) == UNION {{e[2] : e \in {e \in a.trans[q] : InClass(c, e[1])}} : q \in S}
Final(a, S) == \E q \in S : a.acc[q]

ClassesOf(a) == UNION {{e[1] : e \in a.trans[q]} : q \in 1..a.n}
CutsOf(cls) == {cls[i][1] : i \in DOMAIN cls} \cup {cls[i][2] + 1 : i \in DOMAIN cls}
Cuts(a) == UNION {CutsOf(cls) : cls \in ClassesOf(a)}
IsScalar(c) == c >= 0 /\ c <= MaxChar /\ ~(c >= 55296 /\ c <= 57343)
\* one representative of every interval of scalar values not cut by the given points
RepsOf(cuts) == {c \in cuts \cup {0, 57344} : IsScalar(c)}

RECURSIVE EqFrom(_, _, _, _, _)
EqFrom(a, b, reps, done, todo) ==
  IF todo = {} THEN TRUE
  ELSE /\ \A p \in todo : Final(a, p[1]) = Final(b, p[2])
       /\ LET next == UNION {{<<Step(a, p[1], c), Step(b, p[2], c)>> : c \in reps} : p \in todo}
              done2 == done \cup todo
          IN EqFrom(a, b, reps, done2, next \ done2)

SameLanguage(a, b) == \E reps \in {RepsOf(Cuts(a) \cup Cuts(b))} : EqFrom(a, b, reps, {}, {<<{1}, {1}>>})
SameRe(r, s) == \E a \in {Automaton(r)}, b \in {Automaton(s)} : SameLanguage(a, b)
=============================================================================
