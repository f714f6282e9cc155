-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points.  Character classes are      *)
(* sequences of <<lo, hi>> pairs.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxChar == 1114111
NL == 10  TAB == 9  SPACE == 32  QUOTE == 34  BACKSLASH == 92  SLASH == 47

Printable == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
  "[", "\\", "]", "^", "_", "`",
  "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
  "{", "|", "}", "~">>

CharStr(c) == Printable[c - 31]

RECURSIVE Str(_, _, _)
Str(t, i, j) == IF i >= j THEN "" ELSE CharStr(t[i]) \o Str(t, i + 1, j)   \* t[i..j-1]

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsWordChar(c) == IsLetter(c) \/ IsDigit(c) \/ c = 95

InClass(c, cls) == \E i \in DOMAIN cls : cls[i][1] <= c /\ c <= cls[i][2]

\* Complement of a class: the gaps between its ranges.
Complement(cls) ==
  LET starts == {0} \cup {cls[i][2] + 1 : i \in DOMAIN cls}
      good == {s \in starts : s <= MaxChar /\ ~InClass(s, cls)}
      EndOf(s) == LET later == {cls[i][1] : i \in {i \in DOMAIN cls : cls[i][1] > s}}
                  IN IF later = {} THEN MaxChar ELSE (CHOOSE x \in later : \A y \in later : x <= y) - 1
      RECURSIVE ToSeq(_)
      ToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                           IN << <<m, EndOf(m)>> >> \o ToSeq(S \ {m})
  IN ToSeq(good)

HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
=============================================================================
