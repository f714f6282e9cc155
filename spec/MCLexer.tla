------------------------------- MODULE MCLexer -------------------------------
(***************************************************************************)
(* Design-level check of LexSpec: the longest-match lexer as a machine     *)
(* that draws characters from a source which delivers any character at any *)
(* time, one ahead.  What it returns is compared with the declarative      *)
(* meaning of the token rules (Regex!Matches).                             *)
(***************************************************************************)
EXTENDS LexSpec
CONSTANTS MaxLen

A == <<"atm", << <<97, 97>> >>>>
B == <<"atm", << <<98, 98>> >>>>
NotA == <<"atm", Complement(<< <<97, 97>> >>)>>
Sq(s) == <<"seq", s>>
Al(s) == <<"alt", s>>
T(n, e, r) == [name |-> n, eff |-> e, span |-> <<>>, re |-> r]
Sets == <<
  << T("if", 4, Sq(<<A, B>>)), T("id", 1, Plus(Al(<<A, B>>))) >>,
  << T("x", 2, Sq(<<A, A, B>>)), T("y", 2, A), T("z", 2, B) >>,          \* aa is the beginning of a token and none
  << T("x", 2, Star(Sq(<<A, B>>))), T("y", 3, B) >>,                     \* the empty word is no token
  << T("s", 2, Sq(<<B, Star(A), B>>)), T("a", 1, Plus(A)) >>,
  << T("n", 1, Plus(NotA)), T("a", 5, Al(<<A, Sq(<<A, A, A>>)>>)) >>,
  << T("p", 2, Sq(<<A, Opt(B)>>)), T("q", 7, Sq(<<A, B>>)), T("r", 9, Sq(<<B, B>>)) >> >>
Chars == {97, 98, 233}

ASSUME \A i \in DOMAIN Sets : TLCSet(i, Lexer(Sets[i], {1}))

VARIABLES i, text, from, at, v, tokens, out
vars == <<i, text, from, at, v, tokens, out>>
\* text: characters delivered so far, 0 for the end; from: where the run began; at: characters read; tokens: <<name, from, to>>
L == TLCGet(i)
Init == i \in DOMAIN Sets /\ text = <<>> /\ from = 0 /\ at = 0 /\ v = Start(L) /\ tokens = <<>> /\ out = ""
Source == /\ out = "" /\ Len(text) = at /\ (IF text = <<>> THEN TRUE ELSE text[Len(text)] # 0)
          /\ \E ch \in {0} \cup (IF Len(text) < MaxLen THEN Chars ELSE {}) : text' = Append(text, ch)
          /\ UNCHANGED <<i, from, at, v, tokens, out>>
Onward == IF text[at + 1] = 0 THEN <<>> ELSE LET n == After(L, v, Block(L, text[at + 1])) IN IF Dead(n) THEN <<>> ELSE n
Advance ==
        /\ out = "" /\ Len(text) = at + 1
        /\ IF Onward # <<>> THEN v' = Onward /\ at' = at + 1 /\ UNCHANGED <<from, tokens, out>>
           ELSE IF text[at + 1] = 0 /\ from = at THEN out' = "end" /\ UNCHANGED <<v, at, from, tokens>>
           ELSE IF at = from \/ TokenName(L, v) = "" THEN out' = "error" /\ UNCHANGED <<v, at, from, tokens>>
           ELSE /\ tokens' = Append(tokens, <<TokenName(L, v), from, at>>)
                /\ from' = at /\ v' = Start(L) /\ UNCHANGED <<at, out>>
        /\ UNCHANGED <<i, text>>
Next == Source \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* declaratively
RECURSIVE MatchC(_, _)
MatchC(r, w) == \* Matches, with character classes as letters
  CASE r[1] = "atm" -> Len(w) = 1 /\ InClass(w[1], r[2])
    [] r[1] = "seq" -> IF r[2] = <<>> THEN w = <<>>
                       ELSE \E k \in 0..Len(w) : MatchC(Head(r[2]), SubSeq(w, 1, k)) /\ MatchC(<<"seq", Tail(r[2])>>, SubSeq(w, k + 1, Len(w)))
    [] r[1] = "alt" -> \E j \in DOMAIN r[2] : MatchC(r[2][j], w)
    [] r[1] = "rep" -> \/ r[2] = 0 /\ w = <<>>
                       \/ r[3] # 0 /\ \E k \in 1..Len(w) :
                            /\ MatchC(r[4], SubSeq(w, 1, k))
                            /\ MatchC(<<"rep", IF r[2] = 0 THEN 0 ELSE r[2] - 1, IF r[3] = -1 THEN -1 ELSE r[3] - 1, r[4]>>, SubSeq(w, k + 1, Len(w)))
Whole(w) == {t \in DOMAIN Sets[i] : MatchC(Sets[i][t].re, w)}
RECURSIVE Tails(_)
Tails(n) == IF n = 0 THEN {<<>>} ELSE LET S == Tails(n - 1) IN S \cup {Append(x, ch) : x \in S, ch \in Chars}
ShortTails == TLCEval(Tails(2))    \* enough to complete any beginning of these tokens
Beginning(w) == \E x \in ShortTails : Whole(w \o x) # {}
Highest(w) == LET M == Whole(w) IN {Sets[i][t].name : t \in {t \in M : \A s \in M : Sets[i][s].eff <= Sets[i][t].eff}}

Part(a, b) == SubSeq(text, a + 1, b)
RightToken(k) ==
  LET t == tokens[k] IN
  /\ t[3] > t[2]
  /\ Highest(Part(t[2], t[3])) = {t[1]}
  /\ \A b \in (t[2] + 1)..t[3] : Beginning(Part(t[2], b))
  /\ Len(text) > t[3] /\ text[t[3] + 1] # 0 => ~Beginning(Part(t[2], t[3] + 1))
  /\ t[2] = (IF k = 1 THEN 0 ELSE tokens[k - 1][3])
TokensRight == \A k \in DOMAIN tokens : RightToken(k)
OneAhead == Len(text) <= at + 1
ErrorRight == out = "error" => /\ at < Len(text) /\ from < Len(text)
                               /\ text[at + 1] # 0 => ~Beginning(Part(from, at + 1))
                               /\ at = from \/ Whole(Part(from, at)) = {}
EndRight == out = "end" => from = Len(text) - 1 /\ text[Len(text)] = 0 /\ (IF tokens = <<>> THEN from = 0 ELSE tokens[Len(tokens)][3] = from)
Ends == <>(out # "")
=============================================================================
