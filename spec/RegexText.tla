------------------------------ MODULE RegexText ------------------------------
(***************************************************************************)
(* Reading the text of a regex (what stands between the slashes of a       *)
(* grammar file).  Result: [ok, unsup, re]; unsup: syntax this             *)
(* specification does not give a meaning to (Unicode classes, flags,       *)
(* anchors, lazy operators, empty alternatives, ...).                      *)
(***************************************************************************)
EXTENDS Regex, Text

\* Every parsing operator returns <<status, node, next position>>, status \in {"ok", "bad", "unsup"}.
\* t is the text, n its length.

MetaPunct == {33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 61, 63, 64, 91, 92, 93, 94, 95, 96, 123, 124, 125, 126} \ {95}

RECURSIVE HexRun(_, _, _, _)
HexRun(t, i, j, v) == IF i >= j THEN v
                      ELSE IF HexVal(t[i]) = -1 THEN -1 ELSE HexRun(t, i + 1, j, v * 16 + HexVal(t[i]))

FindFrom(t, i, c) == LET S == {k \in i..Len(t) : t[k] = c} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m

\* an escape; t[i] is the character after the backslash. <<status, code point, next>>
Escape(t, i) ==
  IF i > Len(t) THEN <<"bad", 0, i>>
  ELSE LET c == t[i] IN
    CASE c = 110 -> <<"ok", 10, i + 1>>
      [] c = 116 -> <<"ok", 9, i + 1>>
      [] c = 114 -> <<"ok", 13, i + 1>>
      [] c \in MetaPunct -> <<"ok", c, i + 1>>
      [] c = 117 \/ c = 120 \/ c = 85 ->   \* \u \x \U
           IF i + 1 <= Len(t) /\ t[i + 1] = 123
           THEN LET k == FindFrom(t, i, 125) IN
                IF k = 0 \/ k = i + 2 \/ k > i + 8 THEN <<"bad", 0, i>>
                ELSE LET v == HexRun(t, i + 2, k, 0)
                     IN IF v < 0 \/ v > MaxChar \/ (v >= 55296 /\ v <= 57343) THEN <<"bad", 0, i>> ELSE <<"ok", v, k + 1>>
           ELSE LET len == IF c = 120 THEN 2 ELSE IF c = 117 THEN 4 ELSE 8 IN
                IF i + len > Len(t) THEN <<"bad", 0, i>>
                ELSE LET v == HexRun(t, i + 1, i + 1 + len, 0)
                     IN IF v < 0 \/ v > MaxChar \/ (v >= 55296 /\ v <= 57343) THEN <<"bad", 0, i>> ELSE <<"ok", v, i + 1 + len>>
      [] OTHER -> <<"unsup", 0, i + 1>>

\* one end of a class range
ClassChar(t, i) ==
  IF i > Len(t) THEN <<"bad", 0, i>>
  ELSE IF t[i] = BACKSLASH THEN Escape(t, i + 1)
  ELSE IF t[i] = 91 THEN <<"unsup", 0, i + 1>>
  ELSE IF i < Len(t) /\ t[i] = t[i + 1] /\ t[i] \in {38, 45, 126} THEN <<"unsup", 0, i + 1>>
  ELSE <<"ok", t[i], i + 1>>

RECURSIVE ClassItems(_, _, _, _)
ClassItems(t, i, acc, first) ==
  IF i > Len(t) THEN <<"bad", acc, i>>
  ELSE IF t[i] = 93 /\ ~first THEN <<"ok", acc, i + 1>>
  ELSE LET a == ClassChar(t, i) IN
       IF a[1] # "ok" THEN <<a[1], acc, i>>
       ELSE IF a[3] + 1 <= Len(t) /\ t[a[3]] = 45 /\ t[a[3] + 1] = 45 THEN <<"unsup", acc, i>>
       ELSE IF a[3] + 1 <= Len(t) /\ t[a[3]] = 45 /\ t[a[3] + 1] # 93
            THEN LET b == ClassChar(t, a[3] + 1) IN
                 IF b[1] # "ok" THEN <<b[1], acc, i>>
                 ELSE IF b[2] < a[2] THEN <<"bad", acc, i>>
                 ELSE ClassItems(t, b[3], Append(acc, <<a[2], b[2]>>), FALSE)
            ELSE ClassItems(t, a[3], Append(acc, <<a[2], a[2]>>), FALSE)

RECURSIVE Num(_, _, _)
Num(t, i, v) == IF i <= Len(t) /\ IsDigit(t[i]) THEN Num(t, i + 1, v * 10 + t[i] - 48) ELSE <<v, i>>

\* quantifiers following a node
Quant(t, i, node) ==
  IF i > Len(t) THEN <<"ok", node, i>>
  ELSE LET c == t[i]
           Lazy(j) == j <= Len(t) /\ t[j] = 63
           Wrap(n, j) == IF Lazy(j) THEN <<"unsup", n, j>> ELSE <<"ok", n, j>>
       IN
    CASE c = 42 -> Wrap(Star(node), i + 1)
      [] c = 43 -> Wrap(Plus(node), i + 1)
      [] c = 63 -> Wrap(Opt(node), i + 1)
      [] c = 123 ->
           LET a == Num(t, i + 1, 0) IN
           IF \E b \in i..FindFrom(t, i, 125) : t[b] \in {SPACE, TAB, NL, 13} THEN <<"unsup", node, i>>
           ELSE IF a[2] = i + 1 \/ a[2] > Len(t) THEN <<"bad", node, i>>
           \* nothing at all: what remains of the regex depends on its place (often an empty regex, which is refused)
           ELSE IF t[a[2]] = 125 /\ a[1] = 0 THEN <<"unsup", node, i>>
           ELSE IF t[a[2]] = 125 THEN Wrap(<<"rep", a[1], a[1], node>>, a[2] + 1)
           ELSE IF t[a[2]] # 44 THEN <<"bad", node, i>>
           ELSE LET b == Num(t, a[2] + 1, 0) IN
                IF b[2] > Len(t) \/ t[b[2]] # 125 THEN <<"bad", node, i>>
                ELSE IF b[2] = a[2] + 1 THEN Wrap(<<"rep", a[1], -1, node>>, b[2] + 1)
                ELSE IF b[1] < a[1] THEN <<"bad", node, i>>
                ELSE IF b[1] = 0 THEN <<"unsup", node, i>>
                ELSE Wrap(<<"rep", a[1], b[1], node>>, b[2] + 1)
      [] OTHER -> <<"ok", node, i>>

RECURSIVE Quants(_, _, _)
Quants(t, i, node) ==
  LET q == Quant(t, i, node) IN
  IF q[1] # "ok" \/ q[3] = i THEN q ELSE Quants(t, q[3], q[2])

RECURSIVE ReAlt(_, _), ReCat(_, _, _), ReAtom(_, _), ReAlts(_, _, _)

ReAtom(t, i) ==
  LET c == t[i] IN
  CASE c = 40 ->
         LET j == IF i + 2 <= Len(t) /\ t[i + 1] = 63 THEN (IF t[i + 2] = 58 THEN i + 3 ELSE -1) ELSE i + 1 IN
         IF j = -1 THEN <<"unsup", Eps, i>>
         ELSE LET r == ReAlt(t, j) IN
              IF r[1] # "ok" THEN r
              ELSE IF r[3] <= Len(t) /\ t[r[3]] = 41 THEN <<"ok", r[2], r[3] + 1>> ELSE <<"bad", Eps, i>>
    [] c = 91 ->
         LET neg == i < Len(t) /\ t[i + 1] = 94
             r == ClassItems(t, IF neg THEN i + 2 ELSE i + 1, <<>>, TRUE)
         IN IF r[1] # "ok" THEN <<r[1], Eps, i>>
            ELSE <<"ok", <<"atm", IF neg THEN Complement(r[2]) ELSE r[2]>>, r[3]>>
    [] c = 46 -> <<"ok", <<"atm", Complement(<< <<NL, NL>> >>)>>, i + 1>>
    [] c = 92 -> LET e == Escape(t, i + 1) IN
                 <<e[1], <<"atm", << <<e[2], e[2]>> >>>>, e[3]>>
    [] c \in {94, 36} -> <<"unsup", Eps, i>>
    [] c \in {42, 43, 63, 123, 41} -> <<"bad", Eps, i>>
    [] OTHER -> <<"ok", <<"atm", << <<c, c>> >>>>, i + 1>>

ReCat(t, i, acc) ==
  IF i > Len(t) \/ t[i] = 124 \/ t[i] = 41
  THEN IF acc = <<>> THEN <<"unsup", Eps, i>>
       ELSE <<"ok", IF Len(acc) = 1 THEN acc[1] ELSE <<"seq", acc>>, i>>
  ELSE LET a == ReAtom(t, i) IN
       IF a[1] # "ok" THEN a
       ELSE LET q == Quants(t, a[3], a[2]) IN
            IF q[1] # "ok" THEN q ELSE ReCat(t, q[3], Append(acc, q[2]))

ReAlts(t, i, acc) ==
  LET c == ReCat(t, i, <<>>) IN
  IF c[1] # "ok" THEN c
  ELSE LET acc2 == Append(acc, c[2]) IN
       IF c[3] <= Len(t) /\ t[c[3]] = 124 THEN ReAlts(t, c[3] + 1, acc2)
       ELSE <<"ok", IF Len(acc2) = 1 THEN acc2[1] ELSE <<"alt", acc2>>, c[3]>>

ReAlt(t, i) == ReAlts(t, i, <<>>)

ParseRegex(t) ==
  LET r == ReAlt(t, 1) IN
  IF r[1] = "ok" /\ r[3] <= Len(t) THEN [status |-> "bad", re |-> Eps]
  ELSE [status |-> r[1], re |-> r[2]]

\* a literal token: its characters, as they stand
LiteralRe(t) == <<"seq", TLCEval([i \in DOMAIN t |-> <<"atm", << <<t[i], t[i]>> >>>>])>>
=============================================================================
