----------------------------- MODULE GrammarFile -----------------------------
(***************************************************************************)
(* The grammar file format: from the text of a file (code points) to the   *)
(* rules it denotes, with their source positions.                          *)
(*                                                                         *)
(*   token NAME [PREC]? = "literal" | /regex/ ;                            *)
(*   prod NAME [TAG]? = pattern ;          entry NAME ;                    *)
(*   pattern = alternative | !     alternative = concatenation (| ...)*    *)
(*   concatenation = unary+        unary = item [?*+]?                     *)
(*   item = NAME | ( pattern )                                             *)
(***************************************************************************)
EXTENDS RegexText, SequencesExt

----------------------------------------------------------------------------
\* Scanner.  A token is [k, b, e, l, c]: kind, first index, index after the last, line, column.

SkipWhile(t, i, P(_)) == LET S == {k \in i..Len(t) : ~P(t[k])} IN IF S = {} THEN Len(t) + 1 ELSE CHOOSE k \in S : \A m \in S : k <= m

\* end of a quoted text opened before i (index after the closing delimiter), 0 if unterminated
RECURSIVE QuotedEnd(_, _, _)
QuotedEnd(t, i, q) ==
  IF i > Len(t) \/ t[i] = NL THEN 0
  ELSE IF t[i] = q THEN i + 1
  ELSE IF t[i] = BACKSLASH THEN (IF i + 1 > Len(t) \/ t[i + 1] = NL THEN 0 ELSE QuotedEnd(t, i + 2, q))
  ELSE QuotedEnd(t, i + 1, q)

RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i <= Len(t) /\ IsWordChar(t[i]) THEN WordEnd(t, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsEnd(t, i + 1) ELSE i

PunctKind == [c \in {61, 59, 40, 41, 91, 93, 63, 33, 42, 43, 124} |->
   CASE c = 61 -> "=" [] c = 59 -> ";" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 91 -> "[" [] c = 93 -> "]"
     [] c = 63 -> "?" [] c = 33 -> "!" [] c = 42 -> "*" [] c = 43 -> "+" [] c = 124 -> "|"]

\* the token starting at i: <<kind, end>>; kind "err" if there is none
TokenAt(t, i) ==
  LET c == t[i] IN
  CASE IsLetter(c) -> LET e == WordEnd(t, i)
                          w == Str(t, i, e)
                      IN <<IF w \in {"token", "entry", "prod"} THEN w ELSE "id", e>>
    [] c = 48 -> <<"num", i + 1>>
    [] IsDigit(c) -> <<"num", DigitsEnd(t, i)>>
    [] c = QUOTE -> LET e == QuotedEnd(t, i + 1, QUOTE) IN IF e = 0 THEN <<"err", i>> ELSE <<"str", e>>
    [] c = SLASH -> LET e == QuotedEnd(t, i + 1, SLASH) IN IF e = 0 THEN <<"err", i>> ELSE <<"re", e>>
    [] c \in DOMAIN PunctKind -> <<PunctKind[c], i + 1>>
    [] OTHER -> <<"err", i>>

\* x: <<next position (0: failed), line, column, tokens so far>>
ScanStep(t, x, i) ==
  IF x[1] # i THEN x
  ELSE IF t[i] = NL THEN <<i + 1, x[2] + 1, 1, x[4]>>
  ELSE IF t[i] \in {SPACE, TAB} THEN <<i + 1, x[2], x[3] + 1, x[4]>>
  ELSE One({IF k[1] = "err" THEN <<0, x[2], x[3], x[4]>>
            ELSE <<k[2], x[2], x[3] + k[2] - i, Append(x[4], [k |-> k[1], b |-> i, e |-> k[2], l |-> x[2], c |-> x[3]])>> : k \in {TokenAt(t, i)}})
Scan(t) == One({[ok |-> x[1] # 0, toks |-> x[4]] : x \in {FoldLeft(LAMBDA y, i : ScanStep(t, y, i), <<1, 1, 1, <<>>>>, [i \in DOMAIN t |-> i])}})

----------------------------------------------------------------------------
\* Parser.  s is the token sequence; results are <<ok, node, next>>.

Kind(s, p) == IF p > Len(s) THEN "eof" ELSE s[p].k
TokStr(t, k) == Str(t, k.b, k.e)
Inner(t, k) == SubSeq(t, k.b + 1, k.e - 2)   \* text between delimiters

RECURSIVE PPattern(_, _, _), PAlt(_, _, _, _), PCat(_, _, _, _), PItem(_, _, _)

PItem(t, s, p) ==
  CASE Kind(s, p) = "id" -> <<TRUE, <<"sym", TokStr(t, s[p])>>, p + 1>>
    [] Kind(s, p) = "(" -> LET r == PPattern(t, s, p + 1) IN
                           IF r[1] /\ Kind(s, r[3]) = ")" THEN <<TRUE, r[2], r[3] + 1>> ELSE <<FALSE, <<"eps">>, p>>
    [] OTHER -> <<FALSE, <<"eps">>, p>>

PUnary(t, s, p) ==
  LET r == PItem(t, s, p) IN
  IF ~r[1] THEN r
  ELSE CASE Kind(s, r[3]) = "?" -> <<TRUE, <<"opt", r[2]>>, r[3] + 1>>
         [] Kind(s, r[3]) = "*" -> <<TRUE, <<"star", r[2]>>, r[3] + 1>>
         [] Kind(s, r[3]) = "+" -> <<TRUE, <<"plus", r[2]>>, r[3] + 1>>
         [] OTHER -> r

PCat(t, s, p, acc) ==
  IF Kind(s, p) \in {"id", "("}
  THEN LET r == PUnary(t, s, p) IN IF ~r[1] THEN r ELSE PCat(t, s, r[3], Append(acc, r[2]))
  ELSE IF acc = <<>> THEN <<FALSE, <<"eps">>, p>>
  ELSE <<TRUE, IF Len(acc) = 1 THEN acc[1] ELSE <<"seq", acc>>, p>>

PAlt(t, s, p, acc) ==
  LET r == PCat(t, s, p, <<>>) IN
  IF ~r[1] THEN r
  ELSE LET acc2 == Append(acc, r[2]) IN
       IF Kind(s, r[3]) = "|" THEN PAlt(t, s, r[3] + 1, acc2)
       ELSE <<TRUE, IF Len(acc2) = 1 THEN acc2[1] ELSE <<"alt", acc2>>, r[3]>>

PPattern(t, s, p) ==
  IF Kind(s, p) = "!" THEN <<TRUE, <<"eps">>, p + 1>> ELSE PAlt(t, s, p, <<>>)

SpanOf(a, b) == <<a.l, a.c, b.l, b.c + (b.e - b.b)>>

NumVal(t, k) == Num(t, k.b, 0)[1]

\* One rule starting at p: [ok, kind, rule, next]
BadRule(p) == [ok |-> FALSE, kind |-> "none", rule |-> <<>>, next |-> p]

PRule(t, s, p) ==
  CASE Kind(s, p) = "entry" ->
         IF Kind(s, p+1) = "id" /\ Kind(s, p+2) = ";"
         THEN [ok |-> TRUE, kind |-> "entry", next |-> p + 3,
               rule |-> [name |-> TokStr(t, s[p+1]), span |-> SpanOf(s[p], s[p+2])]]
         ELSE BadRule(p)
    [] Kind(s, p) = "prod" ->
         LET tagged == Kind(s, p+2) = "["
             q == IF tagged THEN p + 5 ELSE p + 2
         IN IF Kind(s, p+1) = "id" /\ (tagged => Kind(s, p+3) = "id" /\ Kind(s, p+4) = "]") /\ Kind(s, q) = "="
            THEN LET r == PPattern(t, s, q + 1) IN
                 IF r[1] /\ Kind(s, r[3]) = ";"
                 THEN [ok |-> TRUE, kind |-> "prod", next |-> r[3] + 1,
                       rule |-> [name |-> TokStr(t, s[p+1]), tag |-> IF tagged THEN TokStr(t, s[p+3]) ELSE "",
                                 pat |-> r[2], span |-> SpanOf(s[p], s[r[3]]),
                                 src |-> SubSeq(t, s[p].b, s[r[3]].e - 1)]]
                 ELSE BadRule(p)
            ELSE BadRule(p)
    [] Kind(s, p) = "token" ->
         LET prec == Kind(s, p+2) = "["
             q == IF prec THEN p + 5 ELSE p + 2
         IN IF Kind(s, p+1) = "id" /\ (prec => Kind(s, p+3) = "num" /\ Kind(s, p+4) = "]")
               /\ Kind(s, q) = "=" /\ Kind(s, q+1) \in {"str", "re"} /\ Kind(s, q+2) = ";"
            THEN [ok |-> TRUE, kind |-> "token", next |-> q + 3,
                  rule |-> [name |-> TokStr(t, s[p+1]),
                            prec |-> IF prec THEN (IF s[p+3].e - s[p+3].b > 5 THEN 99999 ELSE NumVal(t, s[p+3])) ELSE -1,
                            kind |-> IF Kind(s, q+1) = "str" THEN "lit" ELSE "re",
                            chars |-> Inner(t, s[q+1]), span |-> SpanOf(s[p], s[q+2]),
                            src |-> SubSeq(t, s[p].b, s[q+2].e - 1)]]
            ELSE BadRule(p)
    [] OTHER -> BadRule(p)

RECURSIVE PRules(_, _, _, _)
PRules(t, s, p, acc) ==
  IF p > Len(s) THEN [ok |-> Len(acc) > 0, rules |-> acc]
  ELSE LET r == PRule(t, s, p) IN
       IF r.ok THEN PRules(t, s, r.next, Append(acc, r)) ELSE [ok |-> FALSE, rules |-> acc]

----------------------------------------------------------------------------
NoFile(why) == [status |-> "bad", why |-> why, entry |-> "", entrySpan |-> <<>>, tokens |-> <<>>, prods |-> <<>>]

RulesOf(rs, k) == LET sel == SelectSeq(rs, LAMBDA r : r.kind = k) IN TLCEval([i \in DOMAIN sel |-> sel[i].rule])

\* the effective precedence of a token rule
Precedence(tok, re) == IF tok.prec >= 0 THEN tok.prec ELSE IF tok.kind = "lit" THEN 2 * Len(tok.chars) ELSE Shortest(re)

\* status: "ok" | "bad" (malformed: must be refused) | "unsup" (no meaning given here: anything but another meaning)
ReadFile(t) ==
  LET sc == Scan(t) IN
  IF ~sc.ok THEN NoFile("scan")
  ELSE LET pr == PRules(t, sc.toks, 1, <<>>) IN
  IF ~pr.ok THEN NoFile("syntax")
  ELSE LET entries == RulesOf(pr.rules, "entry")
           toks0 == RulesOf(pr.rules, "token")
           prods == RulesOf(pr.rules, "prod")
           rr == TLCEval([i \in DOMAIN toks0 |-> IF toks0[i].kind = "lit" THEN [status |-> "ok", re |-> LiteralRe(toks0[i].chars)]
                                         ELSE ParseRegex(toks0[i].chars)])
       IN IF Len(entries) # 1 THEN NoFile("entry")
          ELSE IF \E i \in DOMAIN toks0 : toks0[i].prec > 65535 THEN NoFile("precedence")
          ELSE IF \E i \in DOMAIN toks0 : rr[i].status = "bad" THEN NoFile("regex")
          ELSE [status |-> IF \E i \in DOMAIN toks0 : rr[i].status = "unsup" THEN "unsup" ELSE "ok", why |-> "",
                entry |-> entries[1].name, entrySpan |-> entries[1].span, prods |-> prods,
                tokens |-> TLCEval([i \in DOMAIN toks0 |->
                   [name |-> toks0[i].name, prec |-> toks0[i].prec, kind |-> toks0[i].kind, chars |-> toks0[i].chars,
                    span |-> toks0[i].span, src |-> toks0[i].src, re |-> rr[i].re, status |-> rr[i].status,
                    eff |-> IF rr[i].status = "ok" THEN Precedence(toks0[i], rr[i].re) ELSE -1]])]

----------------------------------------------------------------------------
\* Patterns: normal form (nested sequences and alternatives flattened, alternatives unordered)
\* and the regular expression over symbols they denote.

RECURSIVE Norm(_), NormElems(_, _)
NormElems(es, tag) ==
  IF es = <<>> THEN <<>>
  ELSE LET h == Norm(Head(es)) IN
       (IF h[1] = tag THEN h[2] ELSE <<h>>) \o NormElems(Tail(es), tag)

Norm(p) ==
  CASE p[1] = "sym" -> p
    [] p[1] = "eps" -> p
    [] p[1] \in {"opt", "star", "plus"} -> <<p[1], Norm(p[2])>>
    [] p[1] \in {"seq", "alt"} -> LET e == NormElems(p[2], p[1]) IN IF Len(e) = 1 THEN e[1] ELSE <<p[1], e>>

\* equality of normal forms up to the order of alternatives
RECURSIVE SamePat(_, _)
SamePat(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] = "sym" -> a[2] = b[2]
       [] a[1] = "eps" -> TRUE
       [] a[1] \in {"opt", "star", "plus"} -> SamePat(a[2], b[2])
       [] a[1] = "seq" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : SamePat(a[2][i], b[2][i])
       [] a[1] = "alt" -> /\ Len(a[2]) = Len(b[2])
                          /\ \A i \in DOMAIN a[2] :
                               Cardinality({j \in DOMAIN a[2] : SamePat(a[2][i], a[2][j])})
                                 = Cardinality({j \in DOMAIN b[2] : SamePat(a[2][i], b[2][j])})

RECURSIVE PatRe(_)
PatRe(p) ==
  CASE p[1] = "sym" -> <<"atm", p[2]>>
    [] p[1] = "eps" -> Eps
    [] p[1] = "opt" -> Opt(PatRe(p[2]))
    [] p[1] = "star" -> Star(PatRe(p[2]))
    [] p[1] = "plus" -> Plus(PatRe(p[2]))
    [] p[1] \in {"seq", "alt"} -> <<p[1], [i \in DOMAIN p[2] |-> PatRe(p[2][i])]>>

RECURSIVE PatSyms(_)
PatSyms(p) ==
  CASE p[1] = "sym" -> {p[2]}
    [] p[1] = "eps" -> {}
    [] p[1] \in {"opt", "star", "plus"} -> PatSyms(p[2])
    [] p[1] \in {"seq", "alt"} -> UNION {PatSyms(p[2][i]) : i \in DOMAIN p[2]}

\* Name resolution: the tokens and productions a rule set refers to.
TokenNames(f) == {f.tokens[i].name : i \in DOMAIN f.tokens}
ProdNames(f) == {f.prods[i].name : i \in DOMAIN f.prods}
UsedNames(f) == UNION {PatSyms(f.prods[i].pat) : i \in DOMAIN f.prods}
Resolvable(f) ==
  /\ f.entry \in ProdNames(f)
  /\ UsedNames(f) \subseteq TokenNames(f) \cup ProdNames(f)
  /\ TokenNames(f) \cap ProdNames(f) = {}
  /\ Cardinality(TokenNames(f)) = Len(f.tokens)
=============================================================================
