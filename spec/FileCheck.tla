------------------------------ MODULE FileCheck ------------------------------
(***************************************************************************)
(* Conformance of the grammar file front ends with GrammarFile.            *)
(* A case is a file text and the rule set the real parser read from it.    *)
(* MODE = meaning: same rules;  MODE = span: exact source positions;       *)
(* MODE = boot: the bootstrap front end (spans are not kept there).        *)
(***************************************************************************)
EXTENDS GrammarFile, CharLang, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Mode == IOEnv.MODE

VARIABLES c, verdict

----------------------------------------------------------------------------
\* the real parser's regex (already decoded by it) as a Regex node
RECURSIVE RealRe(_)
RealRe(p) ==
  CASE p[1] \in {"seq", "alt"} -> <<p[1], [i \in DOMAIN p[2] |-> RealRe(p[2][i])]>>
    [] p[1] = "rep" -> <<"rep", p[2], p[3], RealRe(p[4])>>
    [] p[1] = "set" -> <<"atm", IF p[3] THEN Complement(p[2]) ELSE p[2]>>
    [] p[1] = "eps" -> Eps

RealTokRe(r) == IF r.kind = "lit" THEN LiteralRe(r.chars) ELSE RealRe(r.re)

TokSame(s, r) ==
  /\ s.name = r.name
  /\ s.prec = r.prec
  /\ s.status = "ok" => /\ s.eff = r.eff
                        /\ SameRe(s.re, RealTokRe(r))

ProdSame(s, r) == s.name = r.name /\ s.tag = r.tag /\ SamePat(Norm(s.pat), Norm(r.pat))

\* every written rule is read exactly as often as it is written, and nothing else is read
Bag(S, R, Same(_, _)) ==
  /\ Len(S) = Len(R)
  /\ \A i \in DOMAIN S : LET twins == {j \in DOMAIN S : S[j].name = S[i].name}
                             real == {j \in DOMAIN R : R[j].name = S[i].name}
                         IN /\ Cardinality(twins) = Cardinality(real)
                            /\ IF Cardinality(twins) = 1 THEN \A j \in real : Same(S[i], R[j])
                               ELSE \E j \in real : Same(S[i], R[j])
  /\ \A j \in DOMAIN R : \E i \in DOMAIN S : S[i].name = R[j].name /\ Same(S[i], R[j])

JudgeMeaning(k, f) ==
  IF f.status = "bad"
  THEN IF k.real.status = "ok" THEN <<"bad", "malformed file accepted", f.why>> ELSE <<"ok", "refused">>
  ELSE IF k.real.status # "ok"
       THEN IF f.status = "unsup" THEN <<"ok", "unsupported">> ELSE <<"bad", "well-formed file refused">>
       ELSE IF f.entry # k.real.entry THEN <<"bad", "entry">>
       ELSE IF ~Bag(f.tokens, k.real.tokens, TokSame) THEN <<"bad", "tokens">>
       ELSE IF ~Bag(f.prods, k.real.prods, ProdSame) THEN <<"bad", "productions">>
       ELSE <<"ok", "read">>

\* k.pad: lines and columns of white space in front of the text
PosIn(k, line, col) == <<line + k.pad[1], IF line = 1 THEN col + k.pad[2] ELSE col>>
SpanIn(k, s) == PosIn(k, s[1], s[2]) \o PosIn(k, s[3], s[4])
JudgeSpan(k, f) ==
  LET SpanSame(s, r) == SpanIn(k, s.span) = r.span /\ s.src = r.src IN
  IF f.status = "bad" \/ k.real.status # "ok" THEN <<"ok", "refused">>
  ELSE IF SpanIn(k, f.entrySpan) # k.real.entry_span THEN <<"bad", "entry position">>
  ELSE IF ~Bag(f.tokens, k.real.tokens, SpanSame) THEN <<"bad", "token position">>
  ELSE IF ~Bag(f.prods, k.real.prods, SpanSame) THEN <<"bad", "production position">>
  ELSE <<"ok", "read">>

\* Regex syntax the bootstrap front end does not know: counted repetitions, anchors, set operations,
\* escapes other than \n \r \t \\ \/ \u{}, anything but ASCII; and backslashes in literals.
PlainRe(t) ==
  \A i \in DOMAIN t :
    /\ t[i] < 128 /\ t[i] # 36
    /\ t[i] = 94 => i > 1 /\ t[i - 1] = 91
    /\ t[i] \in {123, 125} => \E b \in DOMAIN t : b <= i /\ i - b <= 8 /\ t[b] = 117 /\ b > 1 /\ t[b - 1] = BACKSLASH
    /\ t[i] \in {38, 45, 126} => i = Len(t) \/ t[i + 1] # t[i]
InSubset(f) == \A i \in DOMAIN f.tokens :
  IF f.tokens[i].kind = "re" THEN PlainRe(f.tokens[i].chars) ELSE \A j \in DOMAIN f.tokens[i].chars : f.tokens[i].chars[j] # BACKSLASH

\* The bootstrap front end reads a subset: it need not accept, but what it accepts must mean the same
\* as what the self-hosted front end reads.
JudgeBoot(k, f) ==
  LET NoTag(s, r) == s.name = r.name /\ SamePat(Norm(s.pat), Norm(r.pat))
      Tok(s, r) == /\ s.name = r.name /\ s.status = "ok"
                   => SameRe(s.re, RealTokRe(r)) /\ s.eff = r.eff
      Agree(r) == /\ f.entry = r.entry
                  /\ Bag(f.tokens, r.tokens, Tok)
                  /\ Bag(f.prods, r.prods, NoTag)
  IN IF f.status = "bad" /\ ~k.must THEN <<"ok", "outside the format">>
     ELSE IF f.status # "bad" /\ ~InSubset(f) THEN <<"ok", "outside the subset">>
     ELSE IF k.boot.status # "ok" THEN (IF k.must THEN <<"bad", "bootstrap refuses a file of its subset">> ELSE <<"ok", "not in subset">>)
     ELSE IF k.real.status # "ok" THEN (IF f.status = "ok" THEN <<"bad", "self-hosted refuses">> ELSE <<"ok", "outside the format">>)
     ELSE IF ~Agree(k.boot) THEN <<"bad", "bootstrap reads something else">>
     ELSE IF ~Agree(k.real) THEN <<"bad", "self-hosted reads something else">>
     ELSE <<"ok", "agree">>

Judge(k, f) == CASE Mode = "meaning" -> JudgeMeaning(k, f)
              [] Mode = "span" -> JudgeSpan(k, f)
              [] Mode = "boot" -> JudgeBoot(k, f)

Init == c \in DOMAIN Cases /\ verdict = <<"todo">>
Next == /\ verdict = <<"todo">>
        /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} : verdict' = TLCEval(Judge(Cases[c], f))
        /\ PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict[1] # "bad"
=============================================================================
