------------------------------ MODULE QuoteCheck ------------------------------
(***************************************************************************)
(* What error messages say about the grammar file: every rule an error is  *)
(* about is quoted as written, with its line and column.                   *)
(*                                                                         *)
(* A case: [id, text, pad, state, bnf, conf, tie, errors].                 *)
(*  pad: <<lines, columns>> of white space in front of the text            *)
(*  bnf, conf, tie: the rules, the conflicts and the tying tokens as the   *)
(*    library returns them (they are judged by other checks)               *)
(*  errors: the printed messages, each [kind, secs], secs: [line, col,     *)
(*    lines, state, sym, item]                                             *)
(***************************************************************************)
EXTENDS GramCheck

Pad(i) == Cases[i].pad
StartOf(i, span) == <<span[1] + Pad(i)[1], IF span[1] = 1 THEN span[2] + Pad(i)[2] ELSE span[2]>>

\* the lines of a text; a carriage return in front of a line end is not shown
RECURSIVE LinesOf(_, _, _)
LinesOf(t, from, i) ==
  IF i > Len(t) THEN <<SubSeq(t, from, Len(t))>>
  ELSE IF t[i] = NL THEN <<SubSeq(t, from, IF i > from /\ t[i - 1] = 13 THEN i - 2 ELSE i - 1)>> \o LinesOf(t, i + 1, i + 1)
  ELSE LinesOf(t, from, i + 1)

Quotes(i, sec, def) == <<sec.line, sec.col>> = StartOf(i, def.span) /\ sec.lines = LinesOf(def.src, 1, 1)

\* the written productions a rule of the plain grammar belongs to
RuleOwners(f, rr, anon, null, r) ==
  {p \in DOMAIN f.prods : f.prods[p].name = rr[r].lhs /\
     One({IF e # "unknown" THEN e = "same" ELSE BoundedRule(rr, anon, rr[r].rhs, f.prods[p].pat, 4)
          : e \in {SameRule(rr, anon, null, rr[r].rhs, f.prods[p].pat)}})}
RECURSIVE Owners(_, _, _, _, _, _)
Owners(f, rr, anon, null, r, seen) ==
  IF rr[r].lhs \notin anon THEN RuleOwners(f, rr, anon, null, r)
  ELSE UNION {Owners(f, rr, anon, null, q, seen \cup {rr[r].lhs}) :
                q \in {q \in DOMAIN rr : rr[q].lhs \notin seen \cup {rr[r].lhs} /\ \E j \in DOMAIN rr[q].rhs : rr[q].rhs[j] = rr[r].lhs}}

\* rule 0 is the pseudo-rule of the entry symbol; its errors quote a production of that symbol
TextOf(b, r) == IF r = 0 THEN b.entry_text ELSE b.rules[r].text
SymName(b, s) == IF s = 0 THEN "<end>" ELSE IF \E i \in DOMAIN b.terminals : b.terminals[i][1] = s
                 THEN b.terminals[CHOOSE i \in DOMAIN b.terminals : b.terminals[i][1] = s][2] ELSE "?"

\* conflicts as <<kind, state, symbol, texts of the items>>
Returned(K) == {<<K.conf[j].kind, K.conf[j].state, IF K.conf[j].kind = "sr" THEN SymName(K.bnf, K.conf[j].sym) ELSE "",
                  {TextOf(K.bnf, r) : r \in {K.conf[j].items[m] : m \in DOMAIN K.conf[j].items}}>> : j \in DOMAIN K.conf}
Printed(K) == {LET e == K.errors[j] IN <<e.kind, e.secs[1].state, e.secs[1].sym, {e.secs[m].item : m \in DOMAIN e.secs}>> : j \in DOMAIN K.errors}

ConflictQuotes(i, f) ==
  LET K == Cases[i] IN
  IF \E j \in DOMAIN K.errors : K.errors[j].kind \notin {"sr", "rr"} \/ K.errors[j].secs = <<>> THEN <<"bad", "message">>
  ELSE IF Printed(K) # Returned(K) \/ Len(K.errors) # Len(K.conf) THEN <<"bad", "the messages are not about the conflicts">>
  ELSE One({One({
         IF \A j \in DOMAIN K.errors : \A m \in DOMAIN K.errors[j].secs :
              LET sec == K.errors[j].secs[m] IN
              /\ sec.state = K.errors[j].secs[1].state
              /\ \/ sec.item = K.bnf.entry_text /\ \E p \in DOMAIN f.prods : f.prods[p].name = f.entry /\ Quotes(i, sec, f.prods[p])
                 \/ \E r \in {r \in DOMAIN rr : K.bnf.rules[r].text = sec.item} :
                   \E p \in Owners(f, rr, anon, AnonNull(rr, anon, {}), r, {}) : Quotes(i, sec, f.prods[p])
         THEN <<"ok", "conflicts quoted">> ELSE <<"bad", "a conflict's rule is quoted wrongly">>
         : rr \in {RealRules(K.bnf, nm)}, anon \in {AnonNames(K.bnf, nm)}}) : nm \in {NameTable(K.bnf)}})

TieQuotes(i, f) ==
  LET K == Cases[i] IN
  IF Len(K.errors) # 1 \/ K.errors[1].kind # "prec" THEN <<"bad", "message">>
  ELSE IF [m \in DOMAIN K.errors[1].secs |-> K.errors[1].secs[m].item] # K.tie THEN <<"bad", "the message is not about the tie">>
  ELSE IF \A m \in DOMAIN K.errors[1].secs : LET sec == K.errors[1].secs[m] IN
            \E t \in {t \in DOMAIN f.tokens : f.tokens[t].name = sec.item} : Quotes(i, sec, f.tokens[t])
  THEN <<"ok", "tokens quoted">> ELSE <<"bad", "a token is quoted wrongly">>

JudgeQuotes(i, f) ==
  IF f.status # "ok" \/ ~DefinedAll(f) \/ ~Resolvable(f) THEN <<"ok", "outside">>
  ELSE IF Cases[i].tie = <<>> /\ Cases[i].conf = <<>> THEN <<"ok", "no error">>
  ELSE IF Cases[i].state # "err" THEN <<"bad", "no message: " \o Cases[i].state>>
  ELSE IF Cases[i].tie # <<>> THEN TieQuotes(i, f) ELSE ConflictQuotes(i, f)

InitQ == c \in DOMAIN Cases /\ phase = "" /\ word = <<>> /\ cw = <<>> /\ cb = <<>> /\ verdict = <<"todo">>
NextQ == /\ verdict = <<"todo">>
         /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} : verdict' = TLCEval(JudgeQuotes(c, f))
         /\ Report(verdict')
         /\ UNCHANGED <<c, phase, word, cw, cb>>
SpecQ == InitQ /\ [][NextQ]_vars
=============================================================================
