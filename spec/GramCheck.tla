------------------------------ MODULE GramCheck ------------------------------
(***************************************************************************)
(* The context-free grammar built from a rule set, against the rules as    *)
(* written (their meaning is given by GrammarFile and Ebnf).               *)
(*  - every written production is one rule of its non-terminal, and that   *)
(*    rule, with the anonymous non-terminals it uses, describes the same   *)
(*    sequences of tokens and named productions as the written pattern;    *)
(*  - both derive the same sentences from the entry rule: both are run in  *)
(*    lock step on every viable prefix up to the length k.len.             *)
(* A case: [id, text, bnf, len].                                           *)
(* MODE = language | names (which files have to be refused).               *)
(***************************************************************************)
EXTENDS GrammarFile, Ebnf, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Mode == IOEnv.MODE

VARIABLES c, phase, word, cw, cb, verdict
vars == <<c, phase, word, cw, cb, verdict>>

----------------------------------------------------------------------------
\* the implementation's grammar, with names as symbols
NameTable(b) ==
  TLCEval([s \in {b.terminals[i][1] : i \in DOMAIN b.terminals} \cup {b.nts[i][1] : i \in DOMAIN b.nts} \cup {-1, 0} |->
    IF s = -1 THEN "<eps>" ELSE IF s = 0 THEN "<end>"
    ELSE IF s < 1000 THEN LET i == CHOOSE i \in DOMAIN b.terminals : b.terminals[i][1] = s IN b.terminals[i][2]
    ELSE LET i == CHOOSE i \in DOMAIN b.nts : b.nts[i][1] = s
         IN IF b.nts[i][2] = "" THEN "#" \o ToString(s) ELSE b.nts[i][2]])

\* leading epsilons are skipped by every generator; anywhere else one would be a symbol nothing matches
RECURSIVE SkipEps(_)
SkipEps(s) == IF s # <<>> /\ Head(s) = -1 THEN SkipEps(Tail(s)) ELSE s
Rhs(r) == SkipEps(r.rhs)
RealRules(b, nm) == TLCEval([i \in DOMAIN b.rules |->
   [lhs |-> nm[b.rules[i].lhs], rhs |-> TLCEval([j \in DOMAIN Rhs(b.rules[i]) |-> nm[Rhs(b.rules[i])[j]]]), span |-> b.rules[i].span]])
AnonNames(b, nm) == {nm[b.nts[i][1]] : i \in {i \in DOMAIN b.nts : b.nts[i][2] = ""}}
AllNTs(b, nm) == {nm[b.nts[i][1]] : i \in DOMAIN b.nts}

SeqRe(s) == <<"seq", [i \in DOMAIN s |-> <<"atm", s[i]>>]>>
WrittenGrammar(f) == MakeGrammar("<start>", f.entry, ProdNames(f),
                                 TLCEval([i \in DOMAIN f.prods |-> [lhs |-> f.prods[i].name, re |-> PatRe(f.prods[i].pat)]]))
RealGrammar(b, nm, rr) == MakeGrammar("<start>", nm[b.entry], AllNTs(b, nm), TLCEval([i \in DOMAIN rr |-> [lhs |-> rr[i].lhs, re |-> SeqRe(rr[i].rhs)]]))

----------------------------------------------------------------------------
\* One rule with its anonymous non-terminals unfolded: the residuals of a sequence of symbols.
\* (Only right-linear recursion is followed; LEFT marks anything else.)
RECURSIVE AnonNull(_, _, _)
AnonNull(rr, anon, N) ==
  LET M == N \cup {rr[i].lhs : i \in {i \in DOMAIN rr : rr[i].lhs \in anon /\ \A j \in DOMAIN rr[i].rhs : rr[i].rhs[j] \in N}}
  IN IF M = N THEN N ELSE AnonNull(rr, anon, M)

RECURSIVE LFB(_, _, _, _, _)
LFB(rr, anon, null, s, seen) ==
  IF s = <<>> THEN {}
  ELSE LET h == Head(s)
           first == IF h \notin anon THEN {<<h, <<>>>>}
                    ELSE IF h \in seen THEN {<<"LEFT", <<>>>>}
                    ELSE UNION {LFB(rr, anon, null, rr[i].rhs, seen \cup {h}) : i \in {i \in DOMAIN rr : rr[i].lhs = h}}
       IN {<<x[1], x[2] \o Tail(s)>> : x \in first} \cup (IF h \in null THEN LFB(rr, anon, null, Tail(s), seen) ELSE {})

AccB(null, s) == \A j \in DOMAIN s : s[j] \in null

\* "same", "different" or "unknown" (not right-linear)
RECURSIVE EqRule(_, _, _, _, _, _)
EqRule(rr, anon, null, a, done, todo) ==
  IF todo = {} THEN "same"
  ELSE IF \E p \in todo : (\E q \in p[1] : a.acc[q]) # (\E s \in p[2] : AccB(null, s)) THEN "different"
  ELSE LET StepPair(p) ==
             LET ea == UNION {a.trans[q] : q \in p[1]}
                 eb == UNION {LFB(rr, anon, null, s, {}) : s \in p[2]}
                 letters == {e[1] : e \in ea} \cup {e[1] : e \in eb}
             IN {<<x, {e[2] : e \in {e \in ea : e[1] = x}}, {e[2] : e \in {e \in eb : e[1] = x}}>> : x \in letters}
           next == UNION {StepPair(p) : p \in todo}
       IN IF \E y \in next : y[1] = "LEFT" \/ (\E s \in y[3] : Len(s) > 40) THEN "unknown"
          ELSE IF Cardinality(done) > 400 THEN "unknown"
          ELSE LET done2 == done \cup todo
                   new == {<<y[2], y[3]>> : y \in next} \ done2
               IN EqRule(rr, anon, null, a, done2, new)

SameRule(rr, anon, null, rhs, pat) == One({EqRule(rr, anon, null, a, {}, {<<{1}, {rhs}>>}) : a \in {Automaton(PatRe(pat))}})

\* bounded comparison of one rule, named symbols being letters
RuleGrammar(rr, anon, rhs) ==
  MakeGrammar("<start>", "<rule>", {"<rule>"} \cup anon,
     <<[lhs |-> "<rule>", re |-> SeqRe(rhs)]>>
     \o TLCEval([i \in DOMAIN SelectSeq(rr, LAMBDA r : r.lhs \in anon) |->
          LET r == SelectSeq(rr, LAMBDA r : r.lhs \in anon)[i] IN [lhs |-> r.lhs, re |-> SeqRe(r.rhs)]]))
RECURSIVE LockStep(_, _, _, _, _, _)
LockStep(g, h, x, y, n, k) ==
  /\ EAccepts(g, x) = EAccepts(h, y)
  /\ EViable(g, x) = EViable(h, y)
  /\ n > 0 => \A t \in EViable(g, x) : LockStep(g, h, EScan(g, x, t), EScan(h, y, t), n - 1, k)
BoundedRule(rr, anon, rhs, pat, n) ==
  \E g \in {MakeGrammar("<start>", "<rule>", {"<rule>"}, <<[lhs |-> "<rule>", re |-> PatRe(pat)]>>)}, h \in {RuleGrammar(rr, anon, rhs)} :
     LockStep(g, h, EInit(g), EInit(h), n, 0)

JudgeRule(f, rr, anon, null, i) ==
  LET rulesOf == {j \in DOMAIN rr : rr[j].lhs = f.prods[i].name /\ rr[j].span = f.prods[i].span} IN
  IF Cardinality(rulesOf) # 1 THEN "count"
  ELSE One({IF e # "unknown" THEN e ELSE IF BoundedRule(rr, anon, rr[CHOOSE j \in rulesOf : TRUE].rhs, f.prods[i].pat, 4) THEN "same" ELSE "different"
            : e \in {SameRule(rr, anon, null, rr[CHOOSE j \in rulesOf : TRUE].rhs, f.prods[i].pat)}})

StructureOf(f, b, nm, rr, anon, null) ==
  IF nm[b.entry] # f.entry \/ b.entry_rhs # <<b.entry>> THEN <<"bad", "entry">>
  ELSE IF {b.terminals[i][2] : i \in DOMAIN b.terminals} # TokenNames(f) THEN <<"bad", "terminals">>
  ELSE IF \E i \in DOMAIN b.nts : b.nts[i][2] # "" /\ b.nts[i][2] \notin ProdNames(f) THEN <<"bad", "non-terminals">>
  ELSE IF Cardinality({j \in DOMAIN rr : rr[j].lhs \notin anon}) # Len(f.prods) THEN <<"bad", "number of rules">>
  ELSE One({IF \E i \in DOMAIN judged : judged[i] # "same"
            THEN LET i == CHOOSE i \in DOMAIN judged : judged[i] # "same" IN <<"bad", "rule", f.prods[i].name, judged[i]>>
            ELSE <<"ok", "structure">>
            : judged \in {TLCEval([i \in DOMAIN f.prods |-> JudgeRule(f, rr, anon, null, i)])}})

Structure(f, b) ==
  One({StructureOf(f, b, x[1], x[2], x[3], AnonNull(x[2], x[3], {})) :
         x \in {<<nm, RealRules(b, nm), AnonNames(b, nm)>> : nm \in {NameTable(b)}}})

----------------------------------------------------------------------------
DefinedAll(f) == f.entry \in ProdNames(f) /\ UsedNames(f) \subseteq TokenNames(f) \cup ProdNames(f)

\* what a refusal says is so: the name is used and not defined (or is the entry and no production); the places are those of
\* two definitions of one name, one of them a token
DoubleAt(f, s, t) ==
  \E i \in DOMAIN f.tokens : f.tokens[i].span \in {s, t} /\
    \/ \E j \in DOMAIN f.tokens : j # i /\ {s, t} = {f.tokens[i].span, f.tokens[j].span} /\ f.tokens[i].name = f.tokens[j].name
    \/ \E j \in DOMAIN f.prods : {s, t} = {f.tokens[i].span, f.prods[j].span} /\ f.tokens[i].name = f.prods[j].name
RightReason(f, b) ==
  IF "kind" \notin DOMAIN b THEN TRUE
  ELSE IF b.kind = "missing" THEN b.name \in UsedNames(f) \cup {f.entry}
                                  /\ b.name \notin ProdNames(f) /\ (b.name \notin TokenNames(f) \/ b.name = f.entry)
  ELSE Len(b.spans) = 2 /\ DoubleAt(f, b.spans[1], b.spans[2])

First(k, f) ==
  IF f.status # "ok" THEN <<"ok", "not a grammar">>
  ELSE IF k.bnf.status # "ok" /\ ~RightReason(f, k.bnf) THEN <<"bad", "the reason for refusing it is wrong">>
  ELSE IF ~DefinedAll(f) THEN (IF k.bnf.status = "ok" THEN <<"bad", "undefined name accepted">> ELSE <<"ok", "undefined name refused">>)
  ELSE IF ~Resolvable(f) THEN (IF k.bnf.status = "ok" THEN <<"bad", "ambiguous name accepted">> ELSE <<"ok", "ambiguous name refused">>)
  ELSE IF k.bnf.status # "ok" THEN <<"bad", "refused">>
  ELSE Structure(f, k.bnf)

Setup(i) ==
  \E k \in {Cases[i]} : \E f \in {TLCEval(ReadFile(k.text))}, nm \in {NameTable(k.bnf)} :
     TLCSet(i, TLCEval([w |-> WrittenGrammar(f), b |-> RealGrammar(k.bnf, nm, RealRules(k.bnf, nm))]))

Init == c \in DOMAIN Cases /\ phase = "structure" /\ word = <<>> /\ cw = <<>> /\ cb = <<>> /\ verdict = <<"todo">>

Report(v) == PrintT("RESULT " \o ToJson(<<Cases[c].id, v>>))

JudgeStructure ==
  /\ phase = "structure"
  /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} : verdict' = TLCEval(First(Cases[c], f))
  /\ Report(verdict')
  /\ IF verdict'[2] = "structure" /\ Cases[c].len > 0 /\ Mode = "language"
     THEN /\ Setup(c) /\ phase' = "words"
          /\ cw' = EInit(TLCGet(c).w) /\ cb' = EInit(TLCGet(c).b)
     ELSE phase' = "end" /\ UNCHANGED <<cw, cb>>
  /\ UNCHANGED <<c, word>>

SameHere == EAccepts(TLCGet(c).w, cw) = EAccepts(TLCGet(c).b, cb) /\ EViable(TLCGet(c).w, cw) = EViable(TLCGet(c).b, cb)

Letter ==
  /\ phase = "words" /\ verdict[1] = "ok"
  /\ IF ~SameHere
     THEN /\ verdict' = <<"bad", "sentences differ after", word>> /\ Report(verdict') /\ UNCHANGED <<word, cw, cb>>
     ELSE /\ Len(word) < Cases[c].len
          /\ \E t \in EViable(TLCGet(c).w, cw) :
                word' = Append(word, t) /\ cw' = EScan(TLCGet(c).w, cw, t) /\ cb' = EScan(TLCGet(c).b, cb, t)
          /\ UNCHANGED verdict
  /\ UNCHANGED <<c, phase>>

Next == JudgeStructure \/ Letter
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
