------------------------------- MODULE Pipeline -------------------------------
(***************************************************************************)
(* A generated lexer and a generated parser put together: what a grammar   *)
(* file says about texts.  The specified lexer (LexSpec) moves along the   *)
(* text one character at a time; where its longest run ends, the token is  *)
(* given to the specified parser (the Earley chart of the productions as   *)
(* written), and the reading stops at the first token or end that no       *)
(* sentence can have there, or where there is no token.                    *)
(*                                                                         *)
(* A case: [id, text, unit, cls, state, runs]: the grammar file, the unit  *)
(* of positions (bytes, chars, none), and runs [w, ev, out]: the input,    *)
(* the tokens the visitor was shown, each [name, start, end], and the      *)
(* outcome: ok, err (refused by the parser) or lex (refused by the lexer). *)
(*                                                                         *)
(* The debug command of the tool (tool = "debug") is the same pipeline:    *)
(* its state is "refused" if it says the grammar cannot be used, it tells  *)
(* no kinds of refusal apart (refused), and src says what was wrong with   *)
(* the source file itself.                                                 *)
(***************************************************************************)
EXTENDS LexSpec, Ebnf, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, w, v, from, at, chart, toks, verdict
vars == <<c, w, v, from, at, chart, toks, verdict>>

L == TLCGet(c).l
G == TLCGet(c).g
Run == Cases[c].runs[w]
Input == Run.w

Width(ch) == CASE Cases[c].unit = "none" -> 0
               [] Cases[c].unit = "chars" \/ ch < 128 -> 1
               [] OTHER -> IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
RECURSIVE Offset(_, _)
Offset(i, n) == IF i = 0 THEN n ELSE Offset(i - 1, n + Width(Input[i]))

Written(f) == MakeGrammar("<start>", f.entry, ProdNames(f),
                          TLCEval([i \in DOMAIN f.prods |-> [lhs |-> f.prods[i].name, re |-> PatRe(f.prods[i].pat)]]))
Usable(f) == f.status = "ok" /\ Len(f.tokens) > 0 /\ Cardinality({f.tokens[j].name : j \in DOMAIN f.tokens}) = Len(f.tokens)

Debug == Cases[c].tool = "debug"
\* no parser can be made of the file
Refusable(f) == \/ f.status = "bad"
                \/ f.status = "ok" /\ \/ ~(f.entry \in ProdNames(f) /\ UsedNames(f) \subseteq TokenNames(f) \cup ProdNames(f))
                                      \/ Usable(f) /\ HasTie(f.tokens)

Init == /\ c \in DOMAIN Cases
        /\ from = 0 /\ at = 0 /\ toks = <<>>
        /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} :
           IF Debug /\ Refusable(f)
           THEN w = 0 /\ v = <<>> /\ chart = <<>> /\ verdict = IF Cases[c].state = "refused" THEN <<"ok", "refused">> ELSE <<"bad", "the grammar is not refused">>
           ELSE IF ~Usable(f) THEN w = 0 /\ v = <<>> /\ chart = <<>> /\ verdict = <<"ok", "outside">>
           ELSE IF Cases[c].state # "ok" THEN w = 0 /\ v = <<>> /\ chart = <<>> /\ verdict = <<"bad", Cases[c].state>>
           ELSE \E x \in {[l |-> Lexer(f.tokens, {1}), g |-> Written(f)]} :
                /\ TLCSet(c, x)
                /\ chart = EInit(x.g)
                /\ v = Start(x.l)
                /\ IF x.g.reduced THEN w \in DOMAIN Cases[c].runs /\ verdict = <<"todo">>
                   ELSE w = 0 /\ verdict = <<"ok", "productions that cannot be completed">>
        /\ verdict # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))

Onward == IF at < Len(Input) THEN LET n == After(L, v, Block(L, Input[at + 1])) IN IF Dead(n) THEN <<>> ELSE n ELSE <<>>
Name == TokenName(L, v)
Due == IF from = Len(Input) THEN "end" ELSE IF at = from \/ Name = "" THEN "error" ELSE "token"

\* what the visitor has been shown when the reading stops: on an error of a GLR parser, some of the tokens
ShownAll == Run.ev = toks
ShownSome == Len(Run.ev) <= Len(toks) /\ Run.ev = SubSeq(toks, 1, Len(Run.ev))
Outcome(o) == IF Cases[c].tool = "debug" /\ o # "ok" THEN "refused" ELSE o
Ends(o) == IF Run.out[1] # Outcome(o) THEN <<"bad", "the outcome is not " \o o, [run |-> w, from |-> from]>>
           ELSE IF IF o = "ok" \/ Cases[c].cls # "glr" THEN ShownAll ELSE ShownSome THEN <<"ok", o>>
           ELSE <<"bad", "the tokens shown", [run |-> w, from |-> from]>>

Reads == verdict = <<"todo">> /\ Run.src = ""
Unread == /\ verdict = <<"todo">> /\ Run.src # ""
          /\ verdict' = IF Run.out[1] \in {"refused", "failed"} /\ Run.ev = <<>> THEN <<"ok", "no source">> ELSE <<"bad", "the source cannot be read", w>>
          /\ UNCHANGED <<c, w, v, from, at, chart, toks>>
Char == /\ Reads
        /\ \E n \in {Onward} : n # <<>> /\ v' = n
        /\ at' = at + 1
        /\ UNCHANGED <<c, w, from, chart, toks, verdict>>
Token == /\ Reads /\ Onward = <<>> /\ Due = "token"
         /\ IF Name \in EViable(G, chart)
            THEN /\ chart' = EScan(G, chart, Name)
                 /\ toks' = Append(toks, <<Name, Offset(from, 0), Offset(at, 0)>>)
                 /\ v' = Start(L) /\ from' = at
                 /\ UNCHANGED verdict
            ELSE verdict' = Ends("err") /\ UNCHANGED <<chart, toks, v, from>>
         /\ UNCHANGED <<c, w, at>>
Stop == /\ Reads /\ Onward = <<>> /\ Due # "token"
        /\ verdict' = Ends(IF Due = "error" THEN "lex" ELSE IF EAccepts(G, chart) THEN "ok" ELSE "err")
        /\ UNCHANGED <<c, w, v, from, at, chart, toks>>
Next == /\ (Char \/ Token \/ Stop \/ Unread)
        /\ verdict' # verdict => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
