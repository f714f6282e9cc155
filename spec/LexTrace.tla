------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* What a generated lexer returns, against LexSpec.                        *)
(*                                                                         *)
(* A case: [id, text, unit, state, runs]: the grammar file, the unit of    *)
(* positions (bytes or chars), and runs [w, ev, out]: an input text and    *)
(* the results of calling next() on it until it failed or until the end    *)
(* was reported several times:                                             *)
(*    <<1, name, start, end, slice>>   <<0>> end of the input             *)
(*    <<2, lo, hi>> error: a character in lo..hi is unexpected (<<2>>: an  *)
(*    error without description)                                           *)
(* A text may end in bytes that are not UTF-8 (numbers from MALFORMED on). *)
(* The lexer moves along the text one character at a time (v: the rules'   *)
(* states, from: where the current run began, at: characters read) and     *)
(* each result has to be the one due where the longest run ends.           *)
(***************************************************************************)
EXTENDS LexSpec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, w, k, v, from, at, ofrom, oat, verdict
vars == <<c, w, k, v, from, at, ofrom, oat, verdict>>
MALFORMED == 2097152

L == TLCGet(c)
Run == Cases[c].runs[w]
Input == Run.w

Width(ch) == IF Cases[c].unit = "chars" \/ ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
\* (from and at count characters, ofrom and oat the same in the unit of positions)

Usable(f) == f.status = "ok" /\ Len(f.tokens) > 0 /\ Cardinality({f.tokens[j].name : j \in DOMAIN f.tokens}) = Len(f.tokens)

Init == /\ c \in DOMAIN Cases
        /\ k = 1 /\ from = 0 /\ at = 0 /\ ofrom = 0 /\ oat = 0
        /\ \E f \in {TLCEval(ReadFile(Cases[c].text))} :
           IF ~Usable(f) THEN w = 0 /\ v = <<>> /\ verdict = <<"ok", "outside">>
           ELSE IF Cases[c].state # "ok" THEN w = 0 /\ v = <<>> /\ verdict = <<"bad", Cases[c].state>>
           ELSE \E lx \in {Lexer(f.tokens, {1})} :
                /\ TLCSet(c, lx)
                /\ w \in DOMAIN Cases[c].runs
                /\ v = Start(lx)
                /\ verdict = <<"todo">>
        /\ verdict # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))

\* what may be read next: the state behind the next character, or <<>> if the run ends here
AtMalformed == at < Len(Input) /\ Input[at + 1] >= MALFORMED
Onward == IF at < Len(Input) /\ ~AtMalformed THEN LET n == After(L, v, Block(L, Input[at + 1])) IN IF Dead(n) THEN <<>> ELSE n ELSE <<>>

\* what is due when the run ends: the result of next(); a lexer that has come upon something that is not UTF-8 may report
\* this before the token in front of it
Due == IF from = Len(Input) THEN "end"
       ELSE IF at = from \/ TokenName(L, v) = "" THEN "error"
       ELSE "token"
Offending == IF at = Len(Input) THEN 0 ELSE Input[at + 1]
\* the described characters are none the run could have been continued with, and the offending one is among them
Describes(e) == Len(e) > 1 =>
  /\ e[2] <= Offending /\ Offending <= e[3]
  /\ \A b \in Block(L, e[2])..Block(L, e[3]) : L.reps[b] = 0 \/ Dead(After(L, v, b))
Early(e) == AtMalformed /\ Due = "token" /\ e = <<2>>
IsDue(e) ==
  CASE Due = "end" -> e[1] = 0
    [] Due = "error" -> e[1] = 2 /\ Describes(e)
    [] OTHER -> /\ e[1] = 1
                /\ e[2] = TokenName(L, v)
                /\ e[3] = ofrom
                /\ e[4] = oat
                /\ Cases[c].unit = "bytes" => e[5] = SubSeq(Input, from + 1, at)

Bad(why) == verdict' = <<"bad", why, [run |-> w, event |-> k, from |-> from, at |-> at]>>

Char == /\ verdict = <<"todo">>
        /\ \E n \in {Onward} :
             /\ n # <<>>
             /\ v' = n
        /\ at' = at + 1 /\ oat' = oat + Width(Input[at + 1])
        /\ UNCHANGED <<c, w, k, from, ofrom, verdict>>
Ends == Onward = <<>>
Result == /\ verdict = <<"todo">> /\ k <= Len(Run.ev) /\ Ends
          /\ IF IsDue(Run.ev[k]) \/ Early(Run.ev[k])
             THEN /\ v' = Start(L) /\ from' = at /\ ofrom' = oat
                  /\ k' = IF Run.ev[k][1] = 2 THEN Len(Run.ev) + 1 ELSE k + 1
                  /\ UNCHANGED verdict
             ELSE Bad("due: " \o Due) /\ UNCHANGED <<v, from, ofrom, k>>
          /\ UNCHANGED <<c, w, at, oat>>
\* the recorded run is complete: it ends with an error, or with the end reported three times
Complete == LET n == Len(Run.ev) IN
  /\ Run.out[1] = "done"
  /\ n >= 1
  /\ Run.ev[n][1] = 2 \/ (n >= 3 /\ Run.ev[n][1] = 0 /\ Run.ev[n - 1][1] = 0 /\ Run.ev[n - 2][1] = 0)
Finish == /\ verdict = <<"todo">> /\ k > Len(Run.ev) /\ Ends
          /\ IF Complete THEN verdict' = <<"ok", IF Run.ev[Len(Run.ev)][1] = 2 THEN "error" ELSE "end">>
             ELSE Bad(Run.out[1])
          /\ UNCHANGED <<c, w, k, v, from, at, ofrom, oat>>
Next == /\ (Char \/ Result \/ Finish)
        /\ verdict' # verdict => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
