------------------------------ MODULE Codegen ------------------------------
(***************************************************************************)
(* The library under the code generators: templates, and the places code   *)
(* is written to.                                                          *)
(*                                                                         *)
(* A template is text with markers: slash, star, opening brace, a key, and *)
(* the same backwards.  Writing it means writing the text with each marker *)
(* replaced by what the supplier of its key writes.                        *)
(*                                                                         *)
(* Places: each request names a key; it goes to the target registered last *)
(* for this key, otherwise to a new file of this name.  Every place takes  *)
(* room bytes (-1: any number).  A request succeeds exactly if everything  *)
(* has been taken; of a failed one, a beginning may have been.             *)
(*                                                                         *)
(* A case: [id, kind: template or targets, ...] as recorded by the harness *)
(* (units.rs), texts as sequences of code points.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Utf8(x) == IF x < 128 THEN <<x>>
           ELSE IF x < 2048 THEN <<192 + (x \div 64), 128 + (x % 64)>>
           ELSE IF x < 65536 THEN <<224 + (x \div 4096), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
           ELSE <<240 + (x \div 262144), 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN <<>> ELSE Utf8(Head(s)) \o Bytes(Tail(s))
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Bytes(Head(ps)) \o Joined(Tail(ps))

----------------------------------------------------------------------------
\* templates
Open == <<47, 42, 123>>
Close == <<125, 42, 47>>
At(s, k, p) == k + Len(p) - 1 <= Len(s) /\ \A j \in DOMAIN p : s[k + j - 1] = p[j]
\* the ends of keys that may begin behind position k (one line), the marker being there
Ends(s, k) == {e \in (k + 3)..Len(s) : At(s, e, Close) /\ \A j \in (k + 3)..(e - 1) : s[j] # 10}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Blank(x) == x \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ x \in 8192..8202
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF Blank(Head(s)) THEN Trim(Tail(s)) ELSE IF Blank(s[Len(s)]) THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* what stands at position k of the text: <<"key", key, next position>> or <<"text", character, next position>>
Piece(s, k) == IF At(s, k, Open) /\ Ends(s, k) # {}
               THEN LET e == Least(Ends(s, k)) IN <<"key", Trim(SubSeq(s, k + 3, e - 1)), e + 3>>
               ELSE <<"text", s[k], k + 1>>
\* the supplier registered last
Supplier(subs, key) == {j \in DOMAIN subs : subs[j].key = key /\ \A m \in (j + 1)..Len(subs) : subs[m].key # key}

----------------------------------------------------------------------------
VARIABLES c, k, round, pos, out, verdict
vars == <<c, k, round, pos, out, verdict>>
C == Cases[c]
Say(v) == v # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, v>>))

\* pos: for every place (templates: the only one), how many of the bytes found there are accounted for
Extend(p, found, bytes) == IF At(found, p + 1, bytes) THEN p + Len(bytes) ELSE -1
\* the longest beginning of bytes found at p
Begun(p, found, bytes) == CHOOSE n \in 0..Len(bytes) : At(found, p + 1, SubSeq(bytes, 1, n)) /\ (n < Len(bytes) => ~At(found, p + 1, SubSeq(bytes, 1, n + 1)))

----------------------------------------------------------------------------
(* A template is written C.times times.  out: what is due of the current round.                                     *)
(* reasons a writing may fail for: "own" (a supplier fails), "full", or a key without supplier.                     *)
RECURSIVE Due(_, _, _)
Due(s, j, acc) == \* <<bytes, failure of a supplier or missing key, or ok>>
  IF j > Len(s) THEN <<acc, "ok">>
  ELSE LET x == Piece(s, j) IN
       IF x[1] = "text" THEN Due(s, x[3], acc \o Utf8(x[2]))
       ELSE LET S == Supplier(C.subs, x[2]) IN
            IF S = {} THEN <<acc, "missing">>
            ELSE LET u == C.subs[CHOOSE j2 \in S : TRUE] IN
                 IF u.fail THEN <<acc \o Joined(u.parts), "own">> ELSE Due(s, x[3], acc \o Joined(u.parts))
Room(r, used) == IF r = -1 THEN 100000000 ELSE r - used

TemplateRound ==
  LET d == out
      o == C.outs[round]
      fits == Len(d[1]) <= Room(C.room, pos[1])
      got == Begun(pos[1], C.bytes, d[1])
  IN IF round > Len(C.outs) THEN <<"bad", "no outcome">>
     ELSE IF o[1] = "ok" THEN IF d[2] # "ok" THEN <<"bad", "a failure is not reported">>
                              ELSE IF got # Len(d[1]) THEN <<"bad", "other text">> ELSE <<"todo">>
     ELSE IF o[1] = "panic" THEN IF d[2] = "missing" THEN <<"ok", "missing key">> ELSE <<"bad", "panic">>
     ELSE IF (o[2] = "own" /\ d[2] = "own") \/ (o[2] = "full" /\ ~fits) THEN
              (IF Len(C.bytes) > pos[1] + got THEN <<"bad", "other text before a failure">> ELSE <<"ok", "failure reported">>)
     ELSE <<"bad", "fails without a reason">>

----------------------------------------------------------------------------
(* Places.  pos[j]: registered targets first, then files in the order they were opened.                              *)
Target(key) == {j \in DOMAIN C.sinks : C.sinks[j].key = key /\ \A m \in (j + 1)..Len(C.sinks) : C.sinks[m].key # key}
File(j) == C.files[IF j > Len(C.files) THEN Len(C.files) ELSE j]
Found(j) == IF j <= Len(C.sinks) THEN C.sinks[j].found ELSE C.opened[j - Len(C.sinks)].found
RoomOf(j) == IF j <= Len(C.sinks) THEN C.sinks[j].room ELSE File(j - Len(C.sinks)).room
\* out: number of files opened so far
TargetStep ==
  LET s == C.steps[k]
      o == C.outs[k]
      T == Target(s.key)
      file == T = {}
      j == IF file THEN Len(C.sinks) + out + 1 ELSE CHOOSE j \in T : TRUE
      bytes == Joined(s.parts)
  IN IF k > Len(C.outs) THEN <<<<"bad", "no outcome">>, pos, out>>
     ELSE IF o[1] = "panic" THEN <<<<"bad", "panic">>, pos, out>>
     ELSE IF file /\ (out + 1 > Len(C.opened)) THEN <<<<"bad", "no file is opened">>, pos, out>>
     ELSE IF file /\ C.opened[out + 1].key # s.key THEN <<<<"bad", "a file of another name">>, pos, out>>
     ELSE IF file /\ File(out + 1).fail
     THEN <<IF o = <<"err", "refused">> /\ Found(j) = <<>> THEN <<"todo">> ELSE <<"bad", "a failure is not reported">>, Append(pos, 0), out + 1>>
     ELSE LET p == IF file THEN 0 ELSE pos[j]
              got == Begun(p, Found(j), bytes)
              fits == Len(bytes) <= Room(RoomOf(j), p)
              v == IF o[1] = "ok" THEN IF s.fail \/ ~fits THEN <<"bad", "a failure is not reported">>
                                       ELSE IF got # Len(bytes) THEN <<"bad", "something is missing">> ELSE <<"todo">>
                   ELSE IF (o[2] = "own" /\ s.fail) \/ (o[2] = "full" /\ ~fits) THEN <<"todo">>
                   ELSE <<"bad", "fails without a reason">>
          IN <<v, IF file THEN Append(pos, got) ELSE [pos EXCEPT ![j] = p + got], IF file THEN out + 1 ELSE out>>

----------------------------------------------------------------------------
Init == /\ c \in DOMAIN Cases /\ k = 1 /\ round = 1
        /\ pos = IF C.kind = "template" THEN <<0>> ELSE [j \in DOMAIN C.sinks |-> 0]
        /\ out = IF C.kind = "template" THEN Due(C.text, 1, <<>>) ELSE 0
        /\ verdict = IF C.status = "ok" THEN <<"todo">> ELSE <<"bad", "no result">>
        /\ Say(verdict)
Round == /\ verdict = <<"todo">> /\ C.kind = "template" /\ round <= C.times
         /\ verdict' = TemplateRound
         /\ pos' = <<pos[1] + Len(out[1])>> /\ round' = round + 1
         /\ UNCHANGED <<c, k, out>>
Step == /\ verdict = <<"todo">> /\ C.kind = "targets" /\ k <= Len(C.steps)
        /\ \E r \in {TargetStep} : verdict' = r[1] /\ pos' = r[2] /\ out' = r[3]
        /\ k' = k + 1 /\ UNCHANGED <<c, round>>
Finish == /\ verdict = <<"todo">>
          /\ \/ /\ C.kind = "template" /\ round > C.times
                /\ verdict' = IF Len(C.outs) # C.times THEN <<"bad", "outcomes">> ELSE IF Len(C.bytes) # pos[1] THEN <<"bad", "more text">> ELSE <<"ok", "text">>
             \/ /\ C.kind = "targets" /\ k > Len(C.steps)
                /\ verdict' = IF Len(C.opened) # out THEN <<"bad", "more files are opened">>
                              ELSE IF \E j \in 1..(Len(C.sinks) + out) : Len(Found(j)) # pos[j] THEN <<"bad", "more is written">>
                              ELSE <<"ok", "places">>
          /\ UNCHANGED <<c, k, round, pos, out>>
Next == (Round \/ Step \/ Finish) /\ Say(verdict')
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
