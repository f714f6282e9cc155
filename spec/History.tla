-------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* Generation has one outcome for each grammar file and set of options.    *)
(*                                                                         *)
(* A case: [id, events]: everything that was generated, in the order of    *)
(* the recording, each [key, by, out]: grammar and options (a number), the *)
(* process (and the names of the paths it used), and the outcome           *)
(* [status, text, files]: error text with the path replaced, and the       *)
(* contents of all files.  known: the outcome of each key so far.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, known, verdict
vars == <<c, k, known, verdict>>
Ev == Cases[c].events[k]

Init == c \in DOMAIN Cases /\ k = 1 /\ known = <<>> /\ verdict = <<"todo">>

Differs(x, y) == IF x.status # y.status THEN "status" ELSE IF x.text # y.text THEN "error text"
                 ELSE IF {x.files[i][1] : i \in DOMAIN x.files} # {y.files[i][1] : i \in DOMAIN y.files} THEN "which files" ELSE "content of files"
Generate ==
  /\ verdict = <<"todo">> /\ k <= Len(Cases[c].events)
  /\ IF Ev.key \in DOMAIN known
     THEN IF known[Ev.key] = Ev.out THEN UNCHANGED <<known, verdict>>
          ELSE verdict' = <<"bad", Differs(known[Ev.key], Ev.out), Ev.by>> /\ UNCHANGED known
     ELSE known' = [x \in DOMAIN known \cup {Ev.key} |-> IF x = Ev.key THEN Ev.out ELSE known[x]] /\ UNCHANGED verdict
  /\ k' = k + 1 /\ UNCHANGED c
Done == verdict = <<"todo">> /\ k > Len(Cases[c].events) /\ verdict' = <<"ok", "one outcome each">> /\ UNCHANGED <<c, k, known>>
Next == /\ (Generate \/ Done)
        /\ verdict' # verdict => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
