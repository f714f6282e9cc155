---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line tool as a machine over a target directory.             *)
(*                                                                         *)
(* A case: [id, texts, steps].  texts: grammar files [text, bnf]; steps:   *)
(* invocations of "generate" one after the other on the same target        *)
(* directory, each [g, lang, algo, lexer, table, fault, file, exit, msg,   *)
(* before, after]: which grammar, the options, the fault that was set up   *)
(* (and the file it is about), what came out, and the directory before and *)
(* after as sequences of <<name, content>>.                                *)
(*                                                                         *)
(* State: dir, what the directory has to contain; known, the content of    *)
(* every generated file by what it may depend on.                          *)
(***************************************************************************)
EXTENDS LexSpec, Json, IOUtils

A == INSTANCE LR

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, known, verdict
vars == <<c, k, known, verdict>>

Ev == Cases[c].steps[k]
Elems(s) == {s[i] : i \in DOMAIN s}

----------------------------------------------------------------------------
\* What may be generated from a grammar file.
LLConflict(g, an) == \E n \in g.nts : \E r, s \in A!RulesFor(g, n) : r # s /\
                        A!Predict(g, an, r) \cap A!Predict(g, an, s) # {}
LRConflict(g, an, cls) == \E a \in {A!BuildClass(g, an, cls)} : A!ConflictCells(g, a) # {}

\* "ok", "fail" or "any"
Judgement(K) ==
  One({IF f.status = "bad" THEN [state |-> "fail"]
       ELSE IF f.status = "unsup" THEN [state |-> "any"]
       ELSE IF ~(f.entry \in ProdNames(f) /\ UsedNames(f) \subseteq TokenNames(f) \cup ProdNames(f)) THEN [state |-> "fail"]
       ELSE IF ~Resolvable(f) \/ K.bnf.status # "ok" THEN [state |-> "any"]
       ELSE One({One({[state |-> "ok", tie |-> HasTie(f.tokens),
                  conflict |-> TLCEval([a \in {"ll1", "lr0", "lr1", "lalr", "glr"} |->
                                 IF a = "ll1" THEN LLConflict(g, an) ELSE IF a = "glr" THEN FALSE ELSE LRConflict(g, an, a)])]
                 : an \in {TLCEval(A!Analyse(g))}}) : g \in {TLCEval(A!FromDump(K.bnf))}})
       : f \in {TLCEval(ReadFile(K.text))}})

Supported(e) == ~(e.lang = "rust" /\ e.algo = "ll1") /\ ~(e.lang = "cpp" /\ e.algo = "glr")
Wanted(e) == LET j == TLCGet(c)[e.g] IN
  IF j.state # "ok" THEN j.state
  ELSE IF (e.lexer /\ j.tie) \/ j.conflict[e.algo] \/ ~Supported(e) THEN "fail" ELSE "ok"

TokenFiles(e) == IF e.lang = "rust" THEN {"tokens.rs"} ELSE {"tokens.h", "tokens.cpp"}
LexerFiles(e) == IF e.lang = "rust" THEN {"lexer.rs"} ELSE {"lexer.h", "lexer.cpp"}
ParserFiles(e) == IF e.lang = "rust" THEN {"parser.rs"} ELSE {"parser.h", "parser.cpp", "parser_impl.h", "visitor.h"}
Files(e) == TokenFiles(e) \cup (IF e.lexer THEN LexerFiles(e) ELSE {}) \cup ParserFiles(e)
            \cup (IF e.table /\ e.algo # "ll1" THEN {"table"} ELSE {})

----------------------------------------------------------------------------
Content(d, n) == LET S == {i \in DOMAIN d : d[i][1] = n} IN IF S = {} THEN "" ELSE d[CHOOSE i \in S : TRUE][2]
Present(d) == {d[i][1] : i \in DOMAIN d}
Changed(e) == {n \in Present(e.before) \cup Present(e.after) : Content(e.before, n) # Content(e.after, n)}

\* what the content of a file may depend on
Key(e, n) ==
  IF n \in TokenFiles(e) \cup LexerFiles(e) THEN <<e.g, e.lang, "", n>>
  ELSE IF n = "table" THEN <<e.g, "", e.algo, n>>
  ELSE <<e.g, e.lang, e.algo, n>>

Failed(e) == e.exit # 0 /\ e.msg
NoParser(e) == Changed(e) \cap ParserFiles([lang |-> "rust"]) = {} /\ Changed(e) \cap ParserFiles([lang |-> "cpp"]) = {}
Stray(e) == Changed(e) \ (TokenFiles(e) \cup LexerFiles(e) \cup ParserFiles(e) \cup {"table"})

\* why the step is wrong, or ""
Why(e) ==
  CASE e.fault \in {"usage", "missing-grammar", "dir-grammar", "not-utf8", "missing-target", "file-target"} ->
         IF ~Failed(e) THEN "no failure with " \o e.fault
         ELSE IF Changed(e) # {} THEN "files written with " \o e.fault ELSE ""
    [] e.fault \in {"blocked", "full"} /\ Wanted(e) = "ok" /\ e.file \in Files(e) ->
         IF ~Failed(e) THEN "no failure although a file could not be written" ELSE ""
    [] Wanted(e) = "ok" ->
         IF e.exit # 0 THEN "failed without a reason"
         ELSE IF ~(Files(e) \subseteq Present(e.after)) THEN "a file is missing"
         ELSE IF ~(Changed(e) \subseteq Files(e)) THEN "a file it should not touch"
         ELSE IF \E n \in Files(e) : Key(e, n) \in DOMAIN known /\ known[Key(e, n)] # Content(e.after, n) THEN "the content of a file depends on other options or on what was there"
         ELSE ""
    [] Wanted(e) = "fail" ->
         IF ~Failed(e) THEN "no failure"
         ELSE IF ~NoParser(e) THEN "a parser is written without a usable grammar"
         ELSE IF Stray(e) # {} THEN "a file it should not touch" ELSE ""
    [] OTHER -> IF e.exit # 0 /\ ~e.msg THEN "failure without a message" ELSE ""

Learn(e) ==
  IF Wanted(e) = "ok" /\ e.fault = "" THEN [x \in DOMAIN known \cup {Key(e, n) : n \in Files(e)} |->
     IF x \in DOMAIN known THEN known[x] ELSE Content(e.after, x[4])]
  ELSE known

Init == /\ c \in DOMAIN Cases
        /\ k = 1 /\ known = <<>> /\ verdict = <<"todo">>
        /\ TLCSet(c, TLCEval([g \in DOMAIN Cases[c].texts |-> Judgement(Cases[c].texts[g])]))
\* nothing but the tool itself changes the directory between steps (apart from the faults that are set up)
Invoke == /\ verdict = <<"todo">> /\ k <= Len(Cases[c].steps)
          /\ \E why \in {Why(Ev)} :
               IF why = "" THEN k' = k + 1 /\ known' = TLCEval(Learn(Ev)) /\ UNCHANGED verdict
               ELSE verdict' = <<"bad", why, k, Ev.lang, Ev.algo, Ev.fault, Ev.file>> /\ UNCHANGED <<k, known>>
          /\ UNCHANGED c
Done == /\ verdict = <<"todo">> /\ k > Len(Cases[c].steps)
        /\ verdict' = <<"ok", "invocations">>
        /\ UNCHANGED <<c, k, known>>
Next == /\ (Invoke \/ Done)
        /\ verdict' # verdict => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
