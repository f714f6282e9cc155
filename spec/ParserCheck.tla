----------------------------- MODULE ParserCheck -----------------------------
(***************************************************************************)
(* What generated parsers answer, against the grammar as written.          *)
(*                                                                         *)
(* A case: [id, text, bnf, cls, runs, trie].  runs: the words a parser     *)
(* was run on, each [w, ev, out]: tokens, events ([0] request, [1, t, d]   *)
(* token shown to the visitor, [2, m] visitor method) and outcome, sorted; *)
(* trie: the tree of their prefixes, nodes [t, kids, end, lo, hi] (token   *)
(* leading to it, children, runs ending there, range of runs below).       *)
(*                                                                         *)
(* One step reads one token: the Earley chart of the written grammar       *)
(* and (MODE = expect) the stacks of the canonical automaton move along.   *)
(*  MODE = lang:    a parser accepts iff the word is a sentence, and       *)
(*                  otherwise rejects at the first impossible token        *)
(*  MODE = expect:  the expected tokens of a rejection                     *)
(*  MODE = pull:    how many tokens are requested, and when                *)
(*  MODE = fail:    the source of tokens fails where a word has the number *)
(*                  999; the parser ends there with that very failure      *)
(***************************************************************************)
EXTENDS GrammarFile, Ebnf, Json, IOUtils

A == INSTANCE LR

Cases == ndJsonDeserialize(IOEnv.CASES)
Mode == IOEnv.MODE

VARIABLES c, node, chart, stacks, verdict
vars == <<c, node, chart, stacks, verdict>>

----------------------------------------------------------------------------
\* registers: the written grammar, names of tokens, plain grammar and automaton
Written(f) == MakeGrammar("<start>", f.entry, ProdNames(f),
                          TLCEval([i \in DOMAIN f.prods |-> [lhs |-> f.prods[i].name, re |-> PatRe(f.prods[i].pat)]]))
TokNames(b) == TLCEval([s \in {b.terminals[i][1] : i \in DOMAIN b.terminals} |->
                  LET i == CHOOSE i \in DOMAIN b.terminals : b.terminals[i][1] = s IN b.terminals[i][2]])

LLTable(g, an) == TLCEval([n \in g.nts |-> TLCEval([r \in A!RulesFor(g, n) |-> A!Predict(g, an, r)])])
Setup(i) ==
  \E f \in {TLCEval(ReadFile(Cases[i].text))} :
    \E w \in {Written(f)} :
      IF Mode # "expect" THEN TLCSet(i, [w |-> w, nm |-> TokNames(Cases[i].bnf)])
      ELSE \E g \in {TLCEval(A!FromDump(Cases[i].bnf))} : \E an \in {TLCEval(A!Analyse(g))} :
           TLCSet(i, TLCEval([w |-> w, nm |-> TokNames(Cases[i].bnf), g |-> g,
                              a |-> IF Cases[i].cls = "ll1" THEN LLTable(g, an) ELSE A!BuildClass(g, an, Cases[i].cls)]))
W == TLCGet(c).w
G == TLCGet(c).g
Aut == TLCGet(c).a
NameOf(t) == TLCGet(c).nm[t]
Tokens == DOMAIN TLCGet(c).nm
Cls == Cases[c].cls
Node(n) == Cases[c].trie[n]
Run(r) == Cases[c].runs[r]

----------------------------------------------------------------------------
\* lang
Shown(r) == Len(SelectSeq(Run(r).ev, LAMBDA e : e[1] = 1))
Rejects(r, p, t) ==
  /\ Run(r).out[1] = "err"
  /\ W.reduced =>
       /\ \A i \in DOMAIN Run(r).out[2] :
            LET e == Run(r).out[2][i] IN e[1] \in {-1, t} /\ e[2] \in {-1, p}
       /\ Cls # "glr" => Shown(r) = p - 1
\* (a parser without lookahead can run in circles inside of productions that cannot be completed)
Excused(r) == ~W.reduced /\ Cls = "lr0" /\ Run(r).out[1] # "ok"   \* MODE = fail is about reduced grammars only
LangEnd(n, ch, d) ==
  IF EAccepts(W, ch)
  THEN IF \A r \in {Node(n).end[i] : i \in DOMAIN Node(n).end} : Run(r).out[1] = "ok" THEN "" ELSE "a sentence is not accepted"
  ELSE IF \A r \in {Node(n).end[i] : i \in DOMAIN Node(n).end} : Rejects(r, d + 1, 0) \/ Excused(r) THEN "" ELSE "the end is not rejected"
LangKid(m, d) ==
  IF \A r \in Node(m).lo..Node(m).hi : Rejects(r, d + 1, Node(m).t) \/ Excused(r) THEN "" ELSE "an impossible token is not rejected"

----------------------------------------------------------------------------
\* pull: requests in order, never more than one ahead, none behind the end or the offending token
Requests(r) == Len(SelectSeq(Run(r).ev, LAMBDA e : e[1] = 0))
RECURSIVE OneAhead(_, _, _, _)
OneAhead(ev, k, req, shown) ==
  \/ k > Len(ev)
  \/ /\ req <= shown + 1
     /\ OneAhead(ev, k + 1, req + (IF ev[k][1] = 0 THEN 1 ELSE 0), shown + (IF ev[k][1] = 1 THEN 1 ELSE 0))
Outside(r) == Run(r).out[1] \notin {"ok", "err", "runaway"}
Pulls(r, p) ==
  \/ Outside(r)
  \/ /\ Cls # "glr" => OneAhead(Run(r).ev, 1, 0, 0)
     /\ Requests(r) <= Len(Run(r).w) + 1
     /\ Run(r).out[1] = "err" /\ W.reduced => Requests(r) = p
     /\ Run(r).out[1] # "runaway"

----------------------------------------------------------------------------
\* fail
Failure == 999
Fails(r, p) == /\ Run(r).out = <<"fail", p>>
               /\ Requests(r) = p
               /\ Cls # "glr" => Shown(r) = p - 1
FailKid(m, d) ==
  IF Node(m).t # Failure THEN LangKid(m, d)
  ELSE IF \A r \in Node(m).lo..Node(m).hi : Fails(r, d + 1) THEN "" ELSE "a failure of the token source is not passed on"

----------------------------------------------------------------------------
\* expect: the parser's own machine.  A stack of the LR machine is a sequence of states,
\* a stack of the LL machine a sequence of symbols, top first.
Top(s) == s[Len(s)]
RECURSIVE RedClose(_, _, _)
ReduceBy(s, r) == LET base == SubSeq(s, 1, Len(s) - Len(G.rules[r].rhs)) IN Append(base, Aut.go[Top(base)][G.rules[r].lhs])
RedClose(done, todo, t) ==
  IF todo = {} THEN done
  ELSE LET next == UNION {{ReduceBy(s, a[2]) : a \in {a \in A!Actions(G, Aut, Top(s), t) : a[1] = "r"}} : s \in todo}
       IN RedClose(done \cup todo, next \ (done \cup todo), t)
Acceptable(q) == {t \in Tokens \cup {0} : A!Actions(G, Aut, q, t) # {}}

\* after reading t: [next: stacks, dead: the expected tokens of the stacks that end]
LRRead(S, t) ==
  LET all == RedClose({}, S, t) IN
  [next |-> UNION {{Append(s, a[2]) : a \in {a \in A!Actions(G, Aut, Top(s), t) : a[1] = "s"}} : s \in all}
            \cup (IF \E s \in all : \E a \in A!Actions(G, Aut, Top(s), t) : a[1] = "a" THEN {<<0>>} ELSE {}),
   dead |-> {Acceptable(Top(s)) : s \in {s \in all : A!Actions(G, Aut, Top(s), t) = {}}}]

RECURSIVE LLRead(_, _)
LLRead(s, t) ==
  IF Head(s) < 1000
  THEN IF Head(s) = t THEN [next |-> {Tail(s)}, dead |-> {}] ELSE [next |-> {}, dead |-> {{Head(s)}}]
  ELSE LET row == Aut[Head(s)]
           rs == {r \in DOMAIN row : t \in row[r]}
       IN IF rs = {} THEN [next |-> {}, dead |-> {UNION {row[r] : r \in DOMAIN row}}]
          ELSE LLRead(G.rules[CHOOSE r \in rs : TRUE].rhs \o Tail(s), t)

Read(S, t) == IF Cls = "ll1" THEN LLRead(CHOOSE s \in S : TRUE, t) ELSE LRRead(S, t)
Start == IF Cls = "ll1" THEN {<<G.entry, 0>>} ELSE {<<1>>}

Elems(s) == {s[i] : i \in DOMAIN s}
Continuations(ch) == {t \in Tokens : NameOf(t) \in EViable(W, ch)} \cup (IF EAccepts(W, ch) THEN {0} ELSE {})
ExpectRun(r, t, dead, ch) ==
  LET lists == {Elems(Run(r).out[2][i][3]) : i \in DOMAIN Run(r).out[2]}
  IN IF Run(r).out[1] # "err" THEN ""
     ELSE IF \E l \in lists : t \in l THEN "the rejected token is expected"
     ELSE IF lists # dead THEN "not the tokens acceptable where the error is found"
     ELSE IF Cls \in {"lr0", "lr1"} /\ W.reduced /\ \E l \in lists : ~(Continuations(ch) \subseteq l) THEN "a continuation is not expected"
     ELSE IF Cls = "lr1" /\ W.reduced /\ \E l \in lists : ~(l \subseteq Continuations(ch)) THEN "something impossible is expected"
     ELSE ""
ExpectAll(R, t, dead, ch) ==
  LET bad == {x \in {ExpectRun(r, t, dead, ch) : r \in R} : x # ""} IN IF bad = {} THEN "" ELSE CHOOSE x \in bad : TRUE

----------------------------------------------------------------------------
\* steps: state (node, chart, stacks) -> its problems and its successors
Depth(ch) == Len(ch) - 1
Viable(m) == Node(m).t # Failure /\ NameOf(Node(m).t) \in EViable(W, chart)
Kids(n) == {Node(n).kids[i] : i \in DOMAIN Node(n).kids}
Ends(n) == {Node(n).end[i] : i \in DOMAIN Node(n).end}
Pass(m) == IF Mode = "expect" THEN Read(stacks, Node(m).t).next # {} ELSE Viable(m)

EndProblem ==
  CASE Mode \in {"lang", "fail"} -> LangEnd(node, chart, Depth(chart))
    [] Mode = "pull" -> IF \A r \in Ends(node) : Pulls(r, Depth(chart) + 1) THEN "" ELSE "tokens requested"
    [] Mode = "again" ->
         LET x == LangEnd(node, chart, Depth(chart)) IN
         IF x # "" THEN x ELSE IF \A r \in Ends(node) : Pulls(r, Depth(chart) + 1) THEN "" ELSE "tokens requested"
    [] Mode = "expect" -> IF Ends(node) = {} THEN "" ELSE
         LET x == Read(stacks, 0) IN IF x.next # {} THEN "" ELSE ExpectAll(Ends(node), 0, x.dead, chart)
KidProblem(m) ==
  IF Pass(m) THEN ""
  ELSE CASE Mode = "lang" -> LangKid(m, Depth(chart))
         [] Mode = "fail" -> FailKid(m, Depth(chart))
         [] Mode = "again" ->
              LET x == FailKid(m, Depth(chart)) IN
              IF x # "" THEN x
              ELSE IF \A r \in Node(m).lo..Node(m).hi : Outside(r) \/ Pulls(r, Depth(chart) + 1) THEN "" ELSE "tokens requested"
         [] Mode = "pull" -> IF \A r \in Node(m).lo..Node(m).hi : Pulls(r, Depth(chart) + 1) THEN "" ELSE "tokens requested"
         [] Mode = "expect" -> ExpectAll(Node(m).lo..Node(m).hi, Node(m).t, Read(stacks, Node(m).t).dead, chart)
Problems == {x \in {EndProblem} \cup {KidProblem(m) : m \in Kids(node)} : x # ""}

Compiled == Cases[c].state = "ok"
Init == /\ c \in DOMAIN Cases /\ node = 1
        /\ IF Cases[c].state = "ok"
           THEN /\ Setup(c)
                /\ chart = EInit(TLCGet(c).w)
                /\ stacks = IF Mode = "expect" THEN (IF Cases[c].cls = "ll1" THEN {<<TLCGet(c).g.entry, 0>>} ELSE {<<1>>}) ELSE {}
                /\ verdict = <<"todo">>
           ELSE chart = <<>> /\ stacks = {} /\ verdict = <<IF Mode \in {"lang", "fail", "again"} THEN "bad" ELSE "ok", Cases[c].state>>
        /\ verdict # <<"todo">> => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict>>))

Judge == /\ verdict = <<"todo">>
         /\ verdict' = LET P == Problems IN IF P = {} THEN <<"ok", "words">> ELSE <<"bad", CHOOSE x \in P : TRUE, [d |-> Depth(chart), run |-> Node(node).lo]>>
         /\ (verdict'[1] = "bad" \/ node = 1) => PrintT("RESULT " \o ToJson(<<Cases[c].id, verdict'>>))
         /\ UNCHANGED <<c, node, chart, stacks>>
Token == /\ verdict = <<"ok", "words">>
         /\ \E m \in Kids(node) :
              /\ Pass(m)
              /\ node' = m
              /\ chart' = EScan(W, chart, NameOf(Node(m).t))
              /\ stacks' = IF Mode = "expect" THEN Read(stacks, Node(m).t).next ELSE {}
         /\ verdict' = <<"todo">>
         /\ UNCHANGED c
Next == Judge \/ Token
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
