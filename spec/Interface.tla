------------------------------ MODULE Interface ------------------------------
(***************************************************************************)
(* The names of the generated code: one enumerator for every token, one    *)
(* visitor method for every rule (LL: two for every production).           *)
(*                                                                         *)
(* A case: [id, lang, algo, tokens, nts, rules, state, shown].  Names are  *)
(* sequences of code points; nts: <<number, name>>, anonymous ones without *)
(* a name; rules: <<left-hand side, tag>>.  MODE = names prints the names  *)
(* a program has to use, MODE = judge looks at what became of a program    *)
(* that uses exactly these: whether it compiled (state), and how the       *)
(* tokens call themselves (shown).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Mode == IOEnv.MODE

VARIABLES c, verdict
vars == <<c, verdict>>
K == Cases[c]

USCORE == 95
Upper(x) == IF x \in 97..122 THEN x - 32 ELSE x
Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x
RECURSIVE Camel(_, _)
\* every letter behind an underscore or at the beginning is upper case, all others lower case, no underscores
Camel(s, first) == IF s = <<>> THEN <<>>
                   ELSE IF Head(s) = USCORE THEN Camel(Tail(s), TRUE)
                   ELSE <<IF first THEN Upper(Head(s)) ELSE Lower(Head(s))>> \o Camel(Tail(s), FALSE)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

Tk == <<84, 107>>
TK == <<84, 75, 95>>
Reduce == <<114, 101, 100, 117, 99, 101, 95>>
Enter == <<101, 110, 116, 101, 114, 95>>
Exit == <<101, 120, 105, 116, 95>>
Anon == <<97, 110, 111, 110>>
Eof == <<69, 79, 70>>
Err == <<69, 82, 82>>

Token(n) == IF K.lang = "rust" THEN Tk \o Camel(n, TRUE) ELSE TK \o n
Own == IF K.lang = "rust" THEN << <<69, 110, 100, 79, 102, 70, 105, 108, 101>> >> ELSE << TK \o Err, TK \o Eof >>
Tokens == Own \o [i \in DOMAIN K.tokens |-> Token(K.tokens[i])]
\* what a token calls itself: its enumerator (Debug) or get_token_name
OwnShown == IF K.lang = "rust" THEN Own ELSE << <<60>> \o Err \o <<62>>, <<60>> \o Eof \o <<62>> >>
Shown == IF K.lang = "rust" THEN Tokens ELSE OwnShown \o K.tokens

NtName(n) == LET i == CHOOSE i \in DOMAIN K.nts : K.nts[i][1] = n IN K.nts[i][2]
Method(r) ==
  LET n == K.rules[r][1]
      all == {q \in DOMAIN K.rules : K.rules[q][1] = n}
      base == Reduce \o (IF NtName(n) = <<>> THEN Anon \o Digits(n - 1000) ELSE NtName(n))
  IN IF Cardinality(all) = 1 THEN base
     ELSE base \o <<USCORE>> \o (IF K.lang = "rust" /\ NtName(n) # <<>> /\ K.rules[r][2] # <<>> THEN K.rules[r][2]
                                 ELSE Digits(Cardinality({q \in all : q <= r})))
Named == {i \in DOMAIN K.nts : K.nts[i][2] # <<>>}
Methods == IF K.algo = "ll1" THEN {Enter \o K.nts[i][2] : i \in Named} \cup {Exit \o K.nts[i][2] : i \in Named}
           ELSE {Method(r) : r \in DOMAIN K.rules}
Distinct == /\ Cardinality({Tokens[i] : i \in DOMAIN Tokens}) = Len(Tokens)
            /\ K.algo # "ll1" => Cardinality(Methods) = Len(K.rules)

Judge == IF K.state # "ok" THEN <<"bad", "no program can use the generated code", K.state>>
         ELSE IF K.shown # Shown THEN <<"bad", "what the tokens call themselves", K.shown, Shown>>
         ELSE IF ~Distinct THEN <<"bad", "names that are the same">>
         ELSE <<"ok", "usable">>

Init == c \in DOMAIN Cases /\ verdict = <<"todo">>
Next == /\ verdict = <<"todo">>
        /\ verdict' = IF Mode = "names" THEN <<"names", Tokens, Methods, Distinct>> ELSE Judge
        /\ PrintT("RESULT " \o ToJson(<<K.id>> \o verdict'))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict[1] # "bad"
=============================================================================
