----------------------------- MODULE EnumPrint ------------------------------
(***************************************************************************)
(* From the specification to the code: every grammar of a scope, to be     *)
(* printed and read back.  The printing of the specification itself is     *)
(* read by its own machine on the way (RoundTrip).                         *)
(***************************************************************************)
EXTENDS Notation, TLC, Json
LOCAL INSTANCE SequencesExt

CONSTANTS Bytes, NameSet, TermLen, MaxAlts, MaxSyms, MaxRules

VARIABLE given
vars == <<readvars, given>>
SameText(t) == t

Terms == UNION {[1..n -> Bytes] : n \in 1..TermLen}
Syms == {[k |-> "t", v |-> t] : t \in Terms} \cup {[k |-> "n", v |-> <<n>>] : n \in NameSet}
        \cup {[k |-> "e", v |-> <<>>]}
Alts == UNION {[1..n -> Syms] : n \in 1..MaxSyms}
Rules == [head : {<<n>> : n \in NameSet}, alts : UNION {[1..n -> Alts] : n \in 1..MaxAlts}]
Grams == UNION {[1..n -> Rules] : n \in 1..MaxRules}

\* the name of a rule as the driver takes it
Chars == [b \in {65, 98} |-> IF b = 65 THEN "A" ELSE "b"]
ForDriver(g) ==
  [i \in DOMAIN g |->
     [head |-> Chars[g[i].head[1]],
      alts |-> [a \in DOMAIN g[i].alts |->
                 [s \in DOMAIN g[i].alts[a] |->
                    LET y == g[i].alts[a][s]
                    IN IF y.k = "n" THEN [k |-> "n", v |-> <<>>, n |-> Chars[y.v[1]]]
                       ELSE [k |-> y.k, v |-> y.v, n |-> ""]]]]]

Init == given \in Grams /\ ReadInit(<<>>)

Next ==
  /\ ~ReadOver /\ UNCHANGED <<given, at>>
  /\ text' = PrintGrammar(given)
  /\ reader' = ReadEnd(FoldLeft(ReadByte, Reader, text'))
  /\ PrintT("REPLAY " \o ToJson([case |-> [kind |-> "print", g |-> ForDriver(given)],
                                 want |-> [res |-> "ok"]]))
Spec == Init /\ [][Next]_vars

RoundTrip == ReadOver => reader.mode = "good" /\ reader.rules = given
=============================================================================
