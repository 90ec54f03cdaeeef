----------------------------- MODULE Enumerate -----------------------------
(***************************************************************************)
(* From the specification to the code: for every grammar of a scope, what  *)
(* table generation has to return and which words up to a length the       *)
(* parser has to accept.  Printed as lines that the driver replays.        *)
(***************************************************************************)
EXTENDS TableGen, Scope, Json, TLC

CONSTANT WordLen

VARIABLE told

Init == \E g \in AllGrammars : GenInit(g) /\ told = FALSE

Gen == ~GenOver /\ Rounds /\ UNCHANGED told

Tell ==
  /\ GenOver /\ ~told
  /\ PrintT("REPLAY " \o ToJson(
       [g |-> G, ok |-> (stage = "ready"), len |-> WordLen,
        words |-> IF stage = "ready" THEN Sentences(Lang(R, WordLen)) ELSE {}]))
  /\ told' = TRUE /\ UNCHANGED genvars

Next == Gen \/ Tell \/ (told /\ UNCHANGED <<genvars, told>>)

Spec == Init /\ [][Next]_<<genvars, told>>
=============================================================================
