------------------------------ MODULE EnumText ------------------------------
(***************************************************************************)
(* From the specification to the code: every text of a few tokens, and the *)
(* grammar it denotes, if it is in the notation.  A text that went wrong   *)
(* is not made longer.                                                     *)
(***************************************************************************)
EXTENDS Notation, TLC, Json
LOCAL INSTANCE SequencesExt

CONSTANTS Tokens, Most, Opening

VARIABLES n
vars == <<readvars, n>>
SameText(t) == t

\* <a> ::=
NoText == <<>>
Rule0 == <<60, 97, 62, 58, 58, 61>>

\* whole rules and what is around them
Lines == {<<60, 97, 62>>, <<60, 65, 45, 49, 62>>, <<58, 58, 61>>, <<34, 120, 34>>,
          <<34, 34>>, <<SP>>, <<BAR>>, <<LFb>>, <<CRb, LFb>>, <<CRb>>, <<39, 39>>}
\* names, brackets and the sign
Heads == {<<60>>, <<62>>, <<97>>, <<90>>, <<48>>, <<45>>, <<58>>, <<61>>, <<58, 58, 61>>, <<SP>>,
          <<34, 34>>, <<95>>, <<LFb>>}
\* what is in literals
Literals == {<<34>>, <<39>>, <<92>>, <<116>>, <<110>>, <<114>>, <<97>>, <<SP>>, <<60>>,
             <<62>>, <<BAR>>, <<0>>, <<126>>, <<127>>, <<255>>, <<9>>, <<10>>}

Init == text = Opening /\ at = Len(Opening) /\ reader = FoldLeft(ReadByte, Reader, Opening) /\ n = 0

Next ==
  /\ LET x == ReadEnd(reader)
     IN PrintT("REPLAY " \o ToJson([case |-> [kind |-> "text", text |-> text],
                 want |-> [res |-> IF x.mode = "good" THEN "ok" ELSE "err",
                           rules |-> IF x.mode = "good" THEN x.rules ELSE <<>>]]))
  /\ reader.mode # "bad" /\ n < Most
  /\ \E t \in Tokens : /\ text' = text \o t
                       /\ at' = at + Len(t)
                       /\ reader' = FoldLeft(ReadByte, reader, t)
  /\ n' = n + 1
Spec == Init /\ [][Next]_vars
=============================================================================
