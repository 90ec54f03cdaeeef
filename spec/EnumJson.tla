------------------------------ MODULE EnumJson ------------------------------
(***************************************************************************)
(* From the specification to the code: every document of a few tokens, and *)
(* whether the JSON example takes it, with the keys it prints.  A document *)
(* that went wrong is not made longer; one the machine says nothing about  *)
(* (loose) is left out.                                                    *)
(***************************************************************************)
EXTENDS JsonExample, TLC, Json
LOCAL INSTANCE SequencesExt

CONSTANTS Tokens, Most
VARIABLES text, m, n
vars == <<text, m, n>>

Structure == {<<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34, 107, 34>>, <<34, 34>>, <<48>>, <<32>>}
Numbers == {<<48>>, <<49>>, <<45>>, <<43>>, <<46>>, <<101>>, <<69>>, <<32>>}
Strings == {<<34>>, <<92>>, <<117>>, <<97>>, <<117, 48, 65, 102, 57>>, <<47>>, <<31>>, <<127>>, <<123, 34>>,
            <<34, 58, 34, 92, 34, 34, 125>>}
Words == {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>, <<110>>, <<91>>, <<93>>, <<44>>,
          <<13, 10>>, <<13>>, <<10>>, <<9>>, <<123, 34, 97, 34, 58>>, <<125>>}

Init == text = <<>> /\ m = Start /\ n = 0

Next ==
  /\ IF m.loose THEN TRUE ELSE PrintT("REPLAY " \o ToJson(
       [case |-> [kind |-> "example", mode |-> "json", text |-> text],
        want |-> [res |-> IF Complete(m) THEN "ok" ELSE "err", lines |-> m.lines]]))
  /\ m.mode # "fail" /\ n < Most
  /\ \E t \in Tokens : text' = text \o t /\ m' = FoldLeft(Feed, m, t)
  /\ n' = n + 1
Spec == Init /\ [][Next]_vars
=============================================================================
