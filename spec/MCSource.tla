------------------------------ MODULE MCSource ------------------------------
(* Design check: however a reader delivers, the parse gets all bytes or a  *)
(* fault, and reading ends unless the reader never does.                   *)
EXTENDS Source
CONSTANT MaxSize
VARIABLES empties, faulted
vars == <<sourcevars, empties, faulted>>
Init == \E x \in {"whole", "reader", "none"} : \E n \in 0..MaxSize :
          SourceInit(x, n) /\ empties = 0 /\ faulted = FALSE
Go == \/ (TakeWhole \/ Refuse \/ OpenIt) /\ UNCHANGED <<empties, faulted>>
      \/ \E n \in 0..MaxSize, e \in {"", "eof", "fault"} :
           /\ Read(n, e)
           /\ (n = 0 /\ e = "") => empties < 3
           /\ empties' = IF n = 0 THEN empties + 1 ELSE 0
           /\ faulted' = (e = "fault")
Next == Go \/ (reading \in {"end", "fault", "refused"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
Complete == reading = "end" => ParsesAll
Honest   == FailsAsRead <=> faulted
Single   == ~(ParsesAll /\ (FailsAsRead \/ FailsAtOnce))
Ends     == <>(reading \in {"end", "fault", "refused"})
=============================================================================
