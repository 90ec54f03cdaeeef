------------------------------ MODULE MCStack ------------------------------
(* The stack in pieces against a plain sequence. *)
EXTENDS Stack
CONSTANT Max
VARIABLES s, q
vars == <<s, q>>
Words == UNION {[1..n -> 1..2] : n \in 0..3} \cup {[i \in 1..n |-> (i % 3) + 1] : n \in 4..Max}
Init == s = EmptyStack /\ q = <<>>
Next ==
  \/ \E w \in Words : Len(q) + Len(w) <= Max /\ s' = Push(s, w) /\ q' = w \o q
  \/ q # <<>> /\ s' = Pop(s) /\ q' = Tail(q)
  \/ q # <<>> /\ \E x \in 1..2 : s' = Replace(s, x) /\ q' = [q EXCEPT ![1] = x]
Spec == Init /\ [][Next]_vars
SameStack == Flat(s) = q /\ IsEmpty(s) = (q = <<>>) /\ (q # <<>> => TopOf(s) = q[1])
PiecesFull == \A i \in DOMAIN s.under : s.under[i] # <<>>
=============================================================================
