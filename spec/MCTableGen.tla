----------------------------- MODULE MCTableGen -----------------------------
(***************************************************************************)
(* Design check: whatever order the sets grow in, the same table results,  *)
(* and the construction ends.                                              *)
(***************************************************************************)
EXTENDS TableGen, Scope

Init == \E g \in AllGrammars : GenInit(g)
Next == Chaotic \/ (GenOver /\ UNCHANGED genvars)
Spec == Init /\ [][Next]_genvars
FairSpec == Spec /\ WF_genvars(Chaotic)

Confluent ==
  stage \in {"ready", "refused"} /\ why \in {{}, {"not-LL1"}} =>
    LET N == Nullable(R)  F == First(R, N)  W == Follow(R, N, F)
    IN /\ nul = N /\ fst = F /\ fol = W
       /\ (stage = "ready") = IsLL1(R, N, F, W)
       /\ stage = "ready" => tab = TableOf(R, N, F, W)

Ends == <>GenOver
=============================================================================
