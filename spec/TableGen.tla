------------------------------ MODULE TableGen ------------------------------
(***************************************************************************)
(* Table generation as a machine: the three fixpoints of package tablegen  *)
(* (which rules can be empty, FIRST, FOLLOW), then the table or a refusal. *)
(*                                                                         *)
(* Each action is one step of growth.  The code visits rules in the order  *)
(* they are written; the machine may grow any one rule's set at any time   *)
(* (Chaotic), or all of them at once (Rounds).  That every order ends in   *)
(* the same table - order carries no meaning - is what MCTableGen checks.  *)
(***************************************************************************)
EXTENDS Grammars

VARIABLES
  G,        \* the grammar being processed
  R,        \* its resolved form
  stage,    \* "check" "nullable" "first" "follow" "table" "ready" "refused"
  nul, fst, fol,  \* the sets found so far
  tab,      \* the table, once ready
  why       \* reason of a refusal

genvars == <<G, R, stage, nul, fst, fol, tab, why>>

NoTable == [r \in {} |-> <<>>]

GenInit(g) ==
  /\ G = g /\ R = <<>> /\ stage = "check"
  /\ nul = {} /\ fst = <<>> /\ fol = <<>> /\ tab = NoTable /\ why = {}

Check ==
  /\ stage = "check"
  /\ LET f == Flaws(G)
     IN IF f = {}
        THEN /\ R' = Resolve(G)
             /\ stage' = "nullable" /\ why' = {}
             /\ fst' = NoSets(G) /\ fol' = NoSets(G)
        ELSE /\ stage' = "refused" /\ why' = f
             /\ UNCHANGED <<R, fst, fol>>
  /\ UNCHANGED <<G, nul, tab>>

GrowNullable(i) ==
  /\ stage = "nullable"
  /\ i \in NullableRound(R, nul) \ nul
  /\ nul' = nul \cup {i}
  /\ UNCHANGED <<G, R, stage, fst, fol, tab, why>>

NullableDone ==
  /\ stage = "nullable" /\ NullableRound(R, nul) = nul
  /\ stage' = "first"
  /\ UNCHANGED <<G, R, nul, fst, fol, tab, why>>

GrowFirst(i) ==
  /\ stage = "first"
  /\ LET n == FirstRound(R, nul, fst)[i]
     IN n # fst[i] /\ fst' = [fst EXCEPT ![i] = n]
  /\ UNCHANGED <<G, R, stage, nul, fol, tab, why>>

FirstDone ==
  /\ stage = "first" /\ FirstRound(R, nul, fst) = fst
  /\ stage' = "follow"
  /\ UNCHANGED <<G, R, nul, fst, fol, tab, why>>

GrowFollow(i) ==
  /\ stage = "follow"
  /\ LET n == FollowRound(R, nul, fst, fol)[i]
     IN n # fol[i] /\ fol' = [fol EXCEPT ![i] = n]
  /\ UNCHANGED <<G, R, stage, nul, fst, tab, why>>

FollowDone ==
  /\ stage = "follow" /\ FollowRound(R, nul, fst, fol) = fol
  /\ stage' = "table"
  /\ UNCHANGED <<G, R, nul, fst, fol, tab, why>>

Fill ==
  /\ stage = "table"
  /\ TRUE = IsLL1(R, nul, fst, fol)   \* "TRUE =": TLC then evaluates it as a value
  /\ stage' = "ready" /\ tab' = TableOf(R, nul, fst, fol)
  /\ UNCHANGED <<G, R, nul, fst, fol, why>>

Refuse ==
  /\ stage = "table"
  /\ ~IsLL1(R, nul, fst, fol)
  /\ stage' = "refused" /\ why' = {"not-LL1"}
  /\ UNCHANGED <<G, R, nul, fst, fol, tab>>

Chaotic ==
  \/ Check \/ NullableDone \/ FirstDone \/ FollowDone \/ Fill \/ Refuse
  \/ \E i \in DOMAIN G : GrowNullable(i) \/ GrowFirst(i) \/ GrowFollow(i)

(* The same machine with each fixpoint as one step, used where only the    *)
(* outcome is of interest.                                                 *)
Rounds ==
  \/ Check \/ Fill \/ Refuse
  \/ /\ stage = "nullable"
     /\ LET N == Nullable(R)  F == First(R, N)  W == Follow(R, N, F)
        IN nul' = N /\ fst' = F /\ fol' = W
     /\ stage' = "table"
     /\ UNCHANGED <<G, R, tab, why>>

GenOver == stage \in {"ready", "refused"}
=============================================================================
