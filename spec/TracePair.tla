----------------------------- MODULE TracePair ------------------------------
(***************************************************************************)
(* Checks that two presentations of a grammar behave alike: both tables or *)
(* none, the same sentences, the same trees up to the numbering of rules.  *)
(* One step for generation, one for every pair of parses.                  *)
(***************************************************************************)
EXTENDS Presentations, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p, phase
vars == <<c, p, phase>>
Case == Cases[c]

Init == c \in 1..Len(Cases) /\ p = 0 /\ phase = "given"

Given ==
  /\ phase = "given"
  /\ Assert(Presents(Case.g, Case.g2, Case.perm, Case.swap), <<"not a presentation", c>>)
  /\ phase' = "generated" /\ UNCHANGED <<c, p>>

Mismatch(what) ==
  /\ PrintT("MISMATCH " \o ToJson([c |-> c, p |-> p, aspect |-> "presentation", what |-> what]))
  /\ phase' = "mismatch" /\ UNCHANGED <<c, p>>

Generated ==
  /\ phase = "generated"
  /\ IF Case.obs.gen # Case.obs2.gen
     THEN Mismatch(Case.obs.gen \o " for one presentation, " \o Case.obs2.gen \o " for another")
     ELSE phase' = "parses" /\ UNCHANGED <<c, p>>

Renumber(t) == IF t < 0 THEN t ELSE Case.perm[t + 1]

A == Case.parses[p + 1]
B == Case.parses2[p + 1]

SameTree ==
  /\ Len(A.nodes) = Len(B.nodes)
  /\ \A i \in DOMAIN A.nodes :
       /\ Renumber(A.nodes[i][1]) = B.nodes[i][1]
       /\ \A f \in 2..4 : A.nodes[i][f] = B.nodes[i][f]

Pair ==
  /\ phase = "parses" /\ p < Len(Case.parses)
  /\ Assert(B.src = SwapAll(Case.swap, A.src), <<"not the same input", c, p>>)
  /\ IF A.res # B.res
     THEN Mismatch(A.res \o " with one presentation, " \o B.res \o " with another")
     ELSE IF A.res = "ok" /\ ~SameTree THEN Mismatch("another tree")
     ELSE p' = p + 1 /\ UNCHANGED <<c, phase>>

Over == phase = "parses" /\ p = Len(Case.parses) /\ phase' = "done" /\ UNCHANGED <<c, p>>
Finished == phase \in {"done", "mismatch"} /\ UNCHANGED vars
Next == Given \/ Generated \/ Pair \/ Over \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
