----------------------------- MODULE TraceWalk ------------------------------
(* Checks the visits that were made against Walk: each observed visit must *)
(* be the next one, and nothing may be left to do when the walk returned.  *)
(* A state of this specification covers up to Batch visits.                *)
EXTENDS Walk, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

CONSTANT Batch
VARIABLES c, k, phase
View == <<c, k, phase>>
Case == Cases[c]
KidsOf(t, n) == Cases[t].tn[n].c     \* a tree is called by its case

Init ==
  /\ c \in 1..Len(Cases) /\ k = 0 /\ phase = "walk"
  /\ WalkInit(c, 1)

\* y.todo after the first y.k visits; y.ok: so far they are as they must be
Follow(y) ==
  LET s == Case.visits[y.k + 1]
      x == TopOf(y.todo)
  IN IF x.n = s.node /\ x.v = s.vis
     THEN [todo |-> After(y.todo, s.ret), k |-> y.k + 1, ok |-> TRUE]
     ELSE [y EXCEPT !.ok = FALSE]

Here == Case.visits[k + 1]
Fits == k < Len(Case.visits) /\ ~WalkOver /\ TopOf(todo).n = Here.node /\ TopOf(todo).v = Here.vis

Ticks == [i \in 1..Batch |-> i]

Step ==
  /\ phase = "walk" /\ Fits
  /\ LET y == FoldLeft(LAMBDA z, i : IF z.ok /\ z.k < Len(Case.visits) /\ ~IsEmpty(z.todo)
                                     THEN Follow(z) ELSE z,
                       [todo |-> todo, k |-> k, ok |-> TRUE], Ticks)
         last == Case.visits[y.k]
     IN /\ todo' = y.todo /\ k' = y.k
        /\ visited' = [n |-> last.node, v |-> last.vis, r |-> last.ret]
  /\ UNCHANGED <<tree, c, phase>>

What ==
  IF k = Len(Case.visits)
  THEN IF ~WalkOver THEN "a visit is missing"
       ELSE IF Case.res # "ok" THEN "walk: " \o Case.res ELSE ""
  ELSE IF WalkOver THEN "a visit too many"
  ELSE IF TopOf(todo).n # Here.node THEN "another node visited"
  ELSE IF TopOf(todo).v # Here.vis THEN "visited with another visitor"
  ELSE ""

Over ==
  /\ phase = "walk" /\ ~Fits
  /\ \/ What # "" /\ PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> "walk", what |-> What, at |-> k + 1]))
                  /\ phase' = "mismatch"
     \/ What = "" /\ phase' = "done"
  /\ UNCHANGED <<walkvars, c, k>>

Finished == phase # "walk" /\ UNCHANGED <<walkvars, c, k, phase>>
Next == Step \/ Over \/ Finished
Spec == Init /\ [][Next]_<<walkvars, c, k, phase>>
=============================================================================
