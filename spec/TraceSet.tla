------------------------------ MODULE TraceSet ------------------------------
(* Checks histories of byte-set operations against ByteSets.               *)
EXTENDS ByteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, phase
View == <<c, k, phase>>
Case == Cases[c]
O == Case.setops[k + 1]

Init == c \in 1..Len(Cases) /\ k = 0 /\ phase = "ops" /\ SetInit(5)

A == regs[O.a + 1]
Bb == regs[O.b + 1]
ToSet(s) == {s[i] : i \in DOMAIN s}

Changes ==
  CASE O.op = "new"    -> New(O.d + 1, ToSet(O.vs))
    [] O.op = "add"    -> Add(O.a + 1, O.v)
    [] O.op = "remove" -> Remove(O.a + 1, O.v)
    [] O.op = "union"  -> Union(O.d + 1, O.a + 1, O.b + 1)
    [] O.op = "copy"   -> Copy(O.d + 1, O.a + 1)
    [] OTHER           -> UNCHANGED regs

Agrees ==
  /\ ~O.panic
  /\ CASE O.op = "contains" -> O.bool = (O.v \in A)
       [] O.op = "members"  -> O.list = Listing(A)
       [] O.op = "len"      -> O.int = Cardinality(A)
       [] O.op = "bytes"    -> O.list = Listing(A)
       [] O.op = "string"   -> O.text = TextForm(A)
       [] O.op = "equal"    -> O.bool = (A = Bb)
       [] O.op = "subset"   -> O.bool = (A \subseteq Bb)
       [] O.op = "superset" -> O.bool = (Bb \subseteq A)
       [] OTHER             -> TRUE

Step ==
  /\ phase = "ops" /\ k < Len(Case.setops) /\ Agrees
  /\ Changes /\ k' = k + 1 /\ UNCHANGED <<c, phase>>

Differs ==
  /\ phase = "ops" /\ k < Len(Case.setops) /\ ~Agrees
  /\ PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> "set", what |-> O.op, at |-> k + 1]))
  /\ phase' = "mismatch" /\ UNCHANGED <<regs, c, k>>

Over == phase = "ops" /\ k = Len(Case.setops) /\ phase' = "done" /\ UNCHANGED <<regs, c, k>>

Finished == phase \in {"done", "mismatch"} /\ UNCHANGED <<regs, c, k, phase>>
Next == Step \/ Differs \/ Over \/ Finished
Spec == Init /\ [][Next]_<<regs, c, k, phase>>
=============================================================================
