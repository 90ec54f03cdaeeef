----------------------------- MODULE EnumTable -----------------------------
(***************************************************************************)
(* From the specification to the code: for every table of a scope, made by *)
(* hand, and every word up to a length the outcome of the parse in full.   *)
(* Tables on which the machine does not end are left out.                  *)
(***************************************************************************)
EXTENDS Outcome, Json, FiniteSets

CONSTANTS WordLen, BodyLen

VARIABLES rows
vars == <<parsevars, rows>>

A == 97
LFbyte == 10
CRbyte == 13

T(v) == [k |-> "t", v |-> v, i |-> 0]
N(i) == [k |-> "n", v |-> <<>>, i |-> i]
Op(b, ops) == [b |-> b, ops |-> ops]

\* operations: a terminal, one of two bytes, an empty one, rules there are,
\* one there is not, the end of line, a built-in there is not
Ops == {T(<<A>>), T(<<A, 98>>), T(<<>>), N(0), N(1), N(5), N(-2), N(-7)}
Bodies(n) == UNION {[1..k -> Ops] : k \in 0..n}
Absent == <<>>
CellAt(b, bodies) == {Absent} \cup {<<Op(b, x)>> : x \in bodies}

Rows0 == {c \o d : c \in CellAt(A, Bodies(BodyLen)), d \in CellAt(0, {<<>>, <<N(1)>>, <<N(-2)>>})}
Rows1 == {c \o d : c \in CellAt(A, {<<>>, <<T(<<A>>)>>, <<N(0)>>, <<N(-2), T(<<A>>)>>}),
                   d \in CellAt(CRbyte, {<<N(-2)>>})}

Row(r, cells) == [r |-> r, cells |-> cells]
Tables == {<<Row(0, c)>> : c \in Rows0} \cup {<<Row(0, c), Row(1, d)>> : c \in Rows0, d \in Rows1}
          \cup {<<Row(1, d)>> : d \in Rows1}

CellsOf(cs) == [b \in {cs[j].b : j \in DOMAIN cs} |-> cs[CHOOSE j \in DOMAIN cs : cs[j].b = b].ops]
TableOf(rs) == [r \in {rs[i].r : i \in DOMAIN rs} |-> CellsOf(rs[CHOOSE i \in DOMAIN rs : rs[i].r = r].cells)]

Given == <<[k |-> 0, v |-> "Zero"], [k |-> 1, v |-> "One"]>>
SameInput(w) == w

Init ==
  /\ rows \in Tables
  /\ table = <<>> /\ names = <<>> /\ src = <<>> /\ m = Idle

Choose ==
  /\ m.status = "idle"
  /\ Begin(TableOf(rows), [i \in 0..1 |-> Given[i + 1].v], <<>>)
  /\ UNCHANGED rows

Outcome(y) ==
  [case |-> [kind |-> "table", table |-> rows, names |-> Given,
             parses |-> <<[src |-> src, form |-> "string"]>>],
   want |-> [res |-> IF y.m.status = "accepted" THEN "ok" ELSE "err",
             nodes |-> IF y.m.status = "accepted" THEN y.t.nodes ELSE <<>>, err |-> y.m.err]]

Tell ==
  /\ m.status # "idle"
  /\ LET y == RunFrom(m, 10)
     IN /\ y.m.status # "run"
        /\ PrintT("REPLAY " \o ToJson(Outcome(y)))
        /\ y.m.pos = Len(src) /\ Len(src) < WordLen
        /\ \E b \in {A, 98, LFbyte, CRbyte} : Begin(table, names, Append(src, b))
  /\ UNCHANGED rows

Next == Choose \/ Tell
Spec == Init /\ [][Next]_vars
=============================================================================
