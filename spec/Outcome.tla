------------------------------ MODULE Outcome ------------------------------
(***************************************************************************)
(* What the parser machine makes of a whole input: the configuration it    *)
(* ends in, and the tree as a list of nodes in preorder,                   *)
(*    <<kind, start, end, number of children>>.                            *)
(***************************************************************************)
EXTENDS Parser
LOCAL INSTANCE SequencesExt

\* nodes so far and which of them are open, innermost first
Sapling == [nodes |-> <<>>, open |-> <<>>]

Grow(t, e) ==
  CASE e.e = "none" -> t
    [] e.e = "open" ->
         LET i == Len(t.nodes) + 1
             nd == <<e.t, e.s, e.s, IF e.t = Literal /\ e.n > 0 THEN 0 ELSE IF e.n = 0 THEN 1 ELSE e.n>>
         IN [nodes |-> IF e.n = 0 THEN t.nodes \o <<nd, <<Nothing, e.s, e.s, 0>>>>
                                  ELSE Append(t.nodes, nd),
             open |-> <<i>> \o t.open]
    [] e.e = "close" ->
         [nodes |-> [t.nodes EXCEPT ![t.open[1]][3] = e.x], open |-> Tail(t.open)]

\* up to 32 n steps from configuration x
One(y, i) == IF y.m.status # "run" THEN y
             ELSE LET z == MStep(y.m) IN [m |-> z, t |-> Grow(y.t, z.ev)]
Few32 == [i \in 1..32 |-> i]
RunFrom(x, n) ==
  FoldLeft(LAMBDA y, i : IF y.m.status # "run" THEN y ELSE FoldLeft(One, y, Few32),
           [m |-> x, t |-> Sapling], [i \in 1..n |-> i])
=============================================================================
