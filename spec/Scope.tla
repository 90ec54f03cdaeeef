------------------------------- MODULE Scope -------------------------------
(***************************************************************************)
(* Finite sets of grammars, complete up to a shape: how many alternatives  *)
(* each rule may have, and how many symbols each of these.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Shape,      \* per rule <<most alternatives, most symbols each>>
  Bytes       \* the bytes used as terminals

NRules == Len(Shape)
MaxSyms == CHOOSE m \in {Shape[i][2] : i \in 1..NRules} :
              \A i \in 1..NRules : Shape[i][2] <= m

RuleNames == <<"A", "B", "C", "D", "E">>

SymT(b) == [k |-> "t", v |-> <<b>>, n |-> ""]
SymN(i) == [k |-> "n", v |-> <<>>, n |-> RuleNames[i]]
SymE    == [k |-> "e", v |-> <<>>, n |-> ""]

AllSyms == {SymT(b) : b \in Bytes} \cup {SymN(i) : i \in 1..NRules}
AllAlts(syms) == {<<SymE>>} \cup UNION {[1..n -> AllSyms] : n \in 1..syms}
AllTails(sh) == UNION {[1..n -> AllAlts(sh[2])] : n \in 1..sh[1]}

\* in lists of alternatives the order matters to the code, so all orders occur
RECURSIVE GrammarsFrom(_)
GrammarsFrom(i) ==
  IF i > NRules THEN {<<>>}
  ELSE {<<[head |-> RuleNames[i], alts |-> t]>> \o rest :
          t \in AllTails(Shape[i]), rest \in GrammarsFrom(i + 1)}

AllGrammars == GrammarsFrom(1)

Shape1 == <<<<2, 2>>>>                   \* one rule
Shape21 == <<<<2, 1>>, <<2, 1>>>>
Shape22 == <<<<2, 2>>, <<2, 2>>>>
ShapeChain == <<<<1, 3>>, <<2, 1>>, <<2, 1>>>>
Shape31 == <<<<2, 1>>, <<2, 1>>, <<2, 1>>>>
Shape13 == <<<<3, 2>>>>
ShapeLong == <<<<1, 4>>, <<2, 1>>, <<2, 1>>>>
=============================================================================
