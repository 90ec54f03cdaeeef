----------------------------- MODULE MCByteSets -----------------------------
(***************************************************************************)
(* The representation: a byte set held as words of bits refines ByteSets.  *)
(* Every operation of the set is made on the words (bit arithmetic) and on *)
(* the sets at once; what the words represent must stay the set, and every *)
(* observer computed on words must agree with the set.                     *)
(***************************************************************************)
EXTENDS ByteSets, TLC

CONSTANTS Words, Bits, Regs

VARIABLE words      \* register -> word -> set of bits
vars == <<regs, words>>

W(v) == v \div Bits
B(v) == v % Bits
Abs(x) == {v \in Universe : B(v) \in x[W(v)]}

Init == SetInit(Regs) /\ words = [r \in 1..Regs |-> [w \in 0..(Words - 1) |-> {}]]
R == 1..Regs
Next ==
  \/ \E a \in R, v \in Universe :
       \/ Add(a, v) /\ words' = [words EXCEPT ![a][W(v)] = @ \cup {B(v)}]
       \/ Remove(a, v) /\ words' = [words EXCEPT ![a][W(v)] = @ \ {B(v)}]
  \/ \E a, b, d \in R :
       /\ Union(d, a, b)
       /\ words' = [words EXCEPT ![d] = [w \in 0..(Words - 1) |-> words[a][w] \cup words[b][w]]]
  \/ \E a, d \in R : Copy(d, a) /\ words' = [words EXCEPT ![d] = words[a]]
Spec == Init /\ [][Next]_vars

Represents == \A r \in R : Abs(words[r]) = regs[r]
EqualOK    == \A a, b \in R : (words[a] = words[b]) <=> (regs[a] = regs[b])
SubsetOK   == \A a, b \in R :
                (\A w \in 0..(Words - 1) : words[a][w] \subseteq words[b][w])
                  <=> (regs[a] \subseteq regs[b])
RECURSIVE Sum(_, _)
Sum(x, w) == IF w = Words THEN 0 ELSE Cardinality(x[w]) + Sum(x, w + 1)
LenOK      == \A r \in R : Sum(words[r], 0) = Cardinality(regs[r])
=============================================================================
