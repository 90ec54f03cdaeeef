------------------------------ MODULE ByteSets ------------------------------
(***************************************************************************)
(* Byte sets as sets: registers that hold subsets of 0..255, the           *)
(* operations that change a register, and what the observers say.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Universe
VARIABLE regs

SetInit(n) == regs = [r \in 1..n |-> {}]

New(d, vs)     == regs' = [regs EXCEPT ![d] = vs]
Add(a, v)      == regs' = [regs EXCEPT ![a] = @ \cup {v}]
Remove(a, v)   == regs' = [regs EXCEPT ![a] = @ \ {v}]
Union(d, a, b) == regs' = [regs EXCEPT ![d] = regs[a] \cup regs[b]]
Copy(d, a)     == regs' = [regs EXCEPT ![d] = regs[a]]

RECURSIVE SortSet(_)
SortSet(s) == IF s = {} THEN <<>>
              ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y
                   IN <<m>> \o SortSet(s \ {m})

\* the increasing listing, in one pass over the bytes
Listing(s) == LET RECURSIVE L(_)
                  L(b) == IF b > 255 THEN <<>>
                          ELSE (IF b \in s THEN <<b>> ELSE <<>>) \o L(b + 1)
              IN L(0)

\* two upper-case hexadecimal digits each, separated by spaces, in brackets
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE HexList(_)
HexList(l) == IF l = <<>> THEN <<>>
              ELSE <<HexDigit(l[1] \div 16), HexDigit(l[1] % 16)>>
                   \o (IF Len(l) > 1 THEN <<32>> ELSE <<>>) \o HexList(Tail(l))
TextForm(s) == <<91>> \o HexList(Listing(s)) \o <<93>>
=============================================================================
