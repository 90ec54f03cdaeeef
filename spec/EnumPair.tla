------------------------------ MODULE EnumPair ------------------------------
(***************************************************************************)
(* From the specification to the code: every grammar of a scope, beside    *)
(* every other order of its rules and alternatives, with other names and   *)
(* with a byte replaced, and for every word up to a length whether it is a *)
(* sentence of the one and, with the byte replaced, of the other.          *)
(***************************************************************************)
EXTENDS Presentations, Grammars, Scope, TLC, Json, SequencesExt

CONSTANTS Spare, WordLen, Exchanges

VARIABLES g, phase
vars == <<g, phase>>

\* one order of the alternatives is enough to begin with: all others are
\* presented
Alts == SetToSeq(AllAlts(MaxSyms))
Place(a) == CHOOSE i \in DOMAIN Alts : Alts[i] = a
Sorted(t) == \A i, j \in DOMAIN t : i < j => Place(t[i]) <= Place(t[j])

SortedTails == [i \in 1..NRules |-> {t \in AllTails(Shape[i]) : Sorted(t)}]
RECURSIVE SortedFrom(_)
SortedFrom(i) ==
  IF i > NRules THEN {<<>>}
  ELSE {<<[head |-> RuleNames[i], alts |-> t]>> \o rest : t \in SortedTails[i], rest \in SortedFrom(i + 1)}

Init == g \in SortedFrom(1) /\ phase = "grammar"

LL1 == LET R == Resolve(g)  N == Nullable(R)  F == First(R, N)  W == Follow(R, N, F)
       IN WellFormed(g) /\ IsLL1(R, N, F, W)

\* the names the other grammar uses, by rule of this one
NewNames == <<"X", "Y", "Z">>

Orders(n) == {q \in [1..n -> 1..n] : \A i, j \in 1..n : q[i] = q[j] => i = j}
Perms == {q \in [1..NRules -> 0..(NRules - 1)] :
            q[1] = 0 /\ \A i, j \in 1..NRules : q[i] = q[j] => i = j}
Swaps == {<<>>} \cup {<<b, Spare>> : b \in Exchanges}

Retold(y, swap) ==
  IF y.k = "n" THEN [y EXCEPT !.n = NewNames[CHOOSE i \in 1..NRules : RuleNames[i] = y.n]]
  ELSE [y EXCEPT !.v = SwapAll(swap, @)]

Other(perm, order, swap) ==
  [k \in 1..NRules |->
    LET i == CHOOSE x \in 1..NRules : perm[x] = k - 1
    IN [head |-> NewNames[i],
        alts |-> [a \in DOMAIN g[i].alts |->
                   [s \in DOMAIN g[i].alts[order[i][a]] |-> Retold(g[i].alts[order[i][a]][s], swap)]]]]

Words == SetToSeq(UNION {[1..n -> Bytes \cup {Spare}] : n \in 0..WordLen})
ParsesOf(swap) == [i \in DOMAIN Words |-> [src |-> SwapAll(swap, Words[i]), form |-> "string"]]

AllOrders == [n \in 0..3 |-> Orders(n)]
OrdersOf == {q \in [1..NRules -> UNION {AllOrders[n] : n \in 0..3}] :
               \A i \in 1..NRules : q[i] \in AllOrders[Len(g[i].alts)]}

Tell ==
  /\ phase = "grammar"
  /\ LET ll1 == TLCEval(LL1)
     IN \A perm \in Perms, order \in OrdersOf, swap \in Swaps :
          LET h == Other(perm, order, swap)
          IN /\ Assert(Presents(g, h, perm, swap), <<"no presentation", g, h, perm, swap>>)
             /\ PrintT("REPLAY " \o ToJson(
                  [case |-> [kind |-> "pair", g |-> g, g2 |-> h, perm |-> perm, swap |-> swap,
                             parses |-> IF ll1 THEN ParsesOf(<<>>) ELSE <<>>,
                             parses2 |-> IF ll1 THEN ParsesOf(swap) ELSE <<>>],
                   want |-> [res |-> IF ll1 THEN "ok" ELSE "err"]]))
  /\ phase' = "told" /\ UNCHANGED g

Next == Tell
Spec == Init /\ [][Next]_vars
=============================================================================
