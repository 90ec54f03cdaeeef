--------------------------- MODULE Presentations ---------------------------
(***************************************************************************)
(* When two grammars are presentations of the same one: rules in another   *)
(* order (the first stays first), alternatives in another order, rules     *)
(* renamed, one byte replaced by one that is not in use.                   *)
(* perm[i] is the (0-based) place in h of rule i of g; swap is <<>> or     *)
(* <<x, y>>: bytes x and y are exchanged.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SwapByte(swap, b) == IF swap = <<>> THEN b
                     ELSE IF b = swap[1] THEN swap[2]
                     ELSE IF b = swap[2] THEN swap[1] ELSE b
SwapAll(swap, v) == [i \in DOMAIN v |-> SwapByte(swap, v[i])]

NewName(g, h, perm, n) ==
  IF \E i \in DOMAIN g : g[i].head = n
  THEN h[perm[CHOOSE i \in DOMAIN g : g[i].head = n] + 1].head ELSE n

MapSym(g, h, perm, swap, y) ==
  IF y.k = "n" THEN [y EXCEPT !.n = NewName(g, h, perm, y.n)]
  ELSE IF y.k = "t" THEN [y EXCEPT !.v = SwapAll(swap, y.v)] ELSE y

MapAlt(g, h, perm, swap, a) == [s \in DOMAIN a |-> MapSym(g, h, perm, swap, a[s])]

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

Presents(g, h, perm, swap) ==
  /\ Len(g) = Len(h) /\ Len(perm) = Len(g)
  /\ {perm[i] : i \in DOMAIN perm} = 0..(Len(g) - 1)
  /\ g # <<>> => perm[1] = 0
  /\ \A i, j \in DOMAIN g : (g[i].head = g[j].head) <=> (h[perm[i] + 1].head = h[perm[j] + 1].head)
  /\ \A i \in DOMAIN g :
       SameBag([a \in DOMAIN g[i].alts |-> MapAlt(g, h, perm, swap, g[i].alts[a])],
               h[perm[i] + 1].alts)
=============================================================================
