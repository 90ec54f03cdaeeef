-------------------------- MODULE MCPresentations --------------------------
(***************************************************************************)
(* Design check: rewriting a grammar by exchanging rules, alternatives,    *)
(* names or bytes, as often as one likes, changes neither whether it is    *)
(* LL(1) nor - up to the exchanged bytes - its language, and the result    *)
(* presents the grammar one began with (so Presents is not too strict).    *)
(***************************************************************************)
EXTENDS Presentations, Grammars, Scope, TLC

CONSTANTS Spare, WordLen

VARIABLES g, h, perm, swap
vars == <<g, h, perm, swap>>

Init == /\ g \in AllGrammars /\ WellFormed(g) /\ h = g
        /\ perm = [i \in DOMAIN g |-> i - 1] /\ swap = <<>>

Exchange(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

SwapRules ==
  \E i, j \in DOMAIN h : 1 < i /\ i < j /\ h' = Exchange(h, i, j)
    /\ perm' = [x \in DOMAIN perm |-> IF perm[x] = i - 1 THEN j - 1
                                      ELSE IF perm[x] = j - 1 THEN i - 1 ELSE perm[x]]
    /\ UNCHANGED <<g, swap>>

SwapAlts ==
  \E i \in DOMAIN h : \E a, b \in DOMAIN h[i].alts :
    a < b /\ h' = [h EXCEPT ![i].alts = Exchange(@, a, b)] /\ UNCHANGED <<g, perm, swap>>

Renamed(x, from, to) ==
  [i \in DOMAIN x |->
    [head |-> IF x[i].head = from THEN to ELSE x[i].head,
     alts |-> [a \in DOMAIN x[i].alts |->
                [s \in DOMAIN x[i].alts[a] |->
                  IF x[i].alts[a][s].k = "n" /\ x[i].alts[a][s].n = from
                  THEN [x[i].alts[a][s] EXCEPT !.n = to] ELSE x[i].alts[a][s]]]]]

Rename ==
  \E i \in DOMAIN h : \E to \in {"X", "Y"} :
    to \notin Heads(h) /\ h' = Renamed(h, h[i].head, to) /\ UNCHANGED <<g, perm, swap>>

SwapBytes ==
  /\ swap = <<>>
  /\ \E b \in Bytes : swap' = <<b, Spare>>
  /\ h' = [i \in DOMAIN h |-> [h[i] EXCEPT !.alts =
            [a \in DOMAIN @ |-> [s \in DOMAIN @[a] |-> [@[a][s] EXCEPT !.v = SwapAll(swap', @)]]]]]
  /\ UNCHANGED <<g, perm>>

Next == SwapRules \/ SwapAlts \/ Rename \/ SwapBytes
Spec == Init /\ [][Next]_vars

LL1(x) == LET R == Resolve(x)  N == Nullable(R)  F == First(R, N)  W == Follow(R, N, F)
          IN IsLL1(R, N, F, W)
Same == /\ Presents(g, h, perm, swap)
        /\ LL1(g) = LL1(h)
        /\ Sentences(Lang(Resolve(h), WordLen)) =
             {SwapAll(swap, w) : w \in Sentences(Lang(Resolve(g), WordLen))}
=============================================================================
