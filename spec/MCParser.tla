------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* Design check.  For every grammar of a scope and every word up to a      *)
(* length: generate the table, run the parser, and compare with what the   *)
(* grammar derives, which is defined without prediction (Lang).            *)
(***************************************************************************)
EXTENDS TableGen, Parser, Scope

CONSTANTS
  Foreign,    \* a byte that no terminal contains
  WordLen     \* length of the longest word tried

VARIABLES prods    \* subtrees completed so far, innermost first on open nodes

Words == UNION {[1..n -> Bytes \cup {Foreign}] : n \in 0..WordLen}

vars == <<genvars, parsevars, prods>>

InputOf(w) == w     \* src is the input itself

Init ==
  /\ \E g \in AllGrammars : GenInit(g)
  /\ table = <<>> /\ names = <<>> /\ src = <<>> /\ m = Idle /\ prods = <<>>

Gen == ~GenOver /\ Rounds /\ UNCHANGED <<parsevars, prods>>

Start ==
  /\ stage = "ready" /\ m.status = "idle"
  /\ \E w \in Words :
       Begin(tab, [r \in 0..(NRules - 1) |-> RuleNames[r + 1]], w)
  /\ prods' = <<>> /\ UNCHANGED genvars

\* the production stack of the code: a node is pushed open and closed later
Node(t, s, n) == [t |-> t, s |-> s, x |-> -1, n |-> n, c |-> <<>>]
Leaf(t, s, x) == [t |-> t, s |-> s, x |-> x, n |-> 0, c |-> <<>>]

Build(st, e) ==
  CASE e.e = "none" -> st
    [] e.e = "open" -> <<Node(e.t, e.s, e.n)>> \o st
    [] e.e = "close" ->
        LET nd == [st[1] EXCEPT !.x = e.x,
                                !.c = IF e.n = 0 THEN <<Leaf(Nothing, e.s, e.x)>> ELSE @]
        IN IF Len(st) = 1 THEN <<nd>>
           ELSE <<[st[2] EXCEPT !.c = Append(@, nd)]>> \o SubSeq(st, 3, Len(st))

Run ==
  /\ ParseStep
  /\ prods' = Build(prods, m'.ev) /\ UNCHANGED genvars

Finished == (stage = "refused" \/ ParseOver) /\ UNCHANGED vars

Next == Gen \/ Start \/ Run \/ Finished

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Gen \/ Start \/ Run)

-----------------------------------------------------------------------------
(* The tree as a derivation: each rule node against one alternative.       *)

RECURSIVE IsDerivation(_)
IsDerivation(nd) ==
  IF nd.t = Literal \/ nd.t = Nothing THEN nd.c = <<>>
  ELSE /\ nd.t \in 0..(Len(R) - 1)
       /\ nd.c # <<>>
       /\ nd.s = nd.c[1].s /\ nd.x = nd.c[Len(nd.c)].x
       /\ \A j \in 1..(Len(nd.c) - 1) : nd.c[j].x = nd.c[j + 1].s
       /\ IF nd.s = nd.x
          THEN /\ Len(nd.c) = 1 /\ nd.c[1].t = Nothing
               /\ (nd.t + 1) \in nul
          ELSE \E a \in DOMAIN R[nd.t + 1] :
                 LET alt == R[nd.t + 1][a]
                 IN /\ Len(alt) = Len(nd.c)
                    /\ \A j \in DOMAIN alt :
                         IF alt[j].k = "n" THEN nd.c[j].t = alt[j].i - 1
                         ELSE /\ nd.c[j].t = Literal
                              /\ SubSeq(src, nd.c[j].s + 1, nd.c[j].x) = alt[j].v
       /\ \A j \in DOMAIN nd.c : IsDerivation(nd.c[j])

AcceptsExactlyTheLanguage ==
  ParseOver => (m.status = "accepted" <=> src \in Sentences(Lang(R, WordLen)))

TreeIsDerivation ==
  m.status = "accepted" =>
    /\ Len(prods) = 1 /\ prods[1].s = 0 /\ prods[1].x = Len(src)
    /\ prods[1].t = 0 /\ IsDerivation(prods[1])

\* every byte consumed so far was possible, the one reported is not
ErrorAtFirstImpossibleByte ==
  (m.status = "rejected" /\ Reduced(R)) =>
    LET P == Prefixes(Lang(R, WordLen + 1))
        S == Sentences(Lang(R, WordLen + 1))
    IN /\ SubSeq(src, 1, m.pos) \in P
       /\ IF AtEnd(m) THEN src \notin S ELSE SubSeq(src, 1, m.pos + 1) \notin P
       /\ m.err.got = Peek(m)

\* no step count can exceed this, so every run is finite
StepBound == Depth(m.ops) <= 2 + (WordLen + 1) * (NRules + 1) * (MaxSyms + 1)

RefusedIffTwoAlternativesCompete ==
  GenOver =>
    (stage = "ready" <=>
       \A i \in DOMAIN R : \A a, b \in DOMAIN R[i] : a # b =>
          Predict(R, nul, fst, fol, i, a) \cap Predict(R, nul, fst, fol, i, b) = {})

NullableMeansDerivesEmpty ==
  stage = "table" =>
    \A i \in DOMAIN R : (i \in nul) <=> (<< <<>>, TRUE >> \in Lang(R, 1)[i])

\* FIRST of rules that derive something, against what they derive
FirstMeansDerivesPrefix ==
  (stage = "table" /\ Reduced(R)) =>
    \A i \in DOMAIN R : fst[i] = {x[1][1] : x \in {y \in Lang(R, 1)[i] : y[1] # <<>>}}

Terminates == <>(stage = "refused" \/ ParseOver)
=============================================================================
