----------------------------- MODULE EnumToast ------------------------------
(***************************************************************************)
(* From the specification to the code: every tree of a few nodes over a    *)
(* choice of kinds, put in the place of a symbol, of a rule or of the      *)
(* whole tree, with several bindings; and what grammar construction makes  *)
(* of it.  On the way the search (Find) is compared with its declarative   *)
(* meaning.                                                                *)
(***************************************************************************)
EXTENDS AstBuild, TLC, Json, FiniteSets

CONSTANTS Scope, Size

VARIABLES told, which
vars == <<astvars, told, which>>

\* kinds
Ru == 1  He == 2  Ta == 3  Se == 4  Sy == 5  T1 == 6  T2 == 7
Nt == 8  Es == 9  Ec == 10  Ig == 11  Ot == 12  Li == -1  No == -2

\* a tree is given by the kinds of its nodes in preorder and, for each node
\* but the first, its parent: an earlier node that is still open then
RECURSIVE Parents(_)
Parents(n) ==   \* the parent lists of trees of n nodes
  IF n = 1 THEN {<<0>>}
  ELSE UNION {{Append(q, i) : i \in {j \in 1..(n - 1) :
                 \* j is the last node or one of its ancestors
                 \E k \in 0..n : LET RECURSIVE Up(_, _)
                                     Up(x, s) == IF s = 0 THEN x ELSE IF x = 0 THEN 0 ELSE Up(q[x], s - 1)
                                 IN Up(n - 1, k) = j}} : q \in Parents(n - 1)}

\* the bytes: a leaf of odd number has two bytes, of even number one; byte
\* values tell the leaves apart, escapes go by them
KidsOf(par, i) == {j \in DOMAIN par : par[j] = i}
IsLeaf(par, i) == KidsOf(par, i) = {}
LenOf(par, i) == IF ~IsLeaf(par, i) THEN 0 ELSE IF i % 3 = 2 THEN 2 ELSE 1
RECURSIVE StartOf(_, _)
StartOf(par, i) == IF i = 1 THEN 0 ELSE StartOf(par, i - 1) + LenOf(par, i - 1)
Under(par, i) ==   \* nodes of the subtree
  LET RECURSIVE Below(_)
      Below(j) == j = i \/ (j > i /\ Below(par[j]))
  IN {j \in DOMAIN par : j >= i /\ Below(j)}
EndOf(par, i) == LET S == Under(par, i) last == CHOOSE j \in S : \A k \in S : k <= j
                 IN StartOf(par, last) + LenOf(par, last)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : a <= b
                                      IN <<x>> \o Sorted(S \ {x})

TreeOf(kinds, par) ==
  [i \in DOMAIN par |-> [t |-> kinds[i], s |-> StartOf(par, i), x |-> EndOf(par, i),
                         c |-> Sorted(KidsOf(par, i))]]

\* nodes before the place where the tree is put, and after it: frames
\*  "symbol": rule(head, tail(seq(sym(X), sym(nt))))
\*  "rule":   root(rule(X), rule(head, tail))
\*  "all":    X
Frame(kinds, par) ==
  CASE Scope = "symbol" ->
         [kinds |-> <<Ru, He, Ta, Se, Sy>> \o kinds \o <<Sy, Nt>>,
          par |-> <<0, 1, 1, 3, 4>> \o [i \in DOMAIN par |-> IF i = 1 THEN 5 ELSE par[i] + 5]
                  \o <<4, 6 + Len(par)>>]
    [] Scope = "rule" ->
         [kinds |-> <<Ot, Ru>> \o kinds \o <<Ru, He, Ta>>,
          par |-> <<0, 1>> \o [i \in DOMAIN par |-> IF i = 1 THEN 2 ELSE par[i] + 2]
                  \o <<1, 3 + Len(par), 3 + Len(par)>>]
    [] Scope = "all" -> [kinds |-> kinds, par |-> par]

Choices ==
  CASE Scope = "symbol" -> {T1, T2, Nt, Es, Ec, Ig, Li}
    [] Scope = "rule" -> {He, Ta, Se, Sy, Nt, Ig}
    [] Scope = "all" -> {Ru, He, Ta, Se, Ig, Ot}

\* bindings: plain, with the name of a rule as reference as in the shipped
\* ones, with overlapping roles
Plain == [ignore |-> <<Ig>>, rule |-> Ru, head |-> He, tail |-> Ta, seq |-> Se, sym |-> Sy,
          term |-> <<T1, T2>>, nt |-> Nt, esc |-> Es, escch |-> Ec, map |-> <<>>]
Variants ==
  <<Plain,
    [Plain EXCEPT !.ignore = <<Ig, Ec, -5>>, !.nt = He, !.term = <<T2, Nt, T1>>],
    [Plain EXCEPT !.ignore = <<>>, !.head = Nt, !.escch = Li, !.tail = Se, !.seq = Se],
    [Plain EXCEPT !.ignore = <<Li, Ig>>, !.esc = Ec, !.term = <<Li, T1>>, !.head = Ta],
    [Plain EXCEPT !.ignore = <<Ot>>, !.sym = T1, !.seq = Ta, !.nt = Ig]>>

\* the text: bytes 97, 98, ... ; the escapes of odd ones are known
TextFor(n) == [i \in 1..n |-> 96 + i]
MapFor(n) == [i \in 1..n |-> [from |-> IF i % 4 = 3 THEN <<96 + i, 97 + i>> ELSE <<96 + i>>,
                              to |-> IF i % 4 = 1 THEN <<65, 66>> ELSE IF i % 4 = 2 THEN <<>> ELSE <<90>>]]
Known(n) == SelectSeq(MapFor(n), LAMBDA e : e.from[1] % 5 # 0)

Init ==
  /\ which = <<>> /\ told = FALSE
  /\ \E n \in 1..Size : \E par \in Parents(n) : nodes = <<>> /\ text = par /\ bind = 0
  /\ pending = <<0>> /\ built = <<>> /\ verdict = "building"

\* first the kinds are chosen one by one (so that this is done in parallel) ...
Kinds ==
  /\ ~told /\ Len(which) < Len(text)
  /\ \E k \in Choices : which' = Append(which, k)
  /\ UNCHANGED <<astvars, told>>

\* ... then the tree is built
Place ==
  /\ ~told /\ Len(which) = Len(text)
  /\ LET f == Frame(which, text)
         n == EndOf(f.par, 1)
     IN /\ nodes' = TreeOf(f.kinds, f.par)
        /\ text' = TextFor(n)
        /\ \E v \in DOMAIN Variants : bind' = [Variants[v] EXCEPT !.map = Known(n)]
  /\ told' = TRUE /\ UNCHANGED <<pending, built, verdict, which>>

\* the machine in one go
Made == ListOf(Find(1, bind.rule), RuleAt)

RECURSIVE Nested(_)
Nested(i) == [t |-> nodes[i].t, s |-> nodes[i].s, x |-> nodes[i].x,
              c |-> [j \in DOMAIN nodes[i].c |-> Nested(nodes[i].c[j])]]

Tell ==
  /\ told /\ verdict = "building"
  /\ LET r == Made
     IN /\ PrintT("REPLAY " \o ToJson(
             [case |-> [kind |-> "toast", tag |-> IF Len(which) % 2 = 0 THEN "own" ELSE "lib",
                        tree |-> Nested(1), text |-> text, bind |-> bind],
              want |-> [res |-> IF r.bad THEN "err" ELSE "ok", rules |-> r.v]]))
        /\ verdict' = (IF r.bad THEN "error" ELSE "grammar")
        /\ built' = r.v
  /\ UNCHANGED <<nodes, text, bind, pending, told, which>>

Next == Kinds \/ Place \/ Tell
Spec == Init /\ [][Next]_vars

\* the nodes that a search from i for kind k is to find: those of the kind in
\* the subtree with no other and no ignored one above them, and not ignored
RECURSIVE InTree(_, _)
InTree(b, a) == a = b \/ \E x \in DOMAIN nodes[a].c : InTree(b, nodes[a].c[x])
IsAncestor(a, b) == a # b /\ InTree(b, a)
InSubtree(i) == {j \in DOMAIN nodes : j = i \/ IsAncestor(i, j)}
Topmost(i, k) ==
  {j \in InSubtree(i) :
     /\ nodes[j].t = k /\ ~InList(k, bind.ignore)
     /\ \A a \in InSubtree(i) : IsAncestor(a, j) =>
           nodes[a].t # k /\ ~InList(nodes[a].t, bind.ignore)}
FindIsTopmost ==
  (told /\ verdict = "building") =>
    \A k \in {bind.rule, bind.head, bind.nt, bind.sym} : Find(1, k) = Sorted(Topmost(1, k))
=============================================================================
