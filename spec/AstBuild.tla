------------------------------ MODULE AstBuild ------------------------------
(***************************************************************************)
(* Building a grammar from a tree (package fromcst), governed by bindings  *)
(* of node kinds to roles.  A tree is a sequence of nodes in preorder,     *)
(*   [t |-> kind, s |-> start, x |-> end, c |-> indices of the children],  *)
(* node 1 is the root.  Rules are collected one per step.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  nodes,    \* the tree
  text,     \* the text its offsets refer to
  bind,     \* the bindings
  pending,  \* rule nodes not yet looked at
  built,    \* rules so far
  verdict   \* "building" "grammar" "error"

astvars == <<nodes, text, bind, pending, built, verdict>>

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

InList(x, s) == \E i \in DOMAIN s : s[i] = x

TextOf(i) == SubSeq(text, nodes[i].s + 1, nodes[i].x)

LiteralKind == -1

\* The topmost nodes of kind k under (and including) i, in text order; an
\* ignored node hides everything under it.
RECURSIVE Find(_, _)
Find(i, k) ==
  IF InList(nodes[i].t, bind.ignore) THEN <<>>
  ELSE IF nodes[i].t = k THEN <<i>>
  ELSE LET ch == nodes[i].c IN Concat([j \in DOMAIN ch |-> Find(ch[j], k)])

Broken == [bad |-> TRUE, v |-> <<>>]
Fine(v) == [bad |-> FALSE, v |-> v]
AnyBad(s) == \E i \in DOMAIN s : s[i].bad
Values(s) == [i \in DOMAIN s |-> s[i].v]

\* the replacement of an escape sequence
Escape(i) ==
  LET f == Find(i, bind.escch)
  IN IF f = <<>> THEN Broken
     ELSE LET key == TextOf(f[1])
              m == {j \in DOMAIN bind.map : bind.map[j].from = key}
          IN IF m = {} THEN Broken
             ELSE Fine(bind.map[CHOOSE j \in m : TRUE].to)

\* the pieces of a literal under node i: literal leaves and escape sequences
RECURSIVE Pieces(_)
Pieces(i) ==
  IF nodes[i].t = LiteralKind THEN <<Fine(TextOf(i))>>
  ELSE IF nodes[i].t = bind.esc THEN <<Escape(i)>>
  ELSE LET ch == nodes[i].c IN Concat([j \in DOMAIN ch |-> Pieces(ch[j])])

Literal(i) ==
  LET ps == Pieces(i)
  IN IF AnyBad(ps) THEN Broken
     ELSE LET v == Concat(Values(ps))
          IN Fine(IF v = <<>> THEN [k |-> "e", v |-> <<>>] ELSE [k |-> "t", v |-> v])

\* a literal of the first kind of literal that occurs, else a reference
RECURSIVE SymbolFrom(_, _)
SymbolFrom(i, n) ==
  IF n > Len(bind.term)
  THEN LET f == Find(i, bind.nt)
       IN IF f = <<>> THEN Broken ELSE Fine([k |-> "n", v |-> TextOf(f[1])])
  ELSE LET f == Find(i, bind.term[n])
       IN IF f = <<>> THEN SymbolFrom(i, n + 1) ELSE Literal(f[1])

\* s, with its elements computed once (TLC computes them at every use otherwise)
Computed(s) == IF s = <<>> THEN <<>> ELSE s

ListOf(found, F(_)) ==
  LET r == Computed([j \in DOMAIN found |-> F(found[j])])
  IN IF AnyBad(r) THEN Broken ELSE Fine(Computed(Values(r)))

SymbolAt(i)      == SymbolFrom(i, 1)
AlternativeAt(i) == ListOf(Find(i, bind.sym), SymbolAt)
TailAt(i)        == ListOf(Find(i, bind.seq), AlternativeAt)

RuleAt(i) ==
  LET h == Find(i, bind.head)
      t == Find(i, bind.tail)
  IN IF h = <<>> \/ t = <<>> THEN Broken
     ELSE LET a == TailAt(t[1])
          IN IF a.bad THEN Broken
             ELSE Fine([head |-> TextOf(h[1]), alts |-> a.v])

WholeGrammar == ListOf(Find(1, bind.rule), RuleAt)

AstInit(ns, tx, b) ==
  /\ nodes = ns /\ text = tx /\ bind = b
  /\ pending = <<0>>                \* the search for rules is still to be made
  /\ built = <<>> /\ verdict = "building"

FindRules ==
  /\ verdict = "building" /\ pending = <<0>>
  /\ pending' = Find(1, bind.rule)
  /\ UNCHANGED <<nodes, text, bind, built, verdict>>

BuildRule ==
  /\ verdict = "building" /\ pending # <<>> /\ pending # <<0>>
  /\ LET r == RuleAt(pending[1])
     IN IF r.bad THEN verdict' = "error" /\ UNCHANGED <<built, pending>>
        ELSE /\ built' = Append(built, r.v) /\ pending' = Tail(pending)
             /\ UNCHANGED verdict
  /\ UNCHANGED <<nodes, text, bind>>

Complete ==
  /\ verdict = "building" /\ pending = <<>>
  /\ verdict' = "grammar"
  /\ UNCHANGED <<nodes, text, bind, pending, built>>

AstStep == FindRules \/ BuildRule \/ Complete
=============================================================================
