-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walking a tree.  What is left to do is a stack of [n |-> node, v |->    *)
(* visitor]; one step is one visit, answered by a visitor for the children *)
(* or None.  Nodes are numbered in preorder from 1.                        *)
(***************************************************************************)
EXTENDS Stack

CONSTANT Kids(_, _) \* the children of node n of the tree that a value of tree stands for

VARIABLES
  tree,     \* the tree
  todo,     \* visits still to be made, next first
  visited   \* the last visit [n, v, r]

walkvars == <<tree, todo, visited>>

None == -1
NoVisit == [n |-> 0, v |-> 0, r |-> 0]

WalkInit(t, v) ==
  tree = t /\ todo = Push(EmptyStack, <<[n |-> 1, v |-> v]>>) /\ visited = NoVisit

\* what is left to do of td when its first visit is answered by r
After(td, r) ==
  LET x == TopOf(td)
      ks == Kids(tree, x.n)
  IN IF r = None THEN Pop(td)
     ELSE Push(Pop(td), [i \in DOMAIN ks |-> [n |-> ks[i], v |-> r]])

\* the next visit is answered by r
Visit(r) ==
  /\ ~IsEmpty(todo)
  /\ visited' = [n |-> TopOf(todo).n, v |-> TopOf(todo).v, r |-> r]
  /\ todo' = After(todo, r)
  /\ UNCHANGED tree

WalkOver == IsEmpty(todo)
=============================================================================
