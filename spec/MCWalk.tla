------------------------------- MODULE MCWalk -------------------------------
(* All trees up to a size, all answers: what a walk visits, and when.      *)
EXTENDS Walk, FiniteSets, TLC

CONSTANTS MaxNodes, Visitors

VARIABLE log
vars == <<walkvars, log>>

\* trees as parent functions in preorder
Parents(n) == {p \in [2..n -> 1..n] :
                 \A i \in 2..n : p[i] < i
                   /\ \/ p[i] = i - 1
                      \/ \E a \in 1..(i - 1) : p[i] = a /\
                           LET RECURSIVE Anc(_)
                               Anc(x) == IF x = 1 THEN {1} ELSE {x} \cup Anc(p[x])
                           IN a \in Anc(i - 1)}
Tree(n, p) == [x \in 1..n |->
                  LET s == {i \in 2..n : p[i] = x}
                      RECURSIVE Sort(_)
                      Sort(q) == IF q = {} THEN <<>>
                                 ELSE LET m == CHOOSE i \in q : \A j \in q : i <= j
                                      IN <<m>> \o Sort(q \ {m})
                  IN Sort(s)]

KidsOf(t, n) == t[n]    \* tree is the list of the nodes' children

Init == \E n \in 1..MaxNodes : \E p \in Parents(n) :
          WalkInit(Tree(n, p), 1) /\ log = <<>>
Go   == \E r \in Visitors \cup {None} : Visit(r) /\ log' = Append(log, visited')
Next == Go \/ (WalkOver /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)

IsKid(a, b) == \E i \in DOMAIN tree[a] : tree[a][i] = b
At(n) == {i \in DOMAIN log : log[i].n = n}

\* in document order, so no node twice
InOrder == \A i \in 1..(Len(log) - 1) : log[i].n < log[i + 1].n
\* with the visitor their parent's visit returned
Handed  == \A i \in DOMAIN log : log[i].n # 1 =>
             \E j \in 1..(i - 1) : IsKid(log[j].n, log[i].n) /\ log[j].r = log[i].v
                                   /\ log[i].v # None
\* exactly those asked for
Exactly == WalkOver =>
  /\ At(1) # {}
  /\ \A a, b \in DOMAIN tree : IsKid(a, b) =>
       ((At(b) # {}) <=> (\E i \in At(a) : log[i].r # None))
Ends == <>WalkOver
=============================================================================
