---------------------------- MODULE EnumOverlap -----------------------------
(***************************************************************************)
(* From the specification to the code: every way in which Together calls   *)
(* out of a small choice overlap on the same objects, each pausing Pauses  *)
(* times, in turns or nested.  The driver lets the calls go on in that     *)
(* order (a call that pauses more often goes on at the end, one that       *)
(* pauses less often is passed over); the results are those of Overlap.    *)
(***************************************************************************)
EXTENDS Overlap, Json

CONSTANTS Together, Pauses, Mode

VARIABLES chosen, order, n
vars == <<sysvars, overvars, chosen, order, n>>

a == [k |-> "t", v |-> <<97>>]
b == [k |-> "t", v |-> <<98>>]
e == [k |-> "e", v |-> <<>>]
Sn == [k |-> "n", v |-> <<83>>]
Ru(h, alts) == [head |-> h, alts |-> alts]
G1 == <<Ru(<<83>>, << <<a, Sn, b>>, <<e>> >>)>>     \* a^n b^n
B1 == [ignore |-> <<7, 3, 5>>, rule |-> 0, head |-> -1, tail |-> 0, seq |-> 0, sym |-> -1, term |-> <<-1>>,
       nt |-> 900, esc |-> 901, escch |-> 902, map |-> <<>>]
W1 == <<97, 97, 98, 98>>
W2 == <<97, 98, 98>>

Line(op, x, y) == [op |-> op, a |-> x - 1, b |-> y - 1, w |-> <<>>, rules |-> <<>>, rows |-> <<>>,
                   bnames |-> <<>>, bind |-> B1, cuts |-> <<>>, who |-> 0]
Prepared == << [Line("grammar", 0, 0) EXCEPT !.rules = G1], Line("gen", 1, 0), Line("parser", 2, 0),
               [Line("mkbind", 0, 0) EXCEPT !.bind = B1], [Line("parse", 3, 0) EXCEPT !.w = <<97, 98>>],
               [Line("bytes", 0, 0) EXCEPT !.w = W1] >>
T1 == Generated(G1).o
Tree1 == Parsed(T1, <<97, 98>>).v
Heap == << GrammarObj(G1), T1, ParserObj(2), BindObj(B1), TreeObj(Tree1, T1.names, <<97, 98>>), SourceObj(W1) >>
PreparedWant ==
  << Gave("make", "ok", 0), Gave("gen", "ok", heap[2].names), Gave("make", "ok", 0), Gave("make", "ok", 0),
     Gave("parse", "ok", heap[5].nodes), Gave("make", "ok", 0) >>

\* calls that pause, and calls that do not
Pausing ==
  << [Line("parse", 3, 0) EXCEPT !.w = W1, !.cuts = <<1, 2>>],
     [Line("parse", 3, 0) EXCEPT !.w = W2, !.cuts = <<2, 0>>],
     [Line("parse", 3, 0) EXCEPT !.w = <<97, 99>>, !.cuts = <<1, 1>>],
     Line("walk", 5, 1),      \* pauses in the visitor (b = 0)
     Line("walk", 5, 2),      \* pauses in the caller's nodes (b = 1)
     Line("toast", 4, 5) >>
Prompt ==
  << [Line("parse", 3, 0) EXCEPT !.w = W1], Line("gen", 1, 0), Line("print", 1, 0), Line("parse", 3, 6) >>
Choice == Pausing \o Prompt
Call(c) == LET l == Choice[c]
           IN [op |-> l.op, a |-> l.a + 1, b |-> l.b + 1,
               w |-> IF l.op = "parse" /\ l.b >= 0 THEN W1 ELSE l.w]
PausesOf(id) == IF chosen[id] <= Len(Pausing) THEN Pauses ELSE 0

Init ==
  /\ SysInit /\ OverInit
  /\ chosen \in {f \in [1..Together -> DOMAIN Choice] :
                   /\ \A i \in 1..(Together - 1) : f[i] <= f[i + 1]
                   /\ f[1] <= Len(Pausing)}
  /\ order = <<>> /\ n = "prepare"

Prepare == n = "prepare" /\ heap' = Heap /\ n' = "go"
           /\ UNCHANGED <<overvars, chosen, order, parsevars, call, out, ast>>

Ids == 1..Together
Begins(id) == IF PausesOf(id) = 0 THEN AtOnce(id, Call(chosen[id])) ELSE Enter(id, Call(chosen[id]))
Continues(id) == IF Count(id) < PausesOf(id) - 1 THEN Pause(id) ELSE Leave(id, Call(chosen[id]))

\* in turns: any call goes on, up to its next pause or its end
InTurns ==
  /\ n = "go"
  /\ \E id \in Ids :
       /\ order' = Append(order, id)
       /\ \/ Begins(id)
          \/ Goes(id) /\ Continues(id)
  /\ UNCHANGED <<chosen, n>>

\* nested: at every pause, another call is made there or none (0)
Top == open[Len(open)].id
Nested ==
  \/ /\ n = "go" /\ open = <<>>
     /\ \E id \in Ids : Begins(id) /\ order' = Append(order, id)
                         /\ n' = IF PausesOf(id) = 0 THEN "go" ELSE "paused"
     /\ UNCHANGED chosen
  \/ /\ n = "paused"
     /\ \/ order' = Append(order, 0) /\ n' = "go" /\ UNCHANGED <<sysvars, overvars>>
        \/ \E id \in Ids : Begins(id) /\ order' = Append(order, id)
                            /\ n' = IF PausesOf(id) = 0 THEN "go" ELSE "paused"
     /\ UNCHANGED chosen
  \/ /\ n = "go" /\ open # <<>>
     /\ Continues(Top)
     /\ n' = IF Count(Top) < PausesOf(Top) - 1 THEN "paused" ELSE "go"
     /\ UNCHANGED <<chosen, order>>

AllEnded == DOMAIN ended = Ids

Says(o) ==
  [res |-> IF o.op = "make" THEN "caller" ELSE IF o.res = "any" THEN "ok" ELSE o.res,
   nodes |-> IF o.op = "parse" /\ o.res = "ok" THEN o.v ELSE <<>>,
   err |-> IF o.op = "parse" /\ o.res = "err" THEN o.v ELSE NoError,
   names |-> IF o.op = "gen" /\ o.res = "ok" THEN [i \in 1..Cardinality(DOMAIN o.v) |-> o.v[i - 1]] ELSE <<>>,
   visits |-> IF o.op = "walk" THEN o.v ELSE <<>>,
   rules |-> IF o.op \in {"toast", "print"} /\ o.res = "ok" THEN o.v ELSE <<>>]
Lines == Prepared \o [i \in Ids |-> [Choice[chosen[i]] EXCEPT !.who = i]]
Wants == [i \in DOMAIN Prepared |-> Says(PreparedWant[i])] \o [i \in Ids |-> Says(ended[i])]

Tell ==
  /\ n = "go" /\ AllEnded /\ n' = "told"
  /\ PrintT("REPLAY " \o ToJson([case |-> [kind |-> "overlap", mode |-> Mode, perm |-> order, sys |-> Lines],
                                  want |-> [res |-> "ok", calls |-> Wants]]))
  /\ UNCHANGED <<sysvars, overvars, chosen, order>>

Next == Prepare \/ (IF Mode = "turns" THEN InTurns ELSE Nested) \/ Tell
Spec == Init /\ [][Next]_vars

\* what is prepared is what System makes of it
Shows == n = "prepare" \/ (heap[5].nodes # <<>> /\ heap[2].kind = "table")
Kept == [][n # "prepare" => heap' = heap]_vars
=============================================================================
