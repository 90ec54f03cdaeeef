------------------------------ MODULE Overlap -------------------------------
(***************************************************************************)
(* Calls of the library that overlap.  A call pauses whenever it turns to  *)
(* the caller: to read from the caller's reader, to show a node to the     *)
(* caller's visitor, to look at a node of the caller's own.  While it      *)
(* pauses, other calls are begun, go on and end: by other goroutines, in   *)
(* turns, or by the very thing the call turned to, nested.  What is        *)
(* overwritten while a call uses it is the caller's own fault and does not *)
(* occur here.                                                             *)
(*                                                                         *)
(* A call takes its result from the heap of System when it ends.  As no    *)
(* call changes an object, that is what it would have taken at any other   *)
(* time (AsBegun), so that recorded runs may be checked with every call    *)
(* standing where it ended (TraceSystem).                                  *)
(***************************************************************************)
EXTENDS System

VARIABLES
  open,      \* calls in progress, in the order in which they began:
             \* [id, pauses: how often it went on after a pause]
  ended,     \* call -> what it gave
  begun      \* call -> what it would have given when it began

overvars == <<open, ended, begun>>

\* the machines, each run in one step
P(t, nm, w) == INSTANCE Outcome WITH table <- t, names <- nm, src <- w, m <- 0, Input <- SameInput
B(ns, w, b) == INSTANCE AstBuild WITH nodes <- ns, text <- w, bind <- b,
                 pending <- <<>>, built <- <<>>, verdict <- "building"

Parsed(t, w) ==
  LET nm == TLCEval(Marked(t.names))
      y == P(t.rows, nm, w)!RunFrom(Started(t.rows), 400 + 4 * Len(w))
  IN IF y.m.status = "accepted" THEN Gave("parse", "ok", y.t.nodes) ELSE Gave("parse", "err", y.m.err)
Constructed(t, b) ==
  LET ns == TLCEval(WithChildren(t.nodes))
      r == B(ns, t.text, b)!WholeGrammar
  IN IF r.bad THEN Gave("toast", "err", 0) ELSE Gave("toast", "ok", r.v)

\* what call [op, a, b, w] gives by the heap as it stands
Gives(x) ==
  TLCEval(CASE x.op = "parse" -> Parsed(heap[heap[x.a].of], x.w)
            [] x.op = "toast" -> Constructed(heap[x.b], heap[x.a].b)
            [] x.op = "walk"  -> Walked(heap[x.a].nodes)
            [] x.op = "gen"   -> Generated(heap[x.a].g).r
            [] x.op = "print" -> Printed(heap[x.a].g))

OverInit == open = <<>> /\ ended = <<>> /\ begun = <<>>

With(f, id, v) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN v ELSE f[x]]
Goes(id)  == \E i \in DOMAIN open : open[i].id = id
Count(id) == open[CHOOSE i \in DOMAIN open : open[i].id = id].pauses

Enter(id, x) ==
  /\ id \notin DOMAIN begun
  /\ open' = Append(open, [id |-> id, pauses |-> 0])
  /\ begun' = With(begun, id, Gives(x)) /\ UNCHANGED <<ended, sysvars>>

\* up to its first pause; a call that does not pause begins and ends
AtOnce(id, x) ==
  /\ id \notin DOMAIN begun
  /\ begun' = With(begun, id, Gives(x)) /\ ended' = With(ended, id, Gives(x))
  /\ UNCHANGED <<open, sysvars>>

Pause(id) ==
  /\ Goes(id)
  /\ open' = [i \in DOMAIN open |-> IF open[i].id = id THEN [open[i] EXCEPT !.pauses = @ + 1] ELSE open[i]]
  /\ UNCHANGED <<ended, begun, sysvars>>

Leave(id, x) ==
  /\ Goes(id)
  /\ open' = SE!SelectSeq(open, LAMBDA o : o.id # id)
  /\ ended' = With(ended, id, Gives(x)) /\ UNCHANGED <<begun, sysvars>>

AsBegun == \A id \in DOMAIN ended : ended[id] = begun[id]
=============================================================================
