------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The table-driven parser of package parser as a pushdown machine.  A     *)
(* configuration is                                                        *)
(*    pos     bytes consumed                                               *)
(*    ops     stack of the operations still to be done                     *)
(*    status  "idle" "run" "accepted" "rejected"                           *)
(*    err     what is wrong, if rejected                                   *)
(*    ev      what the last step adds to the tree                          *)
(* and there is one kind of step per kind of operation on the stack, and   *)
(* one per way to fail.  The machine is deterministic: MStep is the step   *)
(* that is possible in a configuration that runs.                          *)
(*                                                                         *)
(* The tree is described by events:                                        *)
(*    [e |-> "open", t, s, n]  a node of kind t starting at s is begun; it *)
(*                             gets n children (a literal: has n bytes, no *)
(*                             children); with n = 0 a single nothing leaf *)
(*    [e |-> "close", t, s, x] the innermost open node ends at x           *)
(*    [e |-> "none"]                                                       *)
(* Offsets count bytes from 0.                                             *)
(***************************************************************************)
EXTENDS Stack, TLC

CONSTANT Input(_)   \* the bytes that a value of src stands for

VARIABLES
  table,    \* row number -> (byte -> operations)
  names,    \* row number -> name, for the error messages
  src,      \* the input
  m         \* configuration

parsevars == <<table, names, src, m>>

Literal  == -1      \* kind of a literal leaf
Nothing  == -2      \* kind of a nothing leaf
EndOfLine == -2     \* number of the built-in end-of-line rule

NoEvent == [e |-> "none", t |-> 0, s |-> 0, n |-> 0, x |-> 0]
NoError == [kind |-> "none", name |-> "", want |-> -1, got |-> -1]
Error(k, nm, w, g) == [kind |-> k, name |-> nm, want |-> w, got |-> g]

OpRule(i)   == [k |-> "n", v |-> <<>>, i |-> i]
OpBytes(v)  == [k |-> "t", v |-> v, i |-> 0]
OpMatch(v, n) == [k |-> "c", v |-> v, i |-> n]     \* byte n of v and those after it
OpEnd       == [k |-> "end", v |-> <<>>, i |-> 0]
OpClose(t, s, n) == [k |-> "close", v |-> <<s, n>>, i |-> t]

Idle == [pos |-> 0, ops |-> EmptyStack, status |-> "idle", err |-> NoError, ev |-> NoEvent]

AtEnd(x) == x.pos >= Len(Input(src))
Peek(x)  == IF AtEnd(x) THEN 0 ELSE Input(src)[x.pos + 1]   \* 0 is the key of end of input

NameOf(i) == IF i \in DOMAIN names THEN names[i] ELSE "Unknown_" \o ToString(i)

\* the steps: what a configuration becomes
Fail(x, e)  == [x EXCEPT !.status = "rejected", !.err = e, !.ev = NoEvent]

\* the operation on top gives way to those of body, and the node they make
Expand(x, t, n, body) ==
  [x EXCEPT !.ops = Push(Pop(@), body \o <<OpClose(t, x.pos, n)>>),
            !.ev = [e |-> "open", t |-> t, s |-> x.pos, n |-> n, x |-> 0]]

LF == 10
CR == 13

StepRule(x, i) ==
  CASE i = EndOfLine ->
         IF Peek(x) \in {LF, CR}
         THEN LET body == IF Peek(x) = LF THEN <<OpBytes(<<LF>>)>>
                                          ELSE <<OpBytes(<<CR>>), OpBytes(<<LF>>)>>
              IN Expand(x, EndOfLine, Len(body), body)
         ELSE Fail(x, Error("no-cell", "EOL", -1, Peek(x)))
    [] i < 0 /\ i # EndOfLine -> Fail(x, Error("no-builtin", ToString(i), -1, -1))
    [] i >= 0 ->
         IF i \notin DOMAIN table THEN Fail(x, Error("no-row", NameOf(i), -1, -1))
         ELSE IF Peek(x) \notin DOMAIN table[i]
              THEN Fail(x, Error("no-cell", NameOf(i), -1, Peek(x)))
              ELSE LET body == table[i][Peek(x)] IN Expand(x, i, Len(body), body)

StepTerminal(x, v) ==
  Expand(x, Literal, Len(v), IF v = <<>> THEN <<>> ELSE <<OpMatch(v, 1)>>)

StepMatch(x, v, n) ==
  IF ~AtEnd(x) /\ Peek(x) = v[n]
  THEN [x EXCEPT !.pos = @ + 1, !.ev = NoEvent,
                 !.ops = IF n = Len(v) THEN Pop(@) ELSE Replace(@, OpMatch(v, n + 1))]
  ELSE Fail(x, Error("wrong-byte", "", v[n], Peek(x)))

StepClose(x, t, s, n) ==
  [x EXCEPT !.ops = Pop(@), !.ev = [e |-> "close", t |-> t, s |-> s, n |-> n, x |-> x.pos]]

StepEnd(x) ==
  IF AtEnd(x) THEN [x EXCEPT !.status = "accepted", !.ops = EmptyStack, !.ev = NoEvent]
  ELSE Fail(x, Error("trailing", "", -1, Peek(x)))

MStep(x) ==
  LET op == TopOf(x.ops)
  IN CASE op.k = "n"     -> StepRule(x, op.i)
       [] op.k = "t"     -> StepTerminal(x, op.v)
       [] op.k = "c"     -> StepMatch(x, op.v, op.i)
       [] op.k = "close" -> StepClose(x, op.i, op.v[1], op.v[2])
       [] op.k = "end"   -> StepEnd(x)

-----------------------------------------------------------------------------

Started(tb) ==
  IF 0 \in DOMAIN tb
  THEN [Idle EXCEPT !.status = "run", !.ops = Push(EmptyStack, <<OpRule(0), OpEnd>>)]
  ELSE [Idle EXCEPT !.status = "rejected", !.err.kind = "no-start"]

Begin(tb, nm, w) == table' = tb /\ names' = nm /\ src' = w /\ m' = Started(tb)

ParseStep == m.status = "run" /\ m' = MStep(m) /\ UNCHANGED <<table, names, src>>

ParseOver == m.status \in {"accepted", "rejected"}
=============================================================================
