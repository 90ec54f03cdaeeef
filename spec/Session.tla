------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Several parses at once with one parser.  The table and the names are    *)
(* shared, everything else belongs to the call.  Each step of each call is *)
(* atomic; they interleave in any way.                                     *)
(*                                                                         *)
(* Shared memory is modelled as cells with the history of who touched them *)
(* how: a call reads the table and the names; Leaky = TRUE describes an    *)
(* implementation that completes the parser's own name map (as the code    *)
(* did before it was repaired) instead of a copy.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Calls, Inputs, Leaky
AllInputs == {<<>>, <<99>>, <<97>>, <<97, 98>>, <<97, 99, 98>>, <<97, 98, 98>>, <<97, 0, 98>>}

\* a small LL(1) table:  A -> a A b | c | (empty before b and at the end)
Table == [b \in {97, 99, 98, 0} |->
            CASE b = 97 -> <<"a", "A", "b">> [] b = 99 -> <<"c">> [] OTHER -> <<>>]
ByteOf == [x \in {"a", "b", "c"} |-> CASE x = "a" -> 97 [] x = "b" -> 98 [] x = "c" -> 99]

VARIABLES
  input,    \* call -> its input
  at, stack, state,  \* per call: offset, what is to be matched, "new" "run" "ok" "err"
  given,    \* call -> the names it returned
  shared,   \* the parser's name map
  access    \* set of <<call, "r"/"w", open>>: uses of the name map by calls in progress

vars == <<input, at, stack, state, given, shared, access>>

Init ==
  /\ input \in [Calls -> Inputs]
  /\ at = [x \in Calls |-> 0] /\ stack = [x \in Calls |-> <<"A">>]
  /\ state = [x \in Calls |-> "new"] /\ given = [x \in Calls |-> {}]
  /\ shared = {0} /\ access = {}

PeekAt(x) == IF at[x] >= Len(input[x]) THEN 0 ELSE input[x][at[x] + 1]

Begin(x) == /\ state[x] = "new" /\ state' = [state EXCEPT ![x] = "run"]
            /\ UNCHANGED <<input, at, stack, given, shared, access>>

Move(x) ==
  /\ state[x] = "run" /\ stack[x] # <<>>
  /\ LET t == stack[x][1]
     IN IF t = "A"
        THEN IF PeekAt(x) \in DOMAIN Table
             THEN /\ stack' = [stack EXCEPT ![x] = Table[PeekAt(x)] \o Tail(@)]
                  /\ UNCHANGED <<at, state, access>>
             ELSE \* the message names the rule
                  /\ state' = [state EXCEPT ![x] = "err"]
                  /\ access' = access \cup {<<x, "r">>}
                  /\ UNCHANGED <<at, stack>>
        ELSE IF at[x] < Len(input[x]) /\ PeekAt(x) = ByteOf[t]
             THEN /\ at' = [at EXCEPT ![x] = @ + 1]
                  /\ stack' = [stack EXCEPT ![x] = Tail(@)]
                  /\ UNCHANGED <<state, access>>
             ELSE state' = [state EXCEPT ![x] = "err"] /\ UNCHANGED <<at, stack, access>>
  /\ UNCHANGED <<input, given, shared>>

End(x) ==
  /\ state[x] = "run" /\ stack[x] = <<>>
  /\ IF at[x] = Len(input[x])
     THEN /\ state' = [state EXCEPT ![x] = "ok"]
          /\ given' = [given EXCEPT ![x] = shared \cup {-1, -2}]
          /\ IF Leaky THEN shared' = shared \cup {-1, -2} /\ access' = access \cup {<<x, "w">>}
                      ELSE UNCHANGED shared /\ access' = access \cup {<<x, "r">>}
     ELSE state' = [state EXCEPT ![x] = "err"] /\ UNCHANGED <<given, shared, access>>
  /\ UNCHANGED <<input, at, stack>>

Next == \E x \in Calls : Begin(x) \/ Move(x) \/ End(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the call would return if made alone: membership in a^n [c] b^n
Sentence(w) ==
  \E n \in 0..Len(w) :
    \/ w = [i \in 1..(2 * n) |-> IF i <= n THEN 97 ELSE 98]
    \/ w = [i \in 1..(2 * n + 1) |-> IF i <= n THEN 97 ELSE IF i = n + 1 THEN 99 ELSE 98]
AsAlone == \A x \in Calls :
  /\ state[x] = "ok" => Sentence(input[x]) /\ given[x] = {0, -1, -2}
  /\ state[x] = "err" => ~Sentence(input[x])
\* two calls conflict on the shared map if one of them writes
NoConflict == \A p, q \in access : p[1] # q[1] => p[2] = "r" /\ q[2] = "r"
Untouched  == shared = {0}
AllEnd == <>(\A x \in Calls : state[x] \in {"ok", "err"})
=============================================================================
