------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* What calls leave behind: nothing.  A call is identified by a key made   *)
(* of the operation and the contents of its arguments; known maps keys to  *)
(* the results seen.  Objects (grammars, tables, name maps, parsers,       *)
(* sources, trees, bindings, by the number of the call that made them)     *)
(* have contents; a call may add an object, only the caller changes one.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  known,      \* key -> [res, value]
  contents    \* object -> its contents

histvars == <<known, contents>>

HistInit == known = [x \in {} |-> 0] /\ contents = <<>>

Learn(key, r) == known' = [x \in DOMAIN known \cup {key} |-> IF x = key THEN r ELSE known[x]]

\* a call of the library gives what it always gives for these arguments
Repeatable(key, r) == key \in DOMAIN known => known[key] = r
\* and leaves every object as it was, except those the caller overwrote
Unchanged(now, touched) ==
  \A i \in DOMAIN contents : i \in touched \/ now[i] = contents[i]

Call(key, r, now) ==
  /\ Repeatable(key, r) /\ Unchanged(now, {})
  /\ Learn(key, r) /\ contents' = now

CallerActs(now, touched) ==
  /\ Unchanged(now, touched)
  /\ contents' = now /\ UNCHANGED known
=============================================================================
