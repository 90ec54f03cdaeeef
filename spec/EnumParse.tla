----------------------------- MODULE EnumParse -----------------------------
(***************************************************************************)
(* From the specification to the code: for every LL(1) grammar of a scope  *)
(* and every word up to a length the outcome of the parse in full: the     *)
(* tree, or what the error says.                                           *)
(***************************************************************************)
EXTENDS Grammars, Outcome, Scope, Json

CONSTANTS WordLen, Foreign

VARIABLES g, phase
vars == <<parsevars, g, phase>>

SameInput(w) == w

Init ==
  /\ g \in AllGrammars /\ phase = "grammar"
  /\ table = <<>> /\ names = <<>> /\ src = <<>> /\ m = Idle

Choose ==
  /\ phase = "grammar"
  /\ LET R == Resolve(g)
         N == Nullable(R)
         F == First(R, N)
         W == Follow(R, N, F)
     IN /\ WellFormed(g) /\ IsLL1(R, N, F, W)
        /\ Begin(TableOf(R, N, F, W), [r \in 0..(NRules - 1) |-> RuleNames[r + 1]], <<>>)
  /\ phase' = "word" /\ UNCHANGED g

Outcome(y) ==
  [case |-> [kind |-> "gram", g |-> g, parses |-> <<[src |-> src, form |-> "string"]>>],
   want |-> [res |-> IF y.m.status = "accepted" THEN "ok" ELSE "err",
             nodes |-> IF y.m.status = "accepted" THEN y.t.nodes ELSE <<>>, err |-> y.m.err]]

\* a word is told, and made longer unless its last byte was already too much
Tell ==
  /\ phase = "word"
  /\ LET y == RunFrom(m, 20)
     IN /\ Assert(y.m.status # "run", <<"no end", g, src>>)
        /\ PrintT("REPLAY " \o ToJson(Outcome(y)))
        /\ y.m.pos = Len(src) /\ Len(src) < WordLen
        /\ \E b \in Bytes \cup {Foreign} : Begin(table, names, Append(src, b))
  /\ UNCHANGED <<g, phase>>

Next == Choose \/ Tell
Spec == Init /\ [][Next]_vars
=============================================================================
