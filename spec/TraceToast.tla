----------------------------- MODULE TraceToast -----------------------------
(* Checks the grammars that ToAST returned against AstBuild.               *)
EXTENDS AstBuild, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, phase
View == <<c, k, phase>>
Case == Cases[c]

Init ==
  /\ c \in 1..Len(Cases) /\ k = 0 /\ phase = "build"
  /\ AstInit(Cases[c].tn, Cases[c].text, Cases[c].bind)

Step ==
  /\ phase = "build" /\ AstStep
  /\ k' = k + 1 /\ UNCHANGED <<c, phase>>

Wrong ==
  CASE Case.res \notin {"ok", "err"} -> {"building: " \o Case.res}
    [] verdict = "grammar" /\ Case.res = "err" -> {"refused"}
    [] verdict = "error" /\ Case.res = "ok" -> {"a grammar where an error was due"}
    [] verdict = "grammar" /\ Case.res = "ok" ->
         IF Case.rules = built THEN {} ELSE {"another grammar"}
    [] verdict = "error" /\ Case.res = "err" ->
         IF Case.clean THEN {} ELSE {"an error with a grammar"}

Over ==
  /\ phase = "build" /\ verdict # "building"
  /\ IF Wrong # {}
     THEN /\ \A w \in Wrong :
               PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> "toast", what |-> w]))
          /\ phase' = "mismatch"
     ELSE phase' = "done"
  /\ k' = k + 1 /\ UNCHANGED <<astvars, c>>

Finished == phase # "build" /\ UNCHANGED <<astvars, c, k, phase>>
Next == Step \/ Over \/ Finished
Spec == Init /\ [][Next]_<<astvars, c, k, phase>>
=============================================================================
