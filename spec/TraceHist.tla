----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Checks recorded histories against History.  The calls marked "solo ..." *)
(* come first: they were made alone, each in a fresh process.  In cases of *)
(* kind "conc" many goroutines made the calls at once; objects were looked *)
(* at before and after, and races counts conflicting memory accesses.      *)
(***************************************************************************)
EXTENDS History, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, phase
View == <<c, k, phase>>
Case == Cases[c]
O == Case.hist[k + 1]

Init == c \in 1..Len(Cases) /\ k = 0 /\ phase = "calls" /\ HistInit

Result == [res |-> O.res, value |-> O.digest]
Touched == {O.touch[i] : i \in DOMAIN O.touch}
\* calls made elsewhere or among others do not look at the objects
Now == IF O.watch = <<>> THEN contents ELSE O.watch

IsCall == O.key # "" /\ O.res \notin {"skip", "caller"}

What ==
  IF O.res \notin {"ok", "err", "skip", "caller"} THEN O.op \o ": " \o O.res
  ELSE IF O.printed # 0 THEN O.op \o " printed something"
  ELSE IF IsCall /\ ~Repeatable(O.key, Result) THEN O.op \o ": another result for the same arguments"
  ELSE IF ~Unchanged(Now, Touched)
       THEN O.op \o " changed object " \o
            ToString(CHOOSE i \in DOMAIN contents : i \notin Touched /\ Now[i] # contents[i])
  ELSE ""

Step ==
  /\ phase = "calls" /\ k < Len(Case.hist) /\ What = ""
  /\ IF IsCall THEN Call(O.key, Result, Now) ELSE CallerActs(Now, Touched)
  /\ k' = k + 1 /\ UNCHANGED <<c, phase>>

Mismatch(w) ==
  /\ PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> Case.kind, what |-> w, at |-> k + 1]))
  /\ phase' = "mismatch" /\ UNCHANGED <<histvars, c, k>>

Differs == phase = "calls" /\ k < Len(Case.hist) /\ What # "" /\ Mismatch(What)

Over ==
  /\ phase = "calls" /\ k = Len(Case.hist)
  /\ IF Case.kind = "conc" /\ Case.res # "ok" THEN Mismatch("concurrent calls: " \o Case.res)
     ELSE IF Case.races # 0 THEN Mismatch("conflicting accesses to memory")
     ELSE phase' = "done" /\ UNCHANGED <<histvars, c, k>>

Finished == phase \in {"done", "mismatch"} /\ UNCHANGED <<histvars, c, k, phase>>
Next == Step \/ Differs \/ Over \/ Finished
Spec == Init /\ [][Next]_<<histvars, c, k, phase>>
=============================================================================
