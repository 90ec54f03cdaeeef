----------------------------- MODULE TraceText -----------------------------
(***************************************************************************)
(* Checks what the library read from texts (kind "text") and from its own  *)
(* printing of grammars (kind "print") against the machine of Notation.    *)
(***************************************************************************)
EXTENDS Notation, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, phase
View == <<c, k, phase>>

Case == Cases[c]

\* a text is called by its case
GivenText(x) == IF Cases[x].kind = "text" THEN Cases[x].text ELSE Cases[x].printed

Init ==
  /\ c \in 1..Len(Cases) /\ k = 0 /\ phase = "read"
  /\ ReadInit(c)

\* a state covers up to Batch bytes
Batch == IF Len(TextOf(text)) > 1000 THEN 4096 ELSE 128
Least(a, b) == IF a < b THEN a ELSE b

Read ==
  /\ phase = "read" /\ ~ReadOver
  /\ IF at < Len(TextOf(text))
     THEN LET n == Least(Batch, Len(TextOf(text)) - at)
          IN /\ at' = at + n
             /\ reader' = FoldLeft(ReadByte, reader, SubSeq(TextOf(text), at + 1, at + n))
             /\ UNCHANGED text
     ELSE ReadStep
  /\ k' = k + 1 /\ UNCHANGED <<c, phase>>

\* a grammar of the cases (names as strings) in byte form comes with the case
TextWrong ==
  CASE Case.res \notin {"ok", "err"} ->
         {"reading: " \o Case.res}
    [] reader.mode = "good" /\ Case.res = "err" -> {"refused"}
    [] reader.mode = "good" /\ Case.res = "ok" ->
         IF Case.rules = reader.rules THEN {} ELSE {"read as another grammar"}
    [] reader.mode = "bad" /\ Case.res = "ok" -> {"not in the notation, but read"}
    [] reader.mode = "bad" /\ Case.res = "err" ->
         IF Case.clean THEN {} ELSE {"an error with a grammar"}

PrintWrong ==
  (IF reader.mode # "good" THEN {"printed text is not in the notation"}
   ELSE IF reader.rules # Case.given THEN {"printed text denotes another grammar"} ELSE {})
  \cup
  (IF Case.res # "ok" THEN {"reading back: " \o Case.res}
   ELSE (IF Case.rules # Case.given THEN {"read back as another grammar"} ELSE {})
        \cup (IF Case.again # Case.printed THEN {"printed differently again"} ELSE {}))

Wrong == IF Case.kind = "text" THEN TextWrong ELSE PrintWrong

Over ==
  /\ phase = "read" /\ ReadOver
  /\ IF Wrong # {}
     THEN /\ \A w \in Wrong :
               PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> Case.kind, what |-> w, at |-> at]))
          /\ phase' = "mismatch"
     ELSE phase' = "done"
  /\ k' = k + 1 /\ UNCHANGED <<readvars, c>>

Finished == phase # "read" /\ UNCHANGED <<readvars, c, k, phase>>

Next == Read \/ Over \/ Finished
Spec == Init /\ [][Next]_<<readvars, c, k, phase>>
=============================================================================
