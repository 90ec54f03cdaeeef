---------------------------- MODULE TraceSource -----------------------------
(***************************************************************************)
(* Checks parses of the same bytes supplied in different ways: the reads   *)
(* the parser made are followed by Source, and the result must be that of  *)
(* the parse of the string (the first of the case) or the fault.           *)
(***************************************************************************)
EXTENDS Source, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p, i, phase
tracevars == <<c, p, i, phase>>
View == <<c, p, i, phase, reading>>
Case == Cases[c]
Obs == Case.parses[p]
Wanted == Case.parses[1]

NoSource == {"nil", "nilbuffer", "int", "struct", "runes", "pstring", "pbytes",
             "buffervalue", "named", "bool", "error", "func", "builder", "namedstring",
             "grammar", "symbol", "strings", "onlywriterto", "onlybytes", "byte", "rune",
             "chan", "preader", "buffers", "readfunc", "marshaler"}
KindOf(o) == IF o.form = "reader" THEN "reader"
             ELSE IF o.form \in NoSource THEN "none" ELSE "whole"

Init ==
  /\ c \in 1..Len(Cases) /\ p = 1 /\ i = 0 /\ phase = "read"
  /\ SourceInit(KindOf(Cases[c].parses[1]), Cases[c].parses[1].size)

Take ==
  /\ phase = "read" /\ (TakeWhole \/ Refuse \/ OpenIt) /\ UNCHANGED tracevars

ReadChunk ==
  /\ phase = "read" /\ reading = "open" /\ i < Len(Obs.chunks)
  /\ Read(Obs.chunks[i + 1].n, Obs.chunks[i + 1].err)
  /\ i' = i + 1 /\ UNCHANGED <<c, p, phase>>

\* the parse stopped reading early: it must have been for an error that the
\* bytes themselves give rise to
LeftOpen == reading = "open" /\ i = Len(Obs.chunks)

SameAsString == Obs.res = Wanted.res /\ Obs.digest = Wanted.digest

What ==
  IF Obs.res \notin {"ok", "err"} THEN "parse: " \o Obs.res
  ELSE IF FailsAsRead
       THEN IF Obs.res # "err" THEN "parsed in spite of a fault"
            ELSE IF ~Obs.same THEN "not the error of the reader"
            ELSE IF ~Obs.clean THEN "a fault with a tree" ELSE ""
  ELSE IF FailsAtOnce
       THEN IF Obs.res # "err" THEN "parsed something that is not a source"
            ELSE IF ~Obs.clean THEN "an error with a tree" ELSE ""
  ELSE IF LeftOpen /\ Obs.res = "ok" THEN "accepted without reading the end"
  ELSE IF SameAsString THEN "" ELSE "not the result of the string"

Judge ==
  /\ phase = "read"
  /\ reading \in {"end", "fault", "refused"} \/ LeftOpen
  /\ reading = "end" => Assert(got = size, <<"the reader lost bytes", c, p>>)
  /\ IF What # ""
     THEN /\ PrintT("MISMATCH " \o ToJson([c |-> c, p |-> p, aspect |-> "source", what |-> What,
                                           form |-> Obs.form, at |-> got]))
          /\ phase' = "mismatch" /\ UNCHANGED <<sourcevars, c, p, i>>
     ELSE IF p = Len(Case.parses)
          THEN phase' = "done" /\ UNCHANGED <<sourcevars, c, p, i>>
          ELSE /\ p' = p + 1 /\ i' = 0 /\ UNCHANGED <<c, phase>>
               /\ kind' = KindOf(Case.parses[p + 1]) /\ size' = Case.parses[p + 1].size
               /\ got' = 0 /\ reading' = "unread"

Finished == phase # "read" /\ UNCHANGED <<sourcevars, tracevars>>
Next == Take \/ ReadChunk \/ Judge \/ Finished
Spec == Init /\ [][Next]_<<sourcevars, tracevars>>
=============================================================================
