---------------------------- MODULE TraceExample ----------------------------
(***************************************************************************)
(* Checks recorded runs of the example programs: the document goes through *)
(* the machine of JsonExample byte by byte, then what was printed and the  *)
(* exit status must be what the machine arrived at.                        *)
(***************************************************************************)
EXTENDS JsonExample, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

\* d is the machine with the known defect: it decides nothing, but tells whether
\* a mismatch is that defect and nothing else
VARIABLES c, i, m, d, phase
vars == <<c, i, m, d, phase>>
View == <<c, i, phase>>
Case == Cases[c]

Init == c \in 1..Len(Cases) /\ i = 0 /\ m = Start /\ d = ShortEscapes /\ phase = "read"

Reading == phase = "read" /\ i < Len(Case.text) /\ (m.mode # "fail" \/ d.mode # "fail")
\* a state covers up to Batch bytes
Batch == IF Len(Case.text) > 1000 THEN 4096 ELSE 128
Least(a, b) == IF a < b THEN a ELSE b
ReadBytes ==
  /\ Reading
  /\ LET n == Least(i + Batch, Len(Case.text))
         bytes == SubSeq(Case.text, i + 1, n)
     IN /\ i' = n
        /\ m' = FoldLeft(Feed, m, bytes) /\ d' = FoldLeft(Feed, d, bytes)
  /\ UNCHANGED <<c, phase>>

\* "Parsed successfully", "JSON key structure:", "Resulted AST equal to initial"
Success == <<80,97,114,115,101,100,32,115,117,99,99,101,115,115,102,117,108,108,121>>
Header == <<74,83,79,78,32,107,101,121,32,115,116,114,117,99,116,117,114,101,58>>
Equal == <<82,101,115,117,108,116,101,100,32,65,83,84,32,101,113,117,97,108,32,116,111,32,105,110,105,116,105,97,108>>

Out == Case.out
HasLine(l) == \E j \in DOMAIN Out : Out[j] = l
\* everything printed up to the keys
Before(x) == SubSeq(Out, 1, Len(Out) - Len(x.lines))
KeysPrinted(x) ==
  /\ Len(Out) >= Len(x.lines) + 2
  /\ SubSeq(Out, Len(Out) - Len(x.lines) + 1, Len(Out)) = x.lines
  /\ Before(x)[Len(Before(x))] = Header
  /\ \E j \in DOMAIN Before(x) : Before(x)[j] = Success

\* what is wrong, judged by machine x
What(x) ==
  IF Case.res # "ran" THEN Case.res
  ELSE IF Case.mode = "self"
       THEN IF Case.exit # 0 THEN "the self-syntax example failed"
            ELSE IF ~HasLine(Equal) \/ Case.size # 0 THEN "the self-syntax example does not report success"
            ELSE ""
  ELSE IF x.loose THEN ""
  ELSE IF x.mode # "fail" /\ Complete(x)
       THEN IF Case.exit # 0 THEN "refused a document"
            ELSE IF Case.size # 0 THEN "wrote to standard error"
            ELSE IF ~KeysPrinted(x) THEN "printed other keys" ELSE ""
       ELSE IF Case.exit = 0 THEN "accepted what is no document"
            ELSE IF Case.size = 0 THEN "failed without a message"
            ELSE IF HasLine(Success) \/ HasLine(Header) THEN "failed after reporting success" ELSE ""

Judge ==
  /\ phase = "read" /\ ~Reading
  /\ IF What(m) # ""
     THEN /\ PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> "example", what |-> What(m), at |-> i,
                                    dev |-> IF What(d) = "" THEN "short-unicode-escape" ELSE ""]))
          /\ phase' = "mismatch"
     ELSE phase' = "done"
  /\ UNCHANGED <<c, i, m, d>>

Finished == phase # "read" /\ UNCHANGED vars
Next == ReadBytes \/ Judge \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
