------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Where the bytes to be parsed come from.  A source is taken as a whole   *)
(* (string, bytes, buffer), is read until its end (a reader), or is none   *)
(* (a missing source, a nil buffer, a value of another kind).  A reader    *)
(* delivers chunks, possibly empty; with the last one, or after it, comes  *)
(* the end - or, at any point, a fault.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  kind,     \* "whole" "reader" "none"
  size,     \* number of bytes there are
  got,      \* number of bytes delivered
  reading   \* "unread" "open" "end" "fault" "refused"

sourcevars == <<kind, size, got, reading>>

SourceInit(x, n) == kind = x /\ size = n /\ got = 0 /\ reading = "unread"

TakeWhole == kind = "whole" /\ reading = "unread" /\ got' = size /\ reading' = "end" /\ UNCHANGED <<kind, size>>
Refuse    == kind = "none" /\ reading = "unread" /\ reading' = "refused" /\ UNCHANGED <<kind, size, got>>
OpenIt    == kind = "reader" /\ reading = "unread" /\ reading' = "open" /\ UNCHANGED <<kind, size, got>>

\* one Read: n bytes and "" (more may come), "eof" or "fault"
Read(n, e) ==
  /\ reading = "open" /\ n \in 0..(size - got)
  /\ e = "eof" => got + n = size
  /\ got' = got + n
  /\ reading' = CASE e = "" -> "open" [] e = "eof" -> "end" [] e = "fault" -> "fault"
  /\ UNCHANGED <<kind, size>>

\* what the parse is to do with it
ParsesAll  == reading = "end" /\ got = size
FailsAsRead == reading = "fault"
FailsAtOnce == reading = "refused"
=============================================================================
