---------------------------- MODULE JsonExample ----------------------------
(***************************************************************************)
(* The JSON example program as a machine that reads its document byte by   *)
(* byte: an explicit stack of the objects and arrays around the current    *)
(* place, what may come next, and the lines it will print.  Documents are  *)
(* of the documented subset: blanks are spaces and line ends (LF, CRLF),   *)
(* strings are printable ASCII with escapes.  The grammar leaves blanks    *)
(* between the brackets of an empty array out; the machine marks such a    *)
(* document as loose, and nothing is said about it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* bytes by name
SP == 32 LF == 10 CR == 13 QUOTE == 34 BACKSLASH == 92
Digits == 48..57
OneNine == 49..57
Hex == Digits \cup 65..70 \cup 97..102
Escapes == {34, 92, 47, 98, 102, 110, 114, 116}   \* " \ / b f n r t
StringBytes == (32..126) \ {QUOTE, BACKSLASH}

Literal == [b \in {116, 102, 110} |->
              CASE b = 116 -> <<114, 117, 101>>          \* t rue
                [] b = 102 -> <<97, 108, 115, 101>>      \* f alse
                [] b = 110 -> <<117, 108, 108>>]         \* n ull

\* mode   what may come next
\* stack  "object"s and "array"s around, innermost last
\* after  the mode to go on in after CR LF, and "key"/"value" for a string
\* left   hex digits or bytes of a literal still to come
\* key    the key being read
\* lines  the keys so far, indented
\* loose  a blank in an otherwise empty array was seen
\* hexes  how many digits make a \u escape: 4 in JSON
Start == [mode |-> "value", stack |-> <<>>, after |-> "", left |-> <<>>,
          key |-> <<>>, lines |-> <<>>, loose |-> FALSE, hexes |-> 4]

\* A machine with the defect the example is known to have (known-findings.txt):
\* three digits make an escape, whatever comes after them.
ShortEscapes == [Start EXCEPT !.hexes = 3]

Fail(m) == [m EXCEPT !.mode = "fail"]
To(m, mode) == [m EXCEPT !.mode = mode]
Top(m) == IF m.stack = <<>> THEN "none" ELSE m.stack[Len(m.stack)]
Pop(m) == [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.mode = "after"]

Blank(m, b) ==
  IF b = CR THEN [m EXCEPT !.mode = "cr", !.after = m.mode] ELSE m

IsBlank(b) == b \in {SP, LF, CR}

ValueStarts(m, b) ==
  CASE b = 123 -> [m EXCEPT !.stack = Append(@, "object"), !.mode = "first key"]
    [] b = 91 -> [m EXCEPT !.stack = Append(@, "array"), !.mode = "first value"]
    [] b = QUOTE -> [m EXCEPT !.mode = "string", !.after = "value"]
    [] b \in DOMAIN Literal -> [m EXCEPT !.mode = "literal", !.left = Literal[b]]
    [] b = 45 -> To(m, "minus")
    [] b = 48 -> To(m, "integer done")
    [] b \in OneNine -> To(m, "integer")
    [] OTHER -> Fail(m)

KeyStarts(m) == [m EXCEPT !.mode = "string", !.after = "key", !.key = <<>>]

Indent(n) == [i \in 1..2 * n |-> SP]

AfterValue(m, b) ==
  CASE IsBlank(b) -> Blank(To(m, "after"), b)
    [] b = 44 /\ Top(m) = "object" -> To(m, "key")
    [] b = 44 /\ Top(m) = "array" -> To(m, "value")
    [] b = 125 /\ Top(m) = "object" -> Pop(m)
    [] b = 93 /\ Top(m) = "array" -> Pop(m)
    [] OTHER -> Fail(m)

InString(m, b) ==
  LET keep == IF m.after = "key" THEN [m EXCEPT !.key = Append(@, b)] ELSE m IN
  CASE b = QUOTE ->
         IF m.after = "value" THEN To(m, "after")
         ELSE [m EXCEPT !.mode = "colon",
                        !.lines = Append(@, Indent(Len(m.stack)) \o m.key)]
    [] b = BACKSLASH -> To(keep, "escape")
    [] b \in StringBytes -> keep
    [] OTHER -> Fail(m)

Kept(m, b) == IF m.after = "key" THEN [m EXCEPT !.key = Append(@, b)] ELSE m

\* numbers end with the byte after them
IsE(b) == b \in {69, 101}

Feed(m, b) ==
  CASE m.mode = "fail" -> m
    [] m.mode = "cr" -> IF b = LF THEN To(m, m.after) ELSE Fail(m)
    [] m.mode = "value" -> IF IsBlank(b) THEN Blank(m, b) ELSE ValueStarts(m, b)
    [] m.mode = "first value" ->
         IF b = 93 THEN Pop(m)
         ELSE IF IsBlank(b) THEN Blank(To(m, "first value, blank"), b)
         ELSE ValueStarts(m, b)
    [] m.mode = "first value, blank" ->
         IF b = 93 THEN [Pop(m) EXCEPT !.loose = TRUE]
         ELSE IF IsBlank(b) THEN Blank(m, b) ELSE ValueStarts(m, b)
    [] m.mode = "first key" ->
         IF IsBlank(b) THEN Blank(m, b)
         ELSE IF b = 125 THEN Pop(m)
         ELSE IF b = QUOTE THEN KeyStarts(m) ELSE Fail(m)
    [] m.mode = "key" ->
         IF IsBlank(b) THEN Blank(m, b)
         ELSE IF b = QUOTE THEN KeyStarts(m) ELSE Fail(m)
    [] m.mode = "colon" ->
         IF IsBlank(b) THEN Blank(m, b)
         ELSE IF b = 58 THEN To(m, "value") ELSE Fail(m)
    [] m.mode = "after" -> AfterValue(m, b)
    [] m.mode = "string" -> InString(m, b)
    [] m.mode = "escape" ->
         IF b \in Escapes THEN To(Kept(m, b), "string")
         ELSE IF b = 117 THEN [Kept(m, b) EXCEPT !.mode = "hex", !.left = [i \in 1..m.hexes |-> i]]
         ELSE Fail(m)
    [] m.mode = "hex" ->
         IF b \notin Hex THEN Fail(m)
         ELSE [Kept(m, b) EXCEPT !.mode = IF Len(m.left) = 1 THEN "string" ELSE "hex",
                                 !.left = Tail(@)]
    [] m.mode = "literal" ->
         IF b # m.left[1] THEN Fail(m)
         ELSE [m EXCEPT !.mode = IF Len(m.left) = 1 THEN "after" ELSE "literal",
                        !.left = Tail(@)]
    [] m.mode = "minus" ->
         IF b = 48 THEN To(m, "integer done")
         ELSE IF b \in OneNine THEN To(m, "integer") ELSE Fail(m)
    [] m.mode \in {"integer", "integer done"} ->
         IF m.mode = "integer" /\ b \in Digits THEN m
         ELSE IF b = 46 THEN To(m, "point")
         ELSE IF IsE(b) THEN To(m, "e") ELSE AfterValue(m, b)
    [] m.mode = "point" -> IF b \in Digits THEN To(m, "fraction") ELSE Fail(m)
    [] m.mode = "fraction" ->
         IF b \in Digits THEN m ELSE IF IsE(b) THEN To(m, "e") ELSE AfterValue(m, b)
    [] m.mode = "e" ->
         IF b \in {43, 45} THEN To(m, "sign")
         ELSE IF b \in Digits THEN To(m, "exponent") ELSE Fail(m)
    [] m.mode = "sign" -> IF b \in Digits THEN To(m, "exponent") ELSE Fail(m)
    [] m.mode = "exponent" -> IF b \in Digits THEN m ELSE AfterValue(m, b)

\* at the end of the document
Complete(m) == m.stack = <<>> /\ m.mode \in {"after", "integer", "integer done", "fraction", "exponent"}

=============================================================================
