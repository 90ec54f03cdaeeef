------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* The BNF notation, defined without its own grammar: a machine that reads *)
(* text byte by byte and collects the grammar the text denotes, and a      *)
(* function that prints a grammar.                                         *)
(*                                                                         *)
(* Here names and literals are byte sequences: a rule is                   *)
(*   [head |-> bytes, alts |-> alternatives], a symbol [k |-> , v |-> bytes]*)
(* with k one of "t", "n", "e".                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TAB == 9   LFb == 10   CRb == 13   SP == 32
DQ == 34   SQ == 39   BSL == 92   LT == 60   GT == 62   EQ == 61
COLON == 58   BAR == 124   DASH == 45

Letters   == (65..90) \cup (97..122)
Digits    == 48..57
NameBytes == Letters \cup Digits \cup {DASH}
Printable == 32..126

EscapeOf == [b \in {116, 110, 114, DQ, BSL} |->
               CASE b = 116 -> TAB [] b = 110 -> LFb [] b = 114 -> CRb
                 [] b = DQ -> DQ [] b = BSL -> BSL]

(* A reader has a mode                                                     *)
(*  "first" before the first rule   "line" at the beginning of a later line*)
(*  "cr"    CR seen, LF must follow                                        *)
(*  "head1" "head" in the name of the rule   "def" "def1" "def2" in ::=    *)
(*  "body"  an alternative without symbols yet, one must come              *)
(*  "more"  an alternative with symbols                                    *)
(*  "dq" "dqe" "sq" "sqe" in a literal (e: after a backslash)              *)
(*  "ref1" "ref" in the name of a rule referred to                         *)
(*  "good"  the text is over and was in the notation   "bad" it is not     *)
(* and                                                                     *)
(*  word             bytes of the name or literal being read               *)
(*  head, alts, alt  the rule being read                                   *)
(*  rules            the rules read so far                                 *)
Reader == [mode |-> "first", word |-> <<>>, head |-> <<>>, alts |-> <<>>,
           alt |-> <<>>, rules |-> <<>>]

To(x, m)    == [x EXCEPT !.mode = m]
Bad(x)      == To(x, "bad")
WithByte(x, m, b) == [x EXCEPT !.mode = m, !.word = Append(@, b)]
WithSymbol(x, y)  == [x EXCEPT !.mode = "more", !.alt = Append(@, y)]

TheRule(x) == [head |-> x.head, alts |-> Append(x.alts, x.alt)]
WithRule(x, m) ==
  [x EXCEPT !.mode = m, !.rules = Append(@, TheRule(x)), !.alts = <<>>, !.alt = <<>>]

\* the first symbol of an alternative or another one
SymbolOr(x, b, otherwise) ==
  CASE b = SP -> x
    [] b \in {DQ, SQ, LT} ->
         [x EXCEPT !.mode = CASE b = DQ -> "dq" [] b = SQ -> "sq" [] b = LT -> "ref1",
                   !.word = <<>>]
    [] OTHER -> otherwise

EndOfLine(b) == IF b = CRb THEN "cr" ELSE "line"

InLiteral(x, b, quote, escape) ==
  CASE b = quote -> WithSymbol(x, IF x.word = <<>> THEN [k |-> "e", v |-> <<>>]
                                                   ELSE [k |-> "t", v |-> x.word])
    [] b = BSL -> To(x, escape)
    [] b \in Printable \ {quote, BSL} -> WithByte(x, x.mode, b)
    [] OTHER -> Bad(x)

InEscape(x, b, back) ==
  IF b \in DOMAIN EscapeOf THEN WithByte(x, back, EscapeOf[b]) ELSE Bad(x)

\* what byte b makes of the reader x
ReadByte(x, b) ==
  CASE x.mode \in {"first", "line"} ->
         CASE b = SP -> x
           [] b = LT -> [x EXCEPT !.mode = "head1", !.word = <<>>]
           [] b \in {LFb, CRb} /\ x.mode = "line" -> To(x, EndOfLine(b))
           [] OTHER -> Bad(x)
    [] x.mode = "cr" -> IF b = LFb THEN To(x, "line") ELSE Bad(x)
    [] x.mode \in {"head1", "ref1"} ->
         IF b \in Letters THEN WithByte(x, IF x.mode = "head1" THEN "head" ELSE "ref", b)
         ELSE Bad(x)
    [] x.mode = "head" ->
         CASE b \in NameBytes -> WithByte(x, "head", b)
           [] b = GT -> [x EXCEPT !.mode = "def", !.head = x.word]
           [] OTHER -> Bad(x)
    [] x.mode = "ref" ->
         CASE b \in NameBytes -> WithByte(x, "ref", b)
           [] b = GT -> WithSymbol(x, [k |-> "n", v |-> x.word])
           [] OTHER -> Bad(x)
    [] x.mode = "def" -> IF b = SP THEN x ELSE IF b = COLON THEN To(x, "def1") ELSE Bad(x)
    [] x.mode = "def1" -> IF b = COLON THEN To(x, "def2") ELSE Bad(x)
    [] x.mode = "def2" -> IF b = EQ THEN To(x, "body") ELSE Bad(x)
    [] x.mode = "body" -> SymbolOr(x, b, Bad(x))
    [] x.mode = "more" ->
         SymbolOr(x, b,
           CASE b = BAR -> [x EXCEPT !.mode = "body", !.alts = Append(@, x.alt), !.alt = <<>>]
             [] b \in {LFb, CRb} -> WithRule(x, EndOfLine(b))
             [] OTHER -> Bad(x))
    [] x.mode = "dq"  -> InLiteral(x, b, DQ, "dqe")
    [] x.mode = "sq"  -> InLiteral(x, b, SQ, "sqe")
    [] x.mode = "dqe" -> InEscape(x, b, "dq")
    [] x.mode = "sqe" -> InEscape(x, b, "sq")
    [] x.mode = "bad" -> x

\* at the end of the text
ReadEnd(x) ==
  CASE x.mode = "line" -> To(x, "good")
    [] x.mode = "more" -> WithRule(x, "good")
    [] OTHER -> Bad(x)

(* The machine: a text, the bytes of it read, the reader.                  *)
CONSTANT TextOf(_)      \* the bytes that a value of text stands for

VARIABLES text, at, reader
readvars == <<text, at, reader>>

ReadInit(t) == text = t /\ at = 0 /\ reader = Reader

ReadOver == reader.mode \in {"good", "bad"}

ReadStep ==
  /\ ~ReadOver /\ UNCHANGED text
  /\ IF at < Len(TextOf(text))
     THEN at' = at + 1 /\ reader' = ReadByte(reader, TextOf(text)[at + 1])
     ELSE at' = at /\ reader' = ReadEnd(reader)

-----------------------------------------------------------------------------
(* Printing, as the code does it.                                          *)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Has2(v, b) == \E i \in DOMAIN v : v[i] = b

PrintByte(b, quote) ==
  CASE b = BSL -> <<BSL, BSL>> [] b = TAB -> <<BSL, 116>>
    [] b = LFb -> <<BSL, 110>> [] b = CRb -> <<BSL, 114>>
    [] b = DQ /\ quote = DQ -> <<BSL, DQ>>
    [] OTHER -> <<b>>

PrintTerminal(v) ==
  LET q == IF Has2(v, DQ) /\ ~Has2(v, SQ) THEN SQ ELSE DQ
  IN <<q>> \o Flat([i \in DOMAIN v |-> PrintByte(v[i], q)]) \o <<q>>

PrintSymbol(y) ==
  CASE y.k = "n" -> <<LT>> \o y.v \o <<GT>>
    [] y.k = "t" -> PrintTerminal(y.v)
    [] y.k = "e" -> <<DQ, DQ>>

PrintAlt(a) == Flat([i \in DOMAIN a |-> <<SP>> \o PrintSymbol(a[i])])

PrintRule(r) ==
  <<LT>> \o r.head \o <<GT, SP, COLON, COLON, EQ>> \o
  Flat([i \in DOMAIN r.alts |-> (IF i > 1 THEN <<SP, BAR>> ELSE <<>>) \o PrintAlt(r.alts[i])])

PrintGrammar(g) ==
  Flat([i \in DOMAIN g |-> (IF i > 1 THEN <<LFb>> ELSE <<>>) \o PrintRule(g[i])])
=============================================================================
