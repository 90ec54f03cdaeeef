------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* The JSON machine against the JSON grammar itself (as a grammar, with    *)
(* no table and no parser): over texts of a few tokens, a text is a complete    *)
(* document of the machine exactly if the grammar derives it.              *)
(***************************************************************************)
EXTENDS JsonExample, TLC

CONSTANTS MaxLen
\* tokens
CONSTANT Alphabet
Brackets == {<<123>>, <<125>>, <<91>>, <<93>>, <<34, 34>>, <<44>>, <<58>>, <<32>>, <<48>>}
Numbers == {<<49>>, <<48>>, <<45>>, <<43>>, <<46>>, <<101>>}
Strings == {<<34>>, <<92>>, <<117>>, <<97>>, <<117, 97, 57>>, <<47>>, <<10>>}
Lines == {<<13>>, <<10>>, <<123>>, <<34, 97, 34, 58>>, <<110, 117, 108, 108>>, <<125>>}
VARIABLES text, m, n
vars == <<text, m, n>>

RECURSIVE FeedAll(_, _)
FeedAll(x, t) == IF t = <<>> THEN x ELSE FeedAll(Feed(x, t[1]), Tail(t))

Init == text = <<>> /\ m = Start /\ n = 0
Next == \E t \in Alphabet :
  n < MaxLen /\ n' = n + 1 /\ text' = text \o t /\ m' = FeedAll(m, t)
Spec == Init /\ [][Next]_vars

\* ---- the subset, by plain recursion over all ways to split a text --------
Sub(t, i, j) == SubSeq(t, i, j)
WS(t) == \A i \in DOMAIN t : t[i] \in {SP, LF} \/ (t[i] = CR /\ i < Len(t) /\ t[i + 1] = LF)
Nat0(t) == t # <<>> /\ \A i \in DOMAIN t : t[i] \in Digits
Uns(t) == t = <<48>> \/ (Nat0(t) /\ t[1] # 48)
Splits(t) == {<<SubSeq(t, 1, i), SubSeq(t, i + 1, Len(t))>> : i \in 0..Len(t)}
Integer(t) == Uns(t) \/ (t # <<>> /\ t[1] = 45 /\ Uns(Tail(t)))
Frac(t) == t = <<>> \/ (t[1] = 46 /\ Nat0(Tail(t)))
Expo(t) == t = <<>> \/ (IsE(t[1]) /\ LET u == Tail(t) IN
             Nat0(u) \/ (u # <<>> /\ u[1] \in {43, 45} /\ Nat0(Tail(u))))
Num(t) == \E s \in Splits(t) : Integer(s[1]) /\ \E u \in Splits(s[2]) : Frac(u[1]) /\ Expo(u[2])
RECURSIVE Chars(_)
Chars(t) ==
  \/ t = <<>>
  \/ t[1] \in StringBytes /\ Chars(Tail(t))
  \/ Len(t) >= 2 /\ t[1] = BACKSLASH /\ t[2] \in Escapes /\ Chars(SubSeq(t, 3, Len(t)))
  \/ Len(t) >= 6 /\ t[1] = BACKSLASH /\ t[2] = 117 /\ (\A i \in 3..6 : t[i] \in Hex)
     /\ Chars(SubSeq(t, 7, Len(t)))
Str(t) == Len(t) >= 2 /\ t[1] = QUOTE /\ t[Len(t)] = QUOTE /\ Chars(SubSeq(t, 2, Len(t) - 1))
Inner(t) == SubSeq(t, 2, Len(t) - 1)
Word(t) == t[1] \in DOMAIN Literal /\ Tail(t) = Literal[t[1]]
RECURSIVE Value(_), Elements(_), Members(_)
\* blanks around a value
Spaced(t) == \E s \in Splits(t) : WS(s[1]) /\ \E u \in Splits(s[2]) : WS(u[2]) /\ Value(u[1])
Pair(t) == \E s \in Splits(t) : Str(s[1]) /\ \E u \in Splits(s[2]) :
             /\ WS(u[1]) /\ u[2] # <<>> /\ u[2][1] = 58 /\ Spaced(Tail(u[2]))
Lead(t) == \E s \in Splits(t) : WS(s[1]) /\ Pair(s[2])
Members(t) == Lead(t) \/ \E i \in DOMAIN t : t[i] = 44 /\ Lead(SubSeq(t, 1, i - 1)) /\ Members(SubSeq(t, i + 1, Len(t)))
Elements(t) == Spaced(t) \/ \E i \in DOMAIN t : t[i] = 44 /\ Spaced(SubSeq(t, 1, i - 1)) /\ Elements(SubSeq(t, i + 1, Len(t)))
Value(t) ==
  /\ t # <<>>
  /\ \/ Word(t) \/ Num(t) \/ Str(t)
     \/ Len(t) >= 2 /\ t[1] = 123 /\ t[Len(t)] = 125 /\ (WS(Inner(t)) \/ Members(Inner(t)))
     \/ Len(t) >= 2 /\ t[1] = 91 /\ t[Len(t)] = 93 /\ (WS(Inner(t)) \/ Elements(Inner(t)))

MachineIsSubset == Complete(m) <=> Spaced(text)
FailIsFinal == m.mode = "fail" => ~Spaced(text)
=============================================================================
