------------------------------- MODULE Stack -------------------------------
(***************************************************************************)
(* A stack, kept in pieces so that a step on a deep stack does not copy    *)
(* all of it.  Flat gives the sequence it stands for, topmost first;       *)
(* MCStack checks that the operations are those on that sequence.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Piece      \* length of a piece

\* top    the uppermost piece; empty only if the stack is
\* under  the pieces below, nearest first
EmptyStack == [top |-> <<>>, under |-> <<>>]

IsEmpty(s) == s.top = <<>>
TopOf(s)   == s.top[1]

RECURSIVE Cut2(_)
\* a long sequence as pieces
Cut2(q) == IF Len(q) <= 2 * Piece THEN <<q>>
           ELSE <<SubSeq(q, 1, Piece)>> \o Cut2(SubSeq(q, Piece + 1, Len(q)))
\* many pieces: half and half, to keep the recursion shallow
RECURSIVE Pieces(_)
Pieces(q) ==
  IF Len(q) <= 4 * Piece THEN Cut2(q)
  ELSE LET h == Piece * ((Len(q) \div Piece) \div 2)
       IN Pieces(SubSeq(q, 1, h)) \o Pieces(SubSeq(q, h + 1, Len(q)))

\* q goes on top, its first element uppermost
Push(s, q) ==
  LET t == q \o s.top
  IN IF Len(t) <= 2 * Piece THEN [s EXCEPT !.top = t]
     ELSE LET ps == Pieces(t)
          IN [top |-> ps[1], under |-> Tail(ps) \o s.under]

Pop(s) ==
  IF Len(s.top) > 1 \/ s.under = <<>> THEN [s EXCEPT !.top = Tail(@)]
  ELSE [top |-> s.under[1], under |-> Tail(s.under)]

\* only the uppermost element changes
Replace(s, x) == [s EXCEPT !.top[1] = x]

RECURSIVE Flat(_)
Flat(s) == IF s.under = <<>> THEN s.top
           ELSE s.top \o Flat([top |-> s.under[1], under |-> Tail(s.under)])

Depth(s) == Len(Flat(s))
=============================================================================
