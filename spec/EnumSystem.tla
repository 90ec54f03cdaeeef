---------------------------- MODULE EnumSystem ------------------------------
(***************************************************************************)
(* From the specification to the code: every history of Calls calls over a *)
(* small choice of contents, after a beginning that makes one object of    *)
(* each kind, with what each call gives.                                   *)
(***************************************************************************)
EXTENDS System, Json

CONSTANTS Calls, Beginning, Words

VARIABLES hist, n
vars == <<sysvars, hist, n>>

TheWords == {<<>>, <<97>>, <<97, 97>>}
MoreWords == TheWords \cup {<<98>>, <<97, 98>>}

a == [k |-> "t", v |-> <<97>>]
b == [k |-> "t", v |-> <<98>>]
e == [k |-> "e", v |-> <<>>]
Sn == [k |-> "n", v |-> <<83>>]
Tn == [k |-> "n", v |-> <<84>>]
Ru(h, alts) == [head |-> h, alts |-> alts]
G1 == <<Ru(<<83>>, << <<a, Sn>>, <<e>> >>)>>                                      \* a*
G2 == <<Ru(<<83>>, << <<b>>, <<a, Tn>> >>), Ru(<<84>>, << <<e>>, <<a>> >>)>>      \* b, a, aa
G3 == <<Ru(<<83>>, << <<a, Sn>>, <<a>> >>)>>                                      \* not LL(1)
Contents == <<G1, G2, G3>>

\* S ::= "a" (row 0) with a name of its own; other rows are missing
OneRow(ops) == [r |-> 0, cells |-> <<[b |-> 97, ops |-> ops]>>]
T1 == [rows |-> <<OneRow(<<[k |-> "t", v |-> <<97>>, i |-> 0]>>)>>, names |-> <<[k |-> 0, v |-> <<120>>]>>]
T2 == [rows |-> <<OneRow(<<[k |-> "t", v |-> <<97>>, i |-> 0], [k |-> "n", v |-> <<>>, i |-> 0]>>)>>, names |-> <<>>]
Tables == <<T1, T2>>
TableOfContents(t) ==
  TableObj([r \in {0} |-> [c \in {97} |-> t.rows[1].cells[1].ops]],
           [r \in {t.names[i].k : i \in DOMAIN t.names} |-> t.names[1].v])

\* the literals of a tree become the head and the symbols of one rule
B1 == [ignore |-> <<>>, rule |-> 0, head |-> -1, tail |-> 0, seq |-> 0, sym |-> -1, term |-> <<-1>>,
       nt |-> 900, esc |-> 901, escch |-> 902, map |-> <<>>]
\* every literal is an escape sequence; nothing leaves are passed over
B2 == [B1 EXCEPT !.rule = 0, !.head = 0, !.esc = -3, !.sym = 0, !.term = <<-2, -1>>]
Binds == <<B1, B2>>

NoBind == [B1 EXCEPT !.rule = 0]
Op(op, x, y) == [op |-> op, a |-> x - 1, b |-> y - 1, w |-> <<>>, rules |-> <<>>, rows |-> <<>>,
                 bnames |-> <<>>, bind |-> NoBind]

-----------------------------------------------------------------------------
(* One call: the action, and the line of the history.                      *)

Tells(o) == hist' = Append(hist, o)

CallGrammar(c)    == Make(GrammarObj(Contents[c])) /\ Tells([Op("grammar", 0, 0) EXCEPT !.rules = Contents[c]])
CallSetGrammar(i, c) == Is(i, "grammar") /\ heap[i].g # Contents[c]
                        /\ Overwrite(i, GrammarObj(Contents[c]))
                        /\ Tells([Op("setgrammar", i, 0) EXCEPT !.rules = Contents[c]])
CallTable(c)      == Make(TableOfContents(Tables[c]))
                     /\ Tells([Op("table", 0, 0) EXCEPT !.rows = Tables[c].rows, !.bnames = Tables[c].names])
\* not one that a parser was made of
CallSetTable(i, c) == Is(i, "table") /\ ~(\E j \in DOMAIN heap : heap[j].kind = "parser" /\ heap[j].of = i)
                      /\ Overwrite(i, TableOfContents(Tables[c]))
                      /\ Tells([Op("settable", i, 0) EXCEPT !.rows = Tables[c].rows, !.bnames = Tables[c].names])
CallBind(c)       == Make(BindObj(Binds[c])) /\ Tells([Op("mkbind", 0, 0) EXCEPT !.bind = Binds[c]])
CallSetBind(i, c) == Is(i, "bindings") /\ heap[i].b # Binds[c] /\ Overwrite(i, BindObj(Binds[c]))
                     /\ Tells([Op("setbind", i, 0) EXCEPT !.bind = Binds[c]])
CallTouch(i)      == Is(i, "tree") /\ Overwrite(i, Lost) /\ Tells(Op("touch", i, 0))
CallGen(i)        == Generate(i) /\ Tells(Op("gen", i, 0))
CallParser(i)     == Parser(i) /\ Tells(Op("parser", i, 0))
CallPrint(i)      == PrintOut(i) /\ Tells(Op("print", i, 0))
CallWalk(i)       == Walk(i) /\ Tells(Op("walk", i, 0))
CallParse(i, w)   == ParseBegin(i, w, 0) /\ Tells([Op("parse", i, 0) EXCEPT !.w = w])
CallToast(x, t)   == ToastBegin(x, t) /\ Tells(Op("toast", x, t))
                     /\ ~EscapeInName(heap[t].nodes, heap[x].b)

Begins(i) ==
  CASE Beginning = "grammar" ->
         (CASE i = 1 -> CallGrammar(1) [] i = 2 -> CallGen(1) [] i = 3 -> CallParser(2)
            [] i = 4 -> CallBind(1) [] i = 5 -> CallParse(3, <<97>>))
    [] Beginning = "table" ->
         (CASE i = 1 -> CallGrammar(2) [] i = 2 -> CallTable(1) [] i = 3 -> CallParser(2)
            [] i = 4 -> CallBind(2) [] i = 5 -> CallTable(2))

Free ==
  \/ \E i \in DOMAIN heap :
       \/ \E c \in DOMAIN Contents : CallSetGrammar(i, c)
       \/ \E c \in DOMAIN Tables : CallSetTable(i, c)
       \/ \E c \in DOMAIN Binds : CallSetBind(i, c)
       \/ CallTouch(i) \/ CallGen(i) \/ CallParser(i) \/ CallPrint(i) \/ CallWalk(i)
       \/ \E w \in Words : CallParse(i, w)
       \/ \E t \in DOMAIN heap : CallToast(i, t)

Init == SysInit /\ hist = <<>> /\ n = 0

\* what a call gave, for the driver
Says(o) ==
  [res |-> IF o.op \in {"make", "set"} THEN "caller" ELSE IF o.res = "any" THEN "ok" ELSE o.res,
   nodes |-> IF o.op = "parse" /\ o.res = "ok" THEN o.v ELSE <<>>,
   err |-> IF o.op = "parse" /\ o.res = "err" THEN o.v ELSE NoError,
   names |-> IF o.op = "gen" /\ o.res = "ok" THEN [i \in 1..Cardinality(DOMAIN o.v) |-> o.v[i - 1]] ELSE <<>>,
   visits |-> IF o.op = "walk" THEN o.v ELSE <<>>,
   rules |-> IF o.op \in {"toast", "print"} /\ o.res = "ok" THEN o.v ELSE <<>>]

Busy == call.op # "none"
Marked2 == [hist EXCEPT ![Len(hist)] = [call |-> @, want |-> Says(out)]]

\* phases by n: 2k: call k + 1 can start; 2k + 1: it gave something
Start == n % 2 = 0 /\ ~Busy /\ n \div 2 < 5 + Calls
         /\ (IF n \div 2 < 5 THEN Begins(n \div 2 + 1) ELSE Free) /\ n' = n + 1
Work == Busy /\ UNCHANGED <<hist, n>>
        /\ IF call.op = "parse" THEN ParseEnd(RunFrom(m, 10)) ELSE ToastEnd
Note == n % 2 = 1 /\ n < 2 * (5 + Calls) /\ ~Busy /\ hist' = Marked2 /\ n' = n + 1 /\ UNCHANGED sysvars
Tell == n = 2 * (5 + Calls) /\ n' = n + 1
        /\ PrintT("REPLAY " \o ToJson([case |-> [kind |-> "system", sys |-> [i \in DOMAIN hist |-> hist[i].call]],
                                      want |-> [res |-> "ok", calls |-> [i \in DOMAIN hist |-> hist[i].want]]]))
        /\ UNCHANGED <<sysvars, hist>>

Next == Start \/ Work \/ Note \/ Tell
Spec == Init /\ [][Next]_vars

\* a call of the library changes no object
LibraryKept == [][(Busy \/ (n' = n + 1 /\ n % 2 = 0 /\ out'.op # "set")) =>
                    \A i \in DOMAIN heap : heap'[i] = heap[i]]_vars
\* equal calls on equal contents give equal results
Same == LET C(i) == hist[i].call
        IN n % 2 = 0 => \A i, j \in DOMAIN hist :
             (C(i).op = "parse" /\ C(j).op = "parse" /\ C(i).a = C(j).a /\ C(i).w = C(j).w)
               => hist[i].want = hist[j].want
=============================================================================
