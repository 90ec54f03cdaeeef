---------------------------- MODULE TraceSystem -----------------------------
(***************************************************************************)
(* Checks recorded histories of calls against System: every result in      *)
(* full, and by digests (History) that every other object is as it was.    *)
(*                                                                         *)
(* In cases of kind "overlap" several calls were in progress at once: a    *)
(* "pause" is one of them turning to the caller, and a call stands where   *)
(* it ended.  See Overlap for why this order is as good as any.            *)
(***************************************************************************)
EXTENDS System, History, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, phase
View == <<c, k, phase>>
allvars == <<sysvars, histvars, c, k, phase>>

Case == Cases[c]
O == Case.sys[k + 1]
P1 == O.a + 1    \* arguments; 0 for none
P2 == O.b + 1

AsMap(s) == [x \in {s[i].k : i \in DOMAIN s} |->
               LET i == CHOOSE j \in DOMAIN s : s[j].k = x IN s[i].v]
TableFrom(rows) ==
  [r \in {rows[i].r : i \in DOMAIN rows} |->
     LET row == rows[CHOOSE i \in DOMAIN rows : rows[i].r = r]
     IN [b \in {row.cells[j].b : j \in DOMAIN row.cells} |->
           row.cells[CHOOSE j \in DOMAIN row.cells : row.cells[j].b = b].ops]]

Init == c \in 1..Len(Cases) /\ k = 0 /\ phase = "calls" /\ HistInit /\ SysInit

Given ==   \* the object that the caller makes or overwrites with
  CASE O.op \in {"grammar", "setgrammar"} -> GrammarObj(O.rules)
    [] O.op \in {"table", "settable"} -> TableObj(TableFrom(O.rows), AsMap(O.bnames))
    [] O.op \in {"bytes", "buffer", "setsource"} -> SourceObj(O.w)
    [] O.op \in {"mkbind", "setbind"} -> BindObj(O.bind)
    [] O.op = "touch" -> Lost

\* the arguments are there
Ready ==
  CASE O.op \in {"grammar", "table", "bytes", "buffer", "mkbind", "self", "bindings", "pause"} -> TRUE
    [] O.op = "parser" -> Is(P1, "table")
    [] O.op \in {"gen", "print"} -> Is(P1, "grammar")
    [] O.op = "walk" -> Is(P1, "tree")
    [] O.op = "toast" -> Is(P1, "bindings") /\ Is(P2, "tree")
    [] O.op = "parse" -> Is(P1, "parser") /\ (P2 # 0 => Is(P2, "source"))
    [] O.op \in {"setgrammar", "settable", "setsource", "setbind"} -> heap[P1].kind = Given.kind
    [] O.op = "touch" -> heap[P1].kind \notin {"none", "lost"}

TheCall ==
  CASE ~Ready -> Adds(None, Gave("skip", "skip", 0))
    [] O.op \in {"grammar", "table", "bytes", "buffer", "mkbind"} -> Make(Given)
    [] O.op = "pause" -> Make(None)
    [] O.op = "parser" -> Parser(P1)
    [] O.op = "gen" -> Generate(P1)
    [] O.op = "print" -> PrintOut(P1)
    [] O.op = "walk" -> Walk(P1)
    [] O.op = "toast" -> ToastBegin(P1, P2)
    [] O.op = "parse" -> ParseBegin(P1, O.w, P2)
    [] O.op \in {"setgrammar", "settable", "setsource", "setbind", "touch"} -> Overwrite(P1, Given)
    [] O.op = "self" -> Shipped("self", GrammarObj(O.rules))
    [] O.op = "bindings" -> Shipped("bindings", BindObj(O.bind))

Stuck == Case.kind = "overlap" /\ Case.res # "ok"

\* from here on the specification does not say what comes out
Open == (O.op = "toast" /\ Ready /\ EscapeInName(heap[P2].nodes, heap[P1].b)) = TRUE
Leaves == phase = "calls" /\ k < Len(Case.sys) /\ Open /\ ~Stuck /\ phase' = "done"
          /\ UNCHANGED <<sysvars, histvars, c, k>>

Do ==
  /\ phase = "calls" /\ k < Len(Case.sys) /\ ~Open /\ ~Stuck
  /\ O.res \in {"ok", "err", "skip", "caller"}
  /\ TheCall
  /\ phase' = (IF Ready /\ O.op \in {"parse", "toast"} THEN "busy" ELSE "check")
  /\ UNCHANGED <<histvars, c, k>>

Works ==
  /\ phase = "busy"
  /\ IF call.op = "parse" THEN ParseEnd(RunFrom(m, 400 + 4 * Len(src))) ELSE ToastEnd
  /\ phase' = "check" /\ UNCHANGED <<histvars, c, k>>

-----------------------------------------------------------------------------

IsCall == O.key # "" /\ O.res \notin {"skip", "caller"}
Result == [res |-> O.res, value |-> O.digest]
Touched == {O.touch[i] : i \in DOMAIN O.touch}

HasWord(w) == \E i \in DOMAIN O.words : O.words[i] = w
Within(w, t) == \E i \in 0..(Len(t) - Len(w)) : SubSeq(t, i + 1, i + Len(w)) = w
NamesNow == heap[heap[P1].of].names
HasName(s) == IF SaysName(NamesNow, s) THEN Within(TheName(NamesNow, s), O.msg) ELSE HasWord(s)

ErrorFits(e) ==
  CASE e.kind = "no-cell"    -> O.codes = <<e.got>> /\ HasName(e.name)
    [] e.kind = "wrong-byte" -> O.codes = <<e.want, e.got>>
    [] e.kind = "trailing"   -> O.codes = <<e.got>> /\ HasWord("end")
    [] e.kind \in {"no-row", "no-builtin"} -> HasName(e.name)
    [] OTHER                 -> TRUE

NamesFit(nm) ==
  LET o == AsMap(O.bnames)
  IN /\ DOMAIN o = DOMAIN nm \cup {Literal, Nothing}
     /\ \A j \in DOMAIN nm \ {Literal, Nothing} : o[j] = nm[j]
     /\ o[Literal] # <<>> /\ o[Nothing] # <<>>

Expected == IF out.op \in {"make", "set"} THEN "caller"
            ELSE IF out.res = "any" THEN "ok" ELSE out.res

What ==
  IF O.res \notin {"ok", "err", "skip", "caller"} THEN O.op \o ": " \o O.res
  ELSE IF O.res # Expected THEN O.op \o ": " \o Expected \o " was due, " \o O.res \o " came"
  ELSE IF O.printed # 0 THEN O.op \o " printed something"
  ELSE IF O.res = "err" /\ ~O.clean THEN O.op \o ": an error with a result"
  ELSE IF IsCall /\ ~Repeatable(O.key, Result) THEN O.op \o ": another result for the same arguments"
  ELSE IF ~Unchanged(O.watch, Touched)
       THEN O.op \o " changed object " \o
            ToString(CHOOSE i \in DOMAIN contents : i \notin Touched /\ O.watch[i] # contents[i])
  ELSE CASE O.op = "gen" /\ O.res = "ok" ->
              IF AsMap(O.bnames) # out.v THEN "names of the table" ELSE ""
         [] O.op = "parse" /\ O.res = "ok" ->
              IF O.nodes # out.v THEN "another tree"
              ELSE IF ~NamesFit(NamesNow) THEN "names of the parse" ELSE ""
         [] O.op = "parse" /\ O.res = "err" ->
              IF ~ErrorFits(out.v) THEN "another error than " \o ToString(out.v) ELSE ""
         [] O.op = "print" /\ out.res = "ok" ->
              IF ReadText(O.text) # [good |-> TRUE, rules |-> out.v]
              THEN "the printed text does not denote the grammar" ELSE ""
         [] O.op = "toast" /\ O.res = "ok" -> IF O.rules # out.v THEN "another grammar" ELSE ""
         [] O.op = "walk" /\ O.res = "ok" -> IF O.visits # out.v THEN "another walk" ELSE ""
         [] OTHER -> ""

Goes ==
  /\ phase = "check" /\ What = ""
  /\ IF IsCall THEN Call(O.key, Result, O.watch) ELSE CallerActs(O.watch, Touched)
  /\ k' = k + 1 /\ phase' = "calls" /\ UNCHANGED <<sysvars, c>>

Mismatch(w) ==
  /\ PrintT("MISMATCH " \o ToJson([c |-> c, aspect |-> Case.kind, what |-> w, at |-> k + 1]))
  /\ phase' = "mismatch" /\ UNCHANGED <<sysvars, histvars, c, k>>

Differs == phase = "check" /\ What # "" /\ Mismatch(What)
Halts == phase = "calls" /\ Stuck /\ Mismatch("overlapping calls: " \o Case.res)
Fails == phase = "calls" /\ k < Len(Case.sys) /\ ~Open /\ ~Stuck /\ O.res \notin {"ok", "err", "skip", "caller"}
         /\ Mismatch(O.op \o ": " \o O.res)

Over == phase = "calls" /\ k = Len(Case.sys) /\ ~Stuck /\ phase' = "done" /\ UNCHANGED <<sysvars, histvars, c, k>>

Finished == phase \in {"done", "mismatch"} /\ UNCHANGED allvars
Next == Do \/ Leaves \/ Works \/ Goes \/ Differs \/ Fails \/ Halts \/ Over \/ Finished
Spec == Init /\ [][Next]_allvars
=============================================================================
