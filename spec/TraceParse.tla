----------------------------- MODULE TraceParse -----------------------------
(***************************************************************************)
(* Checks what was observed of the code - table generation, and the parses *)
(* made with the table - against TableGen and Parser.                      *)
(*                                                                         *)
(* The file named by CASES has one case per line: a grammar or a hand-     *)
(* written table, what generation returned, and for every parse the input, *)
(* the outcome, the tree in preorder and the numbers and words of the      *)
(* error.  The machines run on the same grammar and input; every node of   *)
(* the observed tree is consumed by the action that creates it.  A case    *)
(* says which aspects to compare (check); the ways to differ lead to       *)
(* phase "mismatch", which is printed.  Every case must reach "done" or    *)
(* "mismatch": deadlock checking is on and only these two may stutter.     *)
(***************************************************************************)
EXTENDS TableGen, Parser, Json, IOUtils
LOCAL INSTANCE SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES
  c,      \* case
  k,      \* steps done; with c and phase the identity of a state
  phase,  \* "gen" "parse" "run" "done" "mismatch"
  p,      \* parse in progress; its input is called <<c, p>>
  l,      \* nodes of its observed tree consumed
  open    \* stack of those of them not yet closed

tracevars == <<c, k, phase, p, l, open>>
allvars == <<genvars, parsevars, tracevars>>

View == <<c, k, phase>>

Case == Cases[c]
Obs  == Case.parses[p]
InputOf(w) == Cases[w[1]].parses[w[2]].src
Has(x) == \E i \in DOMAIN Case.check : Case.check[i] = x

\* [k, v] pairs to a function
AsMap(s) == [x \in {s[i].k : i \in DOMAIN s} |->
               LET i == CHOOSE j \in DOMAIN s : s[j].k = x IN s[i].v]

TableFrom(rows) ==
  [r \in {rows[i].r : i \in DOMAIN rows} |->
     LET row == rows[CHOOSE i \in DOMAIN rows : rows[i].r = r]
     IN [b \in {row.cells[j].b : j \in DOMAIN row.cells} |->
           row.cells[CHOOSE j \in DOMAIN row.cells : row.cells[j].b = b].ops]]

HeadNames == [r \in 0..(Len(G) - 1) |-> G[r + 1].head]

Mismatch(aspect, what) ==
  PrintT("MISMATCH " \o ToJson([c |-> c, p |-> p, aspect |-> aspect, what |-> what]))

Init ==
  /\ c \in 1..Len(Cases)
  /\ k = 0 /\ p = 0 /\ l = 0 /\ open = EmptyStack
  /\ IF Cases[c].kind = "gram"
     THEN GenInit(Cases[c].g) /\ phase = "gen"
     ELSE /\ GenInit(<<>>) /\ phase = "parse"
  /\ table = NoTable /\ names = <<>> /\ src = <<>> /\ m = Idle

Goto(ph) == phase' = ph /\ k' = k + 1

-----------------------------------------------------------------------------
(* Table generation.                                                       *)

TraceGen ==
  /\ phase = "gen" /\ ~GenOver
  /\ Rounds /\ Goto("gen")
  /\ UNCHANGED <<parsevars, c, p, l, open>>

\* what is wrong with the outcome of generation: a set of [aspect, what]
GenWrong ==
  LET o == Case.obs
      expected == IF stage = "ready" THEN "ok" ELSE "err"
      flawed == stage = "refused" /\ why # {"not-LL1"}
  IN (IF Has("gen") /\ ~flawed /\ o.gen # expected
      THEN {<<"gen", IF expected = "ok" THEN "LL(1) grammar: " \o o.gen
                     ELSE "not LL(1): " \o o.gen>>} ELSE {})
     \cup
     (IF Has("gen") /\ ~flawed /\ o.gen = "err" /\ ~o.clean
      THEN {<<"gen", "refused with a table">>} ELSE {})
     \cup
     (IF Has("total") /\ o.gen \notin {"ok", "err"}
      THEN {<<"total", "generation: " \o o.gen>>} ELSE {})
     \cup
     (IF Has("total") /\ flawed /\ o.gen # "err"
      THEN {<<"total", "malformed grammar: " \o o.gen>>} ELSE {})
     \cup
     (IF Has("total") /\ flawed /\ o.gen = "err" /\ ~o.clean
      THEN {<<"total", "malformed grammar with a table">>} ELSE {})
     \cup
     (IF Has("numbering") /\ o.gen = "ok" /\ AsMap(o.names) # HeadNames
      THEN {<<"numbering", "names of the table">>} ELSE {})
     \cup
     (IF Has("numbering") /\ o.gen = "ok"
         /\ {o.rows[i] : i \in DOMAIN o.rows} # 0..(Len(G) - 1)
      THEN {<<"numbering", "rows of the table">>} ELSE {})

TraceGenerated ==
  /\ phase = "gen" /\ GenOver
  /\ IF GenWrong # {}
     THEN /\ \A w \in GenWrong : Mismatch(w[1], w[2])
          /\ Goto("mismatch")
     ELSE IF Case.obs.gen = "ok" THEN Goto("parse") ELSE Goto("done")
  /\ UNCHANGED <<genvars, parsevars, c, p, l, open>>

-----------------------------------------------------------------------------
(* One parse after the other.  With a table that the specification agrees  *)
(* to, the parser machine runs in step with the observation.  A grammar    *)
(* that should have been refused has no machine: what was observed is      *)
(* judged by the grammar alone (Judge).                                    *)

TraceBegin ==
  /\ phase = "parse" /\ p < Len(Case.parses)
  /\ p' = p + 1 /\ l' = 0 /\ open' = EmptyStack
  /\ IF Case.kind = "gram"
     THEN IF stage = "ready" /\ ~Has("returned")
          THEN Begin(tab, HeadNames, <<c, p + 1>>) /\ Goto("run")
          ELSE UNCHANGED parsevars /\ Goto("judge")
     ELSE /\ Begin(TableFrom(Case.table), AsMap(Case.names), <<c, p + 1>>)
          /\ Goto("run")
  /\ UNCHANGED <<genvars, c>>

TraceEnd ==
  /\ phase = "parse" /\ p = Len(Case.parses)
  /\ Goto("done")
  /\ UNCHANGED <<genvars, parsevars, c, p, l, open>>

FollowTree == Has("tree") /\ Obs.res = "ok" /\ Case.tag # "big"

N(i) == Obs.nodes[i]     \* <<kind, start, end, number of children>>

\* does the event e fit the next node(s) of the observed tree, f consumed?
Fits(e, f) ==
  CASE e.e = "none"  -> TRUE
    [] e.e = "open"  ->
        /\ f.l + 1 <= Len(Obs.nodes)
        /\ N(f.l + 1)[1] = e.t /\ N(f.l + 1)[2] = e.s
        /\ IF e.n > 0 THEN N(f.l + 1)[4] = IF e.t = Literal THEN 0 ELSE e.n
           ELSE /\ N(f.l + 1)[4] = 1 /\ f.l + 2 <= Len(Obs.nodes)
                /\ N(f.l + 2) = <<Nothing, e.s, e.s, 0>>
    [] e.e = "close" -> N(TopOf(f.open))[3] = e.x

Consumed(e) == IF e.e # "open" THEN 0
               ELSE IF e.n = 0 THEN 2 ELSE 1

Consume(e, f) ==
  CASE e.e = "none"  -> f
    [] e.e = "open"  -> [f EXCEPT !.l = @ + Consumed(e), !.open = Push(@, <<f.l + 1>>)]
    [] e.e = "close" -> [f EXCEPT !.open = Pop(@)]

\* a step of the parser, followed in the tree: y.m is the configuration, y.f
\* what is consumed, y.ok whether it fits
Together(y) ==
  LET n == MStep(y.m)
  IN IF ~FollowTree THEN [y EXCEPT !.m = n]
     ELSE IF Fits(n.ev, y.f) THEN [y EXCEPT !.m = n, !.f = Consume(n.ev, y.f)]
     ELSE [y EXCEPT !.m = n, !.ok = FALSE]

\* a state of this specification covers many steps, more on long inputs
Few  == [i \in 1..64 |-> i]
Many == [i \in 1..8192 |-> i]

TraceRun ==
  /\ phase = "run" /\ m.status = "run"
  /\ LET y == FoldLeft(LAMBDA z, i : IF z.ok /\ z.m.status = "run" THEN Together(z) ELSE z,
                       [m |-> m, f |-> [l |-> l, open |-> open], ok |-> TRUE],
                       IF Len(Input(src)) > 256 THEN Many ELSE Few)
     IN /\ m' = y.m /\ l' = y.f.l /\ open' = y.f.open
        /\ IF y.ok THEN Goto("run")
           ELSE /\ Mismatch("tree", [at |-> y.f.l + 1, event |-> y.m.ev])
                /\ Goto("mismatch")
  /\ UNCHANGED <<genvars, table, names, src, c, p>>

-----------------------------------------------------------------------------
(* The end of a parse.                                                     *)

HasWord(w) == \E i \in DOMAIN Obs.words : Obs.words[i] = w
LastCode   == IF Obs.codes = <<>> THEN -1 ELSE Obs.codes[Len(Obs.codes)]

\* the numbers and the name an error of this kind carries
ErrorFits ==
  CASE m.err.kind = "no-cell"    -> Obs.codes = <<m.err.got>> /\ HasWord(m.err.name)
    [] m.err.kind = "wrong-byte" -> Obs.codes = <<m.err.want, m.err.got>>
    [] m.err.kind = "trailing"   -> Obs.codes = <<m.err.got>> /\ HasWord("end")
    [] m.err.kind \in {"no-row", "no-builtin"} -> HasWord(m.err.name)
    [] OTHER                   -> TRUE

ParseNames ==
  LET x == names
      ks == DOMAIN x \cup {Literal, Nothing}
  IN [j \in ks |-> IF j \in DOMAIN x THEN x[j] ELSE ""]

\* the parser's names, and one each for the two kinds of leaves
NamesFit ==
  LET o == AsMap(Obs.names)
  IN /\ DOMAIN o = DOMAIN names \cup {Literal, Nothing}
     /\ \A j \in DOMAIN names \ {Literal, Nothing} : o[j] = names[j]
     /\ o[Literal] # "" /\ o[Nothing] # ""

(* A whole tree against the grammar, without the machine.                  *)
Cn(i) == Obs.cnodes[i]

NodeOK(i) ==
  LET nd == Cn(i)
  IN IF nd.t \in {Literal, Nothing}
     THEN /\ nd.c = <<>> /\ nd.s <= nd.x
          /\ nd.t = Nothing => nd.s = nd.x
     ELSE /\ nd.t \in 0..(Len(R) - 1) /\ nd.c # <<>>
          /\ Cn(nd.c[1]).s = nd.s /\ Cn(nd.c[Len(nd.c)]).x = nd.x
          /\ \A j \in 1..(Len(nd.c) - 1) : Cn(nd.c[j]).x = Cn(nd.c[j + 1]).s
          /\ IF nd.s = nd.x
             THEN /\ Len(nd.c) = 1 /\ Cn(nd.c[1]).t = Nothing
                  /\ (nd.t + 1) \in nul
             ELSE \E a \in DOMAIN R[nd.t + 1] :
                    LET alt == R[nd.t + 1][a]
                    IN /\ Len(alt) = Len(nd.c)
                       /\ \A j \in DOMAIN alt :
                            IF alt[j].k = "n" THEN Cn(nd.c[j]).t = alt[j].i - 1
                            ELSE /\ Cn(nd.c[j]).t = Literal
                                 /\ SubSeq(Obs.src, Cn(nd.c[j]).s + 1, Cn(nd.c[j]).x)
                                      = alt[j].v

WholeTreeOK ==
  /\ Obs.cnodes # <<>>
  /\ Cn(1).t = 0 /\ Cn(1).s = 0 /\ Cn(1).x = Len(Obs.src)
  /\ \A i \in DOMAIN Obs.cnodes : NodeOK(i)

Returned == Obs.res \in {"ok", "err"}

ParseWrong ==
  (IF ~Returned /\ (Has("total") \/ Has("accept") \/ Has("tree") \/ Has("error"))
   THEN {<<"total", "parse: " \o Obs.res>>} ELSE {})
  \cup
  (IF Has("accept") /\ Returned /\ (m.status = "accepted") # (Obs.res = "ok")
   THEN {<<"accept", m.status \o " by the specification, observed " \o Obs.res>>} ELSE {})
  \cup
  (IF Has("tree") /\ Obs.res = "ok" /\ m.status = "rejected"
   THEN {<<"tree", "a tree for an input that is not a sentence">>} ELSE {})
  \cup
  (IF Has("tree") /\ FollowTree /\ m.status = "accepted" /\ l # Len(Obs.nodes)
   THEN {<<"tree", "nodes left over">>} ELSE {})
  \cup
  (IF Has("tree") /\ Obs.res = "ok" /\ Case.tag = "big" /\ m.status = "accepted"
        /\ ~WholeTreeOK
   THEN {<<"tree", "not a derivation">>} ELSE {})
  \cup
  (IF Has("error") /\ Obs.res = "err" /\ ~Obs.clean
   THEN {<<"error", "an error with a tree or names">>} ELSE {})
  \cup
  (IF Has("error") /\ Obs.res = "err" /\ m.status = "accepted"
   THEN {<<"error", "rejects a sentence">>} ELSE {})
  \cup
  (IF Has("error") /\ Obs.res = "err" /\ m.status = "rejected" /\ ~ErrorFits
   THEN {<<"error", m.err>>} ELSE {})
  \cup
  (IF Has("numbering") /\ Obs.res = "ok" /\ ~NamesFit
   THEN {<<"numbering", "names of the parse">>} ELSE {})
  \cup
  (IF Has("numbering") /\ Obs.res = "ok" /\ Case.kind = "gram" /\ Case.tag # "big"
      /\ \E i \in DOMAIN Obs.nodes : Obs.nodes[i][1] \notin DOMAIN AsMap(Obs.names)
   THEN {<<"numbering", "a node without name">>} ELSE {})

TraceOver ==
  /\ phase = "run" /\ ParseOver
  /\ IF ParseWrong # {}
     THEN /\ \A w \in ParseWrong : Mismatch(w[1], w[2])
          /\ Goto("mismatch")
     ELSE Goto("parse")
  /\ UNCHANGED <<genvars, parsevars, c, p, l, open>>

\* generation accepted a grammar that is not LL(1): the language still counts
JudgeWrong ==
  (IF Has("returned") /\ ~Returned
   THEN {<<"total", "parse: " \o Obs.res>>} ELSE {})
  \cup
  (IF Has("accept") /\ Obs.res \in {"panic", "hang", "crash", "nil"}
   THEN {<<"accept", "parse: " \o Obs.res>>} ELSE {})
  \cup
  (IF Has("accept") /\ Len(Obs.src) <= 12
      /\ (Obs.res = "ok") # Member(R, Obs.src)
   THEN {<<"accept", "conflicting grammar accepted, then: " \o Obs.res>>} ELSE {})

TraceJudge ==
  /\ phase = "judge"
  /\ IF JudgeWrong # {}
     THEN /\ \A w \in JudgeWrong : Mismatch(w[1], w[2])
          /\ Goto("mismatch")
     ELSE Goto("parse")
  /\ UNCHANGED <<genvars, parsevars, c, p, l, open>>

Finished == phase \in {"done", "mismatch"} /\ UNCHANGED allvars

Next == TraceGen \/ TraceGenerated \/ TraceBegin \/ TraceEnd \/ TraceRun
        \/ TraceOver \/ TraceJudge \/ Finished

Spec == Init /\ [][Next]_allvars
=============================================================================
