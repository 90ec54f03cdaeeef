------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The library as a whole: a caller, the objects the calls have made, and  *)
(* the calls.  Every call adds one object (or none) to the heap, so that   *)
(* objects go by the number of the call that made them.                    *)
(*                                                                         *)
(* The caller makes grammars, tables, parsers, source bytes and bindings,  *)
(* and overwrites contents in place.  The library generates tables,        *)
(* parses, prints, walks and builds grammars from trees: what comes out is *)
(* computed by the machines of the other modules from what the arguments   *)
(* hold at that moment, and nothing else of the heap plays a part or is    *)
(* changed.                                                                *)
(*                                                                         *)
(* Names and literals are byte sequences.  A parse and a construction take *)
(* many steps; in between the heap stays as it is (concurrent calls are    *)
(* the subject of Session).                                                *)
(***************************************************************************)
EXTENDS Grammars, Outcome

VARIABLES
  heap,     \* the objects
  call,     \* the call in progress: [op, a, b]; op = "none" if there is none
  out,      \* what the last call gave: [op, res, v]
  ast       \* the grammar construction in progress

sysvars == <<parsevars, heap, call, out, ast>>

SameInput(w) == w

A  == INSTANCE AstBuild WITH nodes <- ast.nodes, text <- ast.text, bind <- ast.bind,
        pending <- ast.pending, built <- ast.built, verdict <- ast.verdict
Nt == INSTANCE Notation WITH text <- 0, at <- 0, reader <- 0, TextOf <- SameInput
SE == INSTANCE SequencesExt

-----------------------------------------------------------------------------
(* Objects.                                                                *)

None            == [kind |-> "none"]
GrammarObj(g)   == [kind |-> "grammar", g |-> g]
TableObj(t, nm) == [kind |-> "table", rows |-> t, names |-> nm]
ParserObj(i)    == [kind |-> "parser", of |-> i]
SourceObj(w)    == [kind |-> "source", w |-> w]
TreeObj(ns, nm, w) == [kind |-> "tree", nodes |-> ns, names |-> nm, text |-> w]
BindObj(b)      == [kind |-> "bindings", b |-> b]
Lost            == [kind |-> "lost"]       \* overwritten, nobody knows with what

Is(i, kind) == i \in DOMAIN heap /\ heap[i].kind = kind

NoCall == [op |-> "none", a |-> 0, b |-> 0]
NoOut  == [op |-> "none", res |-> "", v |-> 0]
Gave(op, res, v) == [op |-> op, res |-> res, v |-> v]

\* a grammar with names as bytes, the way Grammars wants it
Named(g) ==
  TLCEval([i \in DOMAIN g |->
     [head |-> g[i].head,
      alts |-> [a \in DOMAIN g[i].alts |->
                  [s \in DOMAIN g[i].alts[a] |->
                     LET y == g[i].alts[a][s]
                     IN IF y.k = "n" THEN [k |-> "n", v |-> <<>>, n |-> y.v]
                        ELSE [k |-> y.k, v |-> y.v, n |-> <<>>]]]]])

\* the grammars that have a text in the notation
FitName(n) == n # <<>> /\ n[1] \in Nt!Letters /\ \A i \in DOMAIN n : n[i] \in Nt!NameBytes
FitSymbol(y) == CASE y.k = "n" -> FitName(y.v)
                  [] y.k = "t" -> y.v # <<>> /\ \A i \in DOMAIN y.v : y.v[i] \in Nt!Printable \cup {9, 10, 13}
                  [] y.k = "e" -> TRUE
                  [] OTHER -> FALSE
Fit(g) == /\ g # <<>>
          /\ \A i \in DOMAIN g :
               /\ FitName(g[i].head) /\ g[i].alts # <<>>
               /\ \A a \in DOMAIN g[i].alts :
                    /\ g[i].alts[a] # <<>>
                    /\ \A s \in DOMAIN g[i].alts[a] : FitSymbol(g[i].alts[a][s])

\* what a text denotes: [good, rules]
ReadText(w) ==
  LET x == Nt!ReadEnd(SE!FoldLeft(Nt!ReadByte, Nt!Reader, w))
  IN [good |-> x.mode = "good", rules |-> x.rules]

\* the names the machine works with are the numbers, told apart from the
\* built-in ones by a mark; the bytes stand in the object
Mark(n)    == "#" \o ToString(n)
Marked(nm) == [n \in DOMAIN nm |-> Mark(n)]

-----------------------------------------------------------------------------
(* The caller.                                                             *)

SysInit ==
  /\ heap = <<>> /\ call = NoCall /\ out = NoOut
  /\ ast = [nodes |-> <<>>, text |-> <<>>, bind |-> 0, pending |-> <<>>, built |-> <<>>, verdict |-> "idle"]
  /\ table = <<>> /\ names = <<>> /\ src = <<>> /\ m = Idle

Rest == call.op = "none"
Machines == <<parsevars, ast>>

Adds(o, result) ==
  /\ heap' = Append(heap, TLCEval(o)) /\ out' = TLCEval(result)
  /\ call' = NoCall /\ UNCHANGED Machines

Make(o)   == Rest /\ Adds(o, Gave("make", "ok", 0))
Parser(i) == Rest /\ Is(i, "table") /\ Adds(ParserObj(i), Gave("make", "ok", 0))

\* object i gets the contents of o; one that parsers were made of is left alone
Overwrite(i, o) ==
  /\ Rest /\ i \in DOMAIN heap /\ (o.kind = heap[i].kind \/ o = Lost)
  /\ heap' = Append([heap EXCEPT ![i] = o], None)
  /\ out' = Gave("set", "ok", 0) /\ call' = NoCall /\ UNCHANGED Machines

-----------------------------------------------------------------------------
(* The library: calls of one step.                                         *)

Generated(gr) ==
  LET g == Named(gr)
  IN IF ~WellFormed(g) THEN [o |-> None, r |-> Gave("gen", "err", 0)]
     ELSE LET R == Resolve(g)
              N == Nullable(R)
              F == First(R, N)
              W == Follow(R, N, F)
              nm == [r \in 0..(Len(g) - 1) |-> g[r + 1].head]
          IN IF IsLL1(R, N, F, W)
             THEN [o |-> TableObj(TableOf(R, N, F, W), nm), r |-> Gave("gen", "ok", nm)]
             ELSE [o |-> None, r |-> Gave("gen", "err", 0)]

Generate(i) ==
  /\ Rest /\ Is(i, "grammar")
  /\ LET x == TLCEval(Generated(heap[i].g)) IN Adds(x.o, x.r)

\* printing gives notation that denotes the grammar; for a grammar that has
\* none, nothing is said about the text
Printed(g)  == Gave("print", IF Fit(g) THEN "ok" ELSE "any", g)
PrintOut(i) == Rest /\ Is(i, "grammar") /\ Adds(None, Printed(heap[i].g))

\* a walk with a visitor of its own for every level sees every node once
Depths(ns) ==
  LET Down(d, i) == \* d: [open: how many children are to come, innermost first; list: depths]
        LET o == IF ns[i][4] > 0 THEN <<ns[i][4]>> \o d.open ELSE d.open
            RECURSIVE Close(_)
            Close(s) == IF s = <<>> THEN <<>>
                        ELSE IF s[1] = 1 THEN Close(Tail(s)) ELSE <<s[1] - 1>> \o Tail(s)
        IN [open |-> IF ns[i][4] > 0 THEN o ELSE Close(o), list |-> Append(d.list, Len(d.open))]
  IN SE!FoldLeft(Down, [open |-> <<>>, list |-> <<>>], [i \in 1..Len(ns) |-> i]).list

Walked(ns) ==
  LET ds == Depths(ns)
  IN Gave("walk", "ok", [j \in DOMAIN ns |-> <<ds[j], ns[j][1], ns[j][2], ns[j][3]>>])
Walk(i) == Rest /\ Is(i, "tree") /\ Adds(None, Walked(heap[i].nodes))

\* the shipped grammar and bindings: the same at every call (fresh is what the
\* first call gave)
Shipped(op, o) == Rest /\ Adds(o, Gave(op, "ok", 0))

-----------------------------------------------------------------------------
(* The library: parsing.                                                   *)

Starts(op, a, b) == call' = [op |-> op, a |-> a, b |-> b] /\ UNCHANGED <<heap, out>>

\* of bytes given in the call, or of source b
ParseBegin(i, w, b) ==
  /\ Rest /\ Is(i, "parser") /\ (b # 0 => Is(b, "source"))
  /\ Starts("parse", i, b)
  /\ LET t == heap[heap[i].of]
     IN Begin(t.rows, TLCEval(Marked(t.names)), IF b = 0 THEN w ELSE heap[b].w)
  /\ UNCHANGED ast

\* many steps in one; y is what the machine ends in and the tree
ParseEnd(y) ==
  /\ call.op = "parse"
  /\ y.m.status \in {"accepted", "rejected"}
  /\ heap' = Append(heap, IF y.m.status = "accepted"
                          THEN TreeObj(TLCEval(y.t.nodes), heap[heap[call.a].of].names, src) ELSE None)
  /\ out' = IF y.m.status = "accepted"
            THEN Gave("parse", "ok", y.t.nodes) ELSE Gave("parse", "err", y.m.err)
  /\ call' = NoCall /\ m' = Idle /\ UNCHANGED <<table, names, src, ast>>

\* the caller's name for what the machine calls by its mark
SaysName(nm, s) == \E n \in DOMAIN nm : Mark(n) = s
TheName(nm, s)  == nm[CHOOSE n \in DOMAIN nm : Mark(n) = s]

-----------------------------------------------------------------------------
(* The library: building a grammar from a tree.                            *)

\* the tree with the children of every node, as AstBuild has it
WithChildren(ns) ==
  LET Down(d, i) ==
        LET RECURSIVE Close(_)
            Close(s) == IF s = <<>> THEN <<>>
                        ELSE IF s[1].n = 1 THEN Close(Tail(s))
                        ELSE <<[s[1] EXCEPT !.n = @ - 1]>> \o Tail(s)
            kids == IF d.open = <<>> THEN d.kids
                    ELSE [d.kids EXCEPT ![d.open[1].i] = Append(@, i)]
        IN [kids |-> kids,
            open |-> IF ns[i][4] > 0 THEN <<[i |-> i, n |-> ns[i][4]]>> \o d.open ELSE Close(d.open)]
      k == TLCEval(SE!FoldLeft(Down, [open |-> <<>>, kids |-> [i \in DOMAIN ns |-> <<>>]],
                       [i \in 1..Len(ns) |-> i]).kids)
  IN [i \in DOMAIN ns |-> [t |-> ns[i][1], s |-> ns[i][2], x |-> ns[i][3], c |-> k[i]]]

\* what a name with an escape sequence under it stands for is left open
EscapeInName(ns, b) ==
  LET kids == TLCEval(WithChildren(ns))
      RECURSIVE Has(_)
      Has(i) == kids[i].t = b.esc \/ \E j \in DOMAIN kids[i].c : Has(kids[i].c[j])
  IN \E i \in DOMAIN kids : kids[i].t \in {b.head, b.nt} /\ Has(i)

ToastBegin(b, t) ==
  /\ Rest /\ Is(b, "bindings") /\ Is(t, "tree")
  /\ Starts("toast", b, t)
  /\ ast' = [nodes |-> TLCEval(WithChildren(heap[t].nodes)), text |-> heap[t].text, bind |-> heap[b].b,
             pending |-> <<>>, built |-> <<>>, verdict |-> "building"]
  /\ UNCHANGED parsevars

ToastEnd ==
  /\ call.op = "toast"
  /\ LET r == TLCEval(A!WholeGrammar)
     IN /\ heap' = Append(heap, IF r.bad THEN None ELSE GrammarObj(r.v))
        /\ out' = IF r.bad THEN Gave("toast", "err", 0) ELSE Gave("toast", "ok", r.v)
  /\ call' = NoCall /\ ast' = [ast EXCEPT !.verdict = "idle"]
  /\ UNCHANGED parsevars

-----------------------------------------------------------------------------
(* What holds: a call of the library changes no object; what it gives is   *)
(* determined by what its arguments hold.                                  *)

LibraryKeeps ==
  [][(out'.op \notin {"set"}) => \A i \in DOMAIN heap : heap'[i] = heap[i]]_sysvars
=============================================================================
