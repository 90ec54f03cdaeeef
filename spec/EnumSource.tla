----------------------------- MODULE EnumSource -----------------------------
(***************************************************************************)
(* From the specification to the code: every way in which a reader can     *)
(* deliver a short input - chunks, empty reads, the end with the last      *)
(* bytes or after them, a fault anywhere - for inputs that a grammar       *)
(* accepts or rejects at various places.                                   *)
(***************************************************************************)
EXTENDS Source, TLC, Json

CONSTANT Empties        \* most empty reads in all
VARIABLES given, log
vars == <<sourcevars, given, log>>

\* A ::= "ab" A | "c" | nothing
Gr == <<[head |-> "A", alts |->
          <<<<[k |-> "t", v |-> <<97, 98>>, n |-> ""], [k |-> "n", v |-> <<>>, n |-> "A"]>>,
            <<[k |-> "t", v |-> <<99>>, n |-> ""]>>,
            <<[k |-> "e", v |-> <<>>, n |-> ""]>>>>]>>
Inputs == {<<>>, <<99>>, <<100>>, <<97>>, <<97, 98>>, <<97, 99>>, <<97, 98, 99>>, <<97, 98, 0>>, <<99, 99, 0>>,
           <<97, 98, 97, 98>>, <<97, 98, 97, 97>>, <<97, 98, 97, 98, 99>>, <<97, 98, 99, 10, 10>>, <<0, 0, 0, 0, 0>>}

Init == given \in Inputs /\ SourceInit("reader", Len(given)) /\ log = <<>>

EmptyReads == Len(SelectSeq(log, LAMBDA x : x.n = 0 /\ x.err = ""))

Go ==
  \/ OpenIt /\ UNCHANGED <<given, log>>
  \/ \E n \in 0..(size - got), e \in {"", "eof", "fault"} :
       /\ Read(n, e)
       /\ (n = 0 /\ e = "") => EmptyReads < Empties
       /\ log' = Append(log, [n |-> n, err |-> e]) /\ UNCHANGED given

Parse(form, chunks) == [src |-> given, form |-> form, chunks |-> chunks]
Told ==
  [case |-> [kind |-> "source", g |-> Gr, text |-> given,
             parses |-> <<Parse("string", <<>>), Parse("reader", log)>>],
   want |-> [res |-> "", script |-> <<[kind |-> "all"],
                [kind |-> IF ParsesAll THEN "all" ELSE "fault"]>>]]

Tell == reading \in {"end", "fault"} /\ PrintT("REPLAY " \o ToJson(Told)) /\ FALSE /\ UNCHANGED vars
Next == Go \/ Tell
Spec == Init /\ [][Next]_vars
=============================================================================
