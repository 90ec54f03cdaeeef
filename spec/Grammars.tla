------------------------------ MODULE Grammars ------------------------------
(***************************************************************************)
(* Grammars, what they generate, and which of them are LL(1).              *)
(*                                                                         *)
(* A grammar is a sequence of rules [head |-> name, alts |-> alternatives];*)
(* an alternative is a sequence of symbols                                 *)
(*    [k |-> "t", v |-> bytes, n |-> ""]    a terminal                     *)
(*    [k |-> "n", v |-> <<>>, n |-> name]   a reference to a rule          *)
(*    [k |-> "e", v |-> <<>>, n |-> ""]     nothing, written ""            *)
(* Bytes are 0..255.  The first rule is the start rule.                    *)
(*                                                                         *)
(* Everything below the resolved form works on R = Resolve(g): a sequence  *)
(* (by rule, 1-based) of sequences of alternatives whose symbols are       *)
(* [k |-> "t", v |-> bytes, i |-> 0] or [k |-> "n", v |-> <<>>, i |-> rule]*)
(* with the alternative "" resolved to the empty sequence.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC

EOI == 0          \* the key of a table cell for "end of input"

-----------------------------------------------------------------------------
(* Well-formedness: the flaws that make a grammar meaningless.             *)

Heads(g) == {g[i].head : i \in DOMAIN g}

Symbols(g) == UNION {UNION {{g[i].alts[a][s] : s \in DOMAIN g[i].alts[a]}
                            : a \in DOMAIN g[i].alts} : i \in DOMAIN g}

NoRules(g)        == g = <<>>
DuplicateHead(g)  == \E i, j \in DOMAIN g : i # j /\ g[i].head = g[j].head
EmptyAlt(g)       == \E i \in DOMAIN g : \E a \in DOMAIN g[i].alts :
                        g[i].alts[a] = <<>>
EmptyTerminal(g)  == \E s \in Symbols(g) : s.k = "t" /\ s.v = <<>>
NulTerminal(g)    == \E s \in Symbols(g) : s.k = "t" /\ s.v # <<>> /\ s.v[1] = EOI
NothingMixed(g)   == \E i \in DOMAIN g : \E a \in DOMAIN g[i].alts :
                        /\ Len(g[i].alts[a]) > 1
                        /\ \E s \in DOMAIN g[i].alts[a] : g[i].alts[a][s].k = "e"
UndefinedName(g)  == \E s \in Symbols(g) : s.k = "n" /\ s.n \notin Heads(g)

Flaws(g) ==
  (IF NoRules(g) THEN {"no-rules"} ELSE {}) \cup
  (IF DuplicateHead(g) THEN {"duplicate-head"} ELSE {}) \cup
  (IF EmptyAlt(g) THEN {"empty-alternative"} ELSE {}) \cup
  (IF EmptyTerminal(g) THEN {"empty-terminal"} ELSE {}) \cup
  (IF NulTerminal(g) THEN {"nul-terminal"} ELSE {}) \cup
  (IF NothingMixed(g) THEN {"nothing-mixed"} ELSE {}) \cup
  (IF UndefinedName(g) THEN {"undefined-name"} ELSE {})

WellFormed(g) == Flaws(g) = {}

-----------------------------------------------------------------------------
(* Resolved form of a well-formed grammar.                                 *)

RuleNo(g, name) == CHOOSE i \in DOMAIN g : g[i].head = name

Resolve(g) == TLCEval(
  [i \in DOMAIN g |->
    [a \in DOMAIN g[i].alts |->
      IF Len(g[i].alts[a]) = 1 /\ g[i].alts[a][1].k = "e"
      THEN <<>>
      ELSE [s \in DOMAIN g[i].alts[a] |->
             LET y == g[i].alts[a][s]
             IN IF y.k = "n"
                THEN [k |-> "n", v |-> <<>>, i |-> RuleNo(g, y.n)]
                ELSE [k |-> "t", v |-> y.v, i |-> 0]]]])

From(alt, p) == SubSeq(alt, p, Len(alt))

-----------------------------------------------------------------------------
(* The classical sets as one round of their defining equations.  Their     *)
(* least fixpoints are reached by iterating from below.                    *)

AltNullable(alt, N) == \A s \in DOMAIN alt : alt[s].k = "n" /\ alt[s].i \in N

NullableRound(R, N) ==
  N \cup {i \in DOMAIN R : \E a \in DOMAIN R[i] : AltNullable(R[i][a], N)}

RECURSIVE AltFirst(_, _, _)
AltFirst(alt, N, F) ==
  IF alt = <<>> THEN {}
  ELSE IF alt[1].k = "t" THEN {alt[1].v[1]}
  ELSE F[alt[1].i] \cup
       (IF alt[1].i \in N THEN AltFirst(Tail(alt), N, F) ELSE {})

FirstRound(R, N, F) ==
  [i \in DOMAIN R |-> UNION {AltFirst(R[i][a], N, F) : a \in DOMAIN R[i]}]

\* all places where a rule is referred to: <<rule, alternative, position>>
Places(R) ==
  UNION {UNION {{<<i, a, p>> : p \in {q \in DOMAIN R[i][a] : R[i][a][q].k = "n"}}
                : a \in DOMAIN R[i]} : i \in DOMAIN R}

FollowRound(R, N, F, W) ==
  LET P == Places(R)
      At(pl) == LET rest == From(R[pl[1]][pl[2]], pl[3] + 1)
                IN AltFirst(rest, N, F) \cup
                   (IF AltNullable(rest, N) THEN W[pl[1]] ELSE {})
  IN [i \in DOMAIN R |->
        W[i] \cup (IF i = 1 THEN {EOI} ELSE {}) \cup
        UNION {At(pl) : pl \in {q \in P : R[q[1]][q[2]][q[3]].i = i}}]

ProductiveRound(R, P) ==
  P \cup {i \in DOMAIN R : \E a \in DOMAIN R[i] :
            \A s \in DOMAIN R[i][a] : R[i][a][s].k = "t" \/ R[i][a][s].i \in P}

NoSets(R) == [i \in DOMAIN R |-> {}]

(* The least fixpoints.  Rounds reach them, in any order and number (that   *)
(* is what MCTableGen shows); here sweeps are used, which visit the rules   *)
(* upwards and downwards in turn and use at once what was gained.           *)

RECURSIVE NullableSweep(_, _, _, _), FirstSweep(_, _, _, _, _),
          FollowSweep(_, _, _, _, _), NullableFix(_, _), FirstFix(_, _, _),
          FollowFix(_, _, _), ProductiveFix(_, _)

\* from rule i on, in direction d
NullableSweep(R, N, i, d) ==
  IF i \notin DOMAIN R THEN N
  ELSE NullableSweep(R, IF i \in N \/ \E a \in DOMAIN R[i] : AltNullable(R[i][a], N)
                        THEN N \cup {i} ELSE N, i + d, d)
NullableFix(R, N) ==
  LET M == NullableSweep(R, NullableSweep(R, N, 1, 1), Len(R), -1)
  IN IF M = N THEN N ELSE NullableFix(R, M)

FirstSweep(R, N, F, i, d) ==
  IF i \notin DOMAIN R THEN F
  ELSE LET n == UNION {AltFirst(R[i][a], N, F) : a \in DOMAIN R[i]}
       IN FirstSweep(R, N, IF n = F[i] THEN F ELSE [F EXCEPT ![i] = n], i + d, d)
FirstFix(R, N, F) ==
  LET E == FirstSweep(R, N, FirstSweep(R, N, F, 1, 1), Len(R), -1)
  IN IF E = F THEN F ELSE FirstFix(R, N, E)

\* for every rule: the bytes that can follow it where it is used, and the rules
\* it can end there, whose FOLLOW it shares
Uses(R, N, F) ==
  LET P == Places(R)
      rest == TLCEval([q \in P |-> From(R[q[1]][q[2]], q[3] + 1)])
      first == TLCEval([q \in P |-> AltFirst(rest[q], N, F)])
      ends == {q \in P : AltNullable(rest[q], N)}
  IN [i \in DOMAIN R |->
        LET Q == {q \in P : R[q[1]][q[2]][q[3]].i = i}
        IN [bytes |-> (IF i = 1 THEN {EOI} ELSE {}) \cup UNION {first[q] : q \in Q},
            rules |-> {q[1] : q \in Q \cap ends}]]

FollowSweep(R, U, W, i, d) ==
  IF i \notin DOMAIN R THEN W
  ELSE LET n == U[i].bytes \cup UNION {W[j] : j \in U[i].rules \cup {i}}
       IN FollowSweep(R, U, IF n = W[i] THEN W ELSE [W EXCEPT ![i] = n], i + d, d)
FollowFix(R, U, W) ==
  LET V == FollowSweep(R, U, FollowSweep(R, U, W, 1, 1), Len(R), -1)
  IN IF V = W THEN W ELSE FollowFix(R, U, V)

ProductiveFix(R, P) == LET Q == ProductiveRound(R, P)
                       IN IF Q = P THEN P ELSE ProductiveFix(R, Q)

Nullable(R)        == TLCEval(NullableFix(R, {}))
First(R, N)        == TLCEval(FirstFix(R, N, NoSets(R)))
Follow(R, N, F)    == TLCEval(FollowFix(R, TLCEval(Uses(R, N, F)), NoSets(R)))
Reduced(R)         == ProductiveFix(R, {}) = DOMAIN R   \* every rule derives a string

-----------------------------------------------------------------------------
(* LL(1): the next byte (or the end of input) selects the alternative.     *)

Predict(R, N, F, W, i, a) ==
  AltFirst(R[i][a], N, F) \cup
  (IF AltNullable(R[i][a], N) THEN W[i] ELSE {})

RuleLL1(R, N, F, W, i) ==
  LET P == TLCEval([a \in DOMAIN R[i] |-> Predict(R, N, F, W, i, a)])
  IN \A a, b \in DOMAIN R[i] : a < b => P[a] \cap P[b] = {}

IsLL1(R, N, F, W) == \A i \in DOMAIN R : RuleLL1(R, N, F, W, i)

(* The operations of a table cell.  Rule numbers in tables are 0-based.    *)
AltOps(alt) ==
  [s \in DOMAIN alt |-> IF alt[s].k = "n"
                        THEN [k |-> "n", v |-> <<>>, i |-> alt[s].i - 1]
                        ELSE [k |-> "t", v |-> alt[s].v, i |-> 0]]

(* Row of a rule: next byte -> operations.  A rule that is to match the    *)
(* empty string - its byte is not in FIRST of the alternative selected -   *)
(* gets no operations at all, also when the alternative has symbols.       *)
Row(R, N, F, W, i) ==
  LET P == TLCEval([a \in DOMAIN R[i] |-> Predict(R, N, F, W, i, a)])
      keys == UNION {P[a] : a \in DOMAIN R[i]}
  IN [b \in keys |->
        LET a == CHOOSE x \in DOMAIN R[i] : b \in P[x]
        IN IF b \in AltFirst(R[i][a], N, F) THEN AltOps(R[i][a]) ELSE <<>>]

\* rows by rule number, 0-based
TableOf(R, N, F, W) == [r \in 0..(Len(R) - 1) |-> Row(R, N, F, W, r + 1)]

-----------------------------------------------------------------------------
(* What a grammar derives, without any reference to prediction: for a      *)
(* bound K, the set of <<w, whole>> such that w is a derived string no     *)
(* longer than K (whole = TRUE) or the first K bytes of a longer one       *)
(* (whole = FALSE).  Least solution of the grammar's equations.            *)

Cut(w, K) == IF Len(w) > K THEN <<SubSeq(w, 1, K), FALSE>> ELSE <<w, TRUE>>

RECURSIVE AltLang(_, _, _)
AltLang(alt, L, K) ==
  IF alt = <<>> THEN {<< <<>>, TRUE >>}
  ELSE LET hd == IF alt[1].k = "t" THEN {Cut(alt[1].v, K)} ELSE L[alt[1].i]
           tl == AltLang(Tail(alt), L, K)
       IN UNION {IF h[2] = FALSE
                 THEN (IF tl = {} THEN {} ELSE {h})
                 ELSE {LET c == Cut(h[1] \o t[1], K)
                       IN <<c[1], c[2] /\ t[2]>> : t \in tl}
                 : h \in hd}

LangRound(R, L, K) ==
  [i \in DOMAIN R |-> UNION {AltLang(R[i][a], L, K) : a \in DOMAIN R[i]}]

RECURSIVE LangFix(_, _, _)
LangFix(R, L, K) == LET M == LangRound(R, L, K)
                    IN IF M = L THEN L ELSE LangFix(R, M, K)

Lang(R, K) == LangFix(R, NoSets(R), K)

\* strings of length <= K derived from the start rule
Sentences(L)  == {x[1] : x \in {y \in L[1] : y[2]}}
\* strings of length <= K with which some sentence starts
Prefixes(L)   == UNION {{SubSeq(x[1], 1, n) : n \in 0..Len(x[1])} : x \in L[1]}
-----------------------------------------------------------------------------
(* Membership in the language of any resolved grammar, LL(1) or not: the   *)
(* least set of <<rule, from, to>> such that the rule derives bytes        *)
(* from+1 .. to of w.                                                      *)

RECURSIVE AltEnds(_, _, _, _)
\* where a derivation of alt from any of the offsets in st can end
AltEnds(alt, st, S, w) ==
  IF alt = <<>> \/ st = {} THEN st
  ELSE AltEnds(Tail(alt),
         IF alt[1].k = "t"
         THEN {f + Len(alt[1].v) :
                 f \in {x \in st : SubSeq(w, x + 1, x + Len(alt[1].v)) = alt[1].v}}
         ELSE {x[3] : x \in {y \in S : y[1] = alt[1].i /\ y[2] \in st}},
         S, w)

SpansRound(R, S, w) ==
  S \cup UNION {UNION {{<<i, f, t>> : t \in UNION {AltEnds(R[i][a], {f}, S, w) : a \in DOMAIN R[i]}}
                      : f \in 0..Len(w)} : i \in DOMAIN R}

RECURSIVE SpansFix(_, _, _)
SpansFix(R, S, w) == LET T == SpansRound(R, S, w)
                     IN IF T = S THEN S ELSE SpansFix(R, T, w)

Member(R, w) == <<1, 0, Len(w)>> \in SpansFix(R, {}, w)
=============================================================================
