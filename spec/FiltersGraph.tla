---------------------------- MODULE FiltersGraph ----------------------------
(***************************************************************************)
(* Bounded model of filters and subscription sets: every small filter at   *)
(* every offset around byte boundaries, every pair (and some triples) of   *)
(* overlapping filters, every set of short filters to be nested, every     *)
(* small file.  TLC checks the design lemmas and prints each case with the *)
(* demanded outcome; the driver replays the cases on the real code.        *)
(***************************************************************************)
EXTENDS Filters, Json, IOUtils

Deep == IOEnv.DEEP = "1"

Words(A, n) == TLCEval([1..n -> A])
Str(w) == Join(w)
UpTo(A, n) == TLCEval(UNION {{Str(w) : w \in Words(A, k)} : k \in 1..n})
BW == {"0", "1", "x"}
Bin == {"0", "1"}

VARIABLES kase, phase, outcome
vars == <<kase, phase, outcome>>

Case(op, fs, ids, rows) == [op |-> op, fs |-> fs, ids |-> ids, rows |-> rows]
\* two-letter stripes of n bits: long filters over several bytes
Stripe(n, p) == SubSeq(Rep(p, n), 1, n)

(* the IDs that decide a filter: all bits 0 or 1 where free, and each single bit of its bytes flipped; also one byte shorter and longer *)
Fill(b, off, c, n) == Join([p \in 1..n |-> LET a == At(b, off, p - 1) IN IF a = "x" THEN c ELSE a])
Flip(s, i) == SubSeq(s, 1, i - 1) \o (IF Ch(s, i) = "0" THEN "1" ELSE "0") \o SubSeq(s, i + 1, Len(s))
Probes(b, off) ==
  LET n == 8 * EndByte(b, off)
      lo == 8 * FirstByte(b, off)
      z == Fill(b, off, "0", n)
      o == Fill(b, off, "1", n)
  IN <<z, o, SubSeq(z, 1, n - 8), z \o "00000000", o \o "11111111", "">>
     \o [i \in 1..(n - lo) |-> Flip(z, lo + i)] \o [i \in 1..(n - lo) |-> Flip(o, lo + i)]

ObjFilters == UpTo(BW, IF Deep THEN 4 ELSE 3) \cup {Stripe(n, p) : n \in {7, 8, 9, 15, 16, 17, 24, 25}, p \in {"0", "1", "x", "01", "1x", "10x"}}
ObjCase == \E b \in ObjFilters : \E off \in 0..17 : kase = Case("obj", <<<<b, off>>>>, Probes(b, off), <<>>)

\* pairs and triples of filters which overlap in some byte
CompFilters == UpTo(Bin, 2) \cup {"x1", "0x", "1x0", Stripe(8, "10"), Stripe(9, "10"), Stripe(12, "1x0"), Stripe(17, "01")}
CompOffs == {0, 3, 7, 8, 15}
\* a filter's bits occur once in a collection
CompCase ==
  \/ \E a, b \in CompFilters : \E o, q \in CompOffs :
       a # b /\ Overlapping(<<<<a, o>>, <<b, q>>>>) /\ kase = Case("comp", <<<<a, o>>, <<b, q>>>>, <<>>, <<>>)
  \/ \E a, b, d \in {"1", "0", "11", "1x0", Stripe(8, "10"), Stripe(17, "01")} : \E o, q \in {0, 3, 8} :
       /\ Cardinality({a, b, d}) = 3
       /\ Overlapping(<<<<a, o>>, <<b, q>>, <<d, 3>>>>)
       /\ kase = Case("comp", <<<<a, o>>, <<b, q>>, <<d, 3>>>>, <<>>, <<>>)
  \/ \E a \in CompFilters : \E o \in CompOffs : kase = Case("comp", <<<<a, o>>>>, <<>>, <<>>)

\* every set of binary strings of up to three bits (and of some longer ones)
NestWords == IF Deep THEN UpTo(Bin, 3) ELSE UpTo(Bin, 2) \cup {"000", "010", "011", "101", "110"}
LongWords == {"0", "0110", "01100", "011001", "01101", "1", "10101010", "101010101", "1010", "10100000"}
NestCase == \E W \in {NestWords, LongWords} : \E S \in SUBSET W : \E base \in {0, 5} :
              S # {} /\ kase = Case("nest", [k \in 1..Cardinality(S) |-> <<SetToSeq(S)[k], base>>], <<>>, <<>>)

\* every small file
Cols == {"http://a", "HTTPS://B", "urn:epc:pat:sgtin-96:3", "URN:EPC:PAT:sscc-96:1", "x"}
Row1 == UNION {[1..k -> Cols] : k \in 1..(IF Deep THEN 3 ELSE 2)}
LoadCase == \/ \E r \in UNION {[1..k -> Cols] : k \in 1..4} : kase = Case("load", <<>>, <<>>, <<r>>)
            \/ \E r, s \in Row1 : kase = Case("load", <<>>, <<>>, <<r, s>>)
            \/ \E r, s, u \in {<<"http://a", "urn:epc:pat:sgtin-96:3">>, <<"HTTP://A", "urn:epc:pat:sgtin-96:4", "urn:epc:pat:sgtin-96:5">>, <<"x">>,
                               <<"http://a">>, <<"https://b", "x", "URN:EPC:PAT:sscc-96:1">>} : kase = Case("load", <<>>, <<>>, <<r, s, u>>)

---------------------------------------------------------------------------
Canon(b, off, n) == Join([p \in 1..n |-> At(b, off, p - 1)])
MaxEnd(fs) == LET E == {EndByte(fs[k][1], fs[k][2]) : k \in 1..Len(fs)} IN CHOOSE m \in E : \A e \in E : e <= m
CommonBits(fs) ==
  LET n == 8 * MaxEnd(fs)
      c == Common(fs)
  IN Join([p \in 1..n |-> IF <<p - 1, "0">> \in c THEN "0" ELSE IF <<p - 1, "1">> \in c THEN "1" ELSE "x"])

Answer ==
  CASE kase.op = "obj" ->
         LET b == kase.fs[1][1]
             off == kase.fs[1][2]
         IN <<IF Transparent(b) THEN "transparent" ELSE "opaque", ToString(FirstByte(b, off)), ToString(EndByte(b, off)),
              Join([k \in 1..Len(kase.ids) |-> IF FilterMatches(kase.ids[k], b, off) THEN "y" ELSE "n"])>>
            \o [k \in 1..(EndByte(b, off) - FirstByte(b, off)) |->
                  LET v == ByteAt(b, off, FirstByte(b, off) + k - 1) IN ValueBits(v) \o MaskBits(v)]
    [] kase.op = "comp" -> <<CommonBits(kase.fs)>> \o [k \in 1..Len(kase.fs) |-> Canon(kase.fs[k][1], kase.fs[k][2], 8 * EndByte(kase.fs[k][1], kase.fs[k][2]))]
    [] kase.op = "nest" ->
         LET S == {kase.fs[k][1] : k \in 1..Len(kase.fs)}
         IN [k \in 1..Len(kase.fs) |-> LET n == Nested(S, kase.fs[k][1], kase.fs[k][2]) IN n[1] \o " " \o n[2] \o " " \o ToString(n[3])]
    [] kase.op = "load" ->
         LET want == Listed(kase.rows)
         IN SetToSeq({u \o FoldLeft(LAMBDA a, p : a \o " " \o p, "", want[u]) : u \in DOMAIN want})

Init == phase = "case" /\ outcome = <<>> /\ (ObjCase \/ CompCase \/ NestCase \/ LoadCase)
Next == /\ phase = "case" /\ phase' = "done" /\ UNCHANGED kase
        /\ \E a \in {Answer} : outcome' = a /\ PrintT("@@" \o ToJson([c |-> kase, want |-> a]))

---------------------------------------------------------------------------
(* design lemmas *)
\* a filter's byte view decides exactly what the filter matches
ViewDecides ==
  phase = "done" /\ kase.op = "obj" =>
    \A k \in 1..Len(kase.ids) :
      LET b == kase.fs[1][1]
          off == kase.fs[1][2]
          id == kase.ids[k]
      IN FilterMatches(id, b, off) =
         (Len(id) >= 8 * EndByte(b, off) /\
            \A n \in Covered(b, off) : \A j \in 1..8 : Ch(ByteAt(b, off, n), j) \in {"x", Ch(id, 8 * n + j)})
\* a common part is demanded by every filter, and something satisfies it
CommonOk == phase = "done" /\ kase.op = "comp" =>
   \A k \in 1..Len(kase.fs) : Common(kase.fs) \subseteq C(kase.fs[k])
\* nesting is a forest: offsets grow along it and nothing lies beneath itself
Forest == phase = "done" /\ kase.op = "nest" =>
   LET S == {kase.fs[k][1] : k \in 1..Len(kase.fs)}
   IN \A x \in S : LET n == Nested(S, x, 0) IN n[2] # "-" => n[2] \in S /\ Len(n[2]) < Len(x) /\ n[3] = Len(n[2])
\* an accepted file lists only patterns, and all of them
Loaded == phase = "done" /\ kase.op = "load" =>
   LET want == Listed(kase.rows)
       total == FoldLeft(LAMBDA a, r : a + (IF IsReportURI(r[1]) THEN Len(RowPats(r)) ELSE 0), 0, kase.rows)
   IN /\ \A u \in DOMAIN want : u = ToLower(u) /\ want[u] # <<>>
      /\ FoldLeft(LAMBDA a, u : a + Len(want[u]), 0, SetToSeq(DOMAIN want)) = total
=============================================================================
