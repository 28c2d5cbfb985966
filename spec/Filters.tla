------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Bit filters, their composition, sets of subscriptions, their nesting    *)
(* and the file they are loaded from.                                      *)
(*                                                                         *)
(* Bits are strings over "0", "1" and the wildcard "x"; bit positions in   *)
(* an ID count from 0.                                                     *)
(***************************************************************************)
EXTENDS Tdt

(* a filter is bits at an offset; what it demands of an ID: *)
Constraints(b, off) == {<<off + k - 1, Ch(b, k)>> : k \in {j \in 1..Len(b) : Ch(b, j) # "x"}}

\* the bytes it lies in
FirstByte(b, off) == off \div 8
EndByte(b, off)   == IF b = "" THEN (off \div 8) + 1 ELSE (off + Len(b) - 1) \div 8 + 1
Covered(b, off)   == FirstByte(b, off)..(EndByte(b, off) - 1)

Carries(id, b, off) == \A k \in 1..Len(b) : Ch(b, k) \in {"x", Ch(id, off + k)}
FilterMatches(id, b, off) == Len(id) >= off + Len(b) /\ Carries(id, b, off)

Transparent(b) == \A k \in 1..Len(b) : Ch(b, k) = "x"

\* the byte view: the bits of byte n, unconstrained ones being "x"
At(b, off, p) == IF p >= off /\ p < off + Len(b) THEN Ch(b, p - off + 1) ELSE "x"
ByteAt(b, off, n) == Join([k \in 1..8 |-> At(b, off, 8 * n + k - 1)])
\* as a byte and a mask of the unconstrained bits, which are 1 in both
Value(c) == IF c = "0" THEN "0" ELSE "1"
Mask(c) == IF c = "x" THEN "1" ELSE "0"
ValueBits(b) == Join([k \in 1..Len(b) |-> Value(Ch(b, k))])
MaskBits(b)  == Join([k \in 1..Len(b) |-> Mask(Ch(b, k))])

---------------------------------------------------------------------------
(* composition of filters fs: <<bits, offset>>, all sharing some byte: a common part, and a rest for each *)

Overlapping(fs) == \E n \in 0..200 : \A k \in 1..Len(fs) : n \in Covered(fs[k][1], fs[k][2])
C(f) == Constraints(f[1], f[2])
Common(fs) == {c \in C(fs[1]) : \A k \in 1..Len(fs) : c \in C(fs[k])}
\* an ID satisfies both the common part and the rest exactly if it satisfies the filter
Splits(f, common, rest) ==
  /\ C(common) \cup C(rest) = C(f)
  /\ EndByte(common[1], common[2]) <= EndByte(f[1], f[2])
  /\ EndByte(rest[1], rest[2]) <= EndByte(f[1], f[2])
  /\ \/ EndByte(common[1], common[2]) = EndByte(f[1], f[2])
     \/ EndByte(rest[1], rest[2]) = EndByte(f[1], f[2])

---------------------------------------------------------------------------
(* nesting: bits beneath their longest proper prefix in the set            *)

Parents(S, x) == {y \in S : y # x /\ StartsWith(x, y)}
Longest(P) == CHOOSE y \in P : \A z \in P : Len(z) <= Len(y)
\* <<bits, parent's bits ("-" if none), offset of the rest of the bits>>
Nested(S, x, base) == IF Parents(S, x) = {} THEN <<x, "-", base>> ELSE <<x, Longest(Parents(S, x)), base + Len(Longest(Parents(S, x)))>>

---------------------------------------------------------------------------
(* a CSV file (RFC 4180): characters to rows of columns *)

NL == "\n"
CsvStep(a, c) ==    \* a: rows, row, field, state
  CASE a.st = "start"  -> IF c = "\"" THEN [a EXCEPT !.st = "quoted"]
                          ELSE IF c = "," THEN [a EXCEPT !.row = Append(@, "")]
                          ELSE IF c = "\r" THEN a
                          ELSE IF c = NL THEN IF a.row = <<>> THEN a      \* an empty line is no record
                                              ELSE [a EXCEPT !.rows = Append(@, Append(a.row, "")), !.row = <<>>]
                          ELSE [a EXCEPT !.st = "bare", !.field = c]
    [] a.st \in {"bare", "closed"} ->
                          IF a.st = "closed" /\ c = "\"" THEN [a EXCEPT !.st = "quoted", !.field = @ \o "\""]
                          ELSE IF c = "," THEN [a EXCEPT !.st = "start", !.row = Append(@, a.field), !.field = ""]
                          ELSE IF c = "\r" THEN a
                          ELSE IF c = NL THEN [a EXCEPT !.st = "start", !.rows = Append(@, Append(a.row, a.field)), !.row = <<>>, !.field = ""]
                          ELSE [a EXCEPT !.field = @ \o c]
    [] a.st = "quoted" -> IF c = "\"" THEN [a EXCEPT !.st = "closed"] ELSE [a EXCEPT !.field = @ \o c]
CsvRows(text) ==
  LET a == FoldLeft(CsvStep, [rows |-> <<>>, row |-> <<>>, field |-> "", st |-> "start"], Chars(text))
  IN IF a.row = <<>> /\ a.st = "start" THEN a.rows ELSE Append(a.rows, Append(a.row, a.field))

(* the subscriptions a file lists: URI -> sequence of patterns *)
IsPattern(t) == Len(t) >= 12 /\ ToLower(SubSeq(t, 1, 12)) = PatPrefix
IsReportURI(t) == StartsWith(ToLower(t), "http")
RowPats(r) == SelectSeq(SubSeq(r, 2, Len(r)), IsPattern)
AddRow(subs, r) ==
  LET u == ToLower(r[1])
  IN IF ~IsReportURI(r[1]) \/ RowPats(r) = <<>> THEN subs
     ELSE (u :> ((IF u \in DOMAIN subs THEN subs[u] ELSE <<>>) \o RowPats(r))) @@ subs
Listed(rows) == FoldLeft(AddRow, <<>>, rows)
=============================================================================
