---------------------------- MODULE FiltersTrace ----------------------------
(***************************************************************************)
(* Trace validation of filter objects, compositions, subscription sets,    *)
(* their nesting, copying, storing and loading.                            *)
(***************************************************************************)
EXTENDS Filters, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

(* a filter object: its bytes as seen through GetByteAt/HasByteAt (n from 0), and what it matches *)
ObjOk(e) ==
  LET n == Len(e.has)
  IN /\ e.size = Len(e.bits) /\ e.string = e.bits /\ e.offset = e.off
     /\ e.show = e.bits \o "(" \o ToString(e.off) \o " " \o ToString(Len(e.bits)) \o ")"
     /\ e.transparent = Transparent(e.bits)
     /\ \A k \in 1..n :
          LET cov == (k - 1) \in Covered(e.bits, e.off)
              v == ByteAt(e.bits, e.off, k - 1)
          IN /\ e.has[k] = cov
             /\ IF cov THEN e.value[k] = ValueBits(v) /\ e.mask[k] = MaskBits(v) ELSE e.value[k] = "ERR"
     /\ ~e.neg
     /\ \A k \in 1..Len(e.probes) :
          LET id == e.probes[k][1]
          IN \/ (e.probes[k][2] = "yes") = FilterMatches(id, e.bits, e.off)
             \/ e.bits = "" /\ Len(id) < e.off + 8         \* no bits at the end of the ID: either answer will do

CompOk(e) ==
  Overlapping(e.filters) =>
    /\ C(e.common) = Common(e.filters)
    /\ \A k \in 1..Len(e.filters) : \E j \in 1..Len(e.rests) : e.rests[j][1] = e.filters[k][1]
    /\ \A j \in 1..Len(e.rests) : \E k \in 1..Len(e.filters) :
          e.rests[j][1] = e.filters[k][1] /\ Splits(e.filters[k], e.common, <<e.rests[j][2], e.rests[j][3]>>)
    \* the real matching of the parts agrees with that of the whole
    /\ \A k \in 1..Len(e.probes) : e.probes[k][2] = e.probes[k][3]

\* nodes: <<full bits, parent's full bits or "-", offset, uri, count>>
NestOk(e) ==
  LET S == {e.filters[k][1] : k \in 1..Len(e.filters)}
  IN /\ Len(e.nodes) = Cardinality(S)
     /\ {e.nodes[k][1] : k \in 1..Len(e.nodes)} = S
     /\ \A k \in 1..Len(e.nodes) :
          LET n == e.nodes[k]
          IN /\ <<n[1], n[2], n[3]>> = Nested(S, n[1], e.base)
             /\ \E j \in 1..Len(e.filters) : e.filters[j] = <<n[1], n[4]>>

\* what an arrangement prints of itself: a line continues the bits of the line it hangs under
\* lines: <<depth, bits, offset, uri>>; nodes as above
ReadArranged(acc, ln) ==
  LET d == ln[1] + 1
  IN IF ~acc.sound \/ d > Len(acc.upto) + 1 THEN [acc EXCEPT !.sound = FALSE]
     ELSE LET under == IF d = 1 THEN "-" ELSE acc.upto[d - 1]
              full == (IF d = 1 THEN "" ELSE under) \o ln[2]
          IN [upto |-> Append(SubSeq(acc.upto, 1, d - 1), full), told |-> Append(acc.told, <<full, under, ln[3], ln[4]>>), sound |-> TRUE]
OutlineOk(e) ==
  \E acc \in {FoldLeft(ReadArranged, [upto |-> <<>>, told |-> <<>>, sound |-> TRUE], e.lines)} :
     /\ acc.sound /\ Len(acc.told) = Len(e.nodes)
     /\ ToSet(acc.told) = {<<e.nodes[k][1], e.nodes[k][2], e.nodes[k][3], e.nodes[k][4]>> : k \in 1..Len(e.nodes)}

\* a stored and reloaded arrangement, or set, or a copy is the same
SameOk(e) == e.before = e.got /\ e.before = e.after

GotOk(e, want) ==
  /\ {e.got[k][1] : k \in 1..Len(e.got)} = DOMAIN want
  /\ Len(e.got) = Cardinality(DOMAIN want)
  /\ \A k \in 1..Len(e.got) : e.got[k][2] = want[e.got[k][1]]
LoadOk(e) ==
  \E rows \in {CsvRows(e.text)} :
     /\ rows = e.rows         \* the recorder and the specification agree on what was written
     /\ \E want \in {Listed(rows)} : GotOk(e, want)

\* a big file: what was written is taken from the recorder
BigOk(e) == \E want \in {Listed(e.rows)} : GotOk(e, want)

KeysOk(e) == ToSet(e.keys) = ToSet(e.want) /\ Len(e.keys) = Len(e.want)

Want(e) ==
  CASE e.op = "obj"  -> ToString(<<Transparent(e.bits), [k \in 1..Len(e.probes) |-> FilterMatches(e.probes[k][1], e.bits, e.off)]>>)
    [] e.op = "comp" -> ToString(Common(e.filters))
    [] e.op = "nest" -> LET S == {e.filters[k][1] : k \in 1..Len(e.filters)} IN ToString({Nested(S, x, e.base) : x \in S})
    [] e.op = "outline" -> ToString(e.nodes)
    [] e.op = "load" -> ToString(Listed(CsvRows(e.text)))
    [] e.op = "bigload" -> ToString(Len(e.rows)) \o " rows"
    [] OTHER         -> "the same"

Allowed(e) ==
  /\ e.panic = ""
  /\ CASE e.op = "obj"  -> ObjOk(e)
       [] e.op = "comp" -> CompOk(e)
       [] e.op = "nest" -> NestOk(e)
       [] e.op = "same" -> SameOk(e)
       [] e.op = "outline" -> OutlineOk(e)
       [] e.op = "keys" -> KeysOk(e)
       [] e.op = "load" -> LoadOk(e)
       [] e.op = "bigload" -> BigOk(e)

VARIABLES tid, pos, verdict
vars == <<tid, pos, verdict>>
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok"
Next ==
  /\ verdict = "ok" /\ pos <= Len(Traces[tid])
  /\ UNCHANGED tid
  /\ \E e \in {Traces[tid][pos]} :
       IF Allowed(e) THEN pos' = pos + 1 /\ UNCHANGED verdict
       ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> Want(e)]))
            /\ verdict' = "rejected" /\ UNCHANGED pos
Spec == Init /\ [][Next]_vars
=============================================================================
