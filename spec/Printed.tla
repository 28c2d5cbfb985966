------------------------------ MODULE Printed -------------------------------
(***************************************************************************)
(* What an engine prints of itself.                                        *)
(*                                                                         *)
(* List: a line per subscription.  PatriciaTrie, SplayTree: an outline.  A *)
(* line of the trie continues the bits of the line it hangs under; a line  *)
(* of the splay tree does so under "ok" and stands beside it under "ng".   *)
(* Lines with a subscriber are the subscriptions.  LegacyEngine: a line    *)
(* per subscriber with its patterns.                                       *)
(***************************************************************************)
EXTENDS Engine

\* a line: [depth, how ("", "ok", "ng"), bits, off, size, uri]; the acc holds the bits up to and before the line at each depth
ReadLine(acc, ln) ==
  LET d == ln.depth + 1
      fits == d <= Len(acc.upto) + 1 /\ (d = 1 => acc.upto = <<>>) /\ (d = 1) = (ln.how = "top")
      before == IF d = 1 THEN "" ELSE IF ln.how = "ng" THEN acc.from[d - 1] ELSE acc.upto[d - 1]
  IN IF ~acc.sound \/ ~fits THEN [acc EXCEPT !.sound = FALSE]
     ELSE [upto  |-> Append(SubSeq(acc.upto, 1, d - 1), before \o ln.bits),
           from  |-> Append(SubSeq(acc.from, 1, d - 1), before),
           told  |-> IF ln.uri = "" THEN acc.told ELSE Append(acc.told, <<before \o ln.bits, ln.uri>>),
           sound |-> ln.size = Len(ln.bits) /\ ln.off = Len(before)]
Outline(lines) == FoldLeft(ReadLine, [upto |-> <<>>, from |-> <<>>, told |-> <<>>, sound |-> TRUE], lines)

\* the subscriptions told, one after the other; <<ERR, "">> if it is no such text
Told(kind, e) ==
  CASE kind = TextKind -> FlattenSeq([k \in 1..Len(e.listing) |-> [j \in 1..Len(e.listing[k][2]) |-> <<e.listing[k][2][j], e.listing[k][1]>>]])
    [] kind = "List"   -> IF \A k \in 1..Len(e.lines) : LET ln == e.lines[k] IN ln.depth = 0 /\ ln.off = 0 /\ ln.size = Len(ln.bits)
                          THEN [k \in 1..Len(e.lines) |-> <<e.lines[k].bits, e.lines[k].uri>>]
                          ELSE <<<<ERR, "">>>>
    [] OTHER           -> LET o == Outline(e.lines) IN IF o.sound THEN o.told ELSE <<<<ERR, "">>>>

\* every subscription is told once, and nothing else
\* (a GIAI-96 pattern of more than 96 bits, which no tag has, may be refused or kept)
Moot(t) == Len(t[1]) > 96 /\ StartsWith(t[1], "00110100")
PrintedOk(eng, e) ==
  \E told \in {Told(eng.kind, e)} :
     /\ Cardinality(ToSet(told)) = Len(told)
     /\ eng.subs \subseteq ToSet(told)
     /\ \A t \in ToSet(told) \ eng.subs : eng.kind # TextKind /\ Moot(t)
=============================================================================
