----------------------------- MODULE Middleware -----------------------------
(***************************************************************************)
(* The whole middleware as the reader and the database see it: a session   *)
(* with the reader, whose reports are searched by every engine, and the    *)
(* statistics about that.  Which engine is in service when, and how many   *)
(* reports an interval covers, is left open here (see Factory).            *)
(***************************************************************************)
EXTENDS Engine, Stat

VARIABLES
  replies,      \* the replies owed to the reader, in order
  msgid,        \* the message ID of replies
  uncounted,    \* engine -> the tags not yet in the statistics, in order: runs of [n: how many, m: do they match]
  tallied,      \* engine -> number of tags in the statistics
  picked        \* the numbers of engines announced so far
mvars == <<engs, account, replies, msgid, uncounted, tallied, picked>>

SetReaderConfig == [type |-> 1027, body |-> "0000dc00090100002710"]     \* keep-alives every 10 s
KeepaliveAck    == [type |-> 1096, body |-> ""]

StartWith(subs, mid, acc) ==
  /\ engs' = [k \in Kinds |-> Built(k, subs)]
  /\ msgid' = mid /\ account' = acc
  /\ replies' = <<>> /\ uncounted' = [k \in Kinds |-> <<>>] /\ tallied' = [k \in Kinds |-> 0] /\ picked' = {}

\* what the reader says, and what it must be answered
Owes(kind) == CASE kind = "event"     -> <<SetReaderConfig>>
                [] kind = "keepalive" -> <<KeepaliveAck>>
                [] OTHER              -> <<>>
\* found: for each tag of a report [n: so many times in a row, by: the engines in which it matches something]
Hear(kind, found) ==
  /\ replies' = replies \o Owes(kind)
  /\ uncounted' = [k \in Kinds |-> uncounted[k] \o [j \in 1..Len(found) |-> [n |-> found[j].n, m |-> k \in found[j].by]]]
  /\ UNCHANGED <<engs, msgid, account, tallied, picked>>
FoundBy(id, identity) == {k \in Kinds : Hits(engs[k], id, identity) # {}}

MaySay(type, mid, body) == replies # <<>> /\ mid = msgid /\ Head(replies) = [type |-> type, body |-> body]
Say == replies' = Tail(replies) /\ UNCHANGED <<engs, msgid, account, uncounted, tallied, picked>>

\* statistics: the next n tags of engine e are counted, m of them match
Least(a, b) == IF a < b THEN a ELSE b
\* walking over the first n tags: how many are left to walk over, how many matched
Walk(q, n) == FoldLeft(LAMBDA a, x : [left |-> a.left - Least(a.left, x.n), m |-> a.m + (IF x.m THEN Least(a.left, x.n) ELSE 0)],
                       [left |-> n, m |-> 0], q)
Rest1(q, n) == FoldLeft(LAMBDA a, x : [left |-> a.left - Least(a.left, x.n),
                                       q |-> IF a.left >= x.n THEN a.q ELSE Append(a.q, [x EXCEPT !.n = @ - a.left])],
                        [left |-> n, q |-> <<>>], q).q
MayCount(e, n, m) == e \in Kinds /\ n >= 0 /\ Walk(uncounted[e], n) = [left |-> 0, m |-> m]
Count(e, n) == /\ uncounted' = [uncounted EXCEPT ![e] = Rest1(@, n)]
               /\ tallied' = [tallied EXCEPT ![e] = @ + n]
               /\ UNCHANGED <<engs, msgid, account, replies, picked>>
MayMeasure(e) == e \in Kinds /\ tallied[e] > 0
Pick(k) == picked' = picked \cup {k} /\ UNCHANGED <<engs, msgid, account, replies, uncounted, tallied>>

Settled == replies = <<>>
AllCounted == \A k \in Kinds : uncounted[k] = <<>>
=============================================================================
