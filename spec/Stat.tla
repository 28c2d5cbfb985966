-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* The statistics manager: each well-formed message handed to it becomes   *)
(* exactly one point of the database, in any order if handed over          *)
(* concurrently; malformed messages leave no trace.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* a message: [type, name, values, at]; a value: [type, s (spelled exactly), v (the number if it is small, else -1)]
Is(msg, k, type) == Len(msg.values) >= k /\ msg.values[k].type = type
Good(msg) == CASE msg.type = "traffic"    -> Is(msg, 1, "int") /\ Is(msg, 2, "int")
               [] msg.type = "throughput" -> Is(msg, 1, "float")      \* a finite number
               [] msg.type = "selected"   -> TRUE
               [] OTHER                   -> FALSE

EngineNumber == [LegacyEngine |-> "0", List |-> "1", PatriciaTrie |-> "2", SplayTree |-> "3"]

\* a point's fields: name -> [type, s, v]; v in ten-thousandths
Percent(f, n, m) == /\ f.type = "float"
                    /\ n = -1 \/ m = -1
                       \/ IF m <= 2000 THEN f.v - (m * 1000000) \div n \in -1..2
                          ELSE f.v \div 10000 - (m * 100) \div n \in -1..1
FieldsOf(msg, fs) ==
  CASE msg.type = "traffic" ->
         /\ DOMAIN fs = {"incoming_events", "matched_events"} \cup (IF msg.values[1].s = "0" THEN {} ELSE {"matching_probability"})
         /\ fs["incoming_events"].type = "int" /\ fs["incoming_events"].s = msg.values[1].s
         /\ fs["matched_events"].type = "int" /\ fs["matched_events"].s = msg.values[2].s
         /\ msg.values[1].s # "0" => Percent(fs["matching_probability"], msg.values[1].v, msg.values[2].v)
    [] msg.type = "throughput" -> /\ DOMAIN fs = {"event_per_us"}
                                  /\ fs["event_per_us"].type = "float" /\ fs["event_per_us"].s = msg.values[1].s
    [] msg.type = "selected" -> /\ DOMAIN fs = {"selected"} /\ msg.name \in DOMAIN EngineNumber
                                /\ fs["selected"].type = "int" /\ fs["selected"].s = EngineNumber[msg.name]
Measurement == [traffic |-> "traffic", throughput |-> "throughput", selected |-> "engine"]
TagsOf(msg) == IF msg.type = "selected" THEN {} ELSE {<<"engine", msg.name>>}

\* the point pt says what the message says, and when
PointOf(msg, pt) == /\ pt.m = Measurement[msg.type] /\ pt.tags = TagsOf(msg) /\ FieldsOf(msg, pt.fields)
                    /\ msg.at <= pt.ts /\ pt.ts <= pt.at

VARIABLES owed,       \* the messages handed over whose points are not yet written: id -> message
          account     \* where points must be written: [db, user, pass]
svars == <<owed, account>>

Start(acc)     == account' = acc /\ owed' = <<>>
Hand(key, msg) == /\ owed' = IF Good(msg) THEN [k \in DOMAIN owed \cup {key} |-> IF k = key THEN msg ELSE owed[k]] ELSE owed
                  /\ UNCHANGED account
\* of several equal messages the latest possible one
Candidates(pt) == {k \in DOMAIN owed : PointOf(owed[k], pt)}
Write(pt)      == /\ [db |-> pt.db, user |-> pt.user, pass |-> pt.pass] = account
                  /\ Candidates(pt) # {}
                  /\ \E k \in {CHOOSE k \in Candidates(pt) : \A j \in Candidates(pt) : owed[j].at <= owed[k].at} :
                       owed' = [j \in DOMAIN owed \ {k} |-> owed[j]]
                  /\ UNCHANGED account
Rest           == owed = <<>> /\ UNCHANGED svars
=============================================================================
