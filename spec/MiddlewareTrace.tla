-------------------------- MODULE MiddlewareTrace --------------------------
(* Trace validation of the running middleware; see EngineTrace. *)
EXTENDS Middleware, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
Statistics == IOEnv.STAT = "1"

AllPats == UNION {{Traces[t][1].subs[k][1] : k \in 1..Len(Traces[t][1].subs)} : t \in 1..Len(Traces)}
FilterTab == TLCEval([p \in AllPats |-> PatternFilter(p)])
TextTab   == TLCEval([p \in AllPats |-> LegacyText(p)])
CachedFilter(p) == FilterTab[p]
CachedText(p) == TextTab[p]
TagsOfEvent(e) == IF "tags" \in DOMAIN e THEN e.tags ELSE <<>>

VARIABLES tid, pos, verdict
vars == <<mvars, owed, tid, pos, verdict>>

\* a point as recorded
Fields(e) == [f \in {e.fields[k].k : k \in 1..Len(e.fields)} |->
               LET k == CHOOSE k \in 1..Len(e.fields) : e.fields[k].k = f
               IN [type |-> e.fields[k].type, s |-> e.fields[k].s, v |-> e.fields[k].v]]
Small(s) == IF Len(s) <= 6 /\ IsNum(s) THEN FoldLeft(LAMBDA a, c : 10 * a + DigVal[c], 0, Chars(s)) ELSE -1
Tagged(e) == IF Len(e.tags) = 1 /\ e.tags[1][1] = "engine" THEN e.tags[1][2] ELSE ""
PointOk(e, fs) ==
  /\ [db |-> e.db, user |-> e.user, pass |-> e.pass] = account
  /\ e.ts >= 0 /\ e.ts <= e.at
  /\ CASE e.m = "traffic" ->
            /\ {"incoming_events", "matched_events"} \subseteq DOMAIN fs
            /\ \E n \in {Small(fs["incoming_events"].s)}, m \in {Small(fs["matched_events"].s)} :
                 /\ FieldsOf([type |-> "traffic", name |-> "", values |-> <<[type |-> "int", s |-> fs["incoming_events"].s, v |-> n],
                                                                             [type |-> "int", s |-> fs["matched_events"].s, v |-> m]>>], fs)
                 /\ MayCount(Tagged(e), n, m)
       [] e.m = "throughput" ->
            /\ DOMAIN fs = {"event_per_us"} /\ MayMeasure(Tagged(e))
            /\ fs["event_per_us"].type = "float" /\ fs["event_per_us"].v >= 0 /\ fs["event_per_us"].s # "0"
       [] e.m = "engine" ->
            /\ DOMAIN fs = {"selected"} /\ e.tags = <<>>
            /\ fs["selected"].type = "int" /\ fs["selected"].s \in {EngineNumber[k] : k \in Kinds}
       [] OTHER -> FALSE

Possible(e) ==
  CASE e.op \in {"file", "connected", "in"} -> TRUE
    [] e.op = "out"   -> MaySay(e.type, e.id, e.body)
    [] e.op = "point" -> \E fs \in {Fields(e)} : PointOk(e, fs)
    [] e.op = "end"   -> Settled /\ (Statistics => AllCounted /\ picked # {})
    [] OTHER          -> FALSE       \* the process died, or never connected
Step(e) ==
  CASE e.op = "file"  -> StartWith({<<e.subs[k][1], e.subs[k][2]>> : k \in 1..Len(e.subs)}, e.mid, [db |-> e.db, user |-> e.user, pass |-> e.pass])
    [] e.op = "in"    -> \E ts \in {TagsOfEvent(e)} :
                           Hear(e.kind, [j \in 1..Len(ts) |-> [n |-> ts[j].times, by |-> FoundBy(ts[j].id, Translate(ts[j].pc, ts[j].id))]])
    [] e.op = "out"   -> Say
    [] e.op = "point" -> \E fs \in {Fields(e)} :
                           CASE e.m = "traffic" -> Count(Tagged(e), Small(fs["incoming_events"].s))
                             [] e.m = "engine"  -> Pick(fs["selected"].s)
                             [] OTHER           -> UNCHANGED mvars
    [] OTHER          -> UNCHANGED mvars

Init == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok" /\ owed = <<>>
        /\ engs = <<>> /\ account = <<>> /\ replies = <<>> /\ msgid = "" /\ uncounted = <<>> /\ tallied = <<>> /\ picked = {}
Next == /\ verdict = "ok" /\ pos <= Len(Traces[tid])
        /\ UNCHANGED <<tid, owed>>
        /\ \E e \in {Traces[tid][pos]} :
             IF Possible(e) THEN Step(e) /\ pos' = pos + 1 /\ UNCHANGED verdict
             ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> ToString(<<"owed", replies, "uncounted", uncounted>>)]))
                  /\ verdict' = "rejected" /\ UNCHANGED <<mvars, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
